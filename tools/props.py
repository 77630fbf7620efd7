PROPS = []


def P(id, title, statement, over, forall, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, **kw))


P("A01", "Propositional problems get the right verdict",
  "For every propositional problem the prover terminates and prints exactly one verdict, and that verdict is Theorem (or Unsatisfiable) exactly when the conjecture is a tautology (or the axioms are contradictory), whatever connectives and truth constants it is written with.",
  ["inputs"], "all propositional formulas within the size bound, over symbolic letters",
  "The tests run a handful of fixed problem files; the verdict must be right for every formula, and a wrong closure or a dropped branch shows on a few shapes only.",
  ["src/main.go", "src/Search/destructive.go", "src/Search/rules.go", "src/Parser/tptp_lex.go", "src/Parser/tptp_parse.y", "src/Engine/syntax-translation.go"],
  [("tableau search on the negated conjecture", "src/Search/destructive.go"), ("alpha and beta rules", "src/Search/rules.go"), ("clash of complementary literals and constants", "src/Search/rules.go")],
  observe=["standard output of the program (SZS status line)"])
P("A02", "A proved first-order conjecture is valid",
  "Whenever the prover declares a first-order conjecture without equality a theorem, the conjecture is true in every interpretation.",
  ["inputs"], "all closed formulas within the size bound, over symbolic predicate, function and constant names, and all interpretations with at most two elements",
  "Soundness quantifies over all problems and all interpretations; tests check expected verdicts of a few files.",
  ["src/Search/destructive.go", "src/Search/rules.go", "src/Core/Sko", "src/Core/instanciation.go", "src/Unif"],
  [("instantiation of universal formulas with fresh free variables", "src/Core/instanciation.go"), ("Skolemisation of existential formulas", "src/Core/Sko"), ("closing branches by unification", "src/Unif"), ("agreement of the branches on one substitution", "src/Search/destructive.go")],
  observe=["standard output of the program (SZS status line)"])
P("A03", "A disproved conjecture has a countermodel",
  "Whenever the prover stops and declares a problem counter-satisfiable (or satisfiable), there is an interpretation in which the conjecture is false (the axioms are true): a search that runs out of rules has not overlooked an instance.",
  ["inputs"], "all ground formulas over two predicates, two constants and a function, and all small quantified monadic formulas, within the size bound",
  "A wrong CounterSatisfiable only shows on a problem whose proof needs the dropped rule or instance; the tests expect it of a few files.",
  ["src/Search/destructive.go", "src/Search/search.go", "src/Search/rules.go", "src/Search/state.go", "src/Core/instanciation.go"],
  [("applying every rule until the branch is saturated", "src/Search/destructive.go"), ("reintroduction of universal formulas", "src/Search/destructive.go"), ("the printed verdict", "src/Search/search.go")],
  observe=["standard output of the program (SZS status line)"])
P("A04", "The verdict is about the axioms and the conjecture as stated",
  "For a file of several statements, in any order and with any supported roles, the verdict says whether the axiom-like statements entail the conjecture (a negated conjecture counts as its negation), and is worded Theorem/CounterSatisfiable with a conjecture and Unsatisfiable/Satisfiable without one.",
  ["inputs"], "all files of two or three small statements with every combination of eight roles; all small files of two first-order axioms around a conjecture",
  "The order, the roles and the number of statements combine with the formulas; the tests use a few fixed files.",
  ["src/main.go", "src/Engine/syntax-translation.go", "src/Core/statement.go", "src/Search/search.go"],
  [("assembling the statements into one formula", "src/main.go:StatementListToFormula"), ("roles", "src/Engine/syntax-translation.go"), ("wording of the verdict", "src/Search/search.go")],
  observe=["standard output of the program (SZS status line)"])
P("A05", "Equality reasoning is right",
  "With equality, a problem declared a theorem is true in every interpretation in which = is identity, and a ground problem that is not proved has a countermodel: equality is reflexive, symmetric, transitive and a congruence, and nothing more.",
  ["inputs"], "all problems of three ground literals over three constants, or over two constants, a function and a predicate; branching, binary, iterated-function and existential equational problems within the bounds; all small problems with a quantified equation",
  "Rewriting, unification and ordering constraints interact; a rule that drops a side or confuses two variables proves false conjectures that no test states.",
  ["src/Mods/equality/bse", "src/Mods/equality/eqStruct", "src/Unif", "src/Search/rules.go"],
  [("rigid basic superposition rules", "src/Mods/equality/bse/equality_rules_apply.go"), ("choice of rewritable subterms", "src/Mods/equality/bse/equality_rules_try_apply.go"), ("ordering constraints", "src/Mods/equality/bse/constraints_struct.go"), ("term ordering", "src/Mods/equality/bse/lpo.go"), ("reflexivity closure", "src/Search/rules.go:searchInequalities")],
  observe=["standard output of the program (SZS status line)"])
P("A06", "Equality reasoning by SAT encoding is right",
  "With -sateq, a problem declared a theorem is true in every interpretation in which = is identity, and a ground problem that is not proved has a countermodel.",
  ["inputs"], "all problems of three ground literals over three constants, or over two constants, a function and a predicate; all small problems with a quantified equation; ground congruence problems with four literals",
  "The encoding's constraints must be right for every set of terms; the tests check a few files.",
  ["src/Mods/equality/sateq"],
  [("term graph and equivalence classes", "src/Mods/equality/sateq/problem.go"), ("propositional encoding of substitution and congruence", "src/Mods/equality/sateq/satbuilder.go"), ("reading the model back as substitutions", "src/Mods/equality/sateq")],
  observe=["standard output of the program (SZS status line)"])
P("A11", "Small valid conjectures are proved",
  "A valid conjecture over unary predicates with a few quantifiers, or over one binary predicate with alternating quantifiers, is proved within one search step when the reintroduction limit leaves room for it; when the search fails the conjecture has a countermodel.",
  ["inputs"], "all closed formulas within the size bound",
  "Completeness on a class quantifies over all its formulas; an over-eager filter, a lost instance or a wrong occurs check only shows on particular shapes.",
  ["src/Search/destructive.go", "src/Search/child_management.go", "src/Core/instanciation.go", "src/Unif"],
  [("reintroduction of universal formulas", "src/Search/destructive.go"), ("agreement of the branches on one substitution", "src/Search/child_management.go"), ("unification", "src/Unif/matching.go")],
  observe=["standard output of the program (SZS status line)"])
P("A07", "The Skolemisation variants are right",
  "With -inner or -preinner, a declared theorem is true in every interpretation and a problem declared counter-satisfiable has a countermodel, exactly as with the default Skolemisation: a Skolem symbol is applied to every free variable it depends on and is shared only between formulas for which that is sound.",
  ["inputs"], "all small quantified conjectures over unary and binary predicates with two nested quantifier blocks",
  "Which free variables a Skolem term may omit depends on the formula and on what was Skolemised before; the few test files never exercise a wrong sharing.",
  ["src/Core/Sko", "src/Core/skolemisation.go", "src/Search/rules.go"],
  [("inner Skolemisation", "src/Core/Sko/inner-skolemization.go"), ("pre-inner Skolemisation", "src/Core/Sko/preinner-skolemization.go"), ("dependencies of Skolem terms", "src/Core/skolemisation.go")],
  observe=["standard output of the program (SZS status line)"])
P("A08", "Deduction modulo theory keeps the meaning of the axioms",
  "With -dmt, the axioms turned into rewrite rules are used soundly, and definitions of a predicate by other predicates also completely: a declared theorem follows from the axioms as stated, and a ground conjecture that is not proved from definitions does not follow.",
  ["inputs"], "all pairs of a universally quantified axiom (equivalence, implication, literal; with compound or quantified sides, at an instance or in general) and a literal, chains of two definitions and pairs of rules for one predicate, with a conjecture of at most two literals",
  "The polarity of a rule, the instance that matches and the variables of its right-hand side depend on the axiom; the plugin's own tests fix a handful of them.",
  ["src/Mods/dmt", "src/Search/destructive.go", "src/Search/rules.go"],
  [("which axioms become rules, and of which polarity", "src/Mods/dmt/axiom_registration.go"), ("rewriting an atom", "src/Mods/dmt/rewrite.go"), ("backtracking over the candidate rewritings", "src/Search/destructive.go")],
  observe=["standard output of the program (SZS status line)"])
P("A09", "Options that tune the search do not change the answer",
  "Options that select a Skolemisation, an equality engine, a completeness mode or the presentation of the output leave the verdict right: a declared theorem is valid, a counter-satisfiable problem has a countermodel and the run ends normally.",
  ["inputs"], "all pairs of 18 options on propositional conjectures, every one of them on small monadic conjectures and on ground equational ones",
  "Options interact pairwise and with the problem; the tests run the default ones.",
  ["src/main.go", "src/options.go", "src/Search", "src/Glob"],
  [("reading the options", "src/options.go"), ("the alternative rules they select", "src/Search/destructive.go")],
  observe=["standard output of the program (SZS status line)"])
P("A12", "The answer does not depend on scheduling",
  "Branches are searched by concurrent goroutines: under every schedule within the bound, the prover ends with exactly one verdict and that verdict is right; it never deadlocks and never loses a closing substitution.",
  ["schedules", "inputs"], "all small branching problems (propositional, monadic, equational), every order in which runnable goroutines are picked, and every placement of one preemption at a synchronisation point",
  "Tests see the one schedule the Go runtime happens to choose.",
  ["src/Search/child_management.go", "src/Search/state.go", "src/Search/destructive.go", "src/Mods/equality/bse", "src/Lib/par.go"],
  [("channels between a father and its children", "src/Search/child_management.go"), ("waiting for the children and killing them", "src/Search/destructive.go"), ("concurrent equality subproblems", "src/Mods/equality/bse")],
  observe=["standard output of the program (SZS status line), deadlocks and panics"])
P("A16", "Bound names do not matter",
  "Variables with the same name bound by different quantifiers, nested or in different statements, are different variables: verdicts follow the scoping of the formula as written.",
  ["inputs"], "all conjectures with three quantifiers sharing two names, and all pairs of an axiom and a conjecture sharing names",
  "Capture and confusion need particular nestings of names, which the test problems avoid.",
  ["src/Parser", "src/Engine/syntax-translation.go", "src/AST/quantifiers.go", "src/AST/maker.go", "src/AST/formula.go"],
  [("binding variables", "src/Engine/syntax-translation.go"), ("substitution under quantifiers", "src/AST/quantifiers.go")],
  observe=["standard output of the program (SZS status line)"])
P("A13", "The proof that is output is a proof",
  "With -proof, a proof is output exactly for a theorem, and it is one: it starts from the negation of the conjecture, every step applies to a formula of its branch and what it gives follows from it, a witness is a term introduced for one formula and not for one about itself, every branch is there and is closed by two complementary formulas, an absurd one or contradictory equations.",
  ["inputs"], "all conjectures of 3 connectives or quantifiers, families of deeper ones (three quantifiers, branches that must agree, formulas that look alike), and equations to be solved, with outer, inner and pre-inner Skolemisation; meanings checked in every interpretation with 1 and 2 elements",
  "The verdict stays right when a proof loses a branch, shows a wrong instance or keeps a metavariable that was instantiated later; no test reads proofs.",
  ["src/Search/proof.go", "src/Search/print_proof.go", "src/Search/destructive.go", "src/Search/rules.go", "src/Search/state.go", "src/Search/child_management.go", "src/AST/modular-printing.go"],
  [("proof steps recorded by the search", "src/Search/destructive.go"), ("collecting the proofs of the branches", "src/Search/child_management.go"), ("substitution applied to the proof", "src/Search/proof.go:ApplySubstitutionOnProofList"), ("output", "src/Search/print_proof.go")],
  observe=["standard output of the program (SZS output start/end)", "the proof handed to the printers (Search.AddPrintProofAlgorithm)"])
P("A14", "Typed and polymorphic problems mean what TFF says",
  "For a well-typed TFF problem with rank-1 polymorphism the verdict is right: symbols at different type arguments are different, type quantifiers range over all types, a declared theorem is true in every typed interpretation and a problem declared counter-satisfiable has a typed countermodel; an ill-typed problem is rejected before the search.",
  ["inputs"], "all small polymorphic conjectures, axioms and equations within the bounds, over symbolic type arguments, and all small problems with a chosen declaration of every symbol, well-typed or not",
  "A type argument that is ignored, a type that leaks out of a quantifier or a check that looks at one position only shows on particular combinations of declarations and uses.",
  ["src/Typing", "src/Engine/syntax-translation.go", "src/AST/tptp-native-types.go", "src/AST/term.go", "src/Unif/matching.go", "src/Core/skolemisation.go"],
  [("type checking", "src/Typing/rules.go"), ("elaboration of implicit type arguments", "src/Engine/syntax-translation.go"), ("type arguments in unification", "src/Unif/matching.go"), ("type Skolemisation", "src/Core/skolemisation.go")],
  observe=["standard output of the program (SZS status line), exit code"])
P("A15", "Included files are part of the problem",
  "A problem spread over a file and the files it includes, directly or through one another, found next to the including file or in the TPTP directory, has the verdict of its statements put together: declarations of an included file are known after the include, formulas that a formula selection leaves out are not used, and an ill-typed formula or a second conjecture is refused wherever it stands.",
  ["inputs"], "all distributions of two axioms, a conjecture and a statement that is left out over three files; all order-preserving splits of eight typed problems",
  "The distribution of the statements over files, the nesting and the selection combine with the formulas; the tests include one file.",
  ["src/main.go", "src/Parser/tptp_parse.y", "src/Parser/tptp_lex.go", "src/Engine/syntax-translation.go"],
  [("reading the included files in place", "src/main.go"), ("finding an included file", "src/main.go:getFile"), ("grammar of include and of the formula selection", "src/Parser/tptp_parse.y")],
  observe=["standard output of the program (SZS status line)"])
P("A17", "What is read is TPTP, with its meaning",
  "A sequence of tokens is accepted as a first-order (FOF or TFF) formula exactly when the TPTP grammar makes it one, and the internal formula built for it is true in the same interpretations: precedence, the scope of quantifiers, and each of the connectives are as in TPTP, and no malformed input is silently read as something else.",
  ["inputs"], "all sequences of up to 7 propositional tokens, 10 first-order tokens and 13 tokens with quantifiers and types, within the size bound; every interpretation with one or two elements",
  "A grammar accepts infinitely many inputs; the test files hold a few well-formed formulas and no malformed one.",
  ["src/Parser/tptp_parse.y", "src/Parser/psyntax.go", "src/Parser/tptp_lex.go", "src/Engine/syntax-translation.go", "src/Engine/pretyper.go"],
  [("grammar", "src/Parser/tptp_parse.y"), ("syntax tree", "src/Parser/psyntax.go"), ("translation to internal formulas", "src/Engine/syntax-translation.go"), ("scanner", "src/Parser/tptp_lex.go")],
  observe=["acceptance by the parser", "the internal formula (Engine.ToInternalSyntax)"])
P("A19", "Layout, comments, names and notation do not matter",
  "White space and comments (of either kind, with any characters, at any place between two tokens, also at the very end of the file), the name of a statement, its annotations, and the way a formula is written (parentheses that precedence makes unnecessary, one quantifier over several variables or several quantifiers, t != u or ~ (t = u), F <= G or G => F) never change the verdict.",
  ["inputs"], "all places of three problem files and two insertions out of thirteen blanks and comments, six spellings of a name, four annotations; all writings of a small formula",
  "A character or a place the scanner treats differently silently drops or changes a formula; the test files are all laid out alike.",
  ["src/Parser/tptp_lex.go", "src/Parser/tptp_parse.y", "src/Parser/psyntax.go", "src/Engine/syntax-translation.go"],
  [("scanner", "src/Parser/tptp_lex.go"), ("grammar", "src/Parser/tptp_parse.y"), ("translation of the syntax tree", "src/Engine/syntax-translation.go")],
  observe=["standard output of the program (SZS status line)"])
P("A21", "Literals are found and unified exactly",
  "Looking a literal up in the index of a branch returns exactly the stored literals that unify with it, each with a most general unifier; solving a system of equations between terms, merging substitutions and extending one succeed exactly when a unifier exists and then return a most general one.",
  ["inputs"], "all sets of up to three stored literals and a query, over binary and nested function terms, shared metavariables and constants, and all systems of two or three equations between such terms, within the size bound",
  "Which bindings meet depends on repeated and chained variables across the stored literal and the query; the tests unify a few pairs.",
  ["src/Unif", "src/AST/term.go"],
  [("code trees: insertion and traversal", "src/Unif/code-trees.go"), ("abstract machine that unifies on the way", "src/Unif/machine.go"), ("unification of candidates", "src/Unif/matching.go"), ("systems of equations", "src/Unif/substitutions_tree.go")],
  observe=["the substitutions returned by the index and by AddUnification / MergeSubstitutions"])
P("A22", "Substitution, instantiation and Skolemisation touch exactly what they should",
  "Applying a substitution replaces every occurrence of its variables and nothing else; an instance of a quantified formula differs from it only by a new free variable in place of the bound one; a Skolemised formula only by a new symbol applied to the free variables of the branch; renaming bound variables keeps the formula and makes them different; formulas that are found equal mean the same; a formula knows its free variables; and the part of a unifier that is sent to the parent says of the parent's variables what the unifier says.",
  ["inputs"], "all formulas of a quantifier and two more connectives or quantifiers over unary and binary predicates with terms of depth 1, and all unifiers of two or three equations, within the size bound",
  "A term position, a connective or a cached set of variables that one operation forgets shows only when a later rule uses that place; the tests build a few formulas.",
  ["src/AST/formsDef.go", "src/AST/quantifiers.go", "src/AST/termsDef.go", "src/AST/formula.go", "src/Core/substitutions_search.go", "src/Core/instanciation.go", "src/Core/skolemisation.go"],
  [("applying substitutions", "src/Core/substitutions_search.go:ApplySubstitutionsOnFormula"), ("instantiation", "src/Core/instanciation.go:Instantiate"), ("Skolemisation", "src/Core/skolemisation.go:Skolemize"), ("renaming and comparing formulas", "src/AST/formsDef.go"), ("restriction of a unifier to the parent's variables", "src/Core/substitutions_search.go:RemoveElementWithoutMM")],
  observe=["the formulas and substitutions the operations return"])
P("A23", "Certified proofs are sequent proofs",
  "With -orocq, -olp or -otptp, a tableau proof is turned into a sequent proof (GS3) of the same sequent whatever the Skolemisation: every rule is applied to a formula that is among the hypotheses and gives what the rule gives for it, a witness is a new constant where it is introduced, every formula that is discarded is there, and every branch ends with two complementary formulas or an absurd one.",
  ["inputs"], "all theorems of 3 connectives or quantifiers and families of deeper ones (several witnesses, witnesses that depend on variables instantiated by others), with outer, inner and pre-inner Skolemisation",
  "Steps have to be reordered and repeated when the free-variable proof introduced its witnesses in an order that the sequent calculus does not allow, which depends on how substitutions and quantifiers interleave; no test reads a certified proof.",
  ["src/Mods/gs3/proof.go", "src/Mods/gs3/sequent.go", "src/Mods/gs3/dependency.go", "src/Search/proof.go"],
  [("reordering of the steps", "src/Mods/gs3/proof.go"), ("steps of the sequent calculus", "src/Mods/gs3/sequent.go"), ("which terms a witness depends on", "src/Mods/gs3/dependency.go")],
  observe=["the sequent proof (gs3.MakeGS3Proof)"])
P("A24", "Written proofs are proofs of the problem in SC-TPTP",
  "With -otptp or -osctptp, and outer or inner Skolemisation, what is written between the two marks after Theorem follows the grammar of TPTP, states the axioms and the conjecture of the problem (with the meaning they have there) and proves it: names of steps are different, every step comes after those it refers to, points to a formula its rule applies to, and follows from its premises, a witness is a new constant or variable whatever the symbols of the problem are called, a rule for a quantifier gives the instance for the term it names, leaves are closed, and the last step is the conjecture.",
  ["inputs"], "all theorems of 3 connectives or quantifiers, families of deeper ones, up to three axioms, equations, and problems whose symbols have the names that the proof gives to its own",
  "A text that is not a proof, or one of another formula, shows only where precedence, bound names, vacuous quantifiers, weakening or closure by an absurd formula or by equality meet; no test reads the text of a proof.",
  ["src/Mods/tptp/proof.go", "src/Mods/tptp/output.go", "src/Mods/gs3/sequent.go", "src/AST/printers.go", "src/AST/quantifiers.go"],
  [("steps of the written proof", "src/Mods/tptp/proof.go"), ("output and names", "src/Mods/tptp/output.go"), ("printing of formulas", "src/AST")],
  observe=["standard output of the program (the proof between the SZS output marks)"])
P("A25", "Rocq scripts prove the problem",
  "With -orocq -context, and outer or inner Skolemisation, what is written between the two marks after Theorem is a theorem that says what the problem says and a script that proves it: every name is declared once, with the arity it is used with, or introduced before it is used and new when it is; the lemmas it calls are stated before it and true; every tactic applies to its goal and to a hypothesis that is there, gives the instance for a term in scope, what is cleared is not needed, every branch is closed by what its closing tactic needs, and no goal is left.",
  ["inputs"], "all theorems of 3 connectives or quantifiers, families of deeper ones, up to three axioms, and equations, over names that are Rocq identifiers",
  "Hypotheses are numbered by position, so one place that counts them differently (two formulas at once, a discarded hypothesis, a term not yet introduced) makes Rocq refuse scripts of a particular shape; no test reads a script.",
  ["src/Mods/rocq/proof.go", "src/Mods/rocq/context.go", "src/Mods/rocq/output.go", "src/Mods/gs3/proof.go", "src/AST/printers.go"],
  [("script", "src/Mods/rocq/proof.go"), ("declarations", "src/Mods/rocq/context.go"), ("notation", "src/Mods/rocq/output.go")],
  observe=["standard output of the program (the theorem and the script between the SZS output marks)"])
