package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs arity.go

// Every closed conjecture with at most three connectives and quantifiers over two unary predicates and two
// constants: a formula declared a theorem is true in every interpretation with one or two elements.
//
//vt:check A02 quick=12 thorough=100 bounds=3_connectives_or_quantifiers,_2_variables,_domains_of_1_and_2_elements,_one_search_step
func ZZA02Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Imp, fgen.All, fgen.Ex}, MaxVars: 2, Budget: 3}
	f := g.Small(nil)
	if zzProve(zzConj(f), "-one_step") {
		zzSound(f, 2)
	}
}

// Q1 x Q2 y r(s,t) implies Q3 z Q4 u r(s',t'): quantifier alternation over a binary predicate.
//
//vt:check A02 quick=12 thorough=100 bounds=two_2-quantifier_blocks_over_one_binary_predicate,_domains_of_1_and_2_elements
func ZZA02Alternate() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 2}
	side := func() *fgen.Form {
		return g.Quant(nil, func(v []int) *fgen.Form { return g.Quant(v, g.Atom) })
	}
	f := fgen.Mk(fgen.Imp, side(), side())
	if zzProve(zzConj(f), "-one_step") {
		zzSound(f, 2)
	}
}

// (Q1 x Q2 y L1(x,y) op L2(x,y)) implies Q3 z L3(z): branching under quantifiers, with a function symbol.
//
//vt:check A02 quick=12 thorough=300 bounds=three_literals_under_1+2_quantifiers,_one_unary_function,_domains_of_1_and_2_elements
func ZZA02Branch() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'f', N: 1, Arity: 1}}, TermDep: 1, MaxVars: 2}
	l := g.Quant(nil, func(v []int) *fgen.Form {
		return g.Quant(v, func(v []int) *fgen.Form {
			return fgen.Mk([]fgen.Op{fgen.And, fgen.Or}[zzPick("op", 2)], g.Lit(v), g.Lit(v))
		})
	})
	f := fgen.Mk(fgen.Imp, l, g.Quant(nil, g.Lit))
	if zzProve(zzConj(f), "-one_step") {
		zzSound(f, 2)
	}
}

// A universal atom implies an instance of an atom: the terms must unify.
//
//vt:check A02 quick=12 thorough=60 steps=1500000 bounds=two_atoms_over_a_binary_predicate,_1_or_2_variables_each,_a_constant,_a_unary_and_a_binary_function,_terms_up_to_depth_2_and_1
func ZZA02Unify() {
	f, ok := zzUnify()
	thm := zzProve(zzText(f), "-one_step", "-l", "3")
	vt.Assert(!thm || ok, "a proved formula is true in every interpretation")
}

// Ground facts imply an existential conjunction: the branches must agree on one instance.
//
//vt:check A02 quick=12 thorough=100 steps=1500000 bounds=2_or_3_ground_atoms_over_3_constants,_a_conjunction_of_2_atoms_under_1_or_2_existential_quantifiers
func ZZA02Agree() {
	f := zzAgree()
	if zzProve(zzText(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// A block of three quantifiers over a ternary predicate implies a similar one with the quantifiers in another order.
//
//vt:check A02 quick=12 thorough=100 steps=1500000 bounds=two_3-quantifier_blocks_over_a_ternary_predicate_with_a_disjunct,_domains_of_1_and_2_elements
func ZZA02Prefix() {
	f := zzPrefix()
	if zzProve(zzText(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// Two existential formulas that look alike do not speak of one individual.
//
//vt:check A02 quick=6 thorough=100 steps=1500000 bounds=two_existential_formulas_of_1_connective_or_of_1_or_2_quantifiers
func ZZA02Twin() {
	f := zzTwin()
	if zzProve(zzText(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// A formula implies a formula that differs from it in one place.
//
//vt:check A02 quick=14 thorough=300 steps=1500000 bounds=at_most_4_connectives_or_quantifiers_over_unary_predicates_or_a_binary_one,_one_change
func ZZA02Mutant() {
	f := zzMutant(3)
	if zzProve(zzText(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// Two literals with shared variables clash only where they unify, and the instance found there is used in the other branch.
//
//vt:check A02 quick=15 thorough=200 bounds=two_binary_literals_with_one_application_each_in_a_disjunction_with_a_binary_atom_under_two_quantifiers,_reintroduction_limit_3
func ZZA02Rigid() {
	f := zzRigid()
	if zzProve(zzConj(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// What closes an inner branch restricts the instances for the others.
//
//vt:check A02 quick=12 thorough=200 bounds=two_binary_literals_over_2_variables_and_one_inner_quantified_variable_beside_a_binary_atom,_reintroduction_limit_3
func ZZA02Inner() {
	f := zzInner(fgen.All, fgen.Ex)
	if zzProve(zzConj(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// Universally quantified clauses imply a ground literal.
//
//vt:check A02 quick=12 thorough=300 steps=800000 bounds=2_clauses_of_1_or_2_literals_over_unary_predicates_or_a_binary_one_with_2_constants_and_perhaps_a_function,_at_most_2_variables_each
func ZZA02Clauses() {
	f := zzClauses(2, zzPick("fun", 2) == 1)
	if zzProve(zzText(f), "-one_step", "-l", "3") {
		zzSound(f, 2)
	}
}

// A symbol used with several numbers of arguments is a different symbol for each of them.
//
//vt:check A02 quick=10 thorough=200 steps=1000000 bounds=one_predicate_and_one_function_name_used_with_0_to_2_arguments,_two_literals
func ZZA02Overload() {
	var term func(v, d int) *fgen.Term
	term = func(v, d int) *fgen.Term {
		k := vt.Pick("term", 2+d)
		if k == 0 {
			return zzV(v)
		}
		t := &fgen.Term{Var: -1, Fam: "f"}
		for i := 1; i < k; i++ {
			t.Args = append(t.Args, term(v, 0))
		}
		return t
	}
	atom := func(v int) *fgen.Form {
		a := &fgen.Form{Op: fgen.Atom, Fam: "p"}
		n := zzPick("args", 3)
		for i := 0; i < n; i++ {
			a.Args = append(a.Args, term(v, 2-i))
		}
		if vt.Pick("neg", 2) == 1 {
			return fgen.Mk(fgen.Not, a)
		}
		return a
	}
	f := fgen.Mk(fgen.Imp, zzQ(zzAnyQ(), 0, atom(0)), zzQ(zzAnyQ(), 1, atom(1)))
	if zzProve(zzConj(f), "-one_step", "-l", "4") {
		zzSound(zzArity(f), 2)
	} else {
		zzCounter(zzArity(f), 3)
	}
}
