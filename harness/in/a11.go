package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Monadic conjectures: when one search step with an ample reintroduction limit fails, the conjecture has a
// countermodel with at most two elements.
//
//vt:check A11 quick=12 thorough=300 bounds=at_most_4_connectives_or_quantifiers,_reintroduction_limit_6
func ZZA11Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, MaxVars: 2, Ops: []fgen.Op{fgen.Not, fgen.Imp, fgen.And, fgen.All, fgen.Ex}, Budget: 3, Conc: true}
	f := g.Quant(nil, g.Small)
	if !zzProve(zzConj(f), "-one_step", "-l", "6") {
		zzCounter(f, 2)
	}
}

// Quantifier alternation over a binary predicate.
//
//vt:check A11 quick=12 thorough=100 bounds=two_2-quantifier_blocks_over_one_binary_predicate,_reintroduction_limit_6
func ZZA11Alternate() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 2}
	side := func() *fgen.Form {
		return g.Quant(nil, func(v []int) *fgen.Form { return g.Quant(v, g.Atom) })
	}
	f := fgen.Mk(fgen.Imp, side(), side())
	if !zzProve(zzConj(f), "-one_step", "-l", "6") {
		zzCounter(f, 3)
	}
}

// A universal atom implies an instance of an atom: the terms must unify.
//
//vt:check A11 quick=12 thorough=60 steps=1500000 bounds=two_atoms_over_a_binary_predicate,_1_or_2_variables_each,_a_constant,_a_unary_and_a_binary_function,_terms_up_to_depth_2_and_1
func ZZA11Unify() {
	f, ok := zzUnify()
	thm := zzProve(zzText(f), "-one_step", "-l", "4")
	vt.Assert(thm || !ok, "a problem declared satisfiable or counter-satisfiable has a countermodel")
}

// Ground facts imply an existential conjunction: the branches must agree on one instance.
//
//vt:check A11 quick=12 thorough=200 steps=800000 bounds=2_or_3_ground_atoms_over_3_constants,_a_conjunction_of_2_atoms_under_1_or_2_existential_quantifiers,_reintroduction_limit_10
func ZZA11Agree() {
	f := zzAgree()
	if !zzProve(zzText(f), "-one_step", "-l", "10") {
		zzCounter(f, 3)
	}
}

// A block of three quantifiers over a ternary predicate implies a similar one with the quantifiers in another order.
//
//vt:check A11 quick=10 thorough=200 steps=1500000 bounds=two_3-quantifier_blocks_over_a_ternary_predicate_with_a_disjunct,_domains_of_1_and_2_elements,_reintroduction_limit_10
func ZZA11Prefix() {
	f := zzPrefix()
	if !zzProve(zzText(f), "-one_step", "-l", "10") {
		zzCounter(f, 3)
	}
}

// A formula implies a formula that differs from it in one place.
//
//vt:check A11 quick=14 thorough=300 steps=1500000 bounds=at_most_4_connectives_or_quantifiers_over_unary_predicates_or_a_binary_one,_one_change,_reintroduction_limit_10
func ZZA11Mutant() {
	f := zzMutant(3)
	if !zzProve(zzText(f), "-one_step", "-l", "10") {
		zzCounter(f, 3)
	}
}

// The instance that closes an inner branch is found and agrees with the others.
//
//vt:check A11 quick=12 thorough=200 bounds=two_binary_literals_over_2_variables_and_one_inner_universal_variable_beside_a_binary_atom,_reintroduction_limit_4
func ZZA11Inner() {
	f := zzInner(fgen.All)
	if zzProve(zzConj(f), "-one_step", "-l", "4") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// Universally quantified clauses without functions imply a ground literal.
//
//vt:check A11 quick=12 thorough=300 steps=1500000 bounds=2_clauses_of_1_or_2_literals_over_unary_predicates_or_a_binary_one_with_2_constants,_at_most_2_variables_each,_reintroduction_limit_10
func ZZA11Clauses() {
	f := zzClauses(2, false)
	if zzProve(zzConj(f), "-one_step", "-l", "10") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}
