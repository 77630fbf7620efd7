package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
)

// Ground first-order conjectures (two predicates, two constants, one function): a formula that is not proved has
// a countermodel.
//
//vt:check A03 quick=30 thorough=200 bounds=ground_formulas_with_at_most_3_connectives,_terms_of_depth_1
func ZZA03Ground() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}},
		TermDep: 1, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp}, Budget: 2, Conc: true}
	f := g.Small(nil)
	if zzProve(zzConj(f)) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 4)
	}
}

// Quantified conjectures searched without a step option: whatever the search decides within the step bound is
// right (a search that goes on for ever decides nothing).
//
//vt:check A03 quick=30 thorough=200 steps=300000 bounds=at_most_3_connectives_or_quantifiers,_400000_instructions
func ZZA03Quant() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, MaxVars: 2, Ops: []fgen.Op{fgen.Not, fgen.Imp, fgen.All, fgen.Ex}, Budget: 3, Conc: true}
	f := g.Quant(nil, g.Small)
	if zzProve(zzConj(f)) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// Ground facts imply an existential conjunction: the branches must agree on one instance. No step option.
//
//vt:check A03 quick=15 thorough=100 steps=400000 bounds=2_or_3_ground_atoms_over_3_constants,_a_conjunction_of_2_atoms_under_1_or_2_existential_quantifiers,_400000_instructions
func ZZA03Agree() {
	f := zzAgree()
	if zzProve(zzText(f)) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 3)
	}
}

// A formula implies a formula that differs from it in one place. No step option.
//
//vt:check A03 quick=15 thorough=300 steps=400000 bounds=at_most_4_connectives_or_quantifiers_over_unary_predicates_or_a_binary_one,_one_change,_400000_instructions
func ZZA03Mutant() {
	f := zzMutant(3)
	if zzProve(zzText(f)) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 3)
	}
}
