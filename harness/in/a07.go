package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
)

func zzSkoMode() string { return []string{"-inner", "-preinner"}[zzPick("sko", 2)] }

// Quantifier alternation over a binary predicate, with inner or pre-inner Skolemisation.
//
//vt:check A07 quick=12 thorough=100 bounds=two_2-quantifier_blocks_over_one_binary_predicate,_domains_of_1_and_2_elements
func ZZA07Alternate() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 2, Conc: true}
	side := func() *fgen.Form {
		return g.Quant(nil, func(v []int) *fgen.Form { return g.Quant(v, g.Atom) })
	}
	f := fgen.Mk(fgen.Imp, side(), side())
	if zzProve(zzConj(f), "-one_step", "-l", "6", zzSkoMode()) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// A universal quantifier over an existential one, with a second existential formula of the same shape beside it:
// Skolem symbols are shared only where that is right.
//
//vt:check A07 quick=15 thorough=300 bounds=two_existential_literals_under_quantifiers_imply_one,_domains_up_to_3
func ZZA07Share() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}, {Base: 'r', N: 1, Arity: 2}}, MaxVars: 2}
	hyp := g.Quant(nil, func(v []int) *fgen.Form {
		return fgen.Mk(fgen.And, g.Quant(v, g.Lit), g.Quant(v, g.Lit))
	})
	f := fgen.Mk(fgen.Imp, hyp, g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(fgen.And, g.Lit(v), g.Lit(v)) }))
	if zzProve(zzConj(f), "-one_step", zzSkoMode()) {
		zzSound(f, 3)
	}
}

// Small monadic conjectures with inner or pre-inner Skolemisation.
//
//vt:check A07 quick=10 thorough=200 bounds=at_most_4_connectives_or_quantifiers,_reintroduction_limit_6
func ZZA07Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, MaxVars: 2, Ops: []fgen.Op{fgen.Not, fgen.Imp, fgen.And, fgen.All, fgen.Ex}, Budget: 3, Conc: true}
	f := g.Quant(nil, g.Small)
	if zzProve(zzConj(f), "-one_step", "-l", "6", zzSkoMode()) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// A block of three quantifiers over a ternary predicate implies a similar one with the quantifiers in another order.
//
//vt:check A07 quick=12 thorough=200 steps=1500000 bounds=two_3-quantifier_blocks_over_a_ternary_predicate_with_a_disjunct,_domains_of_1_and_2_elements
func ZZA07Prefix() {
	f := zzPrefix()
	if zzProve(zzText(f), "-one_step", "-l", "3", zzSkoMode()) {
		zzSound(f, 2)
	}
}

// Two existential formulas that look alike do not speak of one individual.
//
//vt:check A07 quick=20 thorough=200 steps=1500000 bounds=two_existential_formulas_of_1_connective_or_of_1_or_2_quantifiers
func ZZA07Twin() {
	f := zzTwin()
	if zzProve(zzText(f), "-one_step", "-l", "3", zzSkoMode()) {
		zzSound(f, 2)
	}
}

// A formula implies a formula that differs from it in one place.
//
//vt:check A07 quick=12 thorough=300 steps=1500000 bounds=at_most_4_connectives_or_quantifiers_over_unary_predicates_or_a_binary_one,_one_change
func ZZA07Mutant() {
	f := zzMutant(3)
	if zzProve(zzText(f), "-one_step", "-l", "3", zzSkoMode()) {
		zzSound(f, 2)
	}
}

// Two existential formulas with one connective each, over chosen letters: they share a Skolem symbol only if they are
// the same formula.
//
//vt:check A07 quick=15 thorough=100 steps=2500000 bounds=two_existential_formulas_of_one_connective,_over_3_unary_predicates
func ZZA07Equ() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3, Arity: 1}}, Conc: true}
	ops := []fgen.Op{fgen.And, fgen.Or, fgen.Imp, fgen.Iff}
	i := zzPick("op", 4)
	o1, o2 := ops[i], ops[i+zzPick("op", 4-i)]
	a, b, c, d := g.Atom([]int{0}), g.Atom([]int{0}), g.Atom([]int{0}), g.Atom([]int{0})
	at := func(f *fgen.Form, v int) *fgen.Form { return zzP(f.Fam, f.Name, zzV(v)) }
	two := func(v, w int) (*fgen.Form, *fgen.Form) {
		return fgen.Mk(o1, at(a, v), at(b, v)), fgen.Mk(o2, at(c, w), at(d, w))
	}
	e1, e2 := two(0, 1)
	g1, g2 := two(2, 2)
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, zzQ(fgen.Ex, 0, e1), zzQ(fgen.Ex, 1, e2)), zzQ(fgen.Ex, 2, fgen.Mk(fgen.And, g1, g2)))
	if zzProve(zzConj(f), "-one_step", "-l", "2", zzSkoMode()) {
		zzSound(f, 2)
	}
}
