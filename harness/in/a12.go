package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Branching monadic problems under every schedule of the search's goroutines that takes at most one preemption at
// a synchronisation point (and any choice among the runnable ones when one blocks).
//
//vt:check A12 quick=20 thorough=400 steps=1500000 bounds=a_quantified_branching_hypothesis_and_a_literal,_schedules_with_at_most_1_preemption
func ZZA12Branch() {
	vt.Schedule(1)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 1, Conc: true}
	hyp := g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(fgen.Or, g.Lit(v), g.Lit(v)) })
	f := fgen.Mk(fgen.Imp, hyp, fgen.Mk(fgen.Or, g.Lit(nil), g.Lit(nil)))
	if zzProve(zzConj(f), "-one_step", "-l", "4") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// Propositional problems with two branching steps under every schedule without preemption.
//
//vt:check A12 quick=12 thorough=300 bounds=two_disjunctions_of_literals_imply_a_literal,_2_letters,_any_order_of_the_runnable_goroutines
func ZZA12Prop() {
	vt.Schedule(0)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Conc: true}
	d := func() *fgen.Form { return fgen.Mk(fgen.Or, g.Lit(nil), g.Lit(nil)) }
	zzPropIff(fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, d(), d()), g.Lit(nil)), 2)
}

// Ground equality under every schedule without preemption.
//
//vt:check A12 quick=12 thorough=300 steps=2500000 bounds=3_ground_equational_literals_over_3_constants,_any_order_of_the_runnable_goroutines
func ZZA12Eq() {
	vt.Schedule(0)
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}}, Equality: true, Conc: true}
	eq := func() *fgen.Form {
		return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{g.Term(0, nil), g.Term(0, nil)}}
	}
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, eq(), eq()), eq())
	if zzProve(zzConj(f)) {
		zzSound(f, 3)
	} else {
		zzCounter(f, 3)
	}
}

// Branches that must agree on one instance, under every schedule without preemption.
//
//vt:check A12 quick=12 thorough=300 steps=1500000 bounds=2_or_3_ground_atoms_over_3_constants,_a_conjunction_of_2_atoms_under_1_or_2_existential_quantifiers,_any_order_of_the_runnable_goroutines
func ZZA12Agree() {
	vt.Schedule(0)
	f := zzAgree()
	if zzProve(zzConj(f), "-one_step", "-l", "10") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 3)
	}
}

// An inner universal formula beside an atom, under every schedule without preemption.
//
//vt:check A12 quick=12 thorough=300 steps=1500000 bounds=two_binary_literals_over_2_variables_and_one_inner_quantified_variable_beside_a_binary_atom,_any_order_of_the_runnable_goroutines
func ZZA12Inner() {
	vt.Schedule(0)
	f := zzInner(fgen.All)
	if zzProve(zzConj(f), "-one_step", "-l", "4") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}
