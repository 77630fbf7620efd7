package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

var zzOpts = [][]string{{"-inner"}, {"-preinner"}, {"-dmt"}, {"-noeq"}, {"-sateq"}, {"-eagereq"}, {"-increq"}, {"-completeness"}, {"-vec"},
	{"-flatten"}, {"-quoted_pred"}, {"-print-id"}, {"-pretty"}, {"-dmt_before_eq"}, {"-core_limit", "1"}, {"-ari"}, {"-no-type-check"}, {"-silent"}, {"-proof"}, {"-chrono"}}

// zzOpt chooses one of the options; those that change the search more often than the others.
func zzOpt() []string {
	if vt.Pick("os", 2) == 0 {
		return [][]string{{"-inner"}, {"-preinner"}, {"-completeness"}, {"-flatten"}, {"-dmt"}, {"-proof"}}[vt.Pick("o1", 6)]
	}
	return zzOpts[vt.Pick("o2", len(zzOpts))]
}

// Propositional problems under any two of the options that must not change the verdict.
//
//vt:check A09 quick=12 thorough=200 bounds=at_most_2_connectives,_pairs_of_20_options
func ZZA09Prop() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff}, Budget: 2}
	i := vt.Pick("o1", len(zzOpts))
	j := vt.Pick("o2", len(zzOpts))
	vt.Assume(i < j)
	zzPropIff(g.Small(nil), 2, append(append([]string{"-one_step"}, zzOpts[i]...), zzOpts[j]...)...)
}

// Monadic problems under any one option.
//
//vt:check A09 quick=12 thorough=300 steps=1000000 bounds=at_most_3_connectives_or_quantifiers,_one_of_20_options,_reintroduction_limit_6
func ZZA09Mon() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, MaxVars: 2, Ops: []fgen.Op{fgen.Not, fgen.Imp, fgen.And, fgen.All, fgen.Ex}, Budget: 2, Conc: true}
	i := vt.Pick("o", len(zzOpts))
	f := g.Quant(nil, g.Small)
	fl := []string{"-one_step"}
	if zzOpts[i][0] != "-vec" {
		fl = append(fl, "-l", "6")
	}
	if zzProve(zzConj(f), append(fl, zzOpts[i]...)...) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// Ground equational problems under any one option that keeps equality.
//
//vt:check A09 quick=12 thorough=300 bounds=3_ground_literals,_2_constants,_1_function,_1_predicate,_one_of_19_options
func ZZA09Eq() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}},
		TermDep: 1, Equality: true, Conc: true}
	i := vt.Pick("o", len(zzOpts))
	vt.Assume(zzOpts[i][0] != "-noeq")
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, g.Lit(nil), g.Lit(nil)), g.Lit(nil))
	if zzProve(zzConj(f), zzOpts[i]...) {
		zzSound(f, 3)
	} else {
		zzCounter(f, 4)
	}
}

// Problems whose branches must agree on an instance, under any one option.
//
//vt:check A09 quick=15 thorough=300 steps=1500000 bounds=1_to_4_ground_atoms_and_a_disjunction_of_at_most_3,_3_atoms_under_an_existential_quantifier,_one_of_20_options,_reintroduction_limit_3
func ZZA09Wide() {
	o := zzOpt()
	f := zzWide()
	fl := []string{"-one_step", "-l", "3"}
	if o[0] == "-vec" {
		return
	}
	if zzProve("fof(c, conjecture, "+f.Flat()+").\n", append(fl, o...)...) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 3)
	}
}

// A formula implies a formula that differs from it in one place, or two existential formulas that look alike imply
// that one individual has both properties, under any one option.
//
//vt:check A09 quick=15 thorough=300 steps=1500000 bounds=at_most_4_connectives_or_quantifiers,_one_change,_one_of_20_options,_reintroduction_limit_10
func ZZA09Mutant() {
	o := zzOpt()
	if o[0] == "-vec" {
		return
	}
	var f *fgen.Form
	if vt.Pick("twin", 4) == 3 {
		f = zzTwin()
	} else {
		f = zzMutant(3)
	}
	if zzProve(zzText(f), append([]string{"-one_step", "-l", "10"}, o...)...) {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}
