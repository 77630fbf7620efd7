package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
)

// Quantified variables named alike: nested (the inner one hides the outer one) or side by side.
//
//vt:check A16 quick=15 thorough=300 bounds=3_quantifiers_sharing_2_names_over_two_implied_literals,_domains_of_1_and_2_elements
func ZZA16Nested() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 3, Names: 2, Conc: true}
	f := g.Quant(nil, func(v []int) *fgen.Form {
		return fgen.Mk(fgen.Imp, g.Quant(v, g.Atom), g.Quant(v, g.Atom))
	})
	if zzProve(zzConj(f), "-one_step", "-l", "6") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}

// An axiom and a conjecture whose variables are named alike.
//
//vt:check A16 quick=12 thorough=200 bounds=a_2-quantifier_axiom_and_a_2-quantifier_conjecture_sharing_one_or_two_names
func ZZA16Across() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 2, Names: 2, Conc: true}
	side := func() *fgen.Form {
		return g.Quant(nil, func(v []int) *fgen.Form { return g.Quant(v, g.Atom) })
	}
	a := side()
	c := side()
	f := fgen.Mk(fgen.Imp, a, c)
	if zzProve("fof(s, axiom, "+a.Text()+").\n"+zzConj(c), "-one_step", "-l", "6") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}
