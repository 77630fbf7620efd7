package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs tptp.go rocq.go arity.go comp.go

// zzScript proves a conjecture from axioms and runs the script that is written for Rocq.
func zzScript(axioms []*fgen.Form, f *fgen.Form, d int) {
	text := ""
	var as []*fgen.Form
	for i, a := range axioms {
		text += "fof(a" + string([]byte{'0' + byte(i)}) + ", axiom, " + a.Text() + ").\n"
		as = append(as, zzArity(a))
	}
	fl := []string{"-quiet", "-one_step", "-l", "3", "-orocq", "-context"}
	if zzPick("sko", 2) == 1 {
		fl = append(fl, "-inner")
	}
	out, r := zzRun(text+zzConj(f), fl...)
	vt.Obs("verdict", zzStatus(out))
	thm, no := zzVerdict(out)
	vt.Assert(r == 0 && thm != no, "the run ends normally, with one verdict")
	if !thm {
		vt.Cover("not proved")
		return
	}
	vt.Cover("proved")
	zzRocqText(zzBetween(out), as, zzArity(f), d)
}

// Scripts for Rocq.
//
//vt:check A25 quick=20 thorough=300 bounds=formulas_of_3_connectives_or_quantifiers,_two_unary_or_one_binary_predicate
func ZZA25Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 2}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 2, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Budget: 3, Conc: true}
	if zzPick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	zzScript(nil, g.Small(nil), 2)
}

//vt:check A25 quick=15 thorough=200 steps=6000000 bounds=blocks_of_three_quantifiers,_agreement_of_branches,_formulas_that_look_alike,_formulas_that_differ_in_one_place
func ZZA25Families() {
	var f *fgen.Form
	switch zzPick("family", 4) {
	case 0:
		f = zzPrefix()
	case 1:
		f = zzAgree()
	case 2:
		f = zzTwin()
	case 3:
		f = zzMutant(3)
	}
	zzScript(nil, f, 2)
}

//vt:check A25 quick=15 thorough=200 bounds=one_to_three_axioms_with_a_connective_or_a_quantifier_each
func ZZA25Axioms() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 1}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 1, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Conc: true}
	var as []*fgen.Form
	n := 1 + zzPick("axioms", 3)
	for i := 0; i < n; i++ {
		g.Budget = 1
		as = append(as, g.Small(nil))
	}
	g.Budget = 1
	zzScript(as, g.Small(nil), 2)
}

//vt:check A25 quick=15 thorough=200 steps=3000000 bounds=2_equations_and_an_atom_imply_an_atom,_existential_goals
func ZZA25Equality() {
	if zzPick("family", 2) == 0 {
		zzScript(nil, zzEqPred(), 3)
		return
	}
	zzScript(nil, zzEqUnify(), 3)
}

// Witnesses that the instance of an enclosing quantifier depends on.
//
//vt:check A25 quick=20 thorough=200 steps=6000000 bounds=an_existential_over_an_implication,_disjunction_or_equivalence_of_an_atom_and_one_or_two_universal_formulas,_a_unary_function
func ZZA25Witness() { zzScript(nil, zzWitness(), 2) }

// Every connective, on both sides of the sequent, over literals and quantified atoms.
//
//vt:check A25 quick=25 thorough=200 steps=6000000 bounds=a_formula_of_one_connective_over_two_literals_or_quantified_atoms_implies_or_is_equivalent_to_its_commuted_or_contraposed_form
func ZZA25Rules() { zzScript(nil, zzCommuted(), 2) }
