package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs tptp.go arity.go comp.go

// zzTptp proves a conjecture from axioms and checks the proof that is written.
func zzTptp(axioms []*fgen.Form, f *fgen.Form, d int, flags ...string) {
	text := ""
	var as []*fgen.Form
	for i, a := range axioms {
		text += "fof(a" + string([]byte{'0' + byte(i)}) + ", axiom, " + a.Text() + ").\n"
		as = append(as, zzArity(a))
	}
	out, r := zzRun(text+zzConj(f), append([]string{"-quiet"}, flags...)...)
	vt.Obs("verdict", zzStatus(out))
	thm, no := zzVerdict(out)
	vt.Assert(r == 0 && thm != no, "the run ends normally, with one verdict")
	if !thm {
		vt.Cover("not proved")
		return
	}
	vt.Cover("proved")
	zzProofText(zzBetween(out), as, zzArity(f), d)
}

func zzTptpFlags() []string {
	fl := []string{"-one_step", "-l", "3"}
	switch zzPick("sko", 3) {
	case 1:
		return append(fl, "-inner", "-otptp")
	case 2:
		return append(fl, "-osctptp")
	}
	return append(fl, "-otptp")
}

// Proofs written for another tool.
//
//vt:check A24 quick=25 thorough=300 bounds=formulas_of_3_connectives_or_quantifiers,_two_unary_or_one_binary_predicate
func ZZA24Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 2}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 2, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Budget: 3, Conc: true}
	if zzPick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	zzTptp(nil, g.Small(nil), 2, zzTptpFlags()...)
}

//vt:check A24 quick=20 thorough=200 steps=6000000 bounds=blocks_of_three_quantifiers,_agreement_of_branches,_formulas_that_look_alike,_formulas_that_differ_in_one_place
func ZZA24Families() {
	var f *fgen.Form
	switch zzPick("family", 4) {
	case 0:
		f = zzPrefix()
	case 1:
		f = zzAgree()
	case 2:
		f = zzTwin()
	case 3:
		f = zzMutant(3)
	}
	zzTptp(nil, f, 2, zzTptpFlags()...)
}

// Axioms: each is cut in its turn.
//
//vt:check A24 quick=20 thorough=200 bounds=one_to_three_axioms_with_a_connective_or_a_quantifier_each
func ZZA24Axioms() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 1}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 1, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Conc: true}
	var as []*fgen.Form
	n := 1 + zzPick("axioms", 3)
	for i := 0; i < n; i++ {
		g.Budget = 1
		as = append(as, g.Small(nil))
	}
	g.Budget = 1
	zzTptp(as, g.Small(nil), 2, zzTptpFlags()...)
}

// Equality: a branch closed by equality reasoning is closed by congruence.
//
//vt:check A24 quick=15 thorough=200 steps=3000000 bounds=2_equations_and_an_atom_imply_an_atom,_existential_goals
func ZZA24Equality() {
	if zzPick("family", 2) == 0 {
		zzTptp(nil, zzEqPred(), 3, "-one_step", "-otptp")
		return
	}
	zzTptp(nil, zzEqUnify(), 3, "-one_step", "-l", "4", "-otptp")
}

// A problem whose symbols have the names that the proof gives to its witnesses.
//
//vt:check A24 quick=10 thorough=100 steps=4000000 bounds=an_implication_or_equivalence_of_two_quantified_disjunctions_or_conjunctions_of_atoms_over_a_constant_called_sko_0_or_sko_1
func ZZA24Names() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'k', N: 1}}, MaxVars: 2, Conc: true}
	side := func() *fgen.Form {
		op := []fgen.Op{fgen.And, fgen.Or, fgen.Imp}[zzPick("in", 3)]
		return g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(op, g.Atom(v), g.Atom(v)) })
	}
	f := fgen.Mk([]fgen.Op{fgen.Imp, fgen.Iff}[zzPick("out", 2)], side(), side())
	name := []string{"sko_0", "sko_1"}[zzPick("name", 2)]
	zzNamed(f, name)
}

func zzNamed(f *fgen.Form, name string) {
	out, r := zzRun(strings.ReplaceAll(zzConj(f), "k", name), "-quiet", "-otptp", "-one_step", "-l", "3")
	vt.Obs("verdict", zzStatus(out))
	vt.Assert(r == 0, "the run ends normally, with one verdict")
	if thm, _ := zzVerdict(out); thm {
		vt.Cover("proved")
		zzProofText(zzBetween(out), nil, zzRename(zzArity(f), "k0", name+"0"), 2)
	}
}

// zzRename gives another name to a function.
func zzRename(f *fgen.Form, from, to string) *fgen.Form {
	var term func(t *fgen.Term) *fgen.Term
	term = func(t *fgen.Term) *fgen.Term {
		u := &fgen.Term{Var: t.Var, Fam: t.Fam}
		if t.Fam == from {
			u.Fam = to
		}
		for _, a := range t.Args {
			u.Args = append(u.Args, term(a))
		}
		return u
	}
	g := &fgen.Form{Op: f.Op, Var: f.Var, Fam: f.Fam}
	for _, t := range f.Args {
		g.Args = append(g.Args, term(t))
	}
	for _, s := range f.Sub {
		g.Sub = append(g.Sub, zzRename(s, from, to))
	}
	return g
}

// Witnesses that the instance of an enclosing quantifier depends on: formulas are weakened and rules applied again.
//
//vt:check A24 quick=20 thorough=200 steps=6000000 bounds=an_existential_over_an_implication,_disjunction_or_equivalence_of_an_atom_and_one_or_two_universal_formulas,_a_unary_function,_inner_Skolemisation_too
func ZZA24Witness() { zzTptp(nil, zzWitness(), 2, zzTptpFlags()...) }

// Every connective, on both sides of the sequent, over literals and quantified atoms.
//
//vt:check A24 quick=25 thorough=200 steps=6000000 bounds=a_formula_of_one_connective_over_two_literals_or_quantified_atoms_implies_or_is_equivalent_to_its_commuted_or_contraposed_form
func ZZA24Rules() { zzTptp(nil, zzCommuted(), 2, zzTptpFlags()...) }
