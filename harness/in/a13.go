package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs mean.go arity.go tableau.go

// zzProved runs the prover with a proof and checks it.
func zzProved(f *fgen.Form, d int, flags ...string) {
	var proof []Search.ProofStruct
	n := 0
	Search.AddPrintProofAlgorithm(&Search.OutputProofStruct{ProofOutput: func(p []Search.ProofStruct, m Lib.List[AST.Meta]) string {
		proof = p
		n++
		return "PROOF\n"
	}, Name: "zz", Extension: ".zz"})
	out, r := zzRun(zzConj(f), append([]string{"-quiet", "-proof"}, flags...)...)
	vt.Obs("verdict", zzStatus(out))
	vt.Assert(r == 0, "the run ends normally")
	thm, no := zzVerdict(out)
	vt.Assert(thm != no, "exactly one verdict is printed")
	vt.Assert(thm == (n == 1) && thm == strings.Contains(out, "SZS output start"), "a proof is printed exactly for a theorem")
	if !thm {
		vt.Cover("not proved")
		return
	}
	vt.Cover("proved")
	vt.Obs("proof", Search.ProofStructListToText(proof, Lib.NewList[AST.Meta]()))
	p := &zzProof{}
	for k := 1; k <= d; k++ {
		p.z = append(p.z, &zzMeaning{&fgen.Interp{D: k, Tag: string([]byte{'0' + byte(k)})}})
	}
	vt.Assert(len(proof) > 0, "the proof is not empty")
	root := proof[0].GetFormula().GetForm()
	p.every("the proof starts from the negation of the conjecture", func(z *zzMeaning) bool {
		return vt.Iff(z.form(root, map[int]int{}), vt.Not(z.in.Holds(zzArity(f))))
	})
	p.list([]AST.Form{root}, proof)
	p.acyclic()
}

// The proof of a small propositional or first-order conjecture is a proof of it.
//
//vt:check A13 quick=25 thorough=300 bounds=formulas_of_3_connectives_or_quantifiers,_two_unary_or_one_binary_predicate
func ZZA13Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 2}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 2, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Budget: 3, Conc: true}
	if zzPick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	zzProved(g.Small(nil), 2, zzProofFlags()...)
}

//vt:check A13 quick=20 thorough=200 bounds=blocks_of_three_quantifiers,_agreement_of_branches,_formulas_that_look_alike,_formulas_that_differ_in_one_place
func ZZA13Families() {
	var f *fgen.Form
	switch zzPick("family", 4) {
	case 0:
		f = zzPrefix()
	case 1:
		f = zzAgree()
	case 2:
		f = zzTwin()
	case 3:
		f = zzMutant(3)
	}
	zzProved(f, 2, zzProofFlags()...)
}

//vt:check A13 quick=20 thorough=200 bounds=equations_with_one_variable_from_one_or_two_ground_equations
func ZZA13Equality() {
	zzProved(zzEqUnify(), 2, "-one_step", "-l", "6")
}

// Witnesses introduced by branches that are searched at the same time, under every schedule with at most one preemption.
//
//vt:check A13 quick=15 thorough=200 steps=1500000 bounds=a_disjunction_of_literals_beside_a_quantified_formula,_schedules_with_at_most_1_preemption
func ZZA13Schedule() {
	vt.Schedule(1)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Conc: true}
	r := func() *fgen.Form { return zzP("r", 0, zzV(0), zzV(1)) }
	h := zzQ(fgen.All, 0, zzQ(fgen.Ex, 1, r()))
	c := zzQ(fgen.Ex, 0, zzQ(fgen.Ex, 1, r()))
	if vt.Pick("side", 2) == 1 {
		h, c = fgen.Mk(fgen.Not, c), fgen.Mk(fgen.Not, h)
	}
	zzProved(fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, h, fgen.Mk(fgen.Or, g.Lit(nil), g.Lit(nil))), c), 1, zzProofFlags()...)
}
