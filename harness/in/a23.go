package main

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Mods/gs3"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs mean.go arity.go tableau.go comp.go

// zzSeq checks a sequent proof: the rules, the freshness of the witnesses, and that nothing is used that is not there.
type zzSeq struct {
	*zzProof
	pre bool // pre-inner Skolemisation
}

func zzMember(l []AST.Term, t AST.Term) bool {
	for _, u := range l {
		if u.Equals(t) {
			return true
		}
	}
	return false
}

func zzSpeaks(f AST.Form, t AST.Term) bool {
	var l []AST.Term
	zzSkosOf(f, &l)
	return zzMember(l, t)
}

// quantified opens a quantified formula: its variable, what is left, and whether it is universal.
func zzOpen(f AST.Form) (v AST.TypedVar, rest AST.Form, universal, ok bool) {
	neg := false
	if n, is := f.(AST.Not); is {
		neg = true
		f = n.GetForm()
	}
	var vs Lib.List[AST.TypedVar]
	switch q := f.(type) {
	case AST.All:
		vs, rest, universal = q.GetVarList(), q.GetForm(), !neg
		if vs.Len() > 1 {
			rest = AST.MakerAll(vs.Slice(1, vs.Len()), rest)
		}
	case AST.Ex:
		vs, rest, universal = q.GetVarList(), q.GetForm(), neg
		if vs.Len() > 1 {
			rest = AST.MakerEx(vs.Slice(1, vs.Len()), rest)
		}
	default:
		return
	}
	if neg {
		rest = AST.MakerNot(rest)
	}
	return vs.At(0), rest, universal, true
}

// zzCanon writes a formula with its bound variables numbered in order.
func zzCanon(f AST.Form, env map[int]string) string {
	var term func(t AST.Term) string
	term = func(t AST.Term) string {
		switch u := t.(type) {
		case AST.Var:
			return env[u.GetIndex()]
		case AST.Fun:
			r := u.GetID().ToString() + "("
			for _, x := range u.GetArgs().GetSlice() {
				r += term(x) + ","
			}
			return r + ")"
		}
		return t.ToString()
	}
	list := func(op string, l ...AST.Form) string {
		r := op + "("
		for _, x := range l {
			r += zzCanon(x, env) + ","
		}
		return r + ")"
	}
	quant := func(op string, vs Lib.List[AST.TypedVar], b AST.Form) string {
		e := map[int]string{}
		for k, v := range env {
			e[k] = v
		}
		for _, v := range vs.GetSlice() {
			e[v.GetIndex()] = "$" + string([]byte{'a' + byte(len(e))})
			op += e[v.GetIndex()]
		}
		return op + "(" + zzCanon(b, e) + ")"
	}
	switch u := f.(type) {
	case AST.Not:
		return list("~", u.GetForm())
	case AST.And:
		return list("&", u.GetChildFormulas().GetSlice()...)
	case AST.Or:
		return list("|", u.GetChildFormulas().GetSlice()...)
	case AST.Imp:
		return list("=>", u.GetF1(), u.GetF2())
	case AST.Equ:
		return list("<=>", u.GetF1(), u.GetF2())
	case AST.All:
		return quant("!", u.GetVarList(), u.GetForm())
	case AST.Ex:
		return quant("?", u.GetVarList(), u.GetForm())
	case AST.Pred:
		r := u.GetID().GetName() + "("
		for _, x := range u.GetArgs().GetSlice() {
			r += term(x) + ","
		}
		return r + ")"
	}
	return f.ToString()
}

// there requires a formula in a sequent.
func (p *zzSeq) there(ctx []AST.Form, f AST.Form, what string) {
	if zzHas(ctx, f) {
		return
	}
	variant := false
	c := zzCanon(f, map[int]string{})
	for _, g := range ctx {
		if zzCanon(g, map[int]string{}) == c {
			variant = true
		}
	}
	vt.AssertKnown(false, p.pre && variant, "preinner-variant", what)
}

func (p *zzSeq) check(s *gs3.GS3Sequent, ctx []AST.Form, terms []AST.Term) {
	p.steps++
	vt.Assert(s != nil, "every branch has its proof")
	kids := s.Children()
	if s.IsEmpty() { // nothing but a place in the tree
		vt.Assert(len(kids) == 1, "every branch has its proof")
		p.check(kids[0], ctx, terms)
		return
	}
	if s.Rule() == gs3.W {
		vt.Cover("weakening")
		vt.Assert(len(kids) == 1, "weakening has one continuation")
		if t := s.TermGenerated(); t != nil {
			for _, f := range ctx {
				vt.Assert(!zzSpeaks(f, t), "a witness is forgotten only when nothing speaks of it")
			}
			var ts []AST.Term
			for _, u := range terms {
				if !u.Equals(t) {
					ts = append(ts, u)
				}
			}
			p.check(kids[0], ctx, ts)
			return
		}
		f := s.GetTargetForm()
		p.there(ctx, f, "what is weakened is there")
		var c []AST.Form
		gone := false
		for _, g := range ctx {
			if !gone && g.Equals(f) {
				gone = true
				continue
			}
			c = append(c, g)
		}
		p.check(kids[0], c, terms)
		return
	}
	f := s.GetTargetForm()
	if s.Rule() == gs3.AX {
		vt.Assert(len(kids) == 0, "nothing follows a closure")
		p.closed(ctx, f)
		return
	}
	p.there(ctx, f, "a rule applies to a formula of its sequent")
	var rs [][]AST.Form
	for i := range kids {
		rs = append(rs, s.GetResultFormulasOfChild(i).GetSlice())
	}
	switch {
	case gs3.IsDeltaRule(s.Rule()):
		vt.Cover("delta")
		v, rest, universal, ok := zzOpen(f)
		vt.Assert(ok && !universal, "a delta rule applies to an existential or a negated universal formula")
		vt.Assert(len(kids) == 1 && len(rs[0]) == 1, "a delta rule gives one formula")
		t := s.TermGenerated()
		if t == nil {
			vt.Assert(rs[0][0].Equals(rest), "a formula that does not mention its variable is its own instance")
			break
		}
		for _, g := range ctx {
			vt.Assert(!zzSpeaks(g, t), "the witness of a delta rule is new")
		}
		vt.Assert(!zzMember(terms, t), "the witness of a delta rule has not been introduced before")
		i, _ := rest.ReplaceTermByTerm(v.ToBoundVar(), t)
		vt.Assert(i.Equals(rs[0][0]), "a delta rule gives the instance for its witness")
		terms = append(append([]AST.Term(nil), terms...), t)
	case gs3.IsGammaRule(s.Rule()):
		vt.Cover("gamma")
		v, rest, universal, ok := zzOpen(f)
		vt.Assert(ok && universal, "a gamma rule applies to a universal or a negated existential formula")
		vt.Assert(len(kids) == 1 && len(rs[0]) == 1, "a gamma rule gives one formula")
		t := s.TermGenerated()
		if t == nil {
			vt.Assert(rs[0][0].Equals(rest), "a formula that does not mention its variable is its own instance")
			break
		}
		// a witness that has not been introduced yet stands for any term: it must be gone when it is introduced
		i, _ := rest.ReplaceTermByTerm(v.ToBoundVar(), t)
		vt.Assert(i.Equals(rs[0][0]), "a gamma rule gives an instance")
	default:
		vt.Cover("alpha or beta")
		vt.Assert(len(kids) > 0, "a branch is not left open")
		p.every("what a rule gives follows from its formula", func(z *zzMeaning) bool {
			r := false
			for _, b := range rs {
				r = vt.Or(r, p.holds(z, b))
			}
			return vt.Or(vt.Not(z.form(f, map[int]int{})), r)
		})
	}
	for i, k := range kids {
		p.check(k, append(append([]AST.Form(nil), ctx...), rs[i]...), terms)
	}
}

func zzSequent(f *fgen.Form, d int, flags ...string) {
	var proof []Search.ProofStruct
	Search.AddPrintProofAlgorithm(&Search.OutputProofStruct{ProofOutput: func(p []Search.ProofStruct, m Lib.List[AST.Meta]) string {
		proof = p
		return "PROOF\n"
	}, Name: "zz", Extension: ".zz"})
	out, r := zzRun(zzConj(f), append([]string{"-quiet", "-proof"}, flags...)...)
	vt.Obs("verdict", zzStatus(out))
	vt.Assume(r == 0) // A11 and A13
	thm, _ := zzVerdict(out)
	if !thm {
		vt.Cover("not proved")
		return
	}
	vt.Obs("proof", Search.ProofStructListToText(proof, Lib.NewList[AST.Meta]()))
	var s *gs3.GS3Sequent
	vt.Assert(vt.Catch(func() { s = gs3.MakeGS3Proof(proof) }) == 0, "the sequent proof is built")
	vt.Cover("built")
	p := &zzSeq{zzProof: &zzProof{}, pre: flags[len(flags)-1] == "-preinner"}
	for k := 1; k <= d; k++ {
		p.z = append(p.z, &zzMeaning{&fgen.Interp{D: k, Tag: string([]byte{'0' + byte(k)})}})
	}
	p.check(s, []AST.Form{proof[0].GetFormula().GetForm()}, nil)
}

// The sequent proof made from the tableau is a proof.
//
//vt:check A23 quick=25 thorough=300 bounds=formulas_of_3_connectives_or_quantifiers,_two_unary_or_one_binary_predicate
func ZZA23Small() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 2}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 2, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Budget: 3, Conc: true}
	if zzPick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	zzSequent(g.Small(nil), 2, zzProofFlags()...)
}

//vt:check A23 quick=20 thorough=200 bounds=blocks_of_three_quantifiers,_agreement_of_branches,_formulas_that_look_alike,_formulas_that_differ_in_one_place
func ZZA23Families() {
	var f *fgen.Form
	switch zzPick("family", 4) {
	case 0:
		f = zzPrefix()
	case 1:
		f = zzAgree()
	case 2:
		f = zzTwin()
	case 3:
		f = zzMutant(3)
	}
	zzSequent(f, 2, zzProofFlags()...)
}

// Witnesses that the instance of an enclosing quantifier depends on: the steps have to be reordered, over branches.
//
//vt:check A23 quick=25 thorough=300 steps=1500000 bounds=an_existential_over_an_implication,_disjunction_or_equivalence_of_an_atom_and_one_or_two_universal_formulas,_a_unary_function,_inner_and_pre-inner_Skolemisation_too
func ZZA23Witness() {
	fl := zzProofFlags()
	fl[2] = "3" // -l
	zzSequent(zzWitness(), 2, fl...)
}
