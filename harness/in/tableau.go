package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:lib
//vt:needs mean.go arity.go

// zzProof checks a tableau proof, step by step.
type zzProof struct {
	z     []*zzMeaning
	sko   []zzSko
	steps int
}

// zzSko: a term that stands for a witness of a formula.
type zzSko struct {
	t    AST.Term
	f    AST.Form
	body string
}

func zzIsSko(t AST.Term) bool {
	f, ok := t.(AST.Fun)
	return ok && len(f.GetID().GetName()) > 1
}

// zzSkosOf lists the Skolem terms in a term or formula.
func zzSkosOfTerm(t AST.Term, out *[]AST.Term) {
	if f, ok := t.(AST.Fun); ok {
		if zzIsSko(t) {
			*out = append(*out, t)
		}
		for _, a := range f.GetArgs().GetSlice() {
			zzSkosOfTerm(a, out)
		}
	}
}

func zzSkosOf(f AST.Form, out *[]AST.Term) {
	switch u := f.(type) {
	case AST.Not:
		zzSkosOf(u.GetForm(), out)
	case AST.And:
		for _, s := range u.GetChildFormulas().GetSlice() {
			zzSkosOf(s, out)
		}
	case AST.Or:
		for _, s := range u.GetChildFormulas().GetSlice() {
			zzSkosOf(s, out)
		}
	case AST.Imp:
		zzSkosOf(u.GetF1(), out)
		zzSkosOf(u.GetF2(), out)
	case AST.Equ:
		zzSkosOf(u.GetF1(), out)
		zzSkosOf(u.GetF2(), out)
	case AST.All:
		zzSkosOf(u.GetForm(), out)
	case AST.Ex:
		zzSkosOf(u.GetForm(), out)
	case AST.Pred:
		for _, a := range u.GetArgs().GetSlice() {
			zzSkosOfTerm(a, out)
		}
	}
}

// every requires a fact in every interpretation of the bound.
func (p *zzProof) every(what string, fact func(z *zzMeaning) bool) {
	for _, z := range p.z {
		vt.Assert(fact(z), what)
	}
}

func (p *zzProof) holds(z *zzMeaning, l []AST.Form) bool {
	r := true
	for _, f := range l {
		r = vt.And(r, z.form(f, map[int]int{}))
	}
	return r
}

func zzHas(l []AST.Form, f AST.Form) bool {
	for _, g := range l {
		if g.Equals(f) {
			return true
		}
	}
	return false
}

func zzIsNeg(f, g AST.Form) bool {
	n, ok := f.(AST.Not)
	return ok && n.GetForm().Equals(g)
}

// witness: the result is an instance of the body, for a term that is a Skolem term of its own.
func (p *zzProof) witness(f AST.Form, res AST.Form) {
	neg := false
	g := f
	if n, ok := f.(AST.Not); ok {
		neg = true
		g = n.GetForm()
	}
	var vs []AST.TypedVar
	var body AST.Form
	if neg {
		all, ok := g.(AST.All)
		vt.Assert(ok, "a delta rule applies to an existential or a negated universal formula")
		vs, body = all.GetVarList().GetSlice(), all.GetForm()
	} else {
		ex, ok := g.(AST.Ex)
		vt.Assert(ok, "a delta rule applies to an existential or a negated universal formula")
		vs, body = ex.GetVarList().GetSlice(), ex.GetForm()
	}
	// candidates for the term are those of the result
	var cand []AST.Term
	zzSkosOf(res, &cand)
	var rest AST.Form = body
	if len(vs) > 1 {
		l := Lib.MkListV(vs[1:]...)
		if neg {
			rest = AST.MakerAll(l, body)
		} else {
			rest = AST.MakerEx(l, body)
		}
	}
	inst := func(t AST.Term) AST.Form {
		r, _ := rest.ReplaceTermByTerm(vs[0].ToBoundVar(), t)
		if neg {
			return AST.MakerNot(r)
		}
		return r
	}
	free := true // the variable does not occur
	found := false
	var t AST.Term
	for _, c := range cand {
		i := inst(c)
		if i.Equals(res) {
			found = true
			t = c
		}
	}
	{
		i := AST.Form(rest)
		if neg {
			i = AST.MakerNot(i)
		}
		free = i.Equals(res)
	}
	if free {
		vt.Cover("vacuous witness")
		return
	}
	vt.Assert(found, "a delta rule gives an instance for a Skolem term")
	p.sko = append(p.sko, zzSko{t, f, ""})
}

// acyclic: each Skolem term is the witness of one formula, and that formula speaks only of Skolem terms that come before it.
func (p *zzProof) acyclic() {
	for i, a := range p.sko {
		for _, b := range p.sko[:i] {
			x, y := a.t.(AST.Fun).GetID(), b.t.(AST.Fun).GetID()
			vt.Assert(x.GetName() != y.GetName() || x.Equals(y), "a name in a proof stands for one symbol")
			if a.t.Equals(b.t) {
				p.every("a Skolem term is the witness of one formula", func(z *zzMeaning) bool {
					return vt.Iff(z.form(a.f, map[int]int{}), z.form(b.f, map[int]int{}))
				})
			}
		}
	}
	done := make([]bool, len(p.sko))
	for n := 0; n < len(p.sko); n++ {
		progress := false
		for i, a := range p.sko {
			if done[i] {
				continue
			}
			var in []AST.Term
			zzSkosOf(a.f, &in)
			ok := true
			for _, s := range in {
				for j, b := range p.sko {
					if !done[j] && b.t.Equals(s) {
						ok = false
					}
				}
			}
			if ok {
				done[i] = true
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	for _, d := range done {
		vt.Assert(d, "no Skolem term is a witness of a formula about itself")
	}
}

// closed: the branch is contradictory, and for the reason given.
func (p *zzProof) closed(branch []AST.Form, f AST.Form) {
	if q, ok := f.(AST.Pred); ok && q.GetID().GetName() == "=" && q.GetArgs().Len() == 0 {
		vt.Cover("closed by equality")
		var lits []AST.Form
		for _, g := range branch {
			h := g
			if n, ok := g.(AST.Not); ok {
				h = n.GetForm()
			}
			if _, ok := h.(AST.Pred); ok {
				lits = append(lits, g)
			}
		}
		p.every("a branch closed by equality reasoning has contradictory literals", func(z *zzMeaning) bool { return vt.Not(p.holds(z, lits)) })
		return
	}
	vt.Assert(zzHas(branch, f), "a branch is closed by one of its formulas")
	for _, g := range branch {
		if zzIsNeg(f, g) || zzIsNeg(g, f) {
			vt.Cover("closed by a clash")
			return
		}
	}
	vt.Cover("closed by itself")
	p.every("a branch is closed by two complementary formulas or an absurd one", func(z *zzMeaning) bool { return vt.Not(p.holds(z, []AST.Form{f})) })
}

// list checks a list of steps of a branch.
func (p *zzProof) list(branch []AST.Form, l []Search.ProofStruct) {
	vt.Assert(len(l) > 0, "a branch is not left open")
	branch = append([]AST.Form(nil), branch...)
	for i, s := range l {
		p.steps++
		f := s.GetFormula().GetForm()
		last := i == len(l)-1
		res := s.GetResultFormulas()
		if strings.HasPrefix(s.GetRuleName(), "CLOSURE") || len(res) == 0 {
			vt.Assert(last, "nothing follows a closure")
			p.closed(branch, f)
			return
		}
		vt.Assert(zzHas(branch, f), "a rule applies to a formula of its branch")
		var rs [][]AST.Form
		for _, r := range res {
			rs = append(rs, r.GetForms().GetSlice())
		}
		if strings.HasPrefix(s.GetRuleName(), "DELTA") {
			vt.Assert(len(rs) == 1 && len(rs[0]) == 1, "a delta rule gives one formula")
			p.witness(f, rs[0][0])
		} else {
			p.every("what a rule gives follows from its formula", func(z *zzMeaning) bool {
				r := false
				for _, b := range rs {
					r = vt.Or(r, p.holds(z, b))
				}
				return vt.Or(vt.Not(z.form(f, map[int]int{})), r)
			})
		}
		if len(rs) == 1 {
			branch = append(branch, rs[0]...)
			if len(s.GetChildren()) > 0 {
				vt.Assert(last && len(s.GetChildren()) == 1, "a step with one result has one continuation")
				p.list(branch, s.GetChildren()[0])
				return
			}
			vt.Assert(!last, "a branch is not left open")
			continue
		}
		vt.Assert(last && len(s.GetChildren()) == len(rs), "each branch has its proof")
		for j, c := range s.GetChildren() {
			p.list(append(append([]AST.Form(nil), branch...), rs[j]...), c)
		}
		return
	}
}

func zzProofFlags() []string {
	fl := []string{"-one_step", "-l", "6"}
	switch zzPick("sko", 3) {
	case 1:
		fl = append(fl, "-inner")
	case 2:
		fl = append(fl, "-preinner")
	}
	return fl
}
