package main

// Helpers of the harnesses that call parts of the prover directly.
//
//vt:lib

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// A reference unification algorithm over the prover's own terms.
type zzSubst map[int]AST.Term

func (s zzSubst) walk(t AST.Term) AST.Term {
	for n := 0; n < 50; n++ {
		m, ok := t.(AST.Meta)
		if !ok || s[m.GetIndex()] == nil {
			return t
		}
		t = s[m.GetIndex()]
	}
	vt.Assert(false, "a substitution has no cycle")
	return t
}

func (s zzSubst) occurs(i int, t AST.Term, fuel int) bool {
	vt.Assert(fuel > 0, "a substitution has no cycle")
	t = s.walk(t)
	switch u := t.(type) {
	case AST.Meta:
		return u.GetIndex() == i
	case AST.Fun:
		for _, a := range u.GetArgs().GetSlice() {
			if s.occurs(i, a, fuel-1) {
				return true
			}
		}
	}
	return false
}

// equal compares two terms under s.
func (s zzSubst) equal(a, b AST.Term, fuel int) bool {
	vt.Assert(fuel > 0, "a substitution has no cycle")
	a, b = s.walk(a), s.walk(b)
	ma, oka := a.(AST.Meta)
	mb, okb := b.(AST.Meta)
	if oka || okb {
		return oka && okb && ma.GetIndex() == mb.GetIndex()
	}
	fa, fb := a.(AST.Fun), b.(AST.Fun)
	if fa.GetID().GetName() != fb.GetID().GetName() || fa.GetArgs().Len() != fb.GetArgs().Len() {
		return false
	}
	for i := 0; i < fa.GetArgs().Len(); i++ {
		if !s.equal(fa.GetArgs().At(i), fb.GetArgs().At(i), fuel-1) {
			return false
		}
	}
	return true
}

func (s zzSubst) unify(a, b AST.Term) bool {
	a, b = s.walk(a), s.walk(b)
	ma, oka := a.(AST.Meta)
	mb, okb := b.(AST.Meta)
	switch {
	case oka && okb && ma.GetIndex() == mb.GetIndex():
		return true
	case oka:
		if s.occurs(ma.GetIndex(), b, 50) {
			return false
		}
		s[ma.GetIndex()] = b
		return true
	case okb:
		return s.unify(b, a)
	}
	fa, fb := a.(AST.Fun), b.(AST.Fun)
	if fa.GetID().GetName() != fb.GetID().GetName() || fa.GetArgs().Len() != fb.GetArgs().Len() {
		return false
	}
	for i := 0; i < fa.GetArgs().Len(); i++ {
		if !s.unify(fa.GetArgs().At(i), fb.GetArgs().At(i)) {
			return false
		}
	}
	return true
}

func zzOfSubsts(ss Unif.Substitutions) zzSubst {
	r := zzSubst{}
	for _, p := range ss {
		k, v := p.Get()
		vt.Assert(r[k.GetIndex()] == nil, "a substitution binds a variable once")
		r[k.GetIndex()] = v
	}
	return r
}

func zzInit() {
	initDebuggers()
	AST.Init()
}

var zzMetas []AST.Meta

func zzMkMetas(n int) {
	zzMetas = nil
	for i := 0; i < n; i++ {
		zzMetas = append(zzMetas, AST.MakerMeta(string([]byte{'X' + byte(i%3)}), i, AST.TIndividual()))
	}
}

func zzTermOf(t *fgen.Term) AST.Term {
	if t.Var >= 0 {
		return zzMetas[t.Var]
	}
	args := Lib.NewList[AST.Term]()
	for _, a := range t.Args {
		args.Append(zzTermOf(a))
	}
	return AST.MakerFun(AST.MakerId(string([]byte{t.Fam[0] + byte(t.Name)})), Lib.NewList[AST.Ty](), args)
}

func zzPredOf(f *fgen.Form) AST.Pred {
	args := Lib.NewList[AST.Term]()
	for _, a := range f.Args {
		args.Append(zzTermOf(a))
	}
	return AST.MakerPred(AST.MakerId(string([]byte{f.Fam[0] + byte(f.Name)})), Lib.NewList[AST.Ty](), args)
}

func zzUnifyPred(p, q AST.Pred) (zzSubst, bool) {
	s := zzSubst{}
	if p.GetID().GetName() != q.GetID().GetName() {
		return s, false
	}
	for i := 0; i < p.GetArgs().Len(); i++ {
		if !s.unify(p.GetArgs().At(i), q.GetArgs().At(i)) {
			return s, false
		}
	}
	return s, true
}

// zzWitness: an existential formula whose instances have universal formulas in them.
func zzWitness() *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'f', N: 1, Arity: 1}}, MaxVars: 3, TermDep: 1, Conc: true}
	if zzPick("bin", 3) == 2 {
		g = &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, MaxVars: 3, Conc: true}
	}
	all := func(y int) *fgen.Form {
		vs := []int{y}
		if zzPick("outer", 3) == 2 {
			vs = []int{0, y}
		}
		return zzQ(fgen.All, y, g.Atom(vs))
	}
	var d *fgen.Form
	switch zzPick("shape", 4) {
	case 0:
		d = all(1)
	case 1:
		d = fgen.Mk(fgen.And, all(1), all(2))
	case 2:
		d = zzQ(fgen.All, 1, fgen.Mk(fgen.And, g.Atom([]int{1}), g.Atom([]int{1})))
	case 3:
		d = fgen.Mk(fgen.And, g.Atom([]int{0}), all(1))
	}
	op := []fgen.Op{fgen.Imp, fgen.Or, fgen.Iff}[zzPick("op", 3)]
	l := g.Atom([]int{0})
	if op == fgen.Or {
		l = fgen.Mk(fgen.Not, l)
	}
	return zzQ(fgen.Ex, 0, fgen.Mk(op, l, d))
}

// zzCommuted is a theorem in which a connective has to be taken apart on both sides.
func zzCommuted() *fgen.Form {
	v := 0
	member := func(i int) *fgen.Form {
		q := &fgen.Form{Op: fgen.Atom, Fam: "s", Name: i}
		switch zzPick("member", 4) {
		case 1:
			return fgen.Mk(fgen.Not, q)
		case 2:
			v++
			return zzQ(fgen.All, v, zzP("p", i, zzV(v)))
		case 3:
			v++
			return zzQ(fgen.Ex, v, zzP("p", i, zzV(v)))
		}
		return q
	}
	a, b := member(0), member(1)
	not := func(f *fgen.Form) *fgen.Form { return fgen.Mk(fgen.Not, f) }
	var f, g *fgen.Form
	switch o := zzAllOps[zzPick("op", len(zzAllOps))]; o {
	case fgen.Not:
		f, g = not(fgen.Mk(fgen.And, a, b)), fgen.Mk(fgen.Or, not(b), not(a))
	case fgen.Imp:
		f, g = fgen.Mk(o, a, b), fgen.Mk(o, not(b), not(a))
	default:
		f, g = fgen.Mk(o, a, b), fgen.Mk(o, b, a)
	}
	switch zzPick("outer", 3) {
	case 1:
		return fgen.Mk(fgen.Imp, not(g), not(f))
	case 2:
		return fgen.Mk(fgen.Iff, f, g)
	}
	return fgen.Mk(fgen.Imp, f, g)
}
