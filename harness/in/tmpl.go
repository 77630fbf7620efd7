package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Families of conjectures used by several properties.

func zzV(i int) *fgen.Term { return &fgen.Term{Var: i} }

func zzQ(o fgen.Op, v int, f *fgen.Form) *fgen.Form {
	return &fgen.Form{Op: o, Var: v, Sub: []*fgen.Form{f}}
}

func zzP(fam string, name int, args ...*fgen.Term) *fgen.Form {
	return &fgen.Form{Op: fgen.Atom, Fam: fam, Name: name, Args: args}
}

func zzAnyQ() fgen.Op { return []fgen.Op{fgen.All, fgen.Ex}[vt.Pick("q", 2)] }

// zzText prints a conjecture, with all parentheses or with as few as possible.
func zzText(f *fgen.Form) string {
	if vt.Pick("flat", 2) == 1 {
		return "fof(c, conjecture, " + f.Flat() + ").\n"
	}
	return zzConj(f)
}

// zzUnify: a universal atom implies an instance of an atom; valid exactly when they unify, which is returned too.
func zzUnify() (*fgen.Form, bool) {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 1}, {Base: 'g', N: 1, Arity: 1 + vt.Pick("ar", 2)}}, TermDep: 2, MaxVars: 4, Conc: true}
	d1, d2 := 1, 1
	switch vt.Pick("deep", 3) {
	case 1:
		d1 = 2
	case 2:
		d2 = 2
	}
	if d1+d2 > 2 && vt.Pick("f", 2) == 1 {
		g.FunFam = append(g.FunFam, fgen.Fam{Base: 'f', N: 1, Arity: 3 - g.FunFam[1].Arity})
	}
	side := func(q fgen.Op, v0 int) (*fgen.Form, *fgen.Form) {
		n := 1 + vt.Pick("nv", 2)
		vs := []int{v0, v0 + 1}[:n]
		at := zzP("r", 0, g.Term(d1, vs), g.Term(d2, vs))
		f := at
		for i := n - 1; i >= 0; i-- {
			f = zzQ(q, vs[i], f)
		}
		return f, at
	}
	l, a := side(fgen.All, 0)
	r, b := side(fgen.Ex, 2)
	return fgen.Mk(fgen.Imp, l, r), fgen.Unify([][2]*fgen.Term{{a.Args[0], b.Args[0]}, {a.Args[1], b.Args[1]}})
}

// zzAgree: ground facts (perhaps with a disjunction) imply an existential conjunction: the literals of the goal must
// agree on one instance, another one in each branch.
func zzAgree() *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 3}}, MaxVars: 2, Conc: true}
	if vt.Pick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'p', N: 1, Arity: 1}, {Base: 'r', N: 1, Arity: 2}}
	}
	h := fgen.Mk([]fgen.Op{fgen.And, fgen.Or}[vt.Pick("h", 2)], g.Atom(nil), g.Atom(nil))
	if vt.Pick("h3", 2) == 1 {
		h = fgen.Mk(fgen.And, h, g.Atom(nil))
	}
	vs := []int{0}
	if vt.Pick("v2", 2) == 1 {
		vs = []int{0, 1}
	}
	f := fgen.Mk(fgen.And, g.Atom(vs), g.Atom(vs))
	for i := len(vs) - 1; i >= 0; i-- {
		f = zzQ(fgen.Ex, vs[i], f)
	}
	return fgen.Mk(fgen.Imp, h, f)
}

// zzPrefix: a block of three quantifiers over a ternary predicate, perhaps with a disjunct under the first one,
// implies a similar block with the quantifiers in another order.
func zzPrefix() *fgen.Form {
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	alt := vt.Pick("alt", 3) // where a disjunct stands
	side := func(v0 int, perm []int, qs [3]fgen.Op) *fgen.Form {
		f := zzP("s", 0, zzV(v0), zzV(v0+1), zzV(v0+2))
		for i := 2; i >= 0; i-- {
			v := v0 + perm[i]
			f = zzQ(qs[perm[i]], v, f)
			if i == alt {
				f = zzQ(qs[perm[i]], v, fgen.Mk(fgen.Or, zzP("p", 0, zzV(v)), f.Sub[0]))
			}
		}
		return f
	}
	qs := [3]fgen.Op{zzAnyQ(), zzAnyQ(), zzAnyQ()}
	l := side(0, perms[0], qs)
	if vt.Pick("flip", 2) == 1 {
		i := vt.Pick("which", 3)
		qs[i] = fgen.All + fgen.Ex - qs[i]
	}
	return fgen.Mk(fgen.Imp, l, side(3, perms[vt.Pick("perm", 6)], qs))
}

// zzTwin: two existential formulas that look alike imply that one individual has both properties.
func zzTwin() *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3, Arity: 1}}, Conc: true}
	shape := vt.Pick("shape", 4)
	y := 0 // bound variables are numbered over the whole formula
	g2 := func(x int) *fgen.Form {
		switch shape {
		case 0:
			return fgen.Mk([]fgen.Op{fgen.And, fgen.Or, fgen.Imp, fgen.Iff}[vt.Pick("op", 4)], g.Atom([]int{x}), g.Atom([]int{x}))
		case 1:
			y++
			a, b := zzV(x), zzV(y)
			if vt.Pick("sw", 2) == 1 {
				a, b = b, a
			}
			return zzQ(zzAnyQ(), y, zzP("r", 0, a, b))
		case 2:
			y += 2
			v := []int{x, y - 1, y}
			t := func() *fgen.Term { return zzV(v[vt.Pick("v", 3)]) }
			return zzQ(zzAnyQ(), v[1], zzQ(zzAnyQ(), v[2], zzP("r", 0, t(), t())))
		}
		return fgen.Mk(fgen.Not, g.Atom([]int{x}))
	}
	var ren func(f *fgen.Form, m map[int]int) *fgen.Form
	ren = func(f *fgen.Form, m map[int]int) *fgen.Form {
		h := &fgen.Form{Op: f.Op, Fam: f.Fam, Name: f.Name, Var: f.Var}
		if f.Op == fgen.All || f.Op == fgen.Ex {
			y++
			m2 := map[int]int{f.Var: y}
			for k, v := range m {
				if k != f.Var {
					m2[k] = v
				}
			}
			m = m2
			h.Var = y
		}
		for _, t := range f.Args {
			h.Args = append(h.Args, zzV(m[t.Var]))
		}
		for _, s := range f.Sub {
			h.Sub = append(h.Sub, ren(s, m))
		}
		return h
	}
	e1 := g2(0)
	y++
	x2 := y
	e2 := g2(x2)
	y++
	x3 := y
	goal := zzQ(fgen.Ex, x3, fgen.Mk(fgen.And, ren(e1, map[int]int{0: x3}), ren(e2, map[int]int{x2: x3})))
	return fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, zzQ(fgen.Ex, 0, e1), zzQ(fgen.Ex, x2, e2)), goal)
}

// zzMutant: a conjecture says that a formula implies a formula that differs from it in one place.
func zzMutant(budget int) *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, MaxVars: 2, Ops: []fgen.Op{fgen.And, fgen.Or, fgen.Imp, fgen.Iff, fgen.Not, fgen.All, fgen.Ex}, Budget: budget, Conc: true}
	if vt.Pick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	f := g.Quant(nil, g.Small)
	h := fgen.Mutate(f)
	if vt.Pick("dir", 2) == 1 {
		f, h = h, f
	}
	return fgen.Mk(fgen.Imp, f, h)
}

// zzEqUnify: one or two ground equations imply an equation or an atom with a variable: the instance is found modulo the equations.
func zzEqUnify() *fgen.Form {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}}, MaxVars: 1, Conc: true}
	switch vt.Pick("sig", 3) {
	case 1:
		g.FunFam = []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}}
		g.TermDep = 1
	case 2:
		g.FunFam = []fgen.Fam{{Base: 'a', N: 2}, {Base: 'g', N: 1, Arity: 2}}
		g.TermDep = 1
	}
	eq := func(d1, d2 int, v []int) *fgen.Form {
		return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{g.Term(d1, v), g.Term(d2, v)}}
	}
	h := eq(g.TermDep, 0, nil)
	if vt.Pick("h2", 2) == 1 {
		h = fgen.Mk(fgen.And, h, eq(0, 0, nil))
	}
	c := eq(g.TermDep, g.TermDep, []int{0})
	if vt.Pick("pred", 2) == 1 {
		h = fgen.Mk(fgen.And, h, zzP("p", 0, g.Term(g.TermDep, nil)))
		c = zzP("p", 0, g.Term(g.TermDep, []int{0}))
	}
	return fgen.Mk(fgen.Imp, h, zzQ(fgen.Ex, 0, c))
}

// zzEqPower: f^i(a) = f^j(a) and f^k(a) = f^l(a) imply f^m(a) = f^n(a).
func zzEqPower(max int) *fgen.Form {
	pw := func(hi int) *fgen.Term {
		t := &fgen.Term{Var: -1, Fam: "a"}
		for i := vt.Pick("k", hi+1); i > 0; i-- {
			t = &fgen.Term{Var: -1, Fam: "f", Args: []*fgen.Term{t}}
		}
		return t
	}
	eq := func() *fgen.Form { return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{pw(max), pw(max - 1)}} }
	return fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, eq(), eq()), eq())
}

// zzEqPred: two equations and an atom imply another atom with other arguments.
func zzEqPred() *fgen.Form {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}}, Conc: true}
	t := func() *fgen.Term { return g.Term(0, nil) }
	eq := func() *fgen.Form { return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{t(), t()}} }
	wrap := func() *fgen.Term { return t() }
	if vt.Pick("f", 2) == 1 {
		wrap = func() *fgen.Term { return &fgen.Term{Var: -1, Fam: "f", Args: []*fgen.Term{t()}} }
	}
	h := fgen.Mk(fgen.And, eq(), eq())
	if vt.Pick("bin", 2) == 1 {
		return fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, h, zzP("r", 0, wrap(), t())), zzP("r", 0, wrap(), t()))
	}
	return fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, h, zzP("p", 0, wrap())), zzP("p", 0, wrap()))
}

// zzWide: ground facts, perhaps with a disjunction of two or three, imply an existential conjunction of three literals.
func zzWide() *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 2, Conc: true}
	var h *fgen.Form
	for i := vt.Pick("facts", 4) + 1; i > 0; i-- {
		f := g.Atom(nil)
		if h == nil {
			h = f
		} else {
			h = fgen.Mk(fgen.And, h, f)
		}
	}
	if d := vt.Pick("or", 3); d > 0 {
		o := fgen.Mk(fgen.Or, g.Atom(nil), g.Atom(nil))
		if d == 2 {
			o = fgen.Mk(fgen.Or, o, g.Atom(nil))
		}
		h = fgen.Mk(fgen.And, o, h)
	}
	c := fgen.Mk(fgen.And, fgen.Mk(fgen.And, g.Atom([]int{0}), g.Atom([]int{0})), g.Atom([]int{0}))
	return fgen.Mk(fgen.Imp, h, zzQ(fgen.Ex, 0, c))
}

// zzRigid: a universal formula whose two literals clash on some instances or none, beside an atom that fails for one instance.
func zzRigid() *fgen.Form {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'g', N: 1, Arity: 2}}, Conc: true}
	vs := []int{0, 1}
	deep := vt.Pick("deep", 4) // which argument of each literal is an application
	atom := func(d int) *fgen.Form {
		d1, d2 := 0, 1
		if d == 1 {
			d1, d2 = 1, 0
		}
		t := func(d int) *fgen.Term {
			if d == 0 {
				return zzV(vs[vt.Pick("v", 2)])
			}
			return &fgen.Term{Var: -1, Fam: "g", Args: []*fgen.Term{g.Term(0, vs), g.Term(0, vs)}}
		}
		return zzP("r", 0, t(d1), t(d2))
	}
	l, r := atom(deep&1), atom(deep>>1)
	if vt.Pick("sign", 2) == 0 {
		r = fgen.Mk(fgen.Not, r)
	} else {
		l = fgen.Mk(fgen.Not, l)
	}
	ax := zzQ(fgen.All, 0, zzQ(fgen.All, 1, fgen.Mk(fgen.Or, fgen.Mk(fgen.And, l, r), zzP("s", 0, zzV(0), zzV(1)))))
	return fgen.Mk(fgen.Imp, ax, zzP("s", 0, g.Term(0, nil), g.Term(0, nil)))
}

// zzInner: under two quantifiers, two clashing literals, one of them under a further quantifier, stand beside an atom:
// what closes the inner branch restricts the instances for the other one.
func zzInner(qs ...fgen.Op) *fgen.Form {
	v := func(vs ...int) *fgen.Term { return zzV(vs[vt.Pick("v", len(vs))]) }
	l := zzP("r", 0, v(0, 1), v(0, 1))
	r := zzP("r", 0, v(0, 1, 2), v(0, 1, 2))
	if vt.Pick("sign", 2) == 0 {
		r = fgen.Mk(fgen.Not, r)
	} else {
		l = fgen.Mk(fgen.Not, l)
	}
	r = zzQ(qs[vt.Pick("q", len(qs))], 2, r)
	parts := []*fgen.Form{l, r}
	if vt.Pick("order", 2) == 1 {
		parts = []*fgen.Form{r, l}
	}
	c := fgen.Mk(fgen.And, parts[0], parts[1])
	s := zzP("s", 0, zzV(0), zzV(1))
	d := fgen.Mk(fgen.Or, c, s)
	if vt.Pick("order", 2) == 1 {
		d = fgen.Mk(fgen.Or, s, c)
	}
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 2}}, Conc: true}
	return fgen.Mk(fgen.Imp, zzQ(fgen.All, 0, zzQ(fgen.All, 1, d)), zzP("s", 0, g.Term(0, nil), g.Term(0, nil)))
}

// zzClauses: universally quantified clauses of one or two literals imply a ground literal.
func zzClauses(n int, fun bool) *fgen.Form {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, Conc: true, MaxVars: 2}
	if zzPick("bin", 2) == 1 {
		g.PredFam = []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}
	}
	if fun {
		g.FunFam = append(g.FunFam, fgen.Fam{Base: 'f', N: 1, Arity: 1})
		g.TermDep = 1
	}
	var all *fgen.Form
	v := 0
	for i := 0; i < n; i++ {
		vs := []int{}
		for k := zzPick("vars", 3); k > 0; k-- {
			vs = append(vs, v)
			v++
		}
		c := g.Lit(vs)
		if i == 0 || zzPick("two", 2) == 1 {
			d := g.Lit(vs)
			if c.Op == fgen.Not && d.Op != fgen.Not && zzPick("imp", 2) == 1 {
				c = fgen.Mk(fgen.Imp, c.Sub[0], d)
			} else {
				c = fgen.Mk(fgen.Or, c, d)
			}
		}
		for k := len(vs) - 1; k >= 0; k-- {
			c = zzQ(fgen.All, vs[k], c)
		}
		if all == nil {
			all = c
		} else {
			all = fgen.Mk(fgen.And, all, c)
		}
	}
	return fgen.Mk(fgen.Imp, all, g.Lit(nil))
}

var zzAllOps = []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff, fgen.Xor, fgen.RevImp, fgen.Nand, fgen.Nor}
