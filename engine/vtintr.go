package main

import (
	"math/bits"
	"path"
	"strconv"
)

func (m *Machine) uniq(name string) string {
	if m.varOcc == nil {
		m.varOcc = map[string]int{}
	}
	k := m.varOcc[name]
	m.varOcc[name] = k + 1
	if k == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(k)
}

// symInt creates a symbolic integer in [lo, hi].
func (m *Machine) symInt(name string, lo, hi int64) V {
	name = m.uniq(name)
	if lo >= hi {
		m.inputs = append(m.inputs, Input{Name: name, Conc: uint64(lo)})
		return mkInt64(lo)
	}
	var e *Expr
	c := m.ctx
	if lo >= 0 {
		w := bits.Len64(uint64(hi))
		v := c.Var(w, name, uint64(lo), uint64(hi))
		if lo > 0 {
			m.assertPC(c.Cmp2(OUle, c.Const(w, uint64(lo)), v))
		}
		if uint64(hi) != mask(w) {
			m.assertPC(c.Cmp2(OUle, v, c.Const(w, uint64(hi))))
		}
		e = c.Zext(v, 64)
	} else {
		// offset encoding
		n := uint64(hi - lo)
		w := bits.Len64(n)
		v := c.Var(w, name, 0, n)
		if n != mask(w) {
			m.assertPC(c.Cmp2(OUle, v, c.Const(w, n)))
		}
		e = c.Bin(OAdd, c.Zext(v, 64), c.Const(64, uint64(lo)))
	}
	m.inputs = append(m.inputs, Input{Name: name, E: e, W: 64, Sgn: true})
	return V{r: e}
}

// Cmp2 builds a comparison without using the bounds of its operands.
func (c *Ctx) Cmp2(op Op, a, b *Expr) *Expr { return c.mk(op, 0, 0, "", a, b) }

func (m *Machine) cs(v V) string {
	s, ok := concStr(v)
	if !ok {
		m.end(eUnsupported, "symbolic label")
	}
	return s
}

type obsRec struct {
	label string
	v     V
}

func buildVT(I map[string]intrFn) {
	V_ := func(n string, f intrFn) { I[vtPkg+n] = f }
	V_("Int", func(m *Machine, g *G, a []V) (V, ctl) {
		return m.symInt(m.cs(a[0]), int64(a[1].n), int64(a[2].n)), cDone
	})
	V_("Bool", func(m *Machine, g *G, a []V) (V, ctl) {
		name := m.uniq(m.cs(a[0]))
		e := m.ctx.Var(0, name, 0, 1)
		m.inputs = append(m.inputs, Input{Name: name, E: e})
		return V{r: e}, cDone
	})
	V_("Pick", func(m *Machine, g *G, a []V) (V, ctl) {
		n := int64(a[1].n)
		if n <= 0 {
			m.end(eAssume, "empty choice")
		}
		return m.concretize(m.p.tInt, m.symInt(m.cs(a[0]), 0, n-1)), cDone
	})
	V_("Str", func(m *Machine, g *G, a []V) (V, ctl) {
		name := m.cs(a[0])
		n := int(int64(a[1].n))
		alpha := m.cs(a[2])
		bs := make([]V, n)
		for i := range bs {
			k := m.symInt(name+"."+strconv.Itoa(i), 0, int64(len(alpha)-1))
			if k.r == nil {
				bs[i] = V{n: uint64(alpha[k.n])}
				continue
			}
			e := k.r.(*Expr)
			r := m.ctx.Const(8, uint64(alpha[len(alpha)-1]))
			contig := true
			for j := 1; j < len(alpha); j++ {
				contig = contig && alpha[j] == alpha[j-1]+1
			}
			if contig {
				r = m.ctx.Bin(OAdd, m.ctx.Trunc(e, 8), m.ctx.Const(8, uint64(alpha[0])))
				r.lo, r.hi = uint64(alpha[0]), uint64(alpha[len(alpha)-1])
			} else {
				for j := len(alpha) - 2; j >= 0; j-- {
					r = m.ctx.Ite(m.ctx.Eq(e, m.ctx.Const(64, uint64(j))), m.ctx.Const(8, uint64(alpha[j])), r)
				}
			}
			bs[i] = fromExpr(m.p.tByte, r)
		}
		return mkSymStr(bs), cDone
	})
	V_("Concrete", func(m *Machine, g *G, a []V) (V, ctl) { return m.concretize(m.p.tInt, a[0]), cDone })
	V_("ConcreteBool", func(m *Machine, g *G, a []V) (V, ctl) { return m.concretize(m.p.tBool, a[0]), cDone })
	V_("Assume", func(m *Machine, g *G, a []V) (V, ctl) {
		m.assume(m.boolExpr(a[0]))
		return V{}, cDone
	})
	V_("Assert", func(m *Machine, g *G, a []V) (V, ctl) {
		l := m.cs(a[1])
		m.check(m.boolExpr(a[0]), l, l, nil, "")
		return V{}, cDone
	})
	V_("AssertKnown", func(m *Machine, g *G, a []V) (V, ctl) {
		l := m.cs(a[3])
		m.check(m.boolExpr(a[0]), l, l, m.boolExpr(a[1]), m.cs(a[2]))
		return V{}, cDone
	})
	V_("And", func(m *Machine, g *G, a []V) (V, ctl) {
		r := m.ctx.tru
		for _, x := range variadic(a[0]) {
			r = m.ctx.And(r, m.boolExpr(x))
		}
		return fromBool(r), cDone
	})
	V_("Or", func(m *Machine, g *G, a []V) (V, ctl) {
		r := m.ctx.fls
		for _, x := range variadic(a[0]) {
			r = m.ctx.Or(r, m.boolExpr(x))
		}
		return fromBool(r), cDone
	})
	V_("Not", func(m *Machine, g *G, a []V) (V, ctl) { return fromBool(m.ctx.Not(m.boolExpr(a[0]))), cDone })
	V_("Implies", func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.ctx.Or(m.ctx.Not(m.boolExpr(a[0])), m.boolExpr(a[1]))), cDone
	})
	V_("Iff", func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.ctx.Eq(m.boolExpr(a[0]), m.boolExpr(a[1]))), cDone
	})
	V_("EqInt", func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.eqV(g, m.p.tInt, a[0], a[1])), cDone
	})
	V_("EqStr", func(m *Machine, g *G, a []V) (V, ctl) { return fromBool(m.eqStr(a[0], a[1])), cDone })
	V_("LtStr", func(m *Machine, g *G, a []V) (V, ctl) { return fromBool(m.ltStr(a[0], a[1], false)), cDone })
	V_("Ite", func(m *Machine, g *G, a []V) (V, ctl) {
		return fromExpr(m.p.tInt, m.ctx.Ite(m.boolExpr(a[0]), m.toExpr(m.p.tInt, a[1]), m.toExpr(m.p.tInt, a[2]))), cDone
	})
	V_("IteBool", func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.ctx.Ite(m.boolExpr(a[0]), m.boolExpr(a[1]), m.boolExpr(a[2]))), cDone
	})
	V_("UF", func(m *Machine, g *G, a []V) (V, ctl) {
		name := m.cs(a[0])
		n := int64(a[1].n)
		var es []*Expr
		for _, x := range variadic(a[2]) {
			e := m.toExpr(m.p.tInt, x)
			if e.hi > 255 {
				m.end(eUnsupported, "UF argument out of range")
			}
			es = append(es, m.ctx.Trunc(e, 8))
		}
		w := bits.Len64(uint64(n - 1))
		if n <= 1 {
			return mkInt(0), cDone
		}
		u := m.ctx.UF(name, w, es...)
		u.hi = uint64(n - 1)
		if m.ufApps == nil {
			m.ufApps = map[string][]*Expr{}
		}
		seen := false
		for _, o := range m.ufApps[name] {
			if o == u {
				seen = true
				break
			}
		}
		if !seen {
			m.ufApps[name] = append(m.ufApps[name], u)
			if uint64(n-1) != mask(w) {
				m.assertPC(m.ctx.Cmp2(OUle, u, m.ctx.Const(w, uint64(n-1))))
			}
			m.extendUF(name, u)
		}
		return V{r: m.ctx.Zext(u, 64)}, cDone
	})
	// Possible decides whether the condition can hold on this path; it does not constrain the path.
	V_("Possible", func(m *Machine, g *G, a []V) (V, ctl) {
		e := m.boolExpr(a[0])
		name := m.uniq("possible")
		var val uint64
		switch {
		case e.isConst():
			val = e.val & 1
		case m.inPrefix():
			val = m.prefix[len(m.decs)].val
			m.decs = append(m.decs, dec{true, val})
		default:
			r, _ := m.sol.Check(e, false)
			m.w.stats.assertQ++
			if r != "unsat" {
				val = 1
			} else {
				m.w.stats.assertUnsat++
			}
			if r == "unknown" {
				m.w.noteUnknown()
			}
			m.decs = append(m.decs, dec{true, val})
		}
		m.inputs = append(m.inputs, Input{Name: name, Conc: val})
		return mkBool(val != 0), cDone
	})
	V_("Cover", func(m *Machine, g *G, a []V) (V, ctl) { m.w.cover(m.cs(a[0])); return V{}, cDone })
	V_("Obs", func(m *Machine, g *G, a []V) (V, ctl) {
		m.obs = append(m.obs, obsRec{m.cs(a[0]), a[1]})
		return V{}, cDone
	})
	V_("Symbolic", constFn(mkBool(true)))
	V_("Cut", func(m *Machine, g *G, a []V) (V, ctl) { m.end(eCut, "%s", m.cs(a[0])); return V{}, cDone })
	V_("Schedule", func(m *Machine, g *G, a []V) (V, ctl) {
		m.sched = true
		m.preempt = int(int64(a[0].n))
		return V{}, cDone
	})
	V_("Deterministic", func(m *Machine, g *G, a []V) (V, ctl) { m.sched = false; return V{}, cDone })
	V_("MapOrder", func(m *Machine, g *G, a []V) (V, ctl) { m.mapOrd = a[0].n != 0; return V{}, cDone })
	V_("RacePoints", func(m *Machine, g *G, a []V) (V, ctl) { m.schedMem = a[0].n != 0; return V{}, cDone })
	V_("enterCatch", func(m *Machine, g *G, a []V) (V, ctl) { m.catch++; return V{}, cDone })
	V_("leaveCatch", func(m *Machine, g *G, a []V) (V, ctl) { m.catch--; return V{}, cDone })
	V_("classify", func(m *Machine, g *G, a []V) (V, ctl) {
		i := ifaceOf(a[0])
		if i != nil && i.t == m.p.tExit {
			return mkInt(2), cDone
		}
		return mkInt(1), cDone
	})
	V_("Output", func(m *Machine, g *G, a []V) (V, ctl) {
		var b fmtBuf
		for _, x := range m.output {
			b.v(x)
		}
		m.output = nil
		return b.val(), cDone
	})
	V_("File", func(m *Machine, g *G, a []V) (V, ctl) {
		if m.side == nil {
			m.side = map[string]any{}
		}
		m.side["file:"+path.Clean(m.cs(a[0]))] = a[1]
		return a[0], cDone
	})
	V_("Env", func(m *Machine, g *G, a []V) (V, ctl) {
		m.side0()["env:"+m.cs(a[0])] = a[1]
		return V{}, cDone
	})
	V_("Args", func(m *Machine, g *G, a []V) (V, ctl) {
		m.side0()["args"] = a[0]
		return V{}, cDone
	})
}

func (m *Machine) side0() map[string]any {
	if m.side == nil {
		m.side = map[string]any{}
	}
	return m.side
}
