package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

func (m *Machine) get(fr *Frame, i int32) V {
	if i < constBase {
		return fr.locals[i]
	}
	if i < globalBase {
		return fr.fn.consts[i-constBase]
	}
	return m.globalPtr(int(i - globalBase))
}

func (m *Machine) follow(fr *Frame, e *edge) {
	if len(e.moves) == 1 {
		fr.locals[e.moves[0].dst] = m.get(fr, e.moves[0].src)
	} else if len(e.moves) > 0 {
		var buf [8]V
		tmp := buf[:0]
		for _, mv := range e.moves {
			tmp = append(tmp, m.get(fr, mv.src))
		}
		for i, mv := range e.moves {
			fr.locals[mv.dst] = tmp[i]
		}
	}
	fr.pc = e.pc
}

// exec runs g until it blocks, yields, finishes, or its barrier frame returns.
func (m *Machine) exec(g *G) {
	prev := m.cur
	m.cur = g
	defer func() { m.cur = prev }()
	g.yield = false
	for g.state == gRun && !g.bdone && !g.yield && !m.exited {
		if len(g.frames) == 0 {
			g.state = gDone
			return
		}
		fr := g.frames[len(g.frames)-1]
		if fr.unwinding != nil {
			if !m.unwind(g) {
				return
			}
			continue
		}
		m.run(g, fr)
	}
}

// run executes instructions of fr until control leaves it.
func (m *Machine) run(g *G, fr *Frame) {
	code := fr.fn.code
	loc := fr.locals
	lastB := int32(-1)
	for {
		m.steps++
		if profOn && m.steps%97 == 0 {
			m.prof()
		}
		if m.steps > m.budget {
			m.end(eBudget, "instruction budget exceeded")
		}
		in := &code[fr.pc]
		if in.bid != lastB {
			lastB = in.bid
			if !fr.fn.blkSeen[lastB].Load() {
				fr.fn.blkSeen[lastB].Store(true)
			}
		}
		switch in.op {
		case IAlloc:
			ag := newAgg(1)
			if in.ti.isAgg() {
				ag.f[0] = zero(in.ti)
			}
			loc[in.dst] = V{r: ag}
		case ILoad:
			if m.schedMem && in.a >= globalBase && m.tryYield(g) {
				return
			}
			p := m.get(fr, in.a)
			a, ok := p.r.(*Agg)
			if !ok {
				m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
				return
			}
			if in.ti.isAgg() {
				loc[in.dst] = deepCopy(in.ti, a.f[p.n])
			} else {
				loc[in.dst] = a.f[p.n]
			}
		case IStore:
			if m.schedMem && in.a >= globalBase && m.tryYield(g) {
				return
			}
			p := m.get(fr, in.a)
			a, ok := p.r.(*Agg)
			if !ok {
				m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
				return
			}
			v := m.get(fr, in.b)
			if in.ti.isAgg() {
				copyInto(in.ti, &a.f[p.n], v)
			} else {
				a.f[p.n] = v
			}
		case IMove:
			loc[in.dst] = m.get(fr, in.a)
		case IBin:
			v, ok := m.binop(g, in, m.get(fr, in.a), m.get(fr, in.b))
			if !ok {
				return
			}
			loc[in.dst] = v
		case IUn:
			loc[in.dst] = m.unop(in, m.get(fr, in.a))
		case IConvert:
			v, ok := m.convert(g, in.ti, in.ti2, m.get(fr, in.a))
			if !ok {
				return
			}
			loc[in.dst] = v
		case IMakeIface:
			loc[in.dst] = V{r: &Iface{t: in.ti, v: m.get(fr, in.a)}}
		case IMakeClosure:
			env := make([]V, len(in.args))
			for i, a := range in.args {
				env[i] = m.get(fr, a)
			}
			loc[in.dst] = V{r: &Closure{fn: in.fn, env: env}}
		case IMakeMap:
			loc[in.dst] = V{r: m.newMap(in.ti)}
		case IMakeChan:
			n := m.concretize(m.p.tInt, m.get(fr, in.a))
			m.nextCh++
			loc[in.dst] = V{r: &Chan{id: m.nextCh, cap: int(int64(n.n)), elem: in.ti.elem}}
		case IMakeSlice:
			ln := int(int64(m.concretize(m.p.tInt, m.get(fr, in.a)).n))
			cp := int(int64(m.concretize(m.p.tInt, m.get(fr, in.b)).n))
			if ln < 0 || cp < ln {
				m.throwRT(g, "runtime error: makeslice: len out of range")
				return
			}
			if cp > 1<<22 {
				m.end(eBudget, "slice of %d elements", cp)
			}
			loc[in.dst] = V{r: &Slice{arr: newArr(in.ti.elem, cp), len: ln, cap: cp}}
		case ISlice:
			v, ok := m.slice(g, fr, in)
			if !ok {
				return
			}
			loc[in.dst] = v
		case IFieldAddr:
			p := m.get(fr, in.a)
			a, ok := p.r.(*Agg)
			if !ok {
				m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
				return
			}
			loc[in.dst] = V{r: a.f[p.n].r.(*Agg), n: uint64(in.b)}
		case IField:
			loc[in.dst] = m.get(fr, in.a).r.(*Agg).f[in.b]
		case IExtract:
			loc[in.dst] = m.get(fr, in.a).r.(*Agg).f[in.b]
		case IIndexAddr:
			x := m.get(fr, in.a)
			iv := m.concretize(in.ti2, m.get(fr, in.b))
			i := int(int64(iv.n))
			if in.ti.k == KSlice {
				n := 0
				s, ok := x.r.(*Slice)
				if ok {
					n = s.len
				}
				if i < 0 || i >= n {
					m.throwRT(g, fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
					return
				}
				loc[in.dst] = V{r: s.arr, n: uint64(s.off + i)}
			} else { // pointer to array
				a, ok := x.r.(*Agg)
				if !ok {
					m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
					return
				}
				arr := a.f[x.n].r.(*Agg)
				if i < 0 || i >= len(arr.f) {
					m.throwRT(g, fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(arr.f)))
					return
				}
				loc[in.dst] = V{r: arr, n: uint64(i)}
			}
		case IIndex:
			x := m.get(fr, in.a)
			i := int(int64(m.concretize(in.ti2, m.get(fr, in.b)).n))
			if in.ti.k == KString {
				if i < 0 || i >= strLen(x) {
					m.throwRT(g, fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, strLen(x)))
					return
				}
				loc[in.dst] = strByte(x, i)
			} else {
				arr := x.r.(*Agg)
				if i < 0 || i >= len(arr.f) {
					m.throwRT(g, fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(arr.f)))
					return
				}
				loc[in.dst] = arr.f[i]
			}
		case ILookup:
			x := m.get(fr, in.a)
			if in.ti.k == KString {
				i := int(int64(m.concretize(in.ti2, m.get(fr, in.b)).n))
				if i < 0 || i >= strLen(x) {
					m.throwRT(g, fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, strLen(x)))
					return
				}
				loc[in.dst] = strByte(x, i)
				break
			}
			var e *mapEntry
			if mp, ok := x.r.(*Map); ok {
				e = m.mapFind(g, mp, m.get(fr, in.b))
				if fr.unwinding != nil {
					return
				}
			}
			var v V
			if e != nil {
				v = deepCopy(in.ti.elem, e.v)
			} else {
				v = zero(in.ti.elem)
			}
			if in.flag {
				loc[in.dst] = V{r: &Agg{f: []V{v, mkBool(e != nil)}}}
			} else {
				loc[in.dst] = v
			}
		case IMapUpdate:
			mp, ok := m.get(fr, in.a).r.(*Map)
			if !ok {
				m.throwRT(g, "assignment to entry in nil map")
				return
			}
			m.mapSet(g, mp, m.get(fr, in.b), m.get(fr, in.c))
			if fr.unwinding != nil {
				return
			}
		case IRange:
			x := m.get(fr, in.a)
			if in.ti.k == KString {
				loc[in.dst] = V{r: &strIter{s: x}}
			} else {
				it := &mapIter{}
				if mp, ok := x.r.(*Map); ok {
					it.m = mp
					for _, e := range mp.entries {
						if !e.dead {
							it.list = append(it.list, e)
						}
					}
					if m.mapOrd && len(it.list) > 1 {
						for i := 0; i+1 < len(it.list); i++ {
							j := i + m.fork(len(it.list)-i)
							m.schedTr = append(m.schedTr, j)
							it.list[i], it.list[j] = it.list[j], it.list[i]
						}
					}
				}
				loc[in.dst] = V{r: it}
			}
		case INext:
			switch it := loc[in.a].r.(type) {
			case *strIter:
				if it.i >= strLen(it.s) {
					loc[in.dst] = V{r: &Agg{f: []V{{}, {}, {}}}}
				} else if s, ok := concStr(it.s); ok {
					r, sz := utf8.DecodeRuneInString(s[it.i:])
					loc[in.dst] = V{r: &Agg{f: []V{mkBool(true), mkInt(it.i), mkInt(int(r))}}}
					it.i += sz
				} else {
					b := strByte(it.s, it.i)
					r := V{n: b.n}
					if e, ok := b.r.(*Expr); ok {
						if m.decide(m.ctx.Cmp(OUlt, e, m.ctx.Const(8, 128))) {
							r = fromExpr(&TInfo{k: KInt, w: 32, signed: true}, m.ctx.Zext(e, 32))
						} else {
							m.end(eCut, "non-ASCII symbolic string iteration")
						}
					} else if b.n >= 128 {
						m.end(eUnsupported, "non-ASCII in symbolic string")
					}
					loc[in.dst] = V{r: &Agg{f: []V{mkBool(true), mkInt(it.i), r}}}
					it.i++
				}
			case *mapIter:
				for it.i < len(it.list) && it.list[it.i].dead {
					it.i++
				}
				if it.i >= len(it.list) {
					loc[in.dst] = V{r: &Agg{f: []V{{}, zero(in.ti.fields[1]), zero(in.ti.fields[2])}}}
				} else {
					e := it.list[it.i]
					it.i++
					loc[in.dst] = V{r: &Agg{f: []V{mkBool(true), e.k, deepCopy(it.m.vt, e.v)}}}
				}
			}
		case ITypeAssert:
			x := m.get(fr, in.a)
			ok := false
			var v V
			if i, is := x.r.(*Iface); is {
				if in.ti.isIface {
					if m.p.implements(i.t, in.ti) {
						ok, v = true, x
					}
				} else if i.t == in.ti {
					ok, v = true, i.v
				}
			}
			if in.flag {
				if !ok {
					v = zero(in.ti)
				}
				loc[in.dst] = V{r: &Agg{f: []V{v, mkBool(ok)}}}
			} else {
				if !ok {
					dyn := "nil"
					if i, is := x.r.(*Iface); is {
						dyn = i.t.str
					}
					m.throwRT(g, "interface conversion: interface is "+dyn+", not "+in.ti.str)
					return
				}
				loc[in.dst] = v
			}
		case IJump:
			m.follow(fr, &in.e0)
			continue
		case IIf:
			c := m.get(fr, in.a)
			b := c.n != 0
			if e, ok := c.r.(*Expr); ok {
				b = m.decide(e)
			}
			if b {
				m.follow(fr, &in.e0)
			} else {
				m.follow(fr, &in.e1)
			}
			continue
		case IReturn:
			var v V
			switch len(in.args) {
			case 0:
			case 1:
				v = m.get(fr, in.args[0])
			default:
				a := newAgg(len(in.args))
				for i, x := range in.args {
					a.f[i] = m.get(fr, x)
				}
				v.r = a
			}
			m.doReturn(g, v)
			return
		case IRunDefers:
			if k := len(fr.defers); k > 0 {
				d := fr.defers[k-1]
				fr.defers = fr.defers[:k-1]
				m.startDeferred(g, fr, d)
				if g.frames[len(g.frames)-1] != fr || fr.unwinding != nil || g.yield || m.exited {
					return
				}
				continue
			}
		case IPanic:
			v := m.get(fr, in.a)
			m.throw(g, &panicRec{val: v, msg: m.ifaceMsg(v)})
			return
		case ICall:
			if !m.doCall(g, fr, in) {
				return
			}
		case IDefer:
			d := deferred{}
			args := make([]V, 0, len(in.args)+1)
			switch {
			case in.bi != nil:
				d.bi = in
			case in.meth != nil:
				x := m.get(fr, in.a)
				i, ok := x.r.(*Iface)
				if !ok {
					m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
					return
				}
				d.fn = &Closure{fn: m.p.method(i.t, in.meth, in.key)}
				args = append(args, i.v)
			case in.fn != nil:
				if in.fn.intr != nil {
					d.intr = in.fn
				} else {
					d.fn = &Closure{fn: in.fn}
				}
			default:
				switch f := m.get(fr, in.a).r.(type) {
				case *Closure:
					d.fn = f
					if f.fn.intr != nil {
						d.intr = f.fn
					}
				case *Native:
					d.nat = f
				default:
					m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
					return
				}
			}
			for _, a := range in.args {
				args = append(args, m.get(fr, a))
			}
			d.args = args
			tgt := fr
			if in.c >= 0 {
				if df, ok := m.get(fr, in.c).r.(*Frame); ok {
					tgt = df
				}
			}
			tgt.defers = append(tgt.defers, d)
		case IGo:
			ng := m.newG()
			args := make([]V, 0, len(in.args)+1)
			var cl *Closure
			switch {
			case in.meth != nil:
				i, ok := m.get(fr, in.a).r.(*Iface)
				if !ok {
					m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
					return
				}
				cl = &Closure{fn: m.p.method(i.t, in.meth, in.key)}
				args = append(args, i.v)
			case in.fn != nil:
				cl = &Closure{fn: in.fn}
			case in.bi != nil:
				m.end(eUnsupported, "go builtin")
			default:
				cl, _ = m.get(fr, in.a).r.(*Closure)
				if cl == nil {
					m.throwRT(g, "go of nil func value")
					return
				}
			}
			for _, a := range in.args {
				args = append(args, m.get(fr, a))
			}
			m.pushFrame(ng, cl.fn, args, cl.env, -1)
			fr.pc++
			if m.schedPoint(g) {
				g.yield = true
				return
			}
			continue
		case ISend:
			if m.send(g, fr, m.get(fr, in.a), m.get(fr, in.b)) {
				return
			}
		case IRecv:
			if m.recv(g, fr, in) {
				return
			}
		case ISelect:
			if m.selectOp(g, fr, in) {
				return
			}
		case ISliceToArr:
			s, _ := m.get(fr, in.a).r.(*Slice)
			if s == nil || s.len < in.ti.elem.n || s.off != 0 || len(s.arr.f) != in.ti.elem.n {
				m.end(eUnsupported, "slice to array pointer")
			}
			loc[in.dst] = V{r: &Agg{f: []V{{r: s.arr}}}}
		default:
			m.end(eUnsupported, "instruction %s", in.name)
		}
		fr.pc++
	}
}

func newArr(elem *TInfo, n int) *Agg {
	a := &Agg{f: make([]V, n)}
	if elem.isAgg() {
		for i := range a.f {
			a.f[i] = zero(elem)
		}
	}
	return a
}

// doCall performs a call instruction. It returns false when run must stop (frame pushed, blocked, panic).
// The pc is advanced here in those cases.
func (m *Machine) doCall(g *G, fr *Frame, in *instr) bool {
	if in.bi != nil {
		args := make([]V, len(in.args))
		for i, a := range in.args {
			args[i] = m.get(fr, a)
		}
		v := m.builtin(g, fr, in, args)
		if fr.unwinding != nil {
			return false
		}
		fr.locals[in.dst] = v
		return true
	}
	args := m.abuf[:0]
	fn := in.fn
	var env []V
	if in.meth != nil {
		x := m.get(fr, in.a)
		i, ok := x.r.(*Iface)
		if !ok {
			m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
			return false
		}
		fn = m.p.method(i.t, in.meth, in.key)
		if fn == nil {
			m.end(eUnsupported, "method %s of %s not found", in.meth.Name(), i.t.str)
		}
		args = append(args, i.v)
	} else if fn == nil {
		switch f := m.get(fr, in.a).r.(type) {
		case *Closure:
			fn = f.fn
			env = f.env
		case *Native:
			for _, a := range in.args {
				args = append(args, m.get(fr, a))
			}
			v := f.f(m, g, append([]V(nil), args...))
			if fr.unwinding != nil {
				return false
			}
			fr.locals[in.dst] = v
			return true
		default:
			m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
			return false
		}
	}
	for _, a := range in.args {
		args = append(args, m.get(fr, a))
	}
	if fn.intr != nil {
		if !fn.used.Load() {
			fn.used.Store(true)
		}
		v, c := fn.intr(m, g, append([]V(nil), args...))
		switch c {
		case cDone:
			if fr.unwinding != nil || m.exited {
				return false
			}
			if g.yield {
				fr.locals[in.dst] = v
				fr.pc++
				return false
			}
			fr.locals[in.dst] = v
			return true
		case cBlock:
			return false // pc unchanged: retried when runnable
		case cCall:
			top := g.frames[len(g.frames)-1]
			top.dst = in.dst
			fr.pc++
			return false
		case cParked:
			fr.pc++
			return false
		case cInterp:
			if !fn.compiled.Load() {
				m.p.compile(fn)
			}
		default:
			return false
		}
	}
	fr.pc++
	m.abuf = args[:0]
	m.pushFrame(g, fn, args, env, in.dst)
	return false
}

func (m *Machine) unop(in *instr, v V) V {
	ti := in.ti
	switch in.tok {
	case token.NOT:
		if e, ok := v.r.(*Expr); ok {
			return fromBool(m.ctx.Not(e))
		}
		return mkBool(v.n == 0)
	case token.SUB:
		if ti.k == KFloat {
			return mkFloat(-math.Float64frombits(v.n))
		}
		if e, ok := v.r.(*Expr); ok {
			return fromExpr(ti, m.ctx.Bin(OSub, m.ctx.Const(ti.w, 0), e))
		}
		return V{n: normInt(ti, -v.n)}
	case token.XOR:
		if e, ok := v.r.(*Expr); ok {
			return fromExpr(ti, m.ctx.Bin(OBxor, e, m.ctx.Const(ti.w, ^uint64(0))))
		}
		return V{n: normInt(ti, ^v.n)}
	}
	m.end(eUnsupported, "unop %s", in.tok)
	return V{}
}

func (m *Machine) binop(g *G, in *instr, a, b V) (V, bool) {
	ti := in.ti
	switch in.tok {
	case token.EQL, token.NEQ:
		var e *Expr
		if ti.k == KInt && a.r == nil && b.r == nil {
			return mkBool((a.n == b.n) == (in.tok == token.EQL)), true
		}
		if ti != in.ti2 && ti.k != in.ti2.k {
			// interface compared with a concrete value
			if ti.k == KIface && in.ti2.k != KIface && in.ti2.k != KOther {
				b = V{r: &Iface{t: in.ti2, v: b}}
			} else if in.ti2.k == KIface && ti.k != KIface && ti.k != KOther {
				a = V{r: &Iface{t: ti, v: a}}
				ti = in.ti2
			}
		}
		e = m.eqV(g, ti, a, b)
		if e == nil {
			return V{}, false
		}
		if in.tok == token.NEQ {
			e = m.ctx.Not(e)
		}
		return fromBool(e), true
	}
	switch ti.k {
	case KInt:
		return m.intBin(g, ti, in.ti2, in.tok, a, b)
	case KString:
		switch in.tok {
		case token.ADD:
			if x, ok := concStr(a); ok {
				if y, ok := concStr(b); ok {
					return mkStr(x + y), true
				}
			}
			p, q := strBytes(a), strBytes(b)
			r := make([]V, 0, len(p)+len(q))
			r = append(append(r, p...), q...)
			return mkSymStr(r), true
		case token.LSS:
			return fromBool(m.ltStr(a, b, false)), true
		case token.LEQ:
			return fromBool(m.ltStr(a, b, true)), true
		case token.GTR:
			return fromBool(m.ltStr(b, a, false)), true
		case token.GEQ:
			return fromBool(m.ltStr(b, a, true)), true
		}
	case KFloat:
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return mkBool(x < y), true
		case token.LEQ:
			return mkBool(x <= y), true
		case token.GTR:
			return mkBool(x > y), true
		case token.GEQ:
			return mkBool(x >= y), true
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return mkFloat(r), true
	case KBool:
		ea, eb := m.boolExpr(a), m.boolExpr(b)
		switch in.tok {
		case token.AND, token.LAND:
			return fromBool(m.ctx.And(ea, eb)), true
		case token.OR, token.LOR:
			return fromBool(m.ctx.Or(ea, eb)), true
		}
	case KUnsafe:
		return m.intBin(g, m.p.tInt, m.p.tInt, in.tok, a, b)
	}
	m.end(eUnsupported, "binop %s on %s", in.tok, ti.str)
	return V{}, false
}

func (m *Machine) intBin(g *G, ti, ti2 *TInfo, tok token.Token, a, b V) (V, bool) {
	if a.r == nil && b.r == nil {
		x, y := a.n, b.n
		sx, sy := int64(x), int64(y)
		switch tok {
		case token.ADD:
			return V{n: normInt(ti, x+y)}, true
		case token.SUB:
			return V{n: normInt(ti, x-y)}, true
		case token.MUL:
			return V{n: normInt(ti, x*y)}, true
		case token.QUO, token.REM:
			if y == 0 {
				m.throwRT(g, "runtime error: integer divide by zero")
				return V{}, false
			}
			if ti.signed {
				if sy == -1 {
					if tok == token.QUO {
						return V{n: normInt(ti, -x)}, true
					}
					return V{}, true
				}
				if tok == token.QUO {
					return V{n: normInt(ti, uint64(sx/sy))}, true
				}
				return V{n: normInt(ti, uint64(sx%sy))}, true
			}
			if tok == token.QUO {
				return V{n: x / y}, true
			}
			return V{n: x % y}, true
		case token.AND:
			return V{n: x & y}, true
		case token.OR:
			return V{n: x | y}, true
		case token.XOR:
			return V{n: normInt(ti, x^y)}, true
		case token.AND_NOT:
			return V{n: x &^ y}, true
		case token.SHL, token.SHR:
			if ti2.signed && sy < 0 {
				m.throwRT(g, "runtime error: negative shift amount")
				return V{}, false
			}
			if tok == token.SHL {
				if y >= 64 {
					return V{}, true
				}
				return V{n: normInt(ti, x<<y)}, true
			}
			if ti.signed {
				if y >= 64 {
					y = 63
				}
				return V{n: uint64(sx >> y)}, true
			}
			if y >= 64 {
				return V{}, true
			}
			return V{n: x >> y}, true
		case token.LSS:
			if ti.signed {
				return mkBool(sx < sy), true
			}
			return mkBool(x < y), true
		case token.LEQ:
			if ti.signed {
				return mkBool(sx <= sy), true
			}
			return mkBool(x <= y), true
		case token.GTR:
			if ti.signed {
				return mkBool(sx > sy), true
			}
			return mkBool(x > y), true
		case token.GEQ:
			if ti.signed {
				return mkBool(sx >= sy), true
			}
			return mkBool(x >= y), true
		}
		m.end(eUnsupported, "int op %s", tok)
	}
	c := m.ctx
	ea := m.toExpr(ti, a)
	if tok == token.SHL || tok == token.SHR {
		eb := m.toExpr(ti2, b)
		if ti2.signed {
			if m.decide(c.Cmp(OSlt, eb, c.Const(eb.w, 0))) {
				m.throwRT(g, "runtime error: negative shift amount")
				return V{}, false
			}
		}
		if eb.w < ea.w {
			eb = c.Zext(eb, ea.w)
		} else if eb.w > ea.w {
			big := c.Cmp(OUle, c.Const(eb.w, uint64(ea.w)), eb)
			eb = c.Ite(big, c.Const(ea.w, uint64(ea.w)), c.Trunc(eb, ea.w))
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		return fromExpr(ti, c.Bin(op, ea, eb)), true
	}
	eb := m.toExpr(ti, b)
	lt, le := OUlt, OUle
	if ti.signed {
		lt, le = OSlt, OSle
	}
	switch tok {
	case token.ADD:
		return fromExpr(ti, c.Bin(OAdd, ea, eb)), true
	case token.SUB:
		return fromExpr(ti, c.Bin(OSub, ea, eb)), true
	case token.MUL:
		return fromExpr(ti, c.Bin(OMul, ea, eb)), true
	case token.AND:
		return fromExpr(ti, c.Bin(OBand, ea, eb)), true
	case token.OR:
		return fromExpr(ti, c.Bin(OBor, ea, eb)), true
	case token.XOR:
		return fromExpr(ti, c.Bin(OBxor, ea, eb)), true
	case token.AND_NOT:
		return fromExpr(ti, c.Bin(OBand, ea, c.Bin(OBxor, eb, c.Const(ti.w, ^uint64(0))))), true
	case token.QUO, token.REM:
		if m.decide(c.Eq(eb, c.Const(ti.w, 0))) {
			m.throwRT(g, "runtime error: integer divide by zero")
			return V{}, false
		}
		op := OUDiv
		if tok == token.QUO && ti.signed {
			op = OSDiv
		} else if tok == token.REM {
			op = OURem
			if ti.signed {
				op = OSRem
			}
		}
		return fromExpr(ti, c.Bin(op, ea, eb)), true
	case token.LSS:
		return fromBool(c.Cmp(lt, ea, eb)), true
	case token.LEQ:
		return fromBool(c.Cmp(le, ea, eb)), true
	case token.GTR:
		return fromBool(c.Cmp(lt, eb, ea)), true
	case token.GEQ:
		return fromBool(c.Cmp(le, eb, ea)), true
	}
	m.end(eUnsupported, "symbolic int op %s", tok)
	return V{}, false
}

func (m *Machine) convert(g *G, from, to *TInfo, v V) (V, bool) {
	switch {
	case from.k == KInt && to.k == KInt:
		if e, ok := v.r.(*Expr); ok {
			if to.w <= from.w {
				return fromExpr(to, m.ctx.Trunc(e, to.w)), true
			}
			if from.signed {
				return fromExpr(to, m.ctx.Sext(e, to.w)), true
			}
			return fromExpr(to, m.ctx.Zext(e, to.w)), true
		}
		return V{n: normInt(to, v.n)}, true
	case from.k == KInt && to.k == KFloat:
		v = m.concretize(from, v)
		var f float64
		if from.signed {
			f = float64(int64(v.n))
		} else {
			f = float64(v.n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return mkFloat(f), true
	case from.k == KFloat && to.k == KInt:
		f := math.Float64frombits(v.n)
		if to.signed {
			return V{n: normInt(to, uint64(int64(f)))}, true
		}
		return V{n: normInt(to, uint64(f))}, true
	case from.k == KFloat && to.k == KFloat:
		f := math.Float64frombits(v.n)
		if to.w == 32 {
			f = float64(float32(f))
		}
		return mkFloat(f), true
	case from.k == KInt && to.k == KString:
		if e, ok := v.r.(*Expr); ok {
			if m.decide(m.ctx.Cmp(OUlt, e, m.ctx.Const(e.w, 128))) {
				return mkSymStr([]V{fromExpr(m.p.tByte, m.ctx.Trunc(e, 8))}), true
			}
			v = m.concretize(from, v)
		}
		return mkStr(string(rune(int64(v.n)))), true
	case from.k == KString && to.k == KSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			arr := &Agg{f: append([]V(nil), b...)}
			return V{r: &Slice{arr: arr, len: len(b), cap: len(b)}}, true
		}
		if s, ok := concStr(v); ok {
			arr := &Agg{}
			for _, r := range s {
				arr.f = append(arr.f, mkInt(int(r)))
			}
			return V{r: &Slice{arr: arr, len: len(arr.f), cap: len(arr.f)}}, true
		}
		arr := &Agg{}
		for _, b := range strBytes(v) {
			if e, ok := b.r.(*Expr); ok {
				if !m.decide(m.ctx.Cmp(OUlt, e, m.ctx.Const(8, 128))) {
					m.end(eCut, "non-ASCII symbolic string")
				}
				arr.f = append(arr.f, V{r: m.ctx.Zext(e, 32)})
			} else {
				arr.f = append(arr.f, b)
			}
		}
		return V{r: &Slice{arr: arr, len: len(arr.f), cap: len(arr.f)}}, true
	case from.k == KSlice && to.k == KString:
		s, ok := v.r.(*Slice)
		if !ok {
			return V{}, true
		}
		if from.elem.w == 8 {
			return mkSymStr(append([]V(nil), s.arr.f[s.off:s.off+s.len]...)), true
		}
		var bs []V
		for _, x := range s.arr.f[s.off : s.off+s.len] {
			if e, ok := x.r.(*Expr); ok {
				if !m.decide(m.ctx.Cmp(OUlt, e, m.ctx.Const(e.w, 128))) {
					m.end(eCut, "non-ASCII symbolic rune")
				}
				bs = append(bs, fromExpr(m.p.tByte, m.ctx.Trunc(e, 8)))
			} else {
				for _, c := range []byte(string(rune(int64(x.n)))) {
					bs = append(bs, V{n: uint64(c)})
				}
			}
		}
		return mkSymStr(bs), true
	case to.k == KUnsafe || from.k == KUnsafe:
		return v, true
	case from.k == to.k:
		return v, true
	}
	m.end(eUnsupported, "convert %s to %s", from.str, to.str)
	return V{}, false
}

func (m *Machine) slice(g *G, fr *Frame, in *instr) (V, bool) {
	x := m.get(fr, in.a)
	idx := func(i int32, def int) int {
		if i < 0 {
			return def
		}
		return int(int64(m.concretize(m.p.tInt, m.get(fr, i)).n))
	}
	bad := func(lo, hi, cp int) (V, bool) {
		m.throwRT(g, fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp))
		return V{}, false
	}
	switch in.ti.k {
	case KString:
		n := strLen(x)
		lo := idx(in.b, 0)
		hi := idx(in.c, n)
		if lo < 0 || hi < lo || hi > n {
			return bad(lo, hi, n)
		}
		if s, ok := concStr(x); ok {
			return mkStr(s[lo:hi]), true
		}
		return mkSymStr(strBytes(x)[lo:hi]), true
	case KSlice:
		s, ok := x.r.(*Slice)
		if !ok {
			lo, hi := idx(in.b, 0), idx(in.c, 0)
			if lo != 0 || hi != 0 {
				return bad(lo, hi, 0)
			}
			return V{}, true
		}
		lo := idx(in.b, 0)
		hi := idx(in.c, s.len)
		mx := idx(in.d, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			return bad(lo, hi, s.cap)
		}
		return V{r: &Slice{arr: s.arr, off: s.off + lo, len: hi - lo, cap: mx - lo}}, true
	case KPtr:
		a, ok := x.r.(*Agg)
		if !ok {
			m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
			return V{}, false
		}
		arr := a.f[x.n].r.(*Agg)
		n := len(arr.f)
		lo := idx(in.b, 0)
		hi := idx(in.c, n)
		mx := idx(in.d, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			return bad(lo, hi, n)
		}
		return V{r: &Slice{arr: arr, off: lo, len: hi - lo, cap: mx - lo}}, true
	}
	m.end(eUnsupported, "slice of %s", in.ti.str)
	return V{}, false
}

func (m *Machine) builtin(g *G, fr *Frame, in *instr, args []V) V {
	switch in.name {
	case "len", "cap":
		x := args[0]
		switch s := x.r.(type) {
		case nil:
			if in.ntype[0].k == KPtr {
				return mkInt(in.ntype[0].elem.n)
			}
			return V{}
		case string:
			return mkInt(len(s))
		case *SymStr:
			return mkInt(len(s.b))
		case *Slice:
			if in.name == "cap" {
				return mkInt(s.cap)
			}
			return mkInt(s.len)
		case *Map:
			return mkInt(s.n)
		case *Chan:
			if in.name == "cap" {
				return mkInt(s.cap)
			}
			return mkInt(len(s.buf))
		case *Agg:
			if in.ntype[0].k == KPtr {
				return mkInt(in.ntype[0].elem.n)
			}
			return mkInt(len(s.f))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []V
		var elem *TInfo = in.ntype[0].elem
		switch s := args[1].r.(type) {
		case nil:
			return args[0]
		case *Slice:
			add = s.arr.f[s.off : s.off+s.len]
		default:
			add = strBytes(args[1])
		}
		old, _ := args[0].r.(*Slice)
		if len(add) == 0 {
			return args[0]
		}
		return V{r: appendSlice(elem, old, add)}
	case "copy":
		dst, _ := args[0].r.(*Slice)
		if dst == nil {
			return V{}
		}
		var src []V
		switch s := args[1].r.(type) {
		case nil:
			return V{}
		case *Slice:
			src = s.arr.f[s.off : s.off+s.len]
		default:
			src = strBytes(args[1])
		}
		n := min(dst.len, len(src))
		elem := in.ntype[0].elem
		tmp := make([]V, n)
		for i := 0; i < n; i++ {
			tmp[i] = deepCopy(elem, src[i])
		}
		for i := 0; i < n; i++ {
			copyInto(elem, &dst.arr.f[dst.off+i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		if mp, ok := args[0].r.(*Map); ok {
			m.mapDelete(g, mp, args[1])
		}
		return V{}
	case "clear":
		switch s := args[0].r.(type) {
		case *Map:
			s.entries = nil
			s.idx = map[string]*mapEntry{}
			s.n, s.nsym = 0, 0
		case *Slice:
			for i := 0; i < s.len; i++ {
				copyInto(in.ntype[0].elem, &s.arr.f[s.off+i], zero(in.ntype[0].elem))
			}
		}
		return V{}
	case "min", "max":
		r := args[0]
		ti := in.ntype[0]
		for _, x := range args[1:] {
			tok := token.LSS
			bi := &instr{tok: tok, ti: ti, ti2: ti}
			var c V
			if in.name == "min" {
				c, _ = m.binop(g, bi, x, r)
			} else {
				c, _ = m.binop(g, bi, r, x)
			}
			if e, ok := c.r.(*Expr); ok {
				if ti.k == KInt {
					r = fromExpr(ti, m.ctx.Ite(e, m.toExpr(ti, x), m.toExpr(ti, r)))
					continue
				}
				if m.decide(e) {
					r = x
				}
				continue
			}
			if c.n != 0 {
				r = x
			}
		}
		return r
	case "print", "println":
		return V{}
	case "close":
		ch, ok := args[0].r.(*Chan)
		if !ok {
			m.throwRT(g, "close of nil channel")
			return V{}
		}
		if ch.closed {
			m.throwRT(g, "close of closed channel")
			return V{}
		}
		ch.closed = true
		for _, w := range ch.recvq {
			if w.isSel && w.sel.fired {
				continue
			}
			m.wakeRecv(w, zero(ch.elem), false)
		}
		ch.recvq = nil
		for _, w := range ch.sendq {
			if w.isSel && w.sel.fired {
				continue
			}
			m.end(eUnsupported, "close with parked senders")
		}
		return V{}
	case "recover":
		if d := fr.isDeferred; d != nil && d.unwinding != nil && !d.unwinding.recovered {
			d.unwinding.recovered = true
			return d.unwinding.val
		}
		return V{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			m.throwRT(g, "value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return V{r: fr}
	case "String": // unsafe.String
		n := int(int64(args[1].n))
		if n == 0 {
			return V{}
		}
		a := args[0].r.(*Agg)
		return mkSymStr(append([]V(nil), a.f[args[0].n:int(args[0].n)+n]...))
	case "StringData":
		b := strBytes(args[0])
		return V{r: &Agg{f: b}}
	case "SliceData":
		s, ok := args[0].r.(*Slice)
		if !ok {
			return V{}
		}
		return V{r: s.arr, n: uint64(s.off)}
	case "Slice": // unsafe.Slice
		n := int(int64(args[1].n))
		if args[0].r == nil {
			return V{}
		}
		return V{r: &Slice{arr: args[0].r.(*Agg), off: int(args[0].n), len: n, cap: n}}
	}
	m.end(eUnsupported, "builtin %s", in.name)
	return V{}
}

func growCap(old, need int) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	// round up to even sizes as the allocator does for small word-sized elements
	switch {
	case c <= 1:
		c = max(c, need)
	case c%2 == 1:
		c++
	}
	return c
}

func appendSlice(elem *TInfo, old *Slice, add []V) *Slice {
	n := 0
	cp := 0
	if old != nil {
		n, cp = old.len, old.cap
	}
	need := n + len(add)
	if need <= cp {
		r := &Slice{arr: old.arr, off: old.off, len: need, cap: cp}
		if elem.isAgg() {
			tmp := make([]V, len(add))
			for i := range add {
				tmp[i] = deepCopy(elem, add[i])
			}
			add = tmp
		}
		if elem.isAgg() {
			for i, v := range add {
				copyInto(elem, &r.arr.f[r.off+n+i], v)
			}
		} else {
			copy(r.arr.f[r.off+n:], add)
		}
		return r
	}
	nc := growCap(cp, need)
	arr := &Agg{f: make([]V, nc)}
	if elem.isAgg() {
		for i := 0; i < n; i++ {
			arr.f[i] = deepCopy(elem, old.arr.f[old.off+i])
		}
		for i, v := range add {
			arr.f[n+i] = deepCopy(elem, v)
		}
		for i := need; i < nc; i++ {
			arr.f[i] = zero(elem)
		}
	} else {
		if n > 0 {
			copy(arr.f, old.arr.f[old.off:old.off+n])
		}
		copy(arr.f[n:], add)
	}
	return &Slice{arr: arr, len: need, cap: nc}
}

// ---------------------------------------------------------------- channels

func (m *Machine) wakeRecv(w *waiter, v V, ok bool) {
	g := w.g
	fr := g.frames[len(g.frames)-1]
	in := &fr.fn.code[fr.pc]
	if w.isSel {
		w.sel.fired = true
		m.finishSelect(fr, in, w.idx, v, ok)
	} else {
		if in.flag {
			fr.locals[in.dst] = V{r: &Agg{f: []V{v, mkBool(ok)}}}
		} else {
			fr.locals[in.dst] = v
		}
	}
	fr.pc++
	g.state = gRun
	g.ready = nil
}

func (m *Machine) wakeSend(w *waiter) {
	g := w.g
	fr := g.frames[len(g.frames)-1]
	in := &fr.fn.code[fr.pc]
	if w.isSel {
		w.sel.fired = true
		m.finishSelect(fr, in, w.idx, V{}, false)
	}
	fr.pc++
	g.state = gRun
	g.ready = nil
}

func (m *Machine) finishSelect(fr *Frame, in *instr, idx int, v V, ok bool) {
	t := &Agg{f: []V{mkInt(idx), mkBool(ok)}}
	for i, s := range in.sel {
		if !s.send {
			if i == idx {
				t.f = append(t.f, v)
			} else {
				t.f = append(t.f, zero(s.elem))
			}
		}
	}
	fr.locals[in.dst] = V{r: t}
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.isSel && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}
func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !(w.isSel && w.sel.fired) {
			return true
		}
	}
	return false
}

func canSend(ch *Chan) bool { return ch.closed || hasLive(ch.recvq) || len(ch.buf) < ch.cap }
func canRecv(ch *Chan) bool { return ch.closed || len(ch.buf) > 0 || hasLive(ch.sendq) }

// doSend performs a send known to be possible.
func (m *Machine) doSend(g *G, ch *Chan, v V) bool {
	if ch.closed {
		m.throwRT(g, "send on closed channel")
		return false
	}
	if w := popLive(&ch.recvq); w != nil {
		m.wakeRecv(w, v, true)
		return true
	}
	ch.buf = append(ch.buf, v)
	return true
}

func (m *Machine) doRecv(ch *Chan) (V, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]V(nil), ch.buf[1:]...)
		if w := popLive(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			m.wakeSend(w)
		}
		return v, true
	}
	if w := popLive(&ch.sendq); w != nil {
		m.wakeSend(w)
		return w.val, true
	}
	return zero(ch.elem), false // closed
}

func (m *Machine) park(g *G, why string) {
	g.state = gBlocked
	g.ready = nil
	g.why = why
}

// send: returns true when run must stop for this goroutine.
func (m *Machine) send(g *G, fr *Frame, cv, v V) bool {
	ch, ok := cv.r.(*Chan)
	if !ok {
		m.park(g, "send on nil channel")
		return true
	}
	if g.recvV.n != 7 && m.schedPoint(g) {
		g.recvV.n = 7 // do not preempt twice at the same operation
		g.yield = true
		return true
	}
	g.recvV = V{}
	if canSend(ch) {
		return !m.doSend(g, ch, v)
	}
	ch.sendq = append(ch.sendq, &waiter{g: g, val: v})
	m.park(g, fmt.Sprintf("send on chan %d", ch.id))
	return true
}

func (m *Machine) recv(g *G, fr *Frame, in *instr) bool {
	ch, ok := m.get(fr, in.a).r.(*Chan)
	if !ok {
		m.park(g, "receive on nil channel")
		return true
	}
	if g.recvV.n != 7 && m.schedPoint(g) {
		g.recvV.n = 7
		g.yield = true
		return true
	}
	g.recvV = V{}
	if canRecv(ch) {
		v, ok := m.doRecv(ch)
		if in.flag {
			fr.locals[in.dst] = V{r: &Agg{f: []V{v, mkBool(ok)}}}
		} else {
			fr.locals[in.dst] = v
		}
		return false
	}
	ch.recvq = append(ch.recvq, &waiter{g: g})
	m.park(g, fmt.Sprintf("receive on chan %d", ch.id))
	return true
}

func (m *Machine) selectOp(g *G, fr *Frame, in *instr) bool {
	if g.recvV.n != 7 && m.schedPoint(g) {
		g.recvV.n = 7
		g.yield = true
		return true
	}
	g.recvV = V{}
	var readyIdx []int
	for i, s := range in.sel {
		ch, ok := m.get(fr, s.ch).r.(*Chan)
		if !ok {
			continue
		}
		if s.send && canSend(ch) || !s.send && canRecv(ch) {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		k := 0
		if m.sched && len(readyIdx) > 1 {
			k = m.fork(len(readyIdx))
			m.schedTr = append(m.schedTr, -1-readyIdx[k])
		}
		i := readyIdx[k]
		s := in.sel[i]
		ch := m.get(fr, s.ch).r.(*Chan)
		if s.send {
			if !m.doSend(g, ch, m.get(fr, s.v)) {
				return true
			}
			m.finishSelect(fr, in, i, V{}, false)
		} else {
			v, ok := m.doRecv(ch)
			m.finishSelect(fr, in, i, v, ok)
		}
		return false
	}
	if !in.flag {
		m.finishSelect(fr, in, -1, V{}, false)
		return false
	}
	tok := &selTok{}
	for i, s := range in.sel {
		ch, ok := m.get(fr, s.ch).r.(*Chan)
		if !ok {
			continue
		}
		w := &waiter{g: g, sel: tok, idx: i, isSel: true}
		if s.send {
			w.val = m.get(fr, s.v)
			ch.sendq = append(ch.sendq, w)
		} else {
			ch.recvq = append(ch.recvq, w)
		}
	}
	m.park(g, "select")
	return true
}
