package main

import (
	"go/types"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type intrFn = func(m *Machine, g *G, args []V) (V, ctl)

const vtPkg = "github.com/GoelandProver/Goeland/zzvt/vt."

func fieldName(ti *TInfo, i int) string {
	return ti.typ.Underlying().(*types.Struct).Field(i).Name()
}

func (m *Machine) fmtField(g *G, b *fmtBuf, f fmtFlags, verb rune, sti *TInfo, i int, ft *TInfo, v V, depth int) *panicRec {
	fld := sti.typ.Underlying().(*types.Struct).Field(i)
	if !fld.Exported() {
		return m.fmtRaw(g, b, f, verb, ft, v, depth)
	}
	return m.fmtVal(g, b, f, verb, ft, v, depth)
}

// fmtRaw formats a value reached through an unexported field: no methods are called.
func (m *Machine) fmtRaw(g *G, b *fmtBuf, f fmtFlags, verb rune, ti *TInfo, v V, depth int) *panicRec {
	switch ti.k {
	case KStruct:
		b.str("{")
		for i, ft := range ti.fields {
			if i > 0 {
				b.str(" ")
			}
			if f.plus {
				b.str(fieldName(ti, i) + ":")
			}
			m.fmtRaw(g, b, f, verb, ft, v.r.(*Agg).f[i], depth+1)
		}
		b.str("}")
		return nil
	case KSlice:
		b.str("[")
		if s, ok := v.r.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				if i > 0 {
					b.str(" ")
				}
				m.fmtRaw(g, b, f, verb, ti.elem, s.arr.f[s.off+i], depth+1)
			}
		}
		b.str("]")
		return nil
	case KIface:
		if i := ifaceOf(v); i != nil {
			return m.fmtRaw(g, b, f, verb, i.t, i.v, depth+1)
		}
		b.str("<nil>")
		return nil
	case KPtr:
		if v.r == nil {
			b.str("<nil>")
		} else {
			b.str("0xc000000000")
		}
		return nil
	}
	raw := *ti0(ti)
	return m.fmtVal(g, b, f, verb, &raw, v, depth)
}

// ti0 is a method-less copy of ti.
func ti0(ti *TInfo) *TInfo {
	return &TInfo{id: ti.id, typ: ti.typ, k: ti.k, w: ti.w, signed: ti.signed, elem: ti.elem, key: ti.key, fields: ti.fields, n: ti.n, str: ti.str}
}

func variadic(v V) []V {
	s, ok := v.r.(*Slice)
	if !ok {
		return nil
	}
	return s.arr.f[s.off : s.off+s.len]
}

func mkStrSlice(l []string) V {
	if l == nil {
		return V{}
	}
	a := &Agg{}
	for _, s := range l {
		a.f = append(a.f, mkStr(s))
	}
	return V{r: &Slice{arr: a, len: len(l), cap: len(l)}}
}

func tup(vs ...V) V { return V{r: &Agg{f: vs}} }

func lkey(v V) lockKey {
	a, _ := v.r.(*Agg)
	return lockKey{a, v.n}
}

// allStr returns the concrete strings of args, or ok=false when one is symbolic.
func allStr(args ...V) ([]string, bool) {
	r := make([]string, len(args))
	for i, a := range args {
		s, ok := concStr(a)
		if !ok {
			return nil, false
		}
		r[i] = s
	}
	return r, true
}

func s2s(f func(string) string) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			return mkStr(f(s)), cDone
		}
		return V{}, cInterp
	}
}
func ss2s(f func(a, b string) string) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1]); ok {
			return mkStr(f(s[0], s[1])), cDone
		}
		return V{}, cInterp
	}
}
func ss2b(f func(a, b string) bool) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1]); ok {
			return mkBool(f(s[0], s[1])), cDone
		}
		return V{}, cInterp
	}
}
func ss2i(f func(a, b string) int) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1]); ok {
			return mkInt(f(s[0], s[1])), cDone
		}
		return V{}, cInterp
	}
}
func constFn(v V) intrFn             { return func(*Machine, *G, []V) (V, ctl) { return v, cDone } }
func nop(*Machine, *G, []V) (V, ctl) { return V{}, cDone }

// asciiPred evaluates a rune predicate, forking on ASCII classes for symbolic runes.
func runePred(f func(rune) bool) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		e, ok := a[0].r.(*Expr)
		if !ok {
			return mkBool(f(rune(int32(a[0].n)))), cDone
		}
		c := m.ctx
		if !m.decide(c.Cmp(OUlt, e, c.Const(32, 128))) {
			m.end(eCut, "non-ASCII symbolic rune")
		}
		r := c.fls
		lo := -1
		for x := 0; x <= 128; x++ {
			in := x < 128 && f(rune(x))
			if in && lo < 0 {
				lo = x
			}
			if !in && lo >= 0 {
				r = c.Or(r, c.And(c.Cmp(OUle, c.Const(32, uint64(lo)), e), c.Cmp(OUlt, e, c.Const(32, uint64(x)))))
				lo = -1
			}
		}
		return fromBool(r), cDone
	}
}
func runeMap(f func(rune) rune) intrFn {
	return func(m *Machine, g *G, a []V) (V, ctl) {
		if _, ok := a[0].r.(*Expr); ok {
			return V{}, cInterp
		}
		return mkInt(int(f(rune(int32(a[0].n))))), cDone
	}
}

func (m *Machine) err(msg string) V {
	return V{r: &Iface{t: m.p.tRunErr, v: mkStr(msg)}}
}

// tryYield inserts a scheduling point before an operation; true means: block and retry.
func (m *Machine) tryYield(g *G) bool {
	if g.recvV.n != 7 && m.schedPoint(g) {
		g.recvV.n = 7
		g.yield = true
		return true
	}
	g.recvV = V{}
	return false
}

func (m *Machine) after(g *G) {
	if m.schedPoint(g) {
		g.yield = true
	}
}

func (m *Machine) lock(k lockKey) *lockState {
	if m.locks == nil {
		m.locks = map[lockKey]*lockState{}
	}
	l := m.locks[k]
	if l == nil {
		l = &lockState{}
		m.locks[k] = l
	}
	return l
}

func (m *Machine) rtype(ti *TInfo) V {
	if m.side == nil {
		m.side = map[string]any{}
	}
	k := "rtype" + strconv.Itoa(ti.id)
	a, ok := m.side[k].(*Agg)
	if !ok {
		a = &Agg{f: []V{{r: ti}}}
		m.side[k] = a
	}
	if m.p.tRType == nil {
		m.end(eUnsupported, "reflect not loaded")
	}
	return V{r: &Iface{t: m.p.tRType, v: V{r: a}}}
}

func rt(v V) *TInfo { return v.r.(*Agg).f[0].r.(*TInfo) }

// deepEq is reflect.DeepEqual as a boolean expression.
func (m *Machine) deepEq(g *G, ti *TInfo, a, b V, d int) *Expr {
	if d > 200 {
		m.end(eBudget, "deepEq recursion")
	}
	c := m.ctx
	switch ti.k {
	case KIface:
		x, y := ifaceOf(a), ifaceOf(b)
		if x == nil || y == nil {
			return c.Bool(x == y)
		}
		if x.t != y.t {
			return c.fls
		}
		return m.deepEq(g, x.t, x.v, y.v, d+1)
	case KPtr:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		if a.r == b.r && a.n == b.n {
			return c.tru
		}
		return m.deepEq(g, ti.elem, a.r.(*Agg).f[a.n], b.r.(*Agg).f[b.n], d+1)
	case KStruct:
		r := c.tru
		for i, ft := range ti.fields {
			r = c.And(r, m.deepEq(g, ft, a.r.(*Agg).f[i], b.r.(*Agg).f[i], d+1))
			if r == c.fls {
				break
			}
		}
		return r
	case KArray:
		r := c.tru
		for i := 0; i < ti.n; i++ {
			r = c.And(r, m.deepEq(g, ti.elem, a.r.(*Agg).f[i], b.r.(*Agg).f[i], d+1))
		}
		return r
	case KSlice:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Slice), b.r.(*Slice)
		if x.len != y.len {
			return c.fls
		}
		r := c.tru
		for i := 0; i < x.len; i++ {
			r = c.And(r, m.deepEq(g, ti.elem, x.arr.f[x.off+i], y.arr.f[y.off+i], d+1))
			if r == c.fls {
				break
			}
		}
		return r
	case KMap:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Map), b.r.(*Map)
		if x.n != y.n {
			return c.fls
		}
		r := c.tru
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			o := m.mapFind(g, y, e.k)
			if o == nil {
				return c.fls
			}
			r = c.And(r, m.deepEq(g, ti.elem, e.v, o.v, d+1))
		}
		return r
	case KFunc:
		return c.Bool(a.r == nil && b.r == nil)
	}
	return m.eqV(g, ti, a, b)
}

func (m *Machine) symByte(b V, c V) *Expr {
	return m.ctx.Eq(m.byteExpr(b), m.byteExpr(c))
}

func sliceBytes(v V) []V { return variadic(v) }

func (m *Machine) indexByte(bs []V, c V, last bool) int {
	if last {
		for i := len(bs) - 1; i >= 0; i-- {
			if m.decide(m.symByte(bs[i], c)) {
				return i
			}
		}
		return -1
	}
	for i := range bs {
		if m.decide(m.symByte(bs[i], c)) {
			return i
		}
	}
	return -1
}

func (m *Machine) indexBytes(s, t []V) int {
	for i := 0; i+len(t) <= len(s); i++ {
		r := m.ctx.tru
		for j := range t {
			r = m.ctx.And(r, m.symByte(s[i+j], t[j]))
		}
		if m.decide(r) {
			return i
		}
	}
	return -1
}

func (m *Machine) cmpBytes(a, b V) V {
	if m.decide(m.eqStr(a, b)) {
		return mkInt(0)
	}
	if m.decide(m.ltStr(a, b, false)) {
		return mkInt(-1)
	}
	return mkInt(1)
}

func (m *Machine) print(v V) { m.output = append(m.output, v) }

// noFile is what the errors of files that are not there say.
const noFile = "file does not exist"

func (m *Machine) isStdout(f V) bool { return f.r != nil && m.stdout != nil && f.r == any(m.stdout) }

// calledFromLog tells whether package log (whose lines are not part of what is checked) is writing.
func calledFromLog(g *G) bool {
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-3; i-- {
		if n := g.frames[i].fn.name; strings.HasPrefix(n, "(*log.") || strings.HasPrefix(n, "log.") {
			return true
		}
	}
	return false
}

// fprint writes s to the writer w.
func (m *Machine) fprint(g *G, w, s V, t *panicRec) (V, ctl) {
	if t != nil {
		return m.fmtRes(g, V{}, t)
	}
	i := ifaceOf(w)
	if i == nil {
		m.end(eUnsupported, "write to a nil writer")
	}
	if i.t.str == "*os.File" {
		if m.isStdout(i.v) {
			m.print(s)
		}
		return tup(mkInt(strLen(s)), V{}), cDone
	}
	f := m.p.methodByName(i.t, "Write")
	if f == nil {
		m.end(eUnsupported, "write to %s", i.t.str)
	}
	bs := append([]V(nil), strBytes(s)...)
	v, t := m.callSync(g, V{r: &Closure{fn: f}}, []V{deepCopy(i.t, i.v), {r: &Slice{arr: &Agg{f: bs}, len: len(bs), cap: len(bs)}}})
	return m.fmtRes(g, v, t)
}

func (m *Machine) fmtRes(g *G, v V, t *panicRec) (V, ctl) {
	if t != nil {
		if m.exited {
			return V{}, cDone
		}
		m.throw(g, t)
		return V{}, cThrow
	}
	return v, cDone
}

func buildIntrinsics(p *Prog) {
	I := map[string]intrFn{}
	p.intr = I
	F := map[string]func(fn *Fn) intrFn{}
	p.intrF = F

	// ---------------------------------------------------------------- fmt
	I["fmt.Sprintf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprintf(g, a[0], variadic(a[1]))
		return m.fmtRes(g, v, t)
	}
	I["fmt.Sprint"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[0]), false)
		return m.fmtRes(g, v, t)
	}
	I["fmt.Sprintln"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[0]), true)
		return m.fmtRes(g, v, t)
	}
	I["fmt.Errorf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		f, wraps := a[0], false
		if s, ok := concStr(f); ok {
			wraps = strings.Contains(s, "%w")
			f = mkStr(strings.ReplaceAll(s, "%w", "%v"))
		}
		v, t := m.sprintf(g, f, variadic(a[1]))
		if t != nil {
			return m.fmtRes(g, v, t)
		}
		if wraps && v.r != nil { // the number that goes with the text tells what is wrapped
			for _, x := range variadic(a[1]) {
				if i := ifaceOf(x); i != nil && m.p.implements(i.t, m.p.tError) {
					m.wrapped = append(m.wrapped, x)
					v.n = uint64(len(m.wrapped))
					break
				}
			}
		}
		return V{r: &Iface{t: m.p.tRunErr, v: v}}, cDone
	}
	I["fmt.Printf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprintf(g, a[0], variadic(a[1]))
		m.print(v)
		return m.fmtRes(g, tup(mkInt(strLen(v)), V{}), t)
	}
	I["fmt.Println"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[0]), true)
		m.print(v)
		return m.fmtRes(g, tup(mkInt(strLen(v)), V{}), t)
	}
	I["fmt.Print"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[0]), false)
		m.print(v)
		return m.fmtRes(g, tup(mkInt(strLen(v)), V{}), t)
	}
	I["fmt.Fprintf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprintf(g, a[1], variadic(a[2]))
		return m.fprint(g, a[0], v, t)
	}
	I["fmt.Fprintln"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[1]), true)
		return m.fprint(g, a[0], v, t)
	}
	I["fmt.Fprint"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := m.sprint(g, variadic(a[1]), false)
		return m.fprint(g, a[0], v, t)
	}
	I["(*os.File).WriteString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.isStdout(a[0]) {
			m.print(a[1])
		}
		return tup(mkInt(strLen(a[1])), V{}), cDone
	}
	I["(*os.File).Write"] = func(m *Machine, g *G, a []V) (V, ctl) {
		bs := sliceBytes(a[1])
		if m.isStdout(a[0]) && !calledFromLog(g) {
			m.print(mkSymStr(append([]V(nil), bs...)))
		}
		return tup(mkInt(len(bs)), V{}), cDone
	}
	I["fmt.Scanf"] = constFn(tup(V{}, V{}))

	// ---------------------------------------------------------------- math (floats are always concrete)
	for n, f := range map[string]func(float64) float64{"Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp2": math.Exp2,
		"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Abs": math.Abs, "Round": math.Round} {
		I["math."+n] = func(m *Machine, g *G, a []V) (V, ctl) { return mkFloat(f(math.Float64frombits(a[0].n))), cDone }
	}
	I["math.Pow"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkFloat(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n))), cDone
	}

	// ---------------------------------------------------------------- strings
	I["strings.Contains"] = ss2b(strings.Contains)
	I["strings.ContainsAny"] = ss2b(strings.ContainsAny)
	I["strings.HasPrefix"] = ss2b(strings.HasPrefix)
	I["strings.HasSuffix"] = ss2b(strings.HasSuffix)
	I["strings.EqualFold"] = ss2b(strings.EqualFold)
	I["strings.Index"] = ss2i(strings.Index)
	I["strings.LastIndex"] = ss2i(strings.LastIndex)
	I["strings.IndexAny"] = ss2i(strings.IndexAny)
	I["strings.Count"] = ss2i(strings.Count)
	I["strings.Compare"] = func(m *Machine, g *G, a []V) (V, ctl) { return m.cmpBytes(a[0], a[1]), cDone }
	I["cmp.Compare"] = nil
	delete(I, "cmp.Compare")
	I["strings.TrimPrefix"] = ss2s(strings.TrimPrefix)
	I["strings.TrimSuffix"] = ss2s(strings.TrimSuffix)
	I["strings.Trim"] = ss2s(strings.Trim)
	I["strings.TrimLeft"] = ss2s(strings.TrimLeft)
	I["strings.TrimRight"] = ss2s(strings.TrimRight)
	I["strings.ToUpper"] = s2s(strings.ToUpper)
	I["strings.ToLower"] = s2s(strings.ToLower)
	I["strings.TrimSpace"] = s2s(strings.TrimSpace)
	I["strings.Title"] = s2s(strings.Title)
	I["path/filepath.Base"] = s2s(filepath.Base)
	I["path.Base"] = s2s(path.Base)
	I["path.Dir"] = s2s(path.Dir)
	I["path/filepath.Dir"] = s2s(filepath.Dir)
	I["path.Clean"] = s2s(path.Clean)
	I["path.Join"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(variadic(a[0])...); ok {
			return mkStr(path.Join(s...)), cDone
		}
		return V{}, cInterp
	}
	I["path/filepath.Join"] = I["path.Join"]
	I["strings.Clone"] = func(m *Machine, g *G, a []V) (V, ctl) { return a[0], cDone }
	I["strings.ReplaceAll"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1], a[2]); ok {
			return mkStr(strings.ReplaceAll(s[0], s[1], s[2])), cDone
		}
		return V{}, cInterp
	}
	I["strings.Replace"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1], a[2]); ok && a[3].r == nil {
			return mkStr(strings.Replace(s[0], s[1], s[2], int(int64(a[3].n)))), cDone
		}
		return V{}, cInterp
	}
	I["strings.Split"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1]); ok {
			return mkStrSlice(strings.Split(s[0], s[1])), cDone
		}
		return V{}, cInterp
	}
	I["strings.Fields"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			return mkStrSlice(strings.Fields(s)), cDone
		}
		return V{}, cInterp
	}
	I["strings.Join"] = func(m *Machine, g *G, a []V) (V, ctl) {
		var b fmtBuf
		for i, x := range variadic(a[0]) {
			if i > 0 {
				b.v(a[1])
			}
			b.v(x)
		}
		return b.val(), cDone
	}
	I["strings.Repeat"] = func(m *Machine, g *G, a []V) (V, ctl) {
		s, ok := concStr(a[0])
		n := int(int64(m.concretize(m.p.tInt, a[1]).n))
		if !ok || n < 0 {
			return V{}, cInterp
		}
		return mkStr(strings.Repeat(s, n)), cDone
	}
	I["internal/bytealg.IndexByteString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(m.indexByte(strBytes(a[0]), a[1], false)), cDone
	}
	I["internal/bytealg.IndexByte"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(m.indexByte(sliceBytes(a[0]), a[1], false)), cDone
	}
	I["internal/bytealg.LastIndexByteString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(m.indexByte(strBytes(a[0]), a[1], true)), cDone
	}
	I["internal/bytealg.CountString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		n := 0
		for _, b := range strBytes(a[0]) {
			if m.decide(m.symByte(b, a[1])) {
				n++
			}
		}
		return mkInt(n), cDone
	}
	I["internal/bytealg.IndexString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(m.indexBytes(strBytes(a[0]), strBytes(a[1]))), cDone
	}
	I["internal/stringslite.Index"] = I["internal/bytealg.IndexString"]
	I["strings.Index"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := allStr(a[0], a[1]); ok {
			return mkInt(strings.Index(s[0], s[1])), cDone
		}
		return mkInt(m.indexBytes(strBytes(a[0]), strBytes(a[1]))), cDone
	}
	I["bytes.Index"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return I["strings.Index"](m, g, []V{mkSymStr(append([]V(nil), sliceBytes(a[0])...)), mkSymStr(append([]V(nil), sliceBytes(a[1])...))})
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["bytes.Equal"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.eqStr(mkSymStr(sliceBytes(a[0])), mkSymStr(sliceBytes(a[1])))), cDone
	}
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, g *G, a []V) (V, ctl) {
		n := int(int64(m.concretize(m.p.tInt, a[0]).n))
		return V{r: &Slice{arr: &Agg{f: make([]V, n)}, len: n, cap: n}}, cDone
	}
	id := func(m *Machine, g *G, a []V) (V, ctl) { return a[0], cDone }
	I["internal/abi.NoEscape"] = id
	I["internal/abi.Escape"] = id
	I["strings.noescape"] = id

	// ---------------------------------------------------------------- strconv, unicode, bits
	I["strconv.Itoa"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkStr(strconv.Itoa(int(int64(m.concretize(m.p.tInt, a[0]).n)))), cDone
	}
	I["strconv.FormatInt"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkStr(strconv.FormatInt(int64(m.concretize(m.p.tInt, a[0]).n), int(int64(a[1].n)))), cDone
	}
	I["strconv.FormatUint"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkStr(strconv.FormatUint(m.concretize(m.p.tInt, a[0]).n, int(int64(a[1].n)))), cDone
	}
	I["strconv.FormatBool"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkStr(strconv.FormatBool(m.concretize(m.p.tBool, a[0]).n != 0)), cDone
	}
	I["strconv.Quote"] = s2s(strconv.Quote)
	numErr := func(m *Machine, e error) V {
		if e == nil {
			return V{}
		}
		return m.err(e.Error())
	}
	I["strconv.Atoi"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			n, e := strconv.Atoi(s)
			return tup(mkInt(n), numErr(m, e)), cDone
		}
		return V{}, cInterp
	}
	I["strconv.ParseInt"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			n, e := strconv.ParseInt(s, int(int64(a[1].n)), int(int64(a[2].n)))
			return tup(mkInt64(n), numErr(m, e)), cDone
		}
		return V{}, cInterp
	}
	I["strconv.ParseUint"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			n, e := strconv.ParseUint(s, int(int64(a[1].n)), int(int64(a[2].n)))
			return tup(V{n: n}, numErr(m, e)), cDone
		}
		return V{}, cInterp
	}
	I["strconv.ParseBool"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			n, e := strconv.ParseBool(s)
			return tup(mkBool(n), numErr(m, e)), cDone
		}
		return V{}, cInterp
	}
	I["strconv.ParseFloat"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			n, e := strconv.ParseFloat(s, 64)
			return tup(mkFloat(n), numErr(m, e)), cDone
		}
		return V{}, cInterp
	}
	I["unicode.IsLetter"] = runePred(unicode.IsLetter)
	I["unicode.IsDigit"] = runePred(unicode.IsDigit)
	I["unicode.IsNumber"] = runePred(unicode.IsNumber)
	I["unicode.IsUpper"] = runePred(unicode.IsUpper)
	I["unicode.IsLower"] = runePred(unicode.IsLower)
	I["unicode.IsSpace"] = runePred(unicode.IsSpace)
	I["unicode.IsPunct"] = runePred(unicode.IsPunct)
	I["unicode.IsSymbol"] = runePred(unicode.IsSymbol)
	I["unicode.IsControl"] = runePred(unicode.IsControl)
	I["unicode.IsGraphic"] = runePred(unicode.IsGraphic)
	I["unicode.IsTitle"] = runePred(unicode.IsTitle)
	I["unicode.IsPrint"] = runePred(unicode.IsPrint)
	I["unicode.ToUpper"] = runeMap(unicode.ToUpper)
	I["unicode.ToLower"] = runeMap(unicode.ToLower)
	decode := func(bs []V, m *Machine) V {
		if len(bs) == 0 {
			return tup(mkInt(utf8.RuneError), mkInt(0))
		}
		if e, ok := bs[0].r.(*Expr); ok {
			if !m.decide(m.ctx.Cmp(OUlt, e, m.ctx.Const(8, 128))) {
				m.end(eCut, "non-ASCII symbolic byte")
			}
			return tup(V{r: m.ctx.Zext(e, 32)}, mkInt(1))
		}
		var raw []byte
		for i := 0; i < len(bs) && i < 4; i++ {
			if bs[i].r != nil {
				break
			}
			raw = append(raw, byte(bs[i].n))
		}
		r, n := utf8.DecodeRune(raw)
		return tup(mkInt(int(r)), mkInt(n))
	}
	I["unicode/utf8.DecodeRuneInString"] = func(m *Machine, g *G, a []V) (V, ctl) { return decode(strBytes(a[0]), m), cDone }
	I["unicode/utf8.DecodeRune"] = func(m *Machine, g *G, a []V) (V, ctl) { return decode(sliceBytes(a[0]), m), cDone }
	I["unicode/utf8.RuneCountInString"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok {
			return mkInt(utf8.RuneCountInString(s)), cDone
		}
		return mkInt(strLen(a[0])), cDone
	}
	I["unicode/utf8.RuneLen"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if a[0].r == nil {
			return mkInt(utf8.RuneLen(rune(int32(a[0].n)))), cDone
		}
		return mkInt(1), cDone
	}
	I["unicode/utf8.ValidString"] = constFn(mkBool(true))
	I["unicode/utf8.AppendRune"] = func(m *Machine, g *G, a []V) (V, ctl) {
		old, _ := a[0].r.(*Slice)
		var add []V
		if e, ok := a[1].r.(*Expr); ok {
			add = []V{fromExpr(m.p.tByte, m.ctx.Trunc(e, 8))}
		} else {
			add = strBytes(mkStr(string(rune(int32(a[1].n)))))
		}
		return V{r: appendSlice(m.p.tByte, old, add)}, cDone
	}
	I["math/bits.Len"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(bits.Len64(m.concretize(m.p.tInt, a[0]).n)), cDone
	}
	I["math/bits.Len64"] = I["math/bits.Len"]
	I["math/bits.TrailingZeros64"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return mkInt(bits.TrailingZeros64(m.concretize(m.p.tInt, a[0]).n)), cDone
	}

	// ---------------------------------------------------------------- sync
	I["(*sync.Mutex).Lock"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if a[0].r == nil {
			m.throwRT(g, "runtime error: invalid memory address or nil pointer dereference")
			return V{}, cThrow
		}
		if m.tryYield(g) {
			return V{}, cBlock
		}
		l := m.lock(lkey(a[0]))
		if l.w != 0 || l.readers > 0 {
			g.state = gBlocked
			g.why = "mutex"
			g.ready = func() bool { return l.w == 0 && l.readers == 0 }
			g.recvV.n = 7
			return V{}, cBlock
		}
		l.w = g.id + 1
		return V{}, cDone
	}
	I["(*sync.Mutex).TryLock"] = func(m *Machine, g *G, a []V) (V, ctl) {
		l := m.lock(lkey(a[0]))
		if l.w != 0 || l.readers > 0 {
			return mkBool(false), cDone
		}
		l.w = g.id + 1
		return mkBool(true), cDone
	}
	I["(*sync.Mutex).Unlock"] = func(m *Machine, g *G, a []V) (V, ctl) {
		l := m.lock(lkey(a[0]))
		if l.w == 0 {
			m.end(ePanic, "fatal error: sync: unlock of unlocked mutex")
		}
		l.w = 0
		m.after(g)
		return V{}, cDone
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.tryYield(g) {
			return V{}, cBlock
		}
		l := m.lock(lkey(a[0]))
		if l.w != 0 {
			g.state = gBlocked
			g.why = "rwmutex"
			g.ready = func() bool { return l.w == 0 }
			g.recvV.n = 7
			return V{}, cBlock
		}
		l.readers++
		return V{}, cDone
	}
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, g *G, a []V) (V, ctl) {
		l := m.lock(lkey(a[0]))
		if l.readers == 0 {
			m.end(ePanic, "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
		m.after(g)
		return V{}, cDone
	}
	wg := func(m *Machine, k lockKey) int {
		if m.wgs == nil {
			m.wgs = map[lockKey]int{}
		}
		return m.wgs[k]
	}
	I["(*sync.WaitGroup).Add"] = func(m *Machine, g *G, a []V) (V, ctl) {
		k := lkey(a[0])
		n := wg(m, k) + int(int64(m.concretize(m.p.tInt, a[1]).n))
		if n < 0 {
			m.throwRT(g, "sync: negative WaitGroup counter")
			return V{}, cThrow
		}
		m.wgs[k] = n
		return V{}, cDone
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, g *G, a []V) (V, ctl) {
		k := lkey(a[0])
		n := wg(m, k) - 1
		if n < 0 {
			m.throwRT(g, "sync: negative WaitGroup counter")
			return V{}, cThrow
		}
		m.wgs[k] = n
		m.after(g)
		return V{}, cDone
	}
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, g *G, a []V) (V, ctl) {
		k := lkey(a[0])
		if wg(m, k) > 0 {
			g.state = gBlocked
			g.why = "waitgroup"
			g.ready = func() bool { return m.wgs[k] == 0 }
			return V{}, cBlock
		}
		return V{}, cDone
	}
	I["(*sync.Once).Do"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.once == nil {
			m.once = map[lockKey]int{}
		}
		k := lkey(a[0])
		if m.once[k] != 0 {
			return V{}, cDone
		}
		m.once[k] = 1
		cl, ok := a[1].r.(*Closure)
		if !ok {
			return V{}, cDone
		}
		if cl.fn.intr != nil {
			return cl.fn.intr(m, g, nil)
		}
		m.pushFrame(g, cl.fn, nil, cl.env, -1).discard = true
		return V{}, cCall
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ti := &TInfo{k: KInt, w: 64, signed: w[0] == 'I'}
		if strings.HasSuffix(w, "32") {
			ti.w = 32
		}
		I["sync/atomic.Load"+w] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			return a[0].r.(*Agg).f[a[0].n], cDone
		}
		I["sync/atomic.Store"+w] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			a[0].r.(*Agg).f[a[0].n] = a[1]
			return V{}, cDone
		}
		I["sync/atomic.Add"+w] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			s := &a[0].r.(*Agg).f[a[0].n]
			v, _ := m.intBin(g, ti, ti, tokADD, *s, a[1])
			*s = v
			return v, cDone
		}
		I["sync/atomic.Swap"+w] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			s := &a[0].r.(*Agg).f[a[0].n]
			o := *s
			*s = a[1]
			return o, cDone
		}
		I["sync/atomic.CompareAndSwap"+w] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			s := &a[0].r.(*Agg).f[a[0].n]
			if m.decide(m.eqV(g, ti, *s, a[1])) {
				*s = a[2]
				return mkBool(true), cDone
			}
			return mkBool(false), cDone
		}
	}

	I["sync/atomic.LoadPointer"] = I["sync/atomic.LoadUintptr"]
	I["sync/atomic.StorePointer"] = I["sync/atomic.StoreUintptr"]
	I["sync/atomic.SwapPointer"] = I["sync/atomic.SwapUintptr"]
	I["sync/atomic.CompareAndSwapPointer"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.tryYield(g) {
			return V{}, cBlock
		}
		s := &a[0].r.(*Agg).f[a[0].n]
		if s.r == a[1].r && s.n == a[1].n {
			*s = a[2]
			return mkBool(true), cDone
		}
		return mkBool(false), cDone
	}
	I["(*sync/atomic.Value).Load"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.tryYield(g) {
			return V{}, cBlock
		}
		return a[0].r.(*Agg).f[a[0].n].r.(*Agg).f[0], cDone
	}
	I["(*sync/atomic.Value).Store"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.tryYield(g) {
			return V{}, cBlock
		}
		a[0].r.(*Agg).f[a[0].n].r.(*Agg).f[0] = a[1]
		return V{}, cDone
	}
	smap := func(m *Machine, p V) *Map {
		if m.smap == nil {
			m.smap = map[lockKey]*Map{}
		}
		k := lkey(p)
		if m.smap[k] == nil {
			m.smap[k] = &Map{kt: m.p.tAny, vt: m.p.tAny, idx: map[string]*mapEntry{}}
		}
		return m.smap[k]
	}
	// An operation of a sync.Map is atomic.
	syncMap := func(name string, f func(m *Machine, g *G, mp *Map, a []V) V) {
		I["(*sync.Map)."+name] = func(m *Machine, g *G, a []V) (V, ctl) {
			if m.tryYield(g) {
				return V{}, cBlock
			}
			return f(m, g, smap(m, a[0]), a[1:]), cDone
		}
	}
	load := func(m *Machine, g *G, mp *Map, k V) V {
		if e := m.mapFind(g, mp, k); e != nil {
			return tup(e.v, mkBool(true))
		}
		return tup(V{}, mkBool(false))
	}
	syncMap("Load", func(m *Machine, g *G, mp *Map, a []V) V { return load(m, g, mp, a[0]) })
	syncMap("Store", func(m *Machine, g *G, mp *Map, a []V) V { m.mapSet(g, mp, a[0], a[1]); return V{} })
	syncMap("Delete", func(m *Machine, g *G, mp *Map, a []V) V { m.mapDelete(g, mp, a[0]); return V{} })
	syncMap("LoadOrStore", func(m *Machine, g *G, mp *Map, a []V) V {
		if e := m.mapFind(g, mp, a[0]); e != nil {
			return tup(e.v, mkBool(true))
		}
		m.mapSet(g, mp, a[0], a[1])
		return tup(a[1], mkBool(false))
	})
	syncMap("LoadAndDelete", func(m *Machine, g *G, mp *Map, a []V) V {
		r := load(m, g, mp, a[0])
		m.mapDelete(g, mp, a[0])
		return r
	})
	syncMap("Swap", func(m *Machine, g *G, mp *Map, a []V) V {
		r := load(m, g, mp, a[0])
		m.mapSet(g, mp, a[0], a[1])
		return r
	})
	I["(*sync.Map).Range"] = func(m *Machine, g *G, a []V) (V, ctl) {
		for _, e := range append([]*mapEntry(nil), smap(m, a[0]).entries...) {
			if e.dead {
				continue
			}
			r, t := m.callSync(g, a[1], []V{e.k, e.v})
			if t != nil {
				return m.fmtRes(g, V{}, t)
			}
			b := r.n != 0
			if x, ok := r.r.(*Expr); ok {
				b = m.decide(x)
			}
			if !b {
				break
			}
		}
		return V{}, cDone
	}
	// A sync.Pool may forget what it was given, and this one does.
	I["(*sync.Pool).Put"] = nop
	I["(*sync.Pool).Get"] = func(m *Machine, g *G, a []V) (V, ctl) {
		fs := a[0].r.(*Agg).f[a[0].n].r.(*Agg).f
		if f := fs[len(fs)-1]; f.r != nil { // the field New is the last
			v, t := m.callSync(g, f, nil)
			return m.fmtRes(g, v, t)
		}
		return V{}, cDone
	}
	I["maps.clone"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i := ifaceOf(a[0])
		mp, ok := i.v.r.(*Map)
		if !ok {
			return a[0], cDone
		}
		r := &Map{kt: mp.kt, vt: mp.vt, idx: map[string]*mapEntry{}}
		for _, e := range mp.entries {
			if !e.dead {
				m.mapSet(g, r, deepCopy(mp.kt, e.k), deepCopy(mp.vt, e.v))
			}
		}
		return V{r: &Iface{t: i.t, v: V{r: r}}}, cDone
	}

	// ---------------------------------------------------------------- runtime, time, os, log
	I["runtime.NumGoroutine"] = func(m *Machine, g *G, a []V) (V, ctl) {
		n := 0
		for _, x := range m.gs {
			if x.state != gDone {
				n++
			}
		}
		return mkInt(n), cDone
	}
	I["runtime.GC"] = nop
	I["runtime.Gosched"] = func(m *Machine, g *G, a []V) (V, ctl) { g.yield = true; return V{}, cDone }
	I["runtime.GOMAXPROCS"] = constFn(mkInt(8))
	I["runtime.NumCPU"] = constFn(mkInt(8))
	I["runtime.Caller"] = constFn(tup(V{}, mkStr("?"), V{}, V{}))
	I["runtime.Stack"] = constFn(V{})
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["time.Sleep"] = func(m *Machine, g *G, a []V) (V, ctl) { g.yield = true; return V{}, cDone }
	zeroRes := func(fn *Fn) intrFn {
		return func(m *Machine, g *G, a []V) (V, ctl) {
			m.p.compileSig(fn)
			return m.zeroResults(fn), cDone
		}
	}
	for _, n := range []string{"time.Now", "time.Since", "(time.Time).Format", "(time.Time).Sub", "os.Create", "os.OpenFile",
		"(*log.Logger).Output", "(*log.Logger).SetFlags", "(*log.Logger).SetOutput", "(*log.Logger).Printf", "(*log.Logger).Println",
		"log.Printf", "log.Println", "io.MultiWriter", "runtime/pprof.StartCPUProfile", "runtime/pprof.StopCPUProfile", "runtime/pprof.WriteHeapProfile",
		"(*os.File).Close", "os.MkdirAll", "os.Remove", "flag.PrintDefaults",
		"encoding/json.MarshalIndent", "(*os.File).Sync", "os.WriteFile"} {
		F[n] = zeroRes
	}
	F["log.New"] = func(fn *Fn) intrFn {
		return func(m *Machine, g *G, a []V) (V, ctl) {
			m.p.compileSig(fn)
			return V{r: &Agg{f: []V{zero(fn.results[0].elem)}}}, cDone
		}
	}
	I["(time.Duration).Seconds"] = constFn(mkFloat(0))
	I["os.Exit"] = func(m *Machine, g *G, a []V) (V, ctl) {
		code := int(int64(m.concretize(m.p.tInt, a[0]).n))
		m.exit = code
		if m.catch > 0 && g.id == 0 {
			m.throw(g, &panicRec{val: V{r: &Iface{t: m.p.tExit, v: mkInt(code)}}, msg: "os.Exit " + strconv.Itoa(code)})
			return V{}, cThrow
		}
		if m.catch > 0 { // the process ends in a goroutine: the harness, in the main goroutine, goes on
			m.goExit = true
			var main *G
			for _, o := range m.gs {
				if o.id == 0 {
					main = o
				} else {
					o.state = gDone
				}
			}
			main.state, main.ready = gRun, nil
			m.throw(main, &panicRec{val: V{r: &Iface{t: m.p.tExit, v: mkInt(code)}}, msg: "os.Exit " + strconv.Itoa(code)})
			return V{}, cBlock
		}
		m.end(eExit, "os.Exit(%d)", code)
		return V{}, cThrow
	}
	I["log.Fatalf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return I["os.Exit"](m, g, []V{mkInt(1)})
	}
	I["log.Fatal"] = I["log.Fatalf"]
	I["os.Executable"] = constFn(tup(mkStr("/repo/src/_build/goeland"), V{}))
	I["os.Stat"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok && m.side != nil {
			if _, ok := m.side["file:"+path.Clean(s)]; ok {
				return tup(V{}, V{}), cDone
			}
			for k := range m.side { // a directory
				if strings.HasPrefix(k, "file:"+path.Clean(s)+"/") {
					return tup(V{}, V{}), cDone
				}
			}
		}
		return tup(V{}, m.err(noFile)), cDone
	}
	I["os.Getenv"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok && m.side != nil {
			if c, ok := m.side["env:"+s].(V); ok {
				return c, cDone
			}
		}
		return mkStr(""), cDone
	}
	I["os.LookupEnv"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if s, ok := concStr(a[0]); ok && m.side != nil {
			if c, ok := m.side["env:"+s].(V); ok {
				return tup(c, mkBool(true)), cDone
			}
		}
		return tup(mkStr(""), mkBool(false)), cDone
	}
	I["os.Lstat"] = I["os.Stat"]
	I["os.IsNotExist"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i := ifaceOf(a[0])
		s := ""
		if i != nil && i.t == m.p.tRunErr {
			s, _ = concStr(i.v)
		}
		return mkBool(s == noFile), cDone
	}
	F["os.Open"] = func(fn *Fn) intrFn {
		return func(m *Machine, g *G, a []V) (V, ctl) {
			m.p.compileSig(fn)
			r, _ := I["os.ReadFile"](m, g, a)
			fs := r.r.(*Agg).f
			if fs[1].r != nil {
				return tup(V{}, fs[1]), cDone
			}
			f := &Agg{f: []V{zero(fn.results[0].elem)}}
			if m.files == nil {
				m.files = map[*Agg][]V{}
			}
			m.files[f] = append([]V(nil), sliceBytes(fs[0])...)
			return tup(V{r: f}, V{}), cDone
		}
	}
	I["(*os.File).Read"] = func(m *Machine, g *G, a []V) (V, ctl) {
		f, _ := a[0].r.(*Agg)
		bs, ok := m.files[f]
		if !ok {
			m.end(eUnsupported, "read of a file that is not open")
		}
		s := a[1].r.(*Slice)
		if len(bs) == 0 && s.len > 0 {
			eof := m.p.tt.prog.ImportedPackage("io").Var("EOF")
			return tup(mkInt(0), m.globalPtr(m.p.global(eof)).r.(*Agg).f[0]), cDone
		}
		n := copy(s.arr.f[s.off:s.off+s.len], bs)
		m.files[f] = bs[n:]
		return tup(mkInt(n), V{}), cDone
	}
	I["os.ReadFile"] = func(m *Machine, g *G, a []V) (V, ctl) {
		s, ok := concStr(a[0])
		if ok && m.side != nil {
			if c, ok := m.side["file:"+path.Clean(s)].(V); ok {
				bs := append([]V(nil), strBytes(c)...)
				return tup(V{r: &Slice{arr: &Agg{f: bs}, len: len(bs), cap: len(bs)}}, V{}), cDone
			}
		}
		return tup(V{}, m.err(noFile)), cDone
	}
	unwrap := func(m *Machine, g *G, e V) (V, *panicRec) {
		i := ifaceOf(e)
		if i == nil {
			return V{}, nil
		}
		if i.t == m.p.tRunErr {
			if i.v.n > 0 && i.v.n <= uint64(len(m.wrapped)) {
				return m.wrapped[i.v.n-1], nil
			}
			return V{}, nil
		}
		f := m.p.methodByName(i.t, "Unwrap")
		if f == nil {
			return V{}, nil
		}
		sg := f.ssa.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || m.p.tt.Get(sg.Results().At(0).Type()) != m.p.tError {
			m.end(eUnsupported, "errors that join others")
		}
		return m.callSync(g, V{r: &Closure{fn: f}}, []V{deepCopy(i.t, i.v)})
	}
	I["errors.Unwrap"] = func(m *Machine, g *G, a []V) (V, ctl) {
		v, t := unwrap(m, g, a[0])
		return m.fmtRes(g, v, t)
	}
	I["errors.Is"] = func(m *Machine, g *G, a []V) (V, ctl) {
		for e := a[0]; ; {
			if i, j := ifaceOf(e), ifaceOf(a[1]); i == nil || j == nil {
				return mkBool(i == nil && j == nil), cDone
			}
			if m.decide(m.eqV(g, m.p.tError, e, a[1])) {
				return mkBool(true), cDone
			}
			n, t := unwrap(m, g, e)
			if t != nil {
				return m.fmtRes(g, V{}, t)
			}
			if n.r == nil {
				return mkBool(false), cDone
			}
			e = n
		}
	}
	I["errors.As"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i := ifaceOf(a[1])
		if i == nil || i.t.k != KPtr || i.v.r == nil {
			m.end(eUnsupported, "errors.As without a target")
		}
		dst := &i.v.r.(*Agg).f[i.v.n]
		for e := a[0]; e.r != nil; {
			x := ifaceOf(e)
			if i.t.elem.k == KIface && m.p.implements(x.t, i.t.elem) {
				*dst = e
				return mkBool(true), cDone
			}
			if x.t == i.t.elem {
				*dst = deepCopy(x.t, x.v)
				return mkBool(true), cDone
			}
			n, t := unwrap(m, g, e)
			if t != nil {
				return m.fmtRes(g, V{}, t)
			}
			e = n
		}
		return mkBool(false), cDone
	}

	// ---------------------------------------------------------------- reflect, sort
	I["reflect.TypeOf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if i := ifaceOf(a[0]); i != nil {
			return m.rtype(i.t), cDone
		}
		return V{}, cDone
	}
	I["(*reflect.rtype).String"] = func(m *Machine, g *G, a []V) (V, ctl) { return mkStr(rt(a[0]).str), cDone }
	I["(*reflect.rtype).Name"] = func(m *Machine, g *G, a []V) (V, ctl) {
		ti := rt(a[0])
		if ti.named != nil {
			return mkStr(ti.named.Obj().Name()), cDone
		}
		return V{}, cDone
	}
	I["reflect.DeepEqual"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return fromBool(m.deepEq(g, m.p.tAny, a[0], a[1], 0)), cDone
	}
	// reflect.Value is represented by its zero struct whose second field holds the interface.
	I["reflect.ValueOf"] = func(m *Machine, g *G, a []V) (V, ctl) {
		return tup(V{}, V{r: ifaceOf(a[0])}, V{}), cDone
	}
	I["(reflect.Value).Interface"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i, _ := a[0].r.(*Agg).f[1].r.(*Iface)
		if i == nil {
			return V{}, cDone
		}
		return V{r: i}, cDone
	}
	rvInt := func(m *Machine, g *G, a []V) (V, ctl) {
		i, _ := a[0].r.(*Agg).f[1].r.(*Iface)
		if i == nil {
			return V{}, cDone
		}
		return i.v, cDone
	}
	I["(reflect.Value).Bool"] = rvInt
	I["(reflect.Value).Int"] = rvInt
	I["(reflect.Value).String"] = rvInt
	I["(reflect.Value).Len"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i, _ := a[0].r.(*Agg).f[1].r.(*Iface)
		if s, ok := i.v.r.(*Slice); ok {
			return mkInt(s.len), cDone
		}
		return mkInt(0), cDone
	}
	I["(reflect.Value).IsNil"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i, _ := a[0].r.(*Agg).f[1].r.(*Iface)
		return mkBool(i == nil || i.v.r == nil), cDone
	}
	I["reflect.Select"] = func(m *Machine, g *G, a []V) (V, ctl) {
		if m.tryYield(g) {
			return V{}, cBlock
		}
		cases := variadic(a[0])
		type cs struct {
			dir int
			ch  *Chan
			v   V
		}
		var l []cs
		def := -1
		for i, c := range cases {
			f := c.r.(*Agg).f // Dir, Chan, Send
			x := cs{dir: int(f[0].n)}
			if ci, ok := f[1].r.(*Agg).f[1].r.(*Iface); ok && ci != nil {
				x.ch, _ = ci.v.r.(*Chan)
			}
			if si, ok := f[2].r.(*Agg).f[1].r.(*Iface); ok && si != nil {
				x.v = si.v
			}
			if x.dir == 3 {
				def = i
			}
			l = append(l, x)
		}
		ready := func() []int {
			var r []int
			for i, c := range l {
				if c.ch == nil {
					continue
				}
				if c.dir == 1 && canSend(c.ch) || c.dir == 2 && canRecv(c.ch) {
					r = append(r, i)
				}
			}
			return r
		}
		rs := ready()
		if len(rs) == 0 {
			if def >= 0 {
				return tup(mkInt(def), tup(V{}, V{}, V{}), V{}), cDone
			}
			g.state = gBlocked
			g.why = "reflect.Select"
			g.ready = func() bool { return len(ready()) > 0 }
			g.recvV.n = 7
			return V{}, cBlock
		}
		k := 0
		if m.sched && len(rs) > 1 {
			k = m.fork(len(rs))
			m.schedTr = append(m.schedTr, -1-rs[k])
		}
		c := l[rs[k]]
		if c.dir == 1 {
			if !m.doSend(g, c.ch, c.v) {
				return V{}, cThrow
			}
			return tup(mkInt(rs[k]), tup(V{}, V{}, V{}), V{}), cDone
		}
		v, ok := m.doRecv(c.ch)
		return tup(mkInt(rs[k]), tup(V{}, V{r: wrapIface(c.ch.elem, v)}, V{}), mkBool(ok)), cDone
	}
	I["math/rand.Intn"] = func(m *Machine, g *G, a []V) (V, ctl) {
		n := int64(a[0].n)
		if a[0].r != nil || n <= 0 || n > 64 {
			m.end(eUnsupported, "rand.Intn bound")
		}
		k := m.fork(int(n))
		if n > 1 {
			m.schedTr = append(m.schedTr, k)
		}
		return mkInt(k), cDone
	}
	I["internal/reflectlite.Swapper"] = func(m *Machine, g *G, a []V) (V, ctl) {
		i := ifaceOf(a[0])
		s, _ := i.v.r.(*Slice)
		elem := i.t.elem
		return V{r: &Native{name: "swapper", f: func(m *Machine, g *G, a []V) V {
			x, y := int(int64(a[0].n)), int(int64(a[1].n))
			p, q := &s.arr.f[s.off+x], &s.arr.f[s.off+y]
			if elem.isAgg() {
				t := deepCopy(elem, *p)
				copyInto(elem, p, *q)
				copyInto(elem, q, t)
			} else {
				*p, *q = *q, *p
			}
			return V{}
		}}}, cDone
	}
	I["internal/reflectlite.ValueOf"] = I["reflect.ValueOf"]
	I["(internal/reflectlite.Value).Len"] = I["(reflect.Value).Len"]

	buildVT(I)
}

// wrapIface makes the interface holding v: an interface-typed element keeps its dynamic type.
func wrapIface(ti *TInfo, v V) *Iface {
	if ti.k == KIface {
		i, _ := v.r.(*Iface)
		return i
	}
	return &Iface{t: ti, v: v}
}

var allowGlobal = map[string]bool{"os.Args": true, "os.Stdout": true, "os.Stderr": true, "os.Stdin": true, "os.ErrNotExist": true, "io.EOF": true,
	"os.ErrExist": true, "io/fs.ErrNotExist": true}
