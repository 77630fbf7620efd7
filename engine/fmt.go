package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// fmtBuf accumulates a possibly symbolic string.
type fmtBuf struct {
	b   []V
	s   strings.Builder
	sym bool
}

func (b *fmtBuf) str(s string) {
	if b.sym {
		for i := 0; i < len(s); i++ {
			b.b = append(b.b, V{n: uint64(s[i])})
		}
		return
	}
	b.s.WriteString(s)
}
func (b *fmtBuf) v(v V) {
	if s, ok := concStr(v); ok {
		b.str(s)
		return
	}
	if !b.sym {
		b.sym = true
		b.b = strBytes(mkStr(b.s.String()))
		b.b = append([]V(nil), b.b...)
	}
	b.b = append(b.b, strBytes(v)...)
}
func (b *fmtBuf) val() V {
	if b.sym {
		return mkSymStr(b.b)
	}
	return mkStr(b.s.String())
}

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (f fmtFlags) spec(verb rune) string {
	s := "%"
	if f.plus {
		s += "+"
	}
	if f.minus {
		s += "-"
	}
	if f.sharp {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.hasWid {
		s += strconv.Itoa(f.wid)
	}
	if f.hasPrec {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

func ifaceOf(v V) *Iface {
	i, _ := v.r.(*Iface)
	return i
}

// sprintf implements fmt.Sprintf over interpreted values.
func (m *Machine) sprintf(g *G, format V, args []V) (V, *panicRec) {
	fs, ok := concStr(format)
	if !ok {
		if len(args) == 0 {
			for _, b := range strBytes(format) {
				if e, ok := b.r.(*Expr); ok && m.decide(m.ctx.Eq(e, m.ctx.Const(8, '%'))) {
					m.end(eCut, "symbolic %% in format")
				}
			}
			return format, nil
		}
		m.end(eUnsupported, "symbolic format string")
	}
	var b fmtBuf
	ai, reordered := 0, false
	for i := 0; i < len(fs); {
		c := fs[i]
		if c != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			b.str(fs[i : i+j])
			i += j
			continue
		}
		i++
		var f fmtFlags
	flags:
		for i < len(fs) {
			switch fs[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < len(fs) && fs[i] == '*' {
				i++
				if ai < len(args) {
					a := ifaceOf(args[ai])
					ai++
					if a != nil && a.t.k == KInt {
						return int(int64(m.concretize(a.t, a.v).n)), true
					}
				}
				return 0, false
			}
			st := i
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
			if st == i {
				return 0, false
			}
			n, _ := strconv.Atoi(fs[st:i])
			return n, true
		}
		argNum := func() {
			if i < len(fs) && fs[i] == '[' {
				j := strings.IndexByte(fs[i:], ']')
				if j > 0 {
					if n, err := strconv.Atoi(fs[i+1 : i+j]); err == nil && n >= 1 && n <= len(args) {
						ai, reordered = n-1, true
						i += j + 1
						return
					}
				}
				m.end(eUnsupported, "argument index in format")
			}
		}
		argNum()
		f.wid, f.hasWid = num()
		if f.hasWid && f.wid < 0 {
			f.minus, f.wid = true, -f.wid
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			f.prec, f.hasPrec = num()
			if !f.hasPrec {
				f.hasPrec = true
			}
		}
		argNum()
		if i >= len(fs) {
			b.str("%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(fs[i:])
		i += sz
		if verb == '%' {
			b.str("%")
			continue
		}
		if ai >= len(args) {
			b.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if t := m.fmtArg(g, &b, f, verb, a); t != nil {
			return V{}, t
		}
	}
	if ai < len(args) && !reordered {
		b.str("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				b.str(", ")
			}
			if i := ifaceOf(args[k]); i == nil {
				b.str("<nil>")
			} else {
				b.str(i.t.str + "=")
				if t := m.fmtArg(g, &b, fmtFlags{}, 'v', args[k]); t != nil {
					return V{}, t
				}
			}
		}
		b.str(")")
	}
	return b.val(), nil
}

func (m *Machine) sprint(g *G, args []V, ln bool) (V, *panicRec) {
	var b fmtBuf
	prevStr := false
	for k, a := range args {
		i := ifaceOf(a)
		isStr := i != nil && i.t.k == KString && i.t != m.p.tRunErr
		if k > 0 && (ln || (!isStr && !prevStr)) {
			b.str(" ")
		}
		if t := m.fmtArg(g, &b, fmtFlags{}, 'v', a); t != nil {
			return V{}, t
		}
		prevStr = isStr
	}
	if ln {
		b.str("\n")
	}
	return b.val(), nil
}

func (m *Machine) fmtArg(g *G, b *fmtBuf, f fmtFlags, verb rune, a V) *panicRec {
	i := ifaceOf(a)
	if i == nil {
		if verb == 'T' || verb == 'v' {
			m.pad(b, f, mkStr("<nil>"))
		} else {
			b.str("%!" + string(verb) + "(<nil>)")
		}
		return nil
	}
	if verb == 'T' {
		m.pad(b, f, mkStr(i.t.str))
		return nil
	}
	if verb == 'p' {
		m.pad(b, f, mkStr(fmt.Sprintf("%p", i.v.r)))
		return nil
	}
	return m.fmtVal(g, b, f, verb, i.t, i.v, 0)
}

func (m *Machine) pad(b *fmtBuf, f fmtFlags, v V) {
	if s, ok := concStr(v); ok {
		b.str(fmt.Sprintf(f.spec('s'), s))
		return
	}
	n := strLen(v)
	if f.hasPrec && f.prec < n {
		v = mkSymStr(strBytes(v)[:f.prec])
		n = f.prec
	}
	p := ""
	if f.hasWid && f.wid > n {
		p = strings.Repeat(" ", f.wid-n)
	}
	if !f.minus {
		b.str(p)
	}
	b.v(v)
	if f.minus {
		b.str(p)
	}
}

func (m *Machine) stringer(ti *TInfo) *Fn {
	if ti.named == nil && ti.k != KPtr && ti.k != KStruct {
		return nil
	}
	for _, n := range []string{"Error", "String"} {
		if f := m.p.methodByName(ti, n); f != nil {
			sg := f.ssa.Signature
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 && m.p.tt.Get(sg.Results().At(0).Type()).k == KString {
				return f
			}
		}
	}
	return nil
}

func (m *Machine) fmtVal(g *G, b *fmtBuf, f fmtFlags, verb rune, ti *TInfo, v V, depth int) *panicRec {
	if depth > 60 {
		m.end(eBudget, "fmt recursion")
	}
	if (verb == 'v' && !f.sharp) || verb == 's' || verb == 'q' || verb == 'x' {
		if sf := m.stringer(ti); sf != nil {
			if ti.k == KPtr && v.r == nil {
				m.pad(b, f, mkStr("<nil>"))
				return nil
			}
			s, t := m.callSync(g, V{r: &Closure{fn: sf}}, []V{deepCopy(ti, v)})
			if t != nil {
				return t
			}
			if verb == 'q' || verb == 'x' {
				cs, ok := concStr(s)
				if !ok {
					m.end(eUnsupported, "%%q of symbolic string")
				}
				b.str(fmt.Sprintf(f.spec(verb), cs))
				return nil
			}
			m.pad(b, f, s)
			return nil
		}
	}
	if f.sharp && verb == 'v' && (ti.named != nil || ti.k != KBool && ti.k != KInt && ti.k != KString && ti.k != KFloat) {
		m.end(eUnsupported, "%%#v of %s", ti.str)
	}
	switch ti.k {
	case KBool:
		x := v.n != 0
		if e, ok := v.r.(*Expr); ok {
			x = m.decide(e)
		}
		b.str(fmt.Sprintf(f.spec(verb), x))
	case KInt:
		v = m.concretize(ti, v)
		if ti.signed {
			switch ti.w {
			case 32:
				b.str(fmt.Sprintf(f.spec(verb), int32(v.n)))
			default:
				b.str(fmt.Sprintf(f.spec(verb), int64(v.n)))
			}
		} else {
			switch ti.w {
			case 8:
				b.str(fmt.Sprintf(f.spec(verb), uint8(v.n)))
			default:
				b.str(fmt.Sprintf(f.spec(verb), v.n))
			}
		}
	case KFloat:
		b.str(fmt.Sprintf(f.spec(verb), math.Float64frombits(v.n)))
	case KString:
		if s, ok := concStr(v); ok {
			b.str(fmt.Sprintf(f.spec(verb), s))
		} else if verb == 's' || verb == 'v' {
			m.pad(b, f, v)
		} else {
			m.end(eUnsupported, "%%%c of symbolic string", verb)
		}
	case KIface:
		if v.r == nil {
			m.pad(b, f, mkStr("<nil>"))
			return nil
		}
		i := v.r.(*Iface)
		return m.fmtVal(g, b, f, verb, i.t, i.v, depth+1)
	case KPtr:
		if v.r == nil {
			b.str("<nil>")
			return nil
		}
		if depth == 0 && ti.elem.isAgg() {
			b.str("&")
			return m.fmtVal(g, b, f, verb, ti.elem, v.r.(*Agg).f[v.n], depth+1)
		}
		b.str(fmt.Sprintf("%p", v.r))
	case KSlice, KArray:
		var l []V
		if ti.k == KSlice {
			if s, ok := v.r.(*Slice); ok {
				l = s.arr.f[s.off : s.off+s.len]
			}
			if ti.elem.k == KInt && ti.elem.w == 8 && (verb == 's' || verb == 'x' || verb == 'q') {
				bs := make([]byte, len(l))
				for i, x := range l {
					if x.r != nil {
						m.end(eUnsupported, "format of symbolic bytes")
					}
					bs[i] = byte(x.n)
				}
				b.str(fmt.Sprintf(f.spec(verb), bs))
				return nil
			}
		} else {
			l = v.r.(*Agg).f
		}
		b.str("[")
		for i, x := range l {
			if i > 0 {
				b.str(" ")
			}
			if t := m.fmtVal(g, b, f, verb, ti.elem, x, depth+1); t != nil {
				return t
			}
		}
		b.str("]")
	case KStruct:
		b.str("{")
		for i, ft := range ti.fields {
			if i > 0 {
				b.str(" ")
			}
			if f.plus {
				b.str(fieldName(ti, i) + ":")
			}
			// fmt does not call methods of unexported fields
			if t := m.fmtField(g, b, f, verb, ti, i, ft, v.r.(*Agg).f[i], depth+1); t != nil {
				return t
			}
		}
		b.str("}")
	case KMap:
		b.str("map[")
		if mp, ok := v.r.(*Map); ok {
			var es []*mapEntry
			for _, e := range mp.entries {
				if !e.dead {
					es = append(es, e)
				}
			}
			sort.SliceStable(es, func(i, j int) bool { return keyLess(es[i].k, es[j].k) })
			for i, e := range es {
				if i > 0 {
					b.str(" ")
				}
				if t := m.fmtVal(g, b, f, verb, ti.key, e.k, depth+1); t != nil {
					return t
				}
				b.str(":")
				if t := m.fmtVal(g, b, f, verb, ti.elem, e.v, depth+1); t != nil {
					return t
				}
			}
		}
		b.str("]")
	default:
		if v.r == nil {
			b.str("<nil>")
		} else {
			b.str(fmt.Sprintf("%p", v.r))
		}
	}
	return nil
}

func keyLess(a, b V) bool {
	if x, ok := a.r.(string); ok {
		y, _ := b.r.(string)
		return x < y
	}
	if a.r == nil && b.r == nil {
		return int64(a.n) < int64(b.n)
	}
	return false
}
