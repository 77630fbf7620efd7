package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// SMT expressions, hash-consed per worker. Sort: w==0 is Bool, otherwise a bit-vector of width w.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OSDiv
	OUDiv
	OSRem
	OURem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OSlt
	OSle
	OUlt
	OUle
	OZext
	OSext
	OExtract
	OUF
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OSDiv: "bvsdiv", OUDiv: "bvudiv", OSRem: "bvsrem", OURem: "bvurem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OSlt: "bvslt", OSle: "bvsle", OUlt: "bvult", OUle: "bvule"}

type Expr struct {
	op   Op
	w    int
	val  uint64 // constants (masked to w); Bool: 0/1
	name string
	args []*Expr
	id   int
	// bounds for unsigned value (used to simplify comparisons)
	lo, hi uint64
	gen    int // evaluation memo generation
	memo   uint64
}

type Ctx struct {
	tab   map[string]*Expr
	n     int
	tru   *Expr
	fls   *Expr
	gen   int
	kb    []byte
	exprs []*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Expr{}}
	c.tru = c.mk(OConst, 0, 1, "")
	c.fls = c.mk(OConst, 0, 0, "")
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) mk(op Op, w int, val uint64, name string, args ...*Expr) *Expr {
	b := c.kb[:0]
	b = append(b, byte(op), byte(w))
	b = strconv.AppendUint(b, val, 36)
	b = append(b, '|')
	b = append(b, name...)
	for _, a := range args {
		b = append(b, '|')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	c.kb = b
	if e, ok := c.tab[string(b)]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, name: name, args: append([]*Expr(nil), args...), id: c.n}
	c.n++
	c.setBounds(e)
	c.tab[string(b)] = e
	c.exprs = append(c.exprs, e)
	return e
}

func (c *Ctx) setBounds(e *Expr) {
	e.lo, e.hi = 0, mask(e.w)
	if e.w == 0 {
		e.hi = 1
	}
	switch e.op {
	case OConst:
		e.lo, e.hi = e.val, e.val
	case OIte:
		e.lo, e.hi = min(e.args[1].lo, e.args[2].lo), max(e.args[1].hi, e.args[2].hi)
	case OZext:
		e.lo, e.hi = e.args[0].lo, e.args[0].hi
	case OSext:
		if e.args[0].hi>>(uint(e.args[0].w)-1) == 0 {
			e.lo, e.hi = e.args[0].lo, e.args[0].hi
		}
	case OExtract:
		if e.val == 0 && e.args[0].hi <= mask(e.w) {
			e.lo, e.hi = e.args[0].lo, e.args[0].hi
		}
	case OAdd:
		a, b := e.args[0], e.args[1]
		if hi, carry := bits.Add64(a.hi, b.hi, 0); carry == 0 && hi <= mask(e.w) {
			e.lo, e.hi = a.lo+b.lo, hi
		}
	}
}

func (c *Ctx) Const(w int, v uint64) *Expr { return c.mk(OConst, w, v&mask(w), "") }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fls
}

// Var makes a symbolic input; lo..hi are unsigned bounds the caller also asserts.
func (c *Ctx) Var(w int, name string, lo, hi uint64) *Expr {
	e := c.mk(OVar, w, 0, fmt.Sprintf("%s@%d_%d", name, lo, hi))
	e.lo, e.hi = lo, hi
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", a)
}
func (c *Ctx) And(a, b *Expr) *Expr {
	if a == c.fls || b == c.fls {
		return c.fls
	}
	if a == c.tru {
		return b
	}
	if b == c.tru || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, "", a, b)
}
func (c *Ctx) Or(a, b *Expr) *Expr {
	if a == c.tru || b == c.tru {
		return c.tru
	}
	if a == c.fls {
		return b
	}
	if b == c.fls || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, "", a, b)
}
func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k == c.tru || a == b {
		return a
	}
	if k == c.fls {
		return b
	}
	if a.w == 0 {
		if a == c.tru && b == c.fls {
			return k
		}
		if a == c.fls && b == c.tru {
			return c.Not(k)
		}
		return c.Or(c.And(k, a), c.And(c.Not(k), b))
	}
	return c.mk(OIte, a.w, 0, "", k, a, b)
}
func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == c.tru {
			return a
		}
		if b == c.fls {
			return c.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.fls
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if (a.op == OZext || a.op == OSext) && a.args[0].w > 0 {
				x := a.args[0]
				t := c.Const(x.w, b.val)
				var back uint64
				if a.op == OZext {
					back = t.val
				} else {
					back = uint64(sext(t.val, x.w)) & mask(a.w)
				}
				if back != b.val {
					return c.fls
				}
				return c.Eq(x, t)
			}
			if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
				return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
			}
		} else if a.op == b.op && (a.op == OZext || a.op == OSext) && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func evalBin(op Op, w int, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sext(a, w) < 0 {
				return 1
			}
			return m
		}
		if sext(b, w) == -1 {
			return (-a) & m
		}
		return uint64(sext(a, w)/sext(b, w)) & m
	case OSRem:
		if b == 0 {
			return a
		}
		if sext(b, w) == -1 {
			return 0
		}
		return uint64(sext(a, w)%sext(b, w)) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		s := b
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sext(a, w)>>s) & m
	}
	panic("evalBin")
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func evalCmp(op Op, w int, a, b uint64) bool {
	switch op {
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	}
	panic("evalCmp")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, evalBin(op, a.w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a.isConst() && a.val == 0 {
			return b
		}
	case OSub:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return c.Const(a.w, 0)
		}
	case OMul:
		if b.isConst() && b.val == 1 {
			return a
		}
		if a.isConst() && a.val == 1 {
			return b
		}
	}
	return c.mk(op, a.w, 0, "", a, b)
}
func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.w, a.val, b.val))
	}
	if a == b {
		return c.Bool(op == OSle || op == OUle)
	}
	top := uint64(1) << uint(a.w-1)
	if op == OUlt || op == OUle || (a.hi < top && b.hi < top) {
		strict := op == OUlt || op == OSlt
		if strict {
			if a.hi < b.lo {
				return c.tru
			}
			if a.lo >= b.hi {
				return c.fls
			}
		} else {
			if a.hi <= b.lo {
				return c.tru
			}
			if a.lo > b.hi {
				return c.fls
			}
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}
func (c *Ctx) Zext(a *Expr, w int) *Expr {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val)
	}
	return c.mk(OZext, w, 0, "", a)
}
func (c *Ctx) Sext(a *Expr, w int) *Expr {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.hi>>uint(a.w-1) == 0 {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, 0, "", a)
}
func (c *Ctx) Trunc(a *Expr, w int) *Expr {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val)
	}
	if (a.op == OZext || a.op == OSext) && a.args[0].w <= w {
		if a.args[0].w == w {
			return a.args[0]
		}
		if a.op == OZext {
			return c.Zext(a.args[0], w)
		}
		return c.Sext(a.args[0], w)
	}
	return c.mk(OExtract, w, 0, "", a)
}
func (c *Ctx) UF(name string, w int, args ...*Expr) *Expr {
	return c.mk(OUF, w, 0, name, args...)
}

// Model: values of variables and of UF applications (by expression id).
type Model struct {
	vals map[int]uint64
}

func (c *Ctx) Eval(e *Expr, m *Model) uint64 {
	c.gen++
	return c.eval(e, m)
}
func (c *Ctx) eval(e *Expr, m *Model) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.gen == c.gen {
		return e.memo
	}
	var r uint64
	switch e.op {
	case OVar:
		if v, ok := m.vals[e.id]; ok {
			r = v
		} else {
			r = e.lo
		}
	case OUF:
		// consistent with other applications having equal arguments
		if v, ok := m.vals[e.id]; ok {
			r = v
		} else {
			r = 0
		}
	case ONot:
		r = 1 - c.eval(e.args[0], m)
	case OAnd:
		r = c.eval(e.args[0], m)
		if r != 0 {
			r = c.eval(e.args[1], m)
		}
	case OOr:
		r = c.eval(e.args[0], m)
		if r == 0 {
			r = c.eval(e.args[1], m)
		}
	case OIte:
		if c.eval(e.args[0], m) != 0 {
			r = c.eval(e.args[1], m)
		} else {
			r = c.eval(e.args[2], m)
		}
	case OEq:
		r = b2u(c.eval(e.args[0], m) == c.eval(e.args[1], m))
	case OSlt, OSle, OUlt, OUle:
		r = b2u(evalCmp(e.op, e.args[0].w, c.eval(e.args[0], m), c.eval(e.args[1], m)))
	case OZext:
		r = c.eval(e.args[0], m)
	case OSext:
		r = uint64(sext(c.eval(e.args[0], m), e.args[0].w)) & mask(e.w)
	case OExtract:
		r = c.eval(e.args[0], m) & mask(e.w)
	default:
		r = evalBin(e.op, e.w, c.eval(e.args[0], m), c.eval(e.args[1], m))
	}
	e.gen = c.gen
	e.memo = r
	return r
}

func (c *Ctx) hasUF(e *Expr, seen map[int]bool) bool {
	if e.op == OUF {
		return true
	}
	if seen[e.id] {
		return false
	}
	seen[e.id] = true
	for _, a := range e.args {
		if c.hasUF(a, seen) {
			return true
		}
	}
	return false
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (e *Expr) ref() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
	}
	return "e" + strconv.Itoa(e.id)
}

func (e *Expr) body() string {
	var sb strings.Builder
	switch e.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.args[0].w, e.args[0].ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.args[0].w, e.args[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, e.args[0].ref())
	case OUF:
		if len(e.args) == 0 {
			return ufName(e)
		}
		sb.WriteString("(" + ufName(e))
	default:
		sb.WriteString("(" + opName[e.op])
	}
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func ufName(e *Expr) string {
	s := "uf"
	for _, a := range e.args {
		s += "_" + strconv.Itoa(a.w)
	}
	return "|" + s + "_" + strconv.Itoa(e.w) + ":" + strings.ReplaceAll(strings.ReplaceAll(e.name, "|", "!"), "\\", "!") + "|"
}

// String renders an expression for humans.
func (e *Expr) String() string { return e.str(6) }
func (e *Expr) str(d int) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			return e.ref()
		}
		return strconv.FormatInt(sext(e.val, e.w), 10)
	case OVar:
		return e.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opName[e.op]
	if e.op == OUF {
		s = "(" + e.name
	} else if opName[e.op] == "" {
		s = "(cast"
	}
	for _, a := range e.args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
