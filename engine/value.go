package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
	"sync"
)

// V is a value of the interpreted program. The static type says how to read it:
//
//	bool/integer : n (sign- or zero-extended to 64 bits) when r==nil, else r is *Expr
//	float        : n = Float64bits
//	string       : r = nil ("") | string | *SymStr
//	pointer      : r = *Agg, n = slot index (nil pointer: r == nil)
//	struct/array/tuple : r = *Agg
//	slice        : r = *Slice (nil slice: r == nil)
//	map, chan    : r = *Map, *Chan
//	interface    : r = *Iface (nil interface: r == nil)
//	func         : r = *Closure | *Native (nil func: r == nil)
type V struct {
	n uint64
	r any
}

type Agg struct {
	f []V
}

type SymStr struct{ b []V }

type Slice struct {
	arr           *Agg
	off, len, cap int
}

type Iface struct {
	t *TInfo
	v V
}

type Closure struct {
	fn  *Fn
	env []V
}

// Native is a function implemented by the engine and callable as a func value.
type Native struct {
	name string
	f    func(m *Machine, g *G, args []V) V
}

type mapEntry struct {
	k, v V
	dead bool
}
type Map struct {
	kt, vt  *TInfo
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	n       int
	nsym    int // live entries with a symbolic key
}

type waiter struct {
	g     *G
	sel   *selTok
	idx   int
	val   V
	isSel bool
}
type selTok struct{ fired bool }

type Chan struct {
	id     int
	cap    int
	buf    []V
	bufVC  []VC
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
	elem   *TInfo
}

type kind uint8

const (
	KBool kind = iota
	KInt       // signed or unsigned integer
	KFloat
	KString
	KPtr
	KStruct
	KArray
	KTuple
	KSlice
	KMap
	KChan
	KIface
	KFunc
	KUnsafe
	KOther
)

type TInfo struct {
	id     int
	typ    types.Type
	k      kind
	w      int
	signed bool
	elem   *TInfo
	key    *TInfo
	fields []*TInfo
	n      int
	named  *types.Named
	str    string

	mu      sync.Mutex
	methods map[string]*Fn
	isIface bool
	implMu  sync.Mutex
	impl    map[int]bool
}

type TypeTab struct {
	mu   sync.Mutex
	m    typeutil.Map
	n    int
	prog *ssa.Program
}

func (tt *TypeTab) Get(t types.Type) *TInfo {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get(t)
}

func (tt *TypeTab) get(t types.Type) *TInfo {
	if ti, ok := tt.m.At(t).(*TInfo); ok {
		return ti
	}
	ti := &TInfo{typ: t, id: tt.n}
	tt.n++
	tt.m.Set(t, ti)
	ti.str = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		ti.named = nm
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch info := u.Info(); {
		case info&types.IsBoolean != 0:
			ti.k = KBool
		case info&types.IsInteger != 0:
			ti.k = KInt
			ti.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
			if u.Kind() == types.UnsafePointer {
				ti.k = KUnsafe
			}
		case info&types.IsFloat != 0:
			ti.k = KFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case info&types.IsString != 0:
			ti.k = KString
		case u.Kind() == types.UnsafePointer:
			ti.k = KUnsafe
		default:
			ti.k = KOther
		}
	case *types.Pointer:
		ti.k = KPtr
		ti.elem = tt.get(u.Elem())
	case *types.Struct:
		ti.k = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k = KArray
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Tuple:
		ti.k = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get(u.At(i).Type()))
		}
	case *types.Slice:
		ti.k = KSlice
		ti.elem = tt.get(u.Elem())
	case *types.Map:
		ti.k = KMap
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.k = KChan
		ti.elem = tt.get(u.Elem())
	case *types.Interface:
		ti.k = KIface
		ti.isIface = true
	case *types.Signature:
		ti.k = KFunc
	default:
		ti.k = KOther
	}
	return ti
}

func (ti *TInfo) isAgg() bool { return ti.k == KStruct || ti.k == KArray || ti.k == KTuple }

type agg1 struct {
	Agg
	v [1]V
}
type agg2 struct {
	Agg
	v [2]V
}
type agg3 struct {
	Agg
	v [3]V
}
type agg4 struct {
	Agg
	v [4]V
}
type agg5 struct {
	Agg
	v [5]V
}

// newAgg allocates an aggregate of n values, small ones together with their header.
func newAgg(n int) *Agg {
	switch n {
	case 1:
		a := &agg1{}
		a.f = a.v[:]
		return &a.Agg
	case 2:
		a := &agg2{}
		a.f = a.v[:]
		return &a.Agg
	case 3:
		a := &agg3{}
		a.f = a.v[:]
		return &a.Agg
	case 4:
		a := &agg4{}
		a.f = a.v[:]
		return &a.Agg
	case 5:
		a := &agg5{}
		a.f = a.v[:]
		return &a.Agg
	}
	return &Agg{f: make([]V, n)}
}

func zero(ti *TInfo) V {
	switch ti.k {
	case KStruct, KTuple:
		a := newAgg(len(ti.fields))
		for i, f := range ti.fields {
			if f.isAgg() {
				a.f[i] = zero(f)
			}
		}
		return V{r: a}
	case KArray:
		a := newAgg(ti.n)
		if ti.elem.isAgg() {
			for i := range a.f {
				a.f[i] = zero(ti.elem)
			}
		}
		return V{r: a}
	}
	return V{}
}

// copyVal returns a value that does not share aggregate storage with v.
func copyVal(v V) V {
	if a, ok := v.r.(*Agg); ok {
		b := newAgg(len(a.f))
		copy(b.f, a.f)
		return V{r: b}
	}
	return v
}

func deepCopy(ti *TInfo, v V) V {
	if !ti.isAgg() {
		return v
	}
	a := v.r.(*Agg)
	b := newAgg(len(a.f))
	switch ti.k {
	case KArray:
		if ti.elem.isAgg() {
			for i := range a.f {
				b.f[i] = deepCopy(ti.elem, a.f[i])
			}
		} else {
			copy(b.f, a.f)
		}
	default:
		for i, ft := range ti.fields {
			if ft.isAgg() {
				b.f[i] = deepCopy(ft, a.f[i])
			} else {
				b.f[i] = a.f[i]
			}
		}
	}
	return V{r: b}
}

// copyInto stores v (of type ti) into the existing storage of slot.
func copyInto(ti *TInfo, slot *V, v V) {
	if !ti.isAgg() {
		*slot = v
		return
	}
	dst, ok := slot.r.(*Agg)
	if !ok {
		*slot = deepCopy(ti, v)
		return
	}
	src := v.r.(*Agg)
	if dst == src {
		return
	}
	switch ti.k {
	case KArray:
		for i := range src.f {
			copyInto(ti.elem, &dst.f[i], src.f[i])
		}
	default:
		for i, ft := range ti.fields {
			copyInto(ft, &dst.f[i], src.f[i])
		}
	}
}

func mkInt(n int) V     { return V{n: uint64(int64(n))} }
func mkInt64(n int64) V { return V{n: uint64(n)} }
func mkBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}
func mkFloat(f float64) V { return V{n: math.Float64bits(f)} }

func isSym(v V) bool { _, ok := v.r.(*Expr); return ok }

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.r))
}
func concStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		return "", false
	}
	panic(fmt.Sprintf("concStr of %T", v.r))
}
func strByte(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}
func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = V{n: uint64(s[i])}
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}
func mkSymStr(b []V) V {
	for _, x := range b {
		if x.r != nil {
			return V{r: &SymStr{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return mkStr(string(bs))
}

// normalise an integer to its type's width
func normInt(ti *TInfo, n uint64) uint64 {
	if ti.w >= 64 || ti.w == 0 {
		return n
	}
	if ti.signed {
		return uint64(sext(n, ti.w))
	}
	return n & mask(ti.w)
}

func (m *Machine) toExpr(ti *TInfo, v V) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	if ti.k == KBool {
		return m.ctx.Bool(v.n != 0)
	}
	return m.ctx.Const(ti.w, v.n)
}
func (m *Machine) boolExpr(v V) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	return m.ctx.Bool(v.n != 0)
}
func fromExpr(ti *TInfo, e *Expr) V {
	if e.isConst() {
		if ti.k == KBool {
			return V{n: e.val}
		}
		return V{n: normInt(ti, e.val)}
	}
	return V{r: e}
}
func fromBool(e *Expr) V {
	if e.isConst() {
		return V{n: e.val}
	}
	return V{r: e}
}

// show renders a value for messages.
func (m *Machine) show(ti *TInfo, v V, d int) string {
	if d > 4 {
		return "…"
	}
	switch ti.k {
	case KBool:
		if e, ok := v.r.(*Expr); ok {
			return e.String()
		}
		return fmt.Sprint(v.n != 0)
	case KInt:
		if e, ok := v.r.(*Expr); ok {
			return e.String()
		}
		if ti.signed {
			return fmt.Sprint(int64(v.n))
		}
		return fmt.Sprint(v.n)
	case KString:
		if s, ok := concStr(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return "sym" + fmt.Sprint(strLen(v))
	case KIface:
		if v.r == nil {
			return "nil"
		}
		i := v.r.(*Iface)
		return i.t.str + ":" + m.show(i.t, i.v, d+1)
	case KStruct:
		var s []string
		for i, f := range ti.fields {
			s = append(s, m.show(f, v.r.(*Agg).f[i], d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case KSlice:
		if v.r == nil {
			return "nil"
		}
		sl := v.r.(*Slice)
		var s []string
		for i := 0; i < sl.len && i < 8; i++ {
			s = append(s, m.show(ti.elem, sl.arr.f[sl.off+i], d+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("<%s>", ti.str)
}
