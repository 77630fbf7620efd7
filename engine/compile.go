package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type IOp uint8

const (
	IAlloc IOp = iota
	ICall
	IBin
	IUn
	ILoad
	IMove
	IConvert
	IMakeIface
	IMakeClosure
	IMakeMap
	IMakeChan
	IMakeSlice
	ISlice
	IFieldAddr
	IField
	IIndexAddr
	IIndex
	ILookup
	ISelect
	IRange
	INext
	ITypeAssert
	IExtract
	IJump
	IIf
	IReturn
	IRunDefers
	IPanic
	IGo
	IDefer
	ISend
	IStore
	IMapUpdate
	IRecv
	ISliceToArr
	IUnsupported
)

const (
	constBase  = 1 << 24
	globalBase = 1 << 25
)

type move struct{ dst, src int32 }
type edge struct {
	pc    int32
	moves []move
}

type instr struct {
	op    IOp
	tok   token.Token
	flag  bool
	dst   int32
	a, b  int32
	c, d  int32
	args  []int32
	ti    *TInfo // type of the operation (operand type, elem type...)
	ti2   *TInfo
	fn    *Fn
	name  string
	key   string
	e0    edge
	e1    edge
	pos   token.Pos
	bi    *ssa.Builtin
	sel   []selState
	meth  *types.Func
	bid   int32
	ntype []*TInfo
}
type selState struct {
	send  bool
	ch, v int32
	elem  *TInfo
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	pkg      string
	nparams  int
	nfree    int
	nlocals  int
	consts   []V
	code     []instr
	recover  int32 // pc of recover block or -1
	results  []*TInfo
	params   []*TInfo
	intr     func(m *Machine, g *G, args []V) (V, ctl)
	compiled atomic.Bool
	mu       sync.Mutex
	used     atomic.Bool
	ninstr   int
	external bool
	nblocks  int
	blkSeen  []atomic.Bool
	quiet    bool
}

// ctl tells the machine how an intrinsic ended.
type ctl uint8

const (
	cDone   ctl = iota
	cBlock      // park the goroutine and retry the instruction later
	cCall       // the intrinsic pushed a frame; the result comes from it
	cThrow      // the intrinsic raised a panic in the program
	cParked     // the goroutine was parked and its result will be delivered
	cInterp     // interpret the body instead
)

type Prog struct {
	ssa     *ssa.Program
	tt      *TypeTab
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	gtypes  []*TInfo
	gnames  []string
	gok     []bool
	fset    *token.FileSet
	intr    map[string]func(m *Machine, g *G, args []V) (V, ctl)
	unsup   map[string]bool
	repoPfx string
	tError  *TInfo
	tString *TInfo
	tInt    *TInfo
	tBool   *TInfo
	tRunErr *TInfo
	tByte   *TInfo
	tAny    *TInfo
	tRType  *TInfo
	tExit   *TInfo
	intrF   map[string]func(fn *Fn) intrFn
	initOrd []*ssa.Package
}

func (p *Prog) Fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fn, ok := p.fns[f]; ok {
		return fn
	}
	fn := &Fn{ssa: f, name: fnName(f), recover: -1}
	if f.Pkg != nil {
		fn.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fn.pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		fn.pkg = f.Object().Pkg().Path()
	}
	key := fn.name
	if o := f.Origin(); o != nil {
		key = fnName(o)
	}
	if it, ok := p.intr[key]; ok {
		fn.intr = it
	}
	if it, ok := p.intrF[key]; ok {
		fn.intr = it(fn)
	}
	if f.Synthetic == "package initializer" && !p.wantInit(fn.pkg) {
		fn.intr = nop
	}
	p.fns[f] = fn
	return fn
}

func fnName(f *ssa.Function) string {
	if f.Object() != nil && f.Parent() == nil && f.Synthetic == "" {
		return f.Object().(*types.Func).FullName()
	}
	return f.String()
}

func (p *Prog) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.gtypes)
	p.globals[g] = i
	p.gtypes = append(p.gtypes, p.tt.Get(g.Type().Underlying().(*types.Pointer).Elem()))
	p.gnames = append(p.gnames, g.String())
	ok := true
	if g.Pkg != nil && g.Name() != "init$guard" {
		ok = p.wantInit(g.Pkg.Pkg.Path()) || allowGlobal[g.String()]
	}
	p.gok = append(p.gok, ok)
	return i
}

func (p *Prog) constVal(c *ssa.Const) V {
	ti := p.tt.Get(c.Type())
	if c.Value == nil {
		return zero(ti)
	}
	switch ti.k {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt, KUnsafe:
		if ti.signed {
			return mkInt64(c.Int64())
		}
		return V{n: c.Uint64()}
	case KFloat:
		f := c.Float64()
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return V{}
	}
	return V{}
}

func (p *Prog) compileSig(fn *Fn) { p.compile(fn) }

func (p *Prog) compile(fn *Fn) {
	if fn.compiled.Load() {
		return
	}
	fn.mu.Lock()
	defer fn.mu.Unlock()
	if fn.compiled.Load() {
		return
	}
	defer fn.compiled.Store(true)
	f := fn.ssa
	fn.nparams = len(f.Params)
	fn.nfree = len(f.FreeVars)
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fn.results = append(fn.results, p.tt.Get(res.At(i).Type()))
	}
	for _, pr := range f.Params {
		fn.params = append(fn.params, p.tt.Get(pr.Type()))
	}
	if len(f.Blocks) == 0 {
		fn.external = true
		return
	}
	slots := map[ssa.Value]int32{}
	next := int32(0)
	slot := func(v ssa.Value) int32 {
		if s, ok := slots[v]; ok {
			return s
		}
		s := next
		next++
		slots[v] = s
		return s
	}
	for _, pr := range f.Params {
		slot(pr)
	}
	for _, fv := range f.FreeVars {
		slot(fv)
	}
	constIdx := map[ssa.Value]int32{}
	addConst := func(k ssa.Value, v V) int32 {
		if k != nil {
			if i, ok := constIdx[k]; ok {
				return i
			}
		}
		fn.consts = append(fn.consts, v)
		i := int32(constBase + len(fn.consts) - 1)
		if k != nil {
			constIdx[k] = i
		}
		return i
	}
	opd := func(v ssa.Value) int32 {
		switch x := v.(type) {
		case nil:
			return -1
		case *ssa.Const:
			return addConst(x, p.constVal(x))
		case *ssa.Global:
			return int32(globalBase + p.global(x))
		case *ssa.Function:
			return addConst(x, V{r: &Closure{fn: p.Fn(x)}})
		case *ssa.Builtin:
			return -1
		}
		return slot(v)
	}
	T := func(t types.Type) *TInfo { return p.tt.Get(t) }

	type fix struct {
		in   int
		from *ssa.BasicBlock
	}
	start := map[*ssa.BasicBlock]int32{}
	var fixes []fix
	call := func(in *instr, cc *ssa.CallCommon) {
		for _, a := range cc.Args {
			in.args = append(in.args, opd(a))
			in.ntype = append(in.ntype, T(a.Type()))
		}
		if cc.IsInvoke() {
			in.a = opd(cc.Value)
			in.meth = cc.Method
			in.key = cc.Method.Id()
			in.name = "invoke"
			return
		}
		switch fv := cc.Value.(type) {
		case *ssa.Builtin:
			in.bi = fv
			in.name = fv.Name()
		case *ssa.Function:
			in.fn = p.Fn(fv)
		default:
			in.a = opd(cc.Value)
			in.name = "dyn"
		}
	}
	fn.nblocks = len(f.Blocks)
	fn.blkSeen = make([]atomic.Bool, len(f.Blocks))
	for _, b := range f.Blocks {
		start[b] = int32(len(fn.code))
		for _, ins := range b.Instrs {
			in := instr{dst: -1, a: -1, b: -1, c: -1, d: -1, pos: ins.Pos(), bid: int32(b.Index)}
			if v, ok := ins.(ssa.Value); ok {
				if _, isPhi := ins.(*ssa.Phi); !isPhi {
					in.dst = slot(v)
				}
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				in.op = IAlloc
				in.ti = T(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Call:
				in.op = ICall
				in.ti = T(x.Type())
				call(&in, &x.Call)
			case *ssa.Go:
				in.op = IGo
				call(&in, &x.Call)
			case *ssa.Defer:
				in.op = IDefer
				if x.DeferStack != nil {
					in.c = opd(x.DeferStack)
				}
				call(&in, &x.Call)
			case *ssa.BinOp:
				in.op = IBin
				in.tok = x.Op
				in.a, in.b = opd(x.X), opd(x.Y)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Y.Type())
				if _, isNil := x.X.(*ssa.Const); isNil && in.ti.k == KOther {
					in.ti = in.ti2
				}
			case *ssa.UnOp:
				in.a = opd(x.X)
				in.tok = x.Op
				in.ti = T(x.Type())
				switch x.Op {
				case token.MUL:
					in.op = ILoad
				case token.ARROW:
					in.op = IRecv
					in.flag = x.CommaOk
					in.ti2 = T(x.X.Type()).elem
				default:
					in.op = IUn
				}
			case *ssa.ChangeType:
				in.op = IMove
				in.a = opd(x.X)
			case *ssa.ChangeInterface:
				in.op = IMove
				in.a = opd(x.X)
			case *ssa.Convert:
				in.op = IConvert
				in.a = opd(x.X)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Type())
			case *ssa.MultiConvert:
				in.op = IConvert
				in.a = opd(x.X)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Type())
			case *ssa.SliceToArrayPointer:
				in.op = ISliceToArr
				in.a = opd(x.X)
				in.ti = T(x.Type())
			case *ssa.MakeInterface:
				in.op = IMakeIface
				in.a = opd(x.X)
				in.ti = T(x.X.Type())
			case *ssa.MakeClosure:
				in.op = IMakeClosure
				in.fn = p.Fn(x.Fn.(*ssa.Function))
				for _, bnd := range x.Bindings {
					in.args = append(in.args, opd(bnd))
				}
			case *ssa.MakeMap:
				in.op = IMakeMap
				in.ti = T(x.Type())
			case *ssa.MakeChan:
				in.op = IMakeChan
				in.ti = T(x.Type())
				in.a = opd(x.Size)
			case *ssa.MakeSlice:
				in.op = IMakeSlice
				in.ti = T(x.Type())
				in.a, in.b = opd(x.Len), opd(x.Cap)
			case *ssa.Slice:
				in.op = ISlice
				in.ti = T(x.X.Type())
				in.a = opd(x.X)
				if x.Low != nil {
					in.b = opd(x.Low)
				}
				if x.High != nil {
					in.c = opd(x.High)
				}
				if x.Max != nil {
					in.d = opd(x.Max)
				}
			case *ssa.FieldAddr:
				in.op = IFieldAddr
				in.a = opd(x.X)
				in.b = int32(x.Field)
			case *ssa.Field:
				in.op = IField
				in.a = opd(x.X)
				in.b = int32(x.Field)
			case *ssa.IndexAddr:
				in.op = IIndexAddr
				in.a, in.b = opd(x.X), opd(x.Index)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Index.Type())
			case *ssa.Index:
				in.op = IIndex
				in.a, in.b = opd(x.X), opd(x.Index)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Index.Type())
			case *ssa.Lookup:
				in.op = ILookup
				in.a, in.b = opd(x.X), opd(x.Index)
				in.ti = T(x.X.Type())
				in.ti2 = T(x.Index.Type())
				in.flag = x.CommaOk
			case *ssa.Select:
				in.op = ISelect
				in.flag = x.Blocking
				in.ti = T(x.Type())
				for _, st := range x.States {
					ss := selState{send: st.Dir == types.SendOnly, ch: opd(st.Chan), v: -1, elem: T(st.Chan.Type()).elem}
					if st.Send != nil {
						ss.v = opd(st.Send)
					}
					in.sel = append(in.sel, ss)
				}
			case *ssa.Range:
				in.op = IRange
				in.a = opd(x.X)
				in.ti = T(x.X.Type())
			case *ssa.Next:
				in.op = INext
				in.a = opd(x.Iter)
				in.flag = x.IsString
				in.ti = T(x.Type())
			case *ssa.TypeAssert:
				in.op = ITypeAssert
				in.a = opd(x.X)
				in.ti = T(x.AssertedType)
				in.flag = x.CommaOk
			case *ssa.Extract:
				in.op = IExtract
				in.a = opd(x.Tuple)
				in.b = int32(x.Index)
			case *ssa.Jump:
				in.op = IJump
				fixes = append(fixes, fix{len(fn.code), b})
			case *ssa.If:
				in.op = IIf
				in.a = opd(x.Cond)
				fixes = append(fixes, fix{len(fn.code), b})
			case *ssa.Return:
				in.op = IReturn
				for _, r := range x.Results {
					in.args = append(in.args, opd(r))
				}
			case *ssa.RunDefers:
				in.op = IRunDefers
			case *ssa.Panic:
				in.op = IPanic
				in.a = opd(x.X)
			case *ssa.Send:
				in.op = ISend
				in.a, in.b = opd(x.Chan), opd(x.X)
			case *ssa.Store:
				in.op = IStore
				in.a, in.b = opd(x.Addr), opd(x.Val)
				in.ti = T(x.Val.Type())
			case *ssa.MapUpdate:
				in.op = IMapUpdate
				in.a, in.b, in.c = opd(x.Map), opd(x.Key), opd(x.Value)
				in.ti = T(x.Map.Type())
			default:
				in.op = IUnsupported
				in.name = fmt.Sprintf("%T", ins)
			}
			fn.code = append(fn.code, in)
		}
	}
	mkEdge := func(from, to *ssa.BasicBlock, which int) edge {
		// which distinguishes two edges between the same pair of blocks
		e := edge{pc: start[to]}
		pi := -1
		seen := 0
		for i, pr := range to.Preds {
			if pr == from {
				if pi < 0 || seen == which {
					pi = i
				}
				seen++
			}
		}
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, move{slot(phi), opd(phi.Edges[pi])})
		}
		return e
	}
	for _, fx := range fixes {
		in := &fn.code[fx.in]
		in.e0 = mkEdge(fx.from, fx.from.Succs[0], 0)
		if in.op == IIf {
			w := 0
			if fx.from.Succs[0] == fx.from.Succs[1] {
				w = 1
			}
			in.e1 = mkEdge(fx.from, fx.from.Succs[1], w)
		}
	}
	if f.Recover != nil {
		fn.recover = start[f.Recover]
	}
	fn.nlocals = int(next)
	fn.ninstr = len(fn.code)
}

// method finds the implementation of an interface method for a dynamic type.
func (p *Prog) method(ti *TInfo, meth *types.Func, key string) *Fn {
	ti.mu.Lock()
	defer ti.mu.Unlock()
	if f, ok := ti.methods[key]; ok {
		return f
	}
	sel := p.ssa.MethodSets.MethodSet(ti.typ).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	sf := p.ssa.MethodValue(sel)
	if sf == nil {
		return nil
	}
	f := p.Fn(sf)
	if ti.methods == nil {
		ti.methods = map[string]*Fn{}
	}
	ti.methods[key] = f
	return f
}

// methodByName finds a method by exported name (used by the fmt and errors intrinsics).
func (p *Prog) methodByName(ti *TInfo, name string) *Fn {
	sel := p.ssa.MethodSets.MethodSet(ti.typ).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sf := p.ssa.MethodValue(sel)
	if sf == nil {
		return nil
	}
	return p.Fn(sf)
}

func (p *Prog) implements(ti, iface *TInfo) bool {
	iface.implMu.Lock()
	defer iface.implMu.Unlock()
	if r, ok := iface.impl[ti.id]; ok {
		return r
	}
	r := types.Implements(ti.typ, iface.typ.Underlying().(*types.Interface))
	if iface.impl == nil {
		iface.impl = map[int]bool{}
	}
	iface.impl[ti.id] = r
	return r
}
