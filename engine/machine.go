package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

type VC map[int]int

type panicRec struct {
	val       V // interface value
	msg       string
	recovered bool
	runtime   bool
	trace     string
}

type deferred struct {
	fn   *Closure
	nat  *Native
	bi   *instr
	args []V
	intr *Fn
}

type Frame struct {
	fn         *Fn
	locals     []V
	base       int
	pc         int32
	dst        int32
	defers     []deferred
	unwinding  *panicRec
	isDeferred *Frame // the frame running us as a deferred call
	barrier    bool
	chunk      *stackChunk
	ret        V
	discard    bool
}

type stackChunk struct {
	v    []V
	top  int
	prev *stackChunk
}

type gstate uint8

const (
	gRun gstate = iota
	gBlocked
	gDone
)

type G struct {
	id     int
	frames []*Frame
	stack  *stackChunk
	state  gstate
	ready  func() bool // for condition-blocked goroutines
	why    string
	bret   V         // result of a barrier frame
	bthrow *panicRec // panic that reached a barrier
	bdone  bool
	free   []*Frame
	recvV  V // value delivered while parked
	dead   bool
	vc     VC
	inSync int
	yield  bool
}

type dec struct {
	taken bool
	val   uint64
}

type Input struct {
	Name string
	E    *Expr
	W    int
	Sgn  bool
	Conc uint64
	UF   string
	Args []*Expr
}

type endKind int

const (
	eOK endKind = iota
	eAssume
	eCut
	eBudget
	ePanic
	eExit
	eDeadlock
	eUnsupported
	eUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
	pos  string
}

type Violation struct {
	Label   string           `json:"label"`
	Msg     string           `json:"msg"`
	Kind    string           `json:"kind"`
	Inputs  []InputVal       `json:"inputs"`
	UFs     map[string][]UFV `json:"ufs,omitempty"`
	Sched   []int            `json:"sched,omitempty"`
	Notes   []string         `json:"notes,omitempty"`
	Where   string           `json:"where,omitempty"`
	Harness string           `json:"harness"`
	Pkg     string           `json:"pkg"`
	Known   string           `json:"known,omitempty"`
	Count   int              `json:"count,omitempty"`
	Alts    []Violation      `json:"-"`
	Obs     []ObsVal         `json:"obs,omitempty"`
	GoExit  bool             `json:"goexit,omitempty"`
	file    string
}
type InputVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}
type UFV struct {
	Args []int64 `json:"args"`
	Val  int64   `json:"val"`
}

type Machine struct {
	p             *Prog
	w             *Worker
	ctx           *Ctx
	sol           *Solver
	prefix        []dec
	decs          []dec
	model         *Model
	globals       []*Agg
	gs            []*G
	nextG         int
	nextCh        int
	cur           *G
	steps         int64
	budget        int64
	inputs        []Input
	varOcc        map[string]int
	ufApps        map[string][]*Expr
	notes         []string
	output        []V
	stdout        *Agg
	smap          map[lockKey]*Map
	wrapped       []V          // the errors that others wrap
	files         map[*Agg][]V // what is left to read of the open files
	exit          int
	exited        bool
	locks         map[lockKey]*lockState
	once          map[lockKey]int
	wgs           map[lockKey]int
	pool          map[lockKey][]V
	sched         bool
	preempt       int
	schedTr       []int
	mapOrd        bool
	covers        map[string]bool
	known         string
	abuf          []V
	side          map[string]any
	clock         int64
	catch         int
	goExit        bool // the process was ended by a goroutine other than main
	maxSwitch     int
	natCalls      int
	pcN           int
	obs           []obsRec
	schedMem      bool
	whereOverride string
	initSteps     int64
	last          *G
	asserts       int
	trivial       int
}

type lockKey struct {
	a *Agg
	i uint64
}
type lockState struct {
	w       int // gid+1 of the writer
	readers int
}

func (m *Machine) end(k endKind, format string, args ...any) {
	panic(pathEnd{kind: k, msg: fmt.Sprintf(format, args...), pos: m.trace(8)})
}

func (m *Machine) trace(n int) string {
	g := m.cur
	if g == nil {
		return ""
	}
	var s []string
	for i := len(g.frames) - 1; i >= 0 && len(s) < n; i-- {
		f := g.frames[i]
		pc := int(f.pc)
		pos := ""
		if pc < len(f.fn.code) {
			for j := pc; j >= 0 && pos == ""; j-- {
				if f.fn.code[j].pos != token.NoPos {
					ps := m.p.fset.Position(f.fn.code[j].pos)
					pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/src/"), ps.Line)
				}
			}
		}
		s = append(s, f.fn.name+" ("+pos+")")
	}
	return strings.Join(s, " < ")
}

// ---------------------------------------------------------------- decisions

func (m *Machine) inPrefix() bool { return len(m.decs) < len(m.prefix) }

func (m *Machine) assertPC(e *Expr) {
	m.sol.Assert(e)
	m.pcN++
}

// modelVal evaluates e under the current model; ok is false when the model is missing.
func (m *Machine) modelVal(e *Expr) (uint64, bool) {
	if m.model == nil {
		return 0, false
	}
	return m.ctx.Eval(e, m.model), true
}

func (m *Machine) needModel() {
	if m.model != nil || m.inPrefix() {
		return
	}
	r, mo := m.sol.Check(nil, true)
	switch r {
	case "sat":
		m.model = mo
		m.fixUF()
	case "unsat":
		m.end(eAssume, "infeasible")
	default:
		m.w.noteUnknown()
		m.end(eUnknown, "solver unknown")
	}
}

// fixUF makes the model total on the UF applications made so far.
func (m *Machine) fixUF() {
	names := make([]string, 0, len(m.ufApps))
	for n := range m.ufApps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, e := range m.ufApps[n] {
			m.extendUF(n, e)
		}
	}
}

func (m *Machine) extendUF(n string, e *Expr) {
	if m.model == nil {
		return
	}
	if _, ok := m.model.vals[e.id]; ok {
		return
	}
	av := make([]uint64, len(e.args))
	for i, a := range e.args {
		av[i] = m.ctx.Eval(a, m.model)
	}
	for _, o := range m.ufApps[n] {
		v, ok := m.model.vals[o.id]
		if !ok || o == e || len(o.args) != len(e.args) {
			continue
		}
		same := true
		for i, a := range o.args {
			if m.ctx.Eval(a, m.model) != av[i] {
				same = false
				break
			}
		}
		if same {
			m.model.vals[e.id] = v
			return
		}
	}
	m.model.vals[e.id] = 0
}

func (m *Machine) decide(e *Expr) bool { return m.decideV(e, 0) }

func (m *Machine) decideV(e *Expr, val uint64) bool {
	if e.isConst() {
		return e.val != 0
	}
	if m.inPrefix() {
		d := m.prefix[len(m.decs)]
		m.decs = append(m.decs, d)
		if d.taken {
			m.assertPC(e)
		} else {
			m.assertPC(m.ctx.Not(e))
		}
		return d.taken
	}
	m.needModel()
	v, _ := m.modelVal(e)
	taken := v != 0
	var other *Expr
	if taken {
		other = m.ctx.Not(e)
	} else {
		other = e
	}
	r, mo := m.sol.CheckUnder(other, m.model)
	if r == "sat" || r == "unknown" {
		if r == "unknown" {
			m.w.noteUnknown()
			mo = nil
		}
		alt := make([]dec, len(m.decs)+1)
		copy(alt, m.decs)
		alt[len(m.decs)] = dec{!taken, val}
		m.w.push(item{prefix: alt, model: mo, owner: m.w})
	}
	m.decs = append(m.decs, dec{taken, val})
	if taken {
		m.assertPC(e)
	} else {
		m.assertPC(m.ctx.Not(e))
	}
	return taken
}

// fork makes an unconstrained choice among n alternatives (all feasible by construction).
func (m *Machine) fork(n int) int {
	if n <= 1 {
		return 0
	}
	if m.inPrefix() {
		d := m.prefix[len(m.decs)]
		m.decs = append(m.decs, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]dec, len(m.decs)+1)
		copy(alt, m.decs)
		alt[len(m.decs)] = dec{true, uint64(i)}
		m.w.push(item{prefix: alt, model: m.model, owner: m.w})
	}
	m.decs = append(m.decs, dec{true, 0})
	return 0
}

// concretize forks over the feasible values of a symbolic scalar.
func (m *Machine) concretize(ti *TInfo, v V) V {
	e, ok := v.r.(*Expr)
	if !ok {
		return v
	}
	if ti.k == KBool {
		return mkBool(m.decide(e))
	}
	for i := 0; ; i++ {
		if i > 600 {
			m.end(eCut, "concretization of %s has too many values", e)
		}
		var val uint64
		if m.inPrefix() {
			val = m.prefix[len(m.decs)].val
		} else {
			m.needModel()
			val, _ = m.modelVal(e)
		}
		c := m.ctx.Eq(e, m.ctx.Const(e.w, val))
		if c.isConst() && c.val != 0 {
			return V{n: normInt(ti, val)}
		}
		if m.decideV(c, val) {
			return V{n: normInt(ti, val)}
		}
	}
}

func (m *Machine) assume(e *Expr) {
	if e.isConst() {
		if e.val == 0 {
			m.end(eAssume, "assumption is false")
		}
		return
	}
	m.assertPC(e)
	if m.inPrefix() {
		return
	}
	if v, ok := m.modelVal(e); ok && v != 0 {
		return
	}
	m.model = nil
	m.needModel()
}

// check decides an assertion on the current path.
func (m *Machine) check(e *Expr, label, msg string, known *Expr, kid string) {
	m.asserts++
	if e.isConst() && e.val != 0 {
		m.trivial++
		return
	}
	if m.inPrefix() {
		m.assertPC(e)
		return
	}
	ne := m.ctx.Not(e)
	report := func(q *Expr, k string) {
		r, mo := m.sol.Check(q, true)
		m.w.stats.assertQ++
		switch r {
		case "sat":
			m.w.stats.assertSat++
			m.violation("assert", label, msg, mo, k)
		case "unsat":
			m.w.stats.assertUnsat++
			if m.w.cross != nil {
				m.w.crossCheck(m.sol.asserted, q)
			}
		default:
			m.w.noteUnknown()
		}
	}
	if known != nil {
		if k := m.ctx.And(ne, known); k != m.ctx.fls {
			report(k, kid)
		}
		if k := m.ctx.And(ne, m.ctx.Not(known)); k != m.ctx.fls {
			report(k, "")
		}
	} else {
		report(ne, "")
	}
	m.assume(e)
}

func (m *Machine) violation(kind, label, msg string, mo *Model, known string) {
	save := m.model
	if mo != nil {
		m.model = mo
		m.fixUF()
	}
	where := m.whereOverride
	if where == "" {
		where = m.trace(10)
	}
	v := Violation{Kind: kind, Label: label, Msg: msg, Sched: append([]int(nil), m.schedTr...), Where: where, Known: known, GoExit: m.goExit}
	mm := m.model
	if mm == nil {
		mm = &Model{vals: map[int]uint64{}}
	}
	v.Inputs, v.UFs = m.inputVals(mm)
	sv := m.model
	m.model = mm
	for _, o := range m.obs {
		x := ObsVal{o.label, m.evalStr(o.v)}
		v.Obs = append(v.Obs, x)
		v.Notes = append(v.Notes, x.L+": "+x.V)
	}
	m.model = sv
	m.model = save
	m.w.addViolation(v)
}

// ---------------------------------------------------------------- goroutines and frames

func (m *Machine) newG() *G {
	g := &G{id: m.nextG}
	m.nextG++
	m.gs = append(m.gs, g)
	return g
}

func (m *Machine) alloc(g *G, n int) (*stackChunk, int) {
	if g.stack == nil || g.stack.top+n > len(g.stack.v) {
		sz := 1 << 12
		if n > sz {
			sz = n
		}
		g.stack = &stackChunk{v: make([]V, sz), prev: g.stack}
	}
	b := g.stack.top
	g.stack.top += n
	return g.stack, b
}

func (m *Machine) pushFrame(g *G, fn *Fn, args []V, env []V, dst int32) *Frame {
	if !fn.compiled.Load() {
		m.p.compile(fn)
	}
	if fn.external {
		m.w.unsupported("no body for " + fn.name)
		m.end(eUnsupported, "call of external function %s", fn.name)
	}
	if !fn.used.Load() {
		fn.used.Store(true)
	}
	if len(g.frames) > 4000 {
		m.end(eBudget, "call depth exceeded in %s", fn.name)
	}
	var fr *Frame
	if k := len(g.free); k > 0 {
		fr = g.free[k-1]
		g.free = g.free[:k-1]
		*fr = Frame{}
	} else {
		fr = &Frame{}
	}
	fr.fn = fn
	fr.dst = dst
	ch, b := m.alloc(g, fn.nlocals)
	fr.chunk, fr.base = ch, b
	fr.locals = ch.v[b : b+fn.nlocals : b+fn.nlocals]
	copy(fr.locals, args)
	if len(env) > 0 {
		copy(fr.locals[fn.nparams:], env)
	}
	g.frames = append(g.frames, fr)
	return fr
}

func (m *Machine) popFrame(g *G) *Frame {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	clear(fr.locals)
	ch := fr.chunk
	ch.top = fr.base
	for g.stack.top == 0 && g.stack.prev != nil && g.stack == ch {
		g.stack = ch.prev
		ch = g.stack
	}
	return fr
}

func (m *Machine) globalPtr(i int) V {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	a := m.globals[i]
	if a == nil {
		m.p.mu.Lock()
		ti := m.p.gtypes[i]
		okG := m.p.gok[i]
		nm := m.p.gnames[i]
		m.p.mu.Unlock()
		if !okG {
			m.end(eUnsupported, "global %s of an uninitialised package", nm)
		}
		a = &Agg{f: []V{zero(ti)}}
		m.globals[i] = a
		if nm == "os.Args" {
			a.f[0] = mkStrSlice([]string{"goeland"})
		}
		if nm == "os.ErrNotExist" || nm == "io/fs.ErrNotExist" {
			a.f[0] = m.err(noFile)
		}
		if nm == "os.Stdout" || nm == "os.Stderr" || nm == "os.Stdin" {
			o := &Agg{f: []V{zero(ti.elem)}}
			a.f[0] = V{r: o}
			if nm == "os.Stdout" {
				m.stdout = o
			}
		}
	}
	return V{r: a}
}

// callSync runs fn to completion on g (other goroutines may run if g blocks).
func (m *Machine) callSync(g *G, fv V, args []V) (V, *panicRec) {
	g.inSync++
	defer func() { g.inSync-- }()
	switch f := fv.r.(type) {
	case *Native:
		return f.f(m, g, args), nil
	case *Closure:
		if f.fn.intr != nil {
			v, c := f.fn.intr(m, g, args)
			if c == cDone {
				return v, nil
			}
			if c != cCall {
				m.end(eUnsupported, "blocking intrinsic %s called from an intrinsic", f.fn.name)
			}
			g.frames[len(g.frames)-1].barrier = true
			return m.runBarrier(g)
		}
		fr := m.pushFrame(g, f.fn, args, f.env, -1)
		fr.barrier = true
		return m.runBarrier(g)
	}
	m.end(eUnsupported, "callSync of %T", fv.r)
	return V{}, nil
}

func (m *Machine) runBarrier(g *G) (V, *panicRec) {
	g.bdone = false
	depth := len(g.frames)
	_ = depth
	for {
		if g.state == gRun {
			m.exec(g)
			if m.exited {
				return V{}, &panicRec{msg: "exit"}
			}
			if g.bdone {
				g.bdone = false
				v, t := g.bret, g.bthrow
				g.bret, g.bthrow = V{}, nil
				return v, t
			}
		}
		if g.state == gRun && !g.yield {
			continue
		}
		g.yield = false
		// g is blocked (or yielded): run somebody
		ng := m.pick(g)
		if ng == nil {
			m.end(eDeadlock, "all goroutines are blocked: %s", m.blockedInfo())
		}
		if ng != g {
			m.exec(ng)
			if m.exited {
				return V{}, &panicRec{msg: "exit"}
			}
		}
	}
}

func (m *Machine) blockedInfo() string {
	var s []string
	for _, g := range m.gs {
		if g.state == gBlocked {
			cur := m.cur
			m.cur = g
			s = append(s, fmt.Sprintf("g%d %s at %s", g.id, g.why, m.trace(3)))
			m.cur = cur
		}
	}
	return strings.Join(s, "; ")
}

func (m *Machine) runnable() []*G {
	var r []*G
	for _, g := range m.gs {
		if g.state == gBlocked && g.ready != nil && g.ready() {
			g.state = gRun
			g.ready = nil
		}
		if g.state == gRun && g.inSync == 0 {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine to run; prefer is kept in deterministic mode when it can run.
func (m *Machine) pick(prefer *G) *G {
	if len(m.gs) > 24 {
		k := 0
		for _, g := range m.gs {
			if g.state != gDone || g == m.gs[0] {
				m.gs[k] = g
				k++
			}
		}
		m.gs = m.gs[:k]
	}
	rs := m.runnable()
	if prefer != nil && prefer.state == gRun && prefer.inSync > 0 {
		rs = append(rs, prefer)
	}
	if len(rs) == 0 {
		for _, g := range m.gs {
			if g != prefer && g.inSync > 0 && (g.state == gRun || g.state == gBlocked && g.ready != nil && g.ready()) {
				m.end(eUnsupported, "a goroutine inside a library call must run first")
			}
		}
		return nil
	}
	if !m.sched {
		// deterministic: round robin after the current goroutine
		best := rs[0]
		for _, g := range rs {
			if m.cur != nil && g.id > m.cur.id {
				return g
			}
		}
		return best
	}
	if len(rs) == 1 {
		return rs[0]
	}
	k := m.fork(len(rs))
	m.schedTr = append(m.schedTr, rs[k].id)
	return rs[k]
}

// schedPoint lets another goroutine preempt g in symbolic scheduling mode. Returns true if g must yield.
func (m *Machine) schedPoint(g *G) bool {
	if !m.sched || m.preempt <= 0 || g.inSync > 1 {
		return false
	}
	n := 0
	for _, o := range m.gs {
		if o != g && (o.state == gRun || (o.state == gBlocked && o.ready != nil && o.ready())) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	if m.fork(2) == 1 {
		m.preempt--
		m.schedTr = append(m.schedTr, g.id)
		return true
	}
	return false
}

// throwRT raises a Go run-time panic.
func (m *Machine) throwRT(g *G, msg string) {
	v := V{r: &Iface{t: m.p.tRunErr, v: mkStr(msg)}}
	m.throw(g, &panicRec{val: v, msg: msg, runtime: true})
}

func (m *Machine) throw(g *G, pr *panicRec) {
	pr.trace = m.trace(10)
	fr := g.frames[len(g.frames)-1]
	fr.unwinding = pr
}

// unwind runs the deferred calls of the panicking top frame; returns false when the goroutine must stop executing.
func (m *Machine) unwind(g *G) bool {
	for {
		fr := g.frames[len(g.frames)-1]
		pr := fr.unwinding
		if pr == nil {
			return true
		}
		if pr.recovered {
			fr.unwinding = nil
			if fr.fn.recover >= 0 {
				fr.pc = fr.fn.recover
				return true
			}
			// return zero values
			m.doReturn(g, m.zeroResults(fr.fn))
			return !g.bdone && g.state == gRun
		}
		if k := len(fr.defers); k > 0 {
			d := fr.defers[k-1]
			fr.defers = fr.defers[:k-1]
			m.startDeferred(g, fr, d)
			return true
		}
		barrier := fr.barrier
		isDef := fr.isDeferred
		m.popFrame(g)
		if barrier {
			g.bthrow = pr
			g.bdone = true
			return false
		}
		if len(g.frames) == 0 {
			g.state = gDone
			panic(pathEnd{kind: ePanic, msg: pr.msg, pos: pr.trace})
		}
		top := g.frames[len(g.frames)-1]
		_ = isDef
		top.unwinding = pr
	}
}

func (m *Machine) zeroResults(fn *Fn) V {
	switch len(fn.results) {
	case 0:
		return V{}
	case 1:
		return zero(fn.results[0])
	}
	a := &Agg{}
	for _, t := range fn.results {
		a.f = append(a.f, zero(t))
	}
	return V{r: a}
}

func (m *Machine) startDeferred(g *G, fr *Frame, d deferred) {
	switch {
	case d.bi != nil:
		m.builtin(g, fr, d.bi, d.args)
	case d.nat != nil:
		d.nat.f(m, g, d.args)
	case d.intr != nil:
		_, c := d.intr.intr(m, g, d.args)
		if c == cCall {
			top := g.frames[len(g.frames)-1]
			top.dst = -1
			top.isDeferred = fr
			top.discard = true
		} else if c == cBlock {
			m.end(eUnsupported, "deferred %s blocks", d.intr.name)
		}
	default:
		nf := m.pushFrame(g, d.fn.fn, d.args, d.fn.env, -1)
		nf.isDeferred = fr
	}
}

// doReturn pops the top frame and delivers v to its caller.
func (m *Machine) doReturn(g *G, v V) {
	fr := m.popFrame(g)
	if fr.barrier {
		g.bret = v
		g.bthrow = nil
		g.bdone = true
		return
	}
	if len(g.frames) == 0 {
		g.state = gDone
		return
	}
	if fr.dst >= 0 {
		g.frames[len(g.frames)-1].locals[fr.dst] = v
	}
	g.free = append(g.free, fr)
}

func (m *Machine) ifaceMsg(v V) string {
	if v.r == nil {
		return "nil"
	}
	i := v.r.(*Iface)
	if i.t.k == KString {
		if s, ok := concStr(i.v); ok {
			return s
		}
	}
	if i.t.k == KPtr {
		if f := m.p.methodByName(i.t, "Error"); f != nil {
			r, t := m.callSync(m.cur, V{r: &Closure{fn: f}}, []V{i.v})
			if t == nil {
				s, _ := concStr(r)
				return s
			}
		}
	}
	return m.show(i.t, i.v, 0)
}

// ---------------------------------------------------------------- equality and ordering

func (m *Machine) eqV(g *G, ti *TInfo, a, b V) *Expr {
	switch ti.k {
	case KBool:
		if a.r == nil && b.r == nil {
			return m.ctx.Bool(a.n == b.n)
		}
		return m.ctx.Eq(m.boolExpr(a), m.boolExpr(b))
	case KInt:
		if a.r == nil && b.r == nil {
			return m.ctx.Bool(a.n == b.n)
		}
		return m.ctx.Eq(m.toExpr(ti, a), m.toExpr(ti, b))
	case KUnsafe:
		return m.ctx.Bool(a == b)
	case KFloat:
		return m.ctx.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
	case KString:
		return m.eqStr(a, b)
	case KPtr:
		return m.ctx.Bool(a.r == b.r && (a.r == nil || a.n == b.n))
	case KChan, KMap, KFunc, KSlice:
		if a.r == nil || b.r == nil {
			return m.ctx.Bool(a.r == nil && b.r == nil)
		}
		if ti.k == KChan {
			return m.ctx.Bool(a.r == b.r)
		}
		return m.ctx.Bool(a.r == b.r)
	case KIface:
		if a.r == nil || b.r == nil {
			return m.ctx.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return m.ctx.fls
		}
		if x.t.k == KSlice || x.t.k == KMap || x.t.k == KFunc || !types.Comparable(x.t.typ) {
			m.throwRT(g, "runtime error: comparing uncomparable type "+x.t.str)
			return nil
		}
		return m.eqV(g, x.t, x.v, y.v)
	case KStruct:
		r := m.ctx.tru
		for i, ft := range ti.fields {
			e := m.eqV(g, ft, a.r.(*Agg).f[i], b.r.(*Agg).f[i])
			if e == nil {
				return nil
			}
			r = m.ctx.And(r, e)
			if r == m.ctx.fls {
				return r
			}
		}
		return r
	case KArray:
		r := m.ctx.tru
		for i := 0; i < ti.n; i++ {
			e := m.eqV(g, ti.elem, a.r.(*Agg).f[i], b.r.(*Agg).f[i])
			if e == nil {
				return nil
			}
			r = m.ctx.And(r, e)
		}
		return r
	}
	return m.ctx.Bool(a.r == b.r && a.n == b.n)
}

func (m *Machine) byteExpr(v V) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	return m.ctx.Const(8, v.n)
}

func (m *Machine) eqStr(a, b V) *Expr {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return m.ctx.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.ctx.fls
	}
	p, q := strBytes(a), strBytes(b)
	r := m.ctx.tru
	for i := range p {
		r = m.ctx.And(r, m.ctx.Eq(m.byteExpr(p[i]), m.byteExpr(q[i])))
		if r == m.ctx.fls {
			break
		}
	}
	return r
}

// ltStr: a < b (orEq: a <= b)
func (m *Machine) ltStr(a, b V, orEq bool) *Expr {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		if orEq {
			return m.ctx.Bool(x <= y)
		}
		return m.ctx.Bool(x < y)
	}
	p, q := strBytes(a), strBytes(b)
	n := min(len(p), len(q))
	var r *Expr
	if orEq {
		r = m.ctx.Bool(len(p) <= len(q))
	} else {
		r = m.ctx.Bool(len(p) < len(q))
	}
	for i := n - 1; i >= 0; i-- {
		u, v := m.byteExpr(p[i]), m.byteExpr(q[i])
		r = m.ctx.Or(m.ctx.Cmp(OUlt, u, v), m.ctx.And(m.ctx.Eq(u, v), r))
	}
	return r
}

// keyOf gives a canonical string for a concrete map key.
func (m *Machine) keyOf(ti *TInfo, v V) (string, bool) {
	switch ti.k {
	case KBool, KInt, KFloat, KUnsafe:
		if v.r != nil {
			return "", false
		}
		return fmt.Sprintf("i%x", v.n), true
	case KString:
		s, ok := concStr(v)
		return "s" + s, ok
	case KPtr, KChan, KFunc, KMap:
		return fmt.Sprintf("p%p/%d", v.r, v.n), true
	case KIface:
		if v.r == nil {
			return "n", true
		}
		i := v.r.(*Iface)
		s, ok := m.keyOf(i.t, i.v)
		return fmt.Sprintf("t%d:%s", i.t.id, s), ok
	case KStruct:
		var sb strings.Builder
		for i, ft := range ti.fields {
			s, ok := m.keyOf(ft, v.r.(*Agg).f[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case KArray:
		var sb strings.Builder
		for i := 0; i < ti.n; i++ {
			s, ok := m.keyOf(ti.elem, v.r.(*Agg).f[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	}
	return "", false
}

func (m *Machine) mapFind(g *G, mp *Map, k V) *mapEntry {
	ks, conc := m.keyOf(mp.kt, k)
	if conc {
		if e, ok := mp.idx[ks]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.keyOf(mp.kt, e.k); c {
				continue
			}
		}
		q := m.eqV(g, mp.kt, e.k, k)
		if q == nil {
			return nil
		}
		if m.decide(q) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(g *G, mp *Map, k, v V) {
	if e := m.mapFind(g, mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	mp.entries = append(mp.entries, e)
	if ks, ok := m.keyOf(mp.kt, k); ok {
		mp.idx[ks] = e
	} else {
		mp.nsym++
	}
	mp.n++
}

func (m *Machine) mapDelete(g *G, mp *Map, k V) {
	e := m.mapFind(g, mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if ks, ok := m.keyOf(mp.kt, e.k); ok {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	if len(mp.entries) > 32 && mp.n < len(mp.entries)/2 {
		var l []*mapEntry
		for _, x := range mp.entries {
			if !x.dead {
				l = append(l, x)
			}
		}
		mp.entries = l
	}
}

func (m *Machine) newMap(ti *TInfo) *Map {
	return &Map{kt: ti.key, vt: ti.elem, idx: map[string]*mapEntry{}}
}

type mapIter struct {
	m    *Map
	list []*mapEntry
	i    int
}
type strIter struct {
	s V
	i int
}
