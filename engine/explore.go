package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	prefix []dec
	model  *Model
	owner  *Worker
}

type wstats struct {
	assertQ, assertSat, assertUnsat int
}

type Worker struct {
	id    int
	e     *Explorer
	ctx   *Ctx
	sol   *Solver
	stats wstats
	mu    sync.Mutex
	stack []item
	cross *Solver
	unk   int
	nctx  int
	rnd   *rand.Rand
}

type PathRec struct {
	Inputs []InputVal       `json:"inputs"`
	UFs    map[string][]UFV `json:"ufs,omitempty"`
	Obs    []ObsVal         `json:"obs"`
	GoExit bool             `json:"goexit,omitempty"`
}
type ObsVal struct{ L, V string }

type Explorer struct {
	p        *Prog
	h        *Harness
	workers  []*Worker
	mu       sync.Mutex
	pending  atomic.Int64 // items queued or running
	stop     atomic.Bool
	why      string
	deadline time.Time
	maxPaths int64
	paths    atomic.Int64
	ends     map[endKind]int
	endMsgs  map[string]int
	viol     map[string]*Violation
	covers   map[string]bool
	unsup    map[string]int
	steps    int64
	decs     int64
	asserts  int64
	trivial  int64
	samples  []PathRec
	sampleN  int
	maxDec   int
	infeas   int64
	sym      int64
	pathStep int64
	okSteps  []int64 // of completed paths
	crossOK  int
	crossBad int
}

func (w *Worker) push(it item) {
	w.e.pending.Add(1)
	w.mu.Lock()
	w.stack = append(w.stack, it)
	w.mu.Unlock()
}
func (w *Worker) pop() (item, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.stack)
	if n == 0 {
		return item{}, false
	}
	// A random order spreads an exploration that the time limit stops over the whole space: the shallowest of a few
	// random candidates.
	k := n - 1
	if !w.e.h.depthFirst {
		k = w.rnd.Intn(n)
		for i := 0; i < 4; i++ {
			if j := w.rnd.Intn(n); len(w.stack[j].prefix) < len(w.stack[k].prefix) {
				k = j
			}
		}
	}
	it := w.stack[k]
	w.stack[k] = w.stack[n-1]
	w.stack[n-1] = item{}
	w.stack = w.stack[:n-1]
	return it, true
}
func (w *Worker) steal() (item, bool) {
	for k := 1; k < len(w.e.workers); k++ {
		o := w.e.workers[(w.id+k)%len(w.e.workers)]
		o.mu.Lock()
		if len(o.stack) > 0 {
			it := o.stack[0]
			o.stack = o.stack[1:]
			o.mu.Unlock()
			it.model = nil
			return it, true
		}
		o.mu.Unlock()
	}
	return item{}, false
}
func (w *Worker) noteUnknown() { w.unk++ }
func (w *Worker) cover(l string) {
	w.e.mu.Lock()
	w.e.covers[l] = true
	w.e.mu.Unlock()
}
func (w *Worker) unsupported(s string) {
	w.e.mu.Lock()
	w.e.unsup[s]++
	w.e.mu.Unlock()
}
func (w *Worker) addViolation(v Violation) {
	w.e.mu.Lock()
	defer w.e.mu.Unlock()
	v.Harness = w.e.h.Func
	v.Pkg = w.e.h.Pkg
	k := v.Kind + "|" + v.Label + "|" + v.Known
	if o, ok := w.e.viol[k]; ok {
		o.Count++
		if len(o.Alts) < 6 {
			o.Alts = append(o.Alts, v)
		}
		return
	}
	v.Count = 1
	w.e.viol[k] = &v
	if v.Known == "" && !w.e.h.keepGoing {
		n := 0
		for _, x := range w.e.viol {
			if x.Known == "" {
				n++
			}
		}
		if n >= 12 {
			w.e.halt("violation limit")
		}
	}
}
func (e *Explorer) halt(why string) {
	if e.stop.CompareAndSwap(false, true) {
		e.why = why
	}
}

// crossCheck re-decides an unsat assertion query with another solver.
func (w *Worker) crossCheck(pc []*Expr, q *Expr) {
	if w.cross == nil || w.cross.Queries > 60 {
		return
	}
	if w.cross.ctx != w.ctx {
		return
	}
	w.cross.Push()
	n := len(w.cross.asserted)
	for _, a := range pc {
		w.cross.Assert(a)
	}
	r, _ := w.cross.Check(q, false)
	w.cross.asserted = w.cross.asserted[:n]
	if !w.cross.dead {
		w.cross.Pop()
	}
	w.e.mu.Lock()
	switch r {
	case "unsat":
		w.e.crossOK++
	case "sat":
		w.e.crossBad++
	}
	w.e.mu.Unlock()
}

func (w *Worker) reset() error {
	if w.sol != nil {
		w.e.h.addSolver(w.sol)
		w.sol.Close()
	}
	w.ctx = NewCtx()
	s, err := NewSolver(w.ctx, w.e.h.solverTO)
	if err != nil {
		return err
	}
	w.sol = s
	if w.e.h.crossCheck {
		if w.cross != nil {
			w.cross.Close()
		}
		c := &Solver{ctx: w.ctx, timeout: 5000, kind: "cvc5"}
		if c.start() == nil {
			w.cross = c
		}
	}
	w.nctx++
	return nil
}

func (e *Explorer) Run(nw int) {
	for i := 0; i < nw; i++ {
		e.workers = append(e.workers, &Worker{id: i, e: e, rnd: rand.New(rand.NewSource(int64(i + 1)))})
	}
	e.workers[0].push(item{})
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			if err := w.reset(); err != nil {
				e.halt("solver: " + err.Error())
				return
			}
			for !e.stop.Load() {
				it, ok := w.pop()
				if !ok {
					it, ok = w.steal()
				}
				if !ok {
					if e.pending.Load() == 0 {
						break
					}
					time.Sleep(300 * time.Microsecond)
					continue
				}
				if it.owner != w {
					it.model = nil
				}
				if w.ctx.n > 400000 {
					if err := w.reset(); err != nil {
						e.halt("solver: " + err.Error())
						return
					}
					// expression ids of queued models belong to the old context
					w.mu.Lock()
					for i := range w.stack {
						w.stack[i].model = nil
					}
					w.mu.Unlock()
					it.model = nil
				}
				w.runPath(it)
				e.pending.Add(-1)
				if !e.deadline.IsZero() && time.Now().After(e.deadline) {
					e.halt("time limit")
				}
				if e.maxPaths > 0 && e.paths.Load() >= e.maxPaths {
					e.halt("path limit")
				}
			}
			w.e.h.addSolver(w.sol)
			w.sol.Close()
			if w.cross != nil {
				w.cross.Close()
			}
		}(w)
	}
	wg.Wait()
}

func (w *Worker) runPath(it item) {
	e := w.e
	m := &Machine{p: e.p, w: w, ctx: w.ctx, sol: w.sol, prefix: it.prefix, budget: e.h.budget}
	if len(it.prefix) > 0 {
		m.model = it.model
	} else {
		m.model = nil
	}
	if err := w.sol.BeginPath(); err != nil {
		e.halt("solver: " + err.Error())
		return
	}
	var pe pathEnd
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(pathEnd); ok {
					pe = x
					return
				}
				pe = pathEnd{kind: eUnsupported, msg: fmt.Sprintf("engine failure: %v at %s", r, m.trace(6))}
				if debugEngine {
					fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n%s\n", r, m.trace(12), debug.Stack())
				}
			}
		}()
		m.runHarness(e.h.fn)
	}()
	defer w.sol.EndPath()
	switch pe.kind {
	case ePanic:
		if !e.h.panicsOK {
			m.prefixDone()
			if m.ensureModel() {
				m.cur = nil
				m.violationAt("panic", "no panic", pe.msg, pe.pos)
			}
		}
	case eDeadlock:
		if !e.h.deadlockOK {
			m.prefixDone()
			if m.ensureModel() {
				m.violationAt("deadlock", "no deadlock", pe.msg, pe.pos)
			}
		}
	case eExit:
		if e.h.noExit {
			m.prefixDone()
			if m.ensureModel() {
				m.violationAt("exit", "no abort", pe.msg, pe.pos)
			}
		}
	case eBudget:
		if e.h.budgetViol || os.Getenv("GOSX_BUDGET") != "" {
			m.prefixDone()
			if m.ensureModel() {
				m.violationAt("nontermination", "terminates within the step bound", pe.msg, pe.pos)
			}
		}
	}
	e.paths.Add(1)
	e.mu.Lock()
	e.ends[pe.kind]++
	if pe.kind != eOK && pe.kind != eAssume {
		k := fmt.Sprintf("%d:%s", pe.kind, pe.msg)
		if pe.kind == eUnsupported || pe.kind == eBudget || pe.kind == eCut || pe.kind == ePanic {
			k += " @ " + pe.pos
		}
		if len(e.endMsgs) < 200 {
			e.endMsgs[k]++
		}
	}
	e.steps += m.steps
	if pe.kind == eOK {
		e.okSteps = append(e.okSteps, m.steps)
	}
	if m.steps > e.pathStep {
		e.pathStep = m.steps
	}
	e.decs += int64(len(m.decs))
	if len(m.decs) > e.maxDec {
		e.maxDec = len(m.decs)
	}
	e.asserts += int64(m.asserts)
	e.trivial += int64(m.trivial)
	takeSample := pe.kind == eOK && !m.sched && len(m.schedTr) == 0 && len(m.obs) > 0 && len(e.samples) < e.sampleN
	e.mu.Unlock()
	if takeSample {
		m.prefixDone()
		if m.ensureModel() {
			rec := m.record()
			e.mu.Lock()
			if len(e.samples) < e.sampleN {
				e.samples = append(e.samples, rec)
			}
			e.mu.Unlock()
		}
	}
}

// prefixDone makes later decisions consult the model although the prefix was not consumed.
func (m *Machine) prefixDone() {
	if m.inPrefix() {
		m.prefix = m.decs
	}
}

func (m *Machine) ensureModel() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	m.needModel()
	return m.model != nil
}

func (m *Machine) violationAt(kind, label, msg, pos string) {
	m.cur = nil
	m.whereOverride = pos
	m.violation(kind, label, msg, nil, m.known)
	m.whereOverride = ""
}

func (m *Machine) evalStr(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if e, ok := b.r.(*Expr); ok {
			out[i] = byte(m.ctx.Eval(e, m.model))
		} else {
			out[i] = byte(b.n)
		}
	}
	return string(out)
}

func (m *Machine) record() PathRec {
	r := PathRec{UFs: map[string][]UFV{}, GoExit: m.goExit}
	r.Inputs, r.UFs = m.inputVals(m.model)
	for _, o := range m.obs {
		r.Obs = append(r.Obs, ObsVal{o.label, m.evalStr(o.v)})
	}
	return r
}

func (m *Machine) inputVals(mm *Model) ([]InputVal, map[string][]UFV) {
	if mm == nil {
		mm = &Model{vals: map[int]uint64{}}
	}
	var iv []InputVal
	for _, in := range m.inputs {
		if in.E == nil {
			iv = append(iv, InputVal{in.Name, int64(in.Conc)})
			continue
		}
		x := m.ctx.Eval(in.E, mm)
		v := int64(x)
		if in.Sgn {
			v = sext(x, in.W)
		}
		iv = append(iv, InputVal{in.Name, v})
	}
	ufs := map[string][]UFV{}
	for n, apps := range m.ufApps {
		for _, a := range apps {
			u := UFV{Val: int64(m.ctx.Eval(a, mm))}
			for _, x := range a.args {
				u.Args = append(u.Args, int64(m.ctx.Eval(x, mm)))
			}
			ufs[n] = append(ufs[n], u)
		}
	}
	return iv, ufs
}

// ---------------------------------------------------------------- running a harness

// initOrder lists the packages whose initialisers are interpreted, dependencies first.
func initOrder(main *ssa.Package, p *Prog) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*ssa.Package]bool{}
	var walk func(k *ssa.Package)
	walk = func(k *ssa.Package) {
		if k == nil || seen[k] {
			return
		}
		seen[k] = true
		var imps []*ssa.Package
		for _, i := range k.Pkg.Imports() {
			imps = append(imps, p.ssa.Package(i))
		}
		sort.Slice(imps, func(i, j int) bool {
			return imps[i] != nil && imps[j] != nil && imps[i].Pkg.Path() < imps[j].Pkg.Path()
		})
		for _, i := range imps {
			walk(i)
		}
		out = append(out, k)
	}
	walk(main)
	return out
}

var stdInit = map[string]bool{"strings": true, "sort": true, "container/list": true, "container/heap": true, "slices": true, "maps": true,
	"cmp": true, "flag": true, "bytes": true, "bufio": true, "io": true}

func (p *Prog) wantInit(path string) bool {
	if stdInit[path] || strings.HasPrefix(path, "github.com/") {
		return true
	}
	return false
}

func (m *Machine) runHarness(fn *ssa.Function) {
	g := m.newG()
	m.cur = g
	g.inSync = 0
	for _, k := range m.p.initOrd {
		init := k.Func("init")
		if init == nil {
			continue
		}
		if _, t := m.callSync(g, V{r: &Closure{fn: m.p.Fn(init)}}, nil); t != nil {
			m.end(eUnsupported, "package initialisation panicked: %s", t.msg)
		}
	}
	m.initSteps = m.steps
	if debugEngine && m.w.id == 0 && m.w.e.paths.Load() < 3 {
		fmt.Fprintf(os.Stderr, "init steps %d\n", m.steps)
	}
	f := m.p.Fn(fn)
	m.pushFrame(g, f, nil, nil, -1)
	for {
		m.exec(g0or(m))
		if m.gs[0].state == gDone {
			return
		}
		var prefer *G
		if m.last != nil {
			prefer = m.last
		}
		ng := m.pick(prefer)
		if ng == nil {
			m.cur = m.gs[0]
			m.end(eDeadlock, "all goroutines are blocked: %s", m.blockedInfo())
		}
		m.last = ng
	}
}

func g0or(m *Machine) *G {
	if m.last == nil {
		m.last = m.gs[0]
	}
	m.cur = m.last
	return m.last
}

var debugEngine = os.Getenv("GOSX_DEBUG") != ""
