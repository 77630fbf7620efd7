package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// One incremental SMT solver process (z3 -in by default).
type Solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	defined  map[int]bool
	ufs      map[string]bool
	depth    int
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	timeout  int // ms
	log      io.Writer
	ufApps   []*Expr
	vars     []*Expr
	dead     bool
	kind     string
	since    int
	asserted []*Expr // current assertion stack (path condition)
	lazy     bool    // assertions are sent with the next query
	sent     int     // number of assertions sent
	opened   bool
	cache    map[string]*sliceRes
	keys     map[int][]int
	Cached   int
}

// sliceRes is the answer to a query restricted to the constraints that share variables with it.
type sliceRes struct {
	r    string
	ids  []int
	vals []uint64
}

// keysOf lists the variables of e and, as negative numbers, the functions applied in it.
func (s *Solver) keysOf(e *Expr) []int {
	if k, ok := s.keys[e.id]; ok {
		return k
	}
	if s.keys == nil {
		s.keys = map[int][]int{}
	}
	set := map[int]bool{}
	if e.op == OVar {
		set[e.id] = true
	}
	if e.op == OUF {
		h := 7
		for _, c := range []byte(ufName(e)) {
			h = (h*31 + int(c)) & 0x3fffffff
		}
		set[-1-h] = true
	}
	for _, a := range e.args {
		for _, k := range s.keysOf(a) {
			set[k] = true
		}
	}
	out := make([]int, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	s.keys[e.id] = out
	return out
}

// CheckUnder decides the current assertions together with extra, given a model of the current assertions: only the
// constraints connected with extra can make a difference, and the answers to such slices are kept.
func (s *Solver) CheckUnder(extra *Expr, cur *Model) (string, *Model) {
	if cur == nil || s.dead {
		return s.Check(extra, true)
	}
	reach := map[int]bool{}
	for _, k := range s.keysOf(extra) {
		reach[k] = true
	}
	in := make([]bool, len(s.asserted))
	for again := true; again; {
		again = false
		for i, a := range s.asserted {
			if in[i] {
				continue
			}
			ks := s.keysOf(a)
			hit := false
			for _, k := range ks {
				hit = hit || reach[k]
			}
			if hit {
				in[i] = true
				again = true
				for _, k := range ks {
					reach[k] = true
				}
			}
		}
	}
	var ids []int
	for i, a := range s.asserted {
		if in[i] {
			ids = append(ids, a.id)
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(' ')
		}
		last = i
	}
	kb.WriteByte('?')
	kb.WriteString(strconv.Itoa(extra.id))
	key := kb.String()
	if c := s.cache[key]; c != nil {
		s.Cached++
		if c.r != "sat" {
			return c.r, nil
		}
		m := &Model{vals: map[int]uint64{}}
		for _, e := range s.relevant(nil) {
			if v, ok := cur.vals[e.id]; ok {
				m.vals[e.id] = v
			}
		}
		for i, id := range c.ids {
			m.vals[id] = c.vals[i]
		}
		return "sat", m
	}
	r, m := s.Check(extra, true)
	if r == "unknown" || s.dead || len(s.cache) > 200000 {
		return r, m
	}
	c := &sliceRes{r: r}
	if r == "sat" {
		seen := map[int]bool{}
		var walk func(e *Expr)
		walk = func(e *Expr) {
			if e.op == OConst || seen[e.id] {
				return
			}
			seen[e.id] = true
			if e.op == OVar || e.op == OUF {
				c.ids = append(c.ids, e.id)
				c.vals = append(c.vals, m.vals[e.id])
			}
			for _, a := range e.args {
				walk(a)
			}
		}
		walk(extra)
		for i, a := range s.asserted {
			if in[i] {
				walk(a)
			}
		}
	}
	if s.cache == nil {
		s.cache = map[string]*sliceRes{}
	}
	s.cache[key] = c
	return r, m
}

// z3Binary prefers the newer release, which is about twice as fast on these queries.
func z3Binary() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

func NewSolver(ctx *Ctx, timeoutMs int) (*Solver, error) {
	s := &Solver{ctx: ctx, timeout: timeoutMs, kind: "z3"}
	return s, s.start()
}

func (s *Solver) start() error {
	s.defined = map[int]bool{}
	s.ufs = map[string]bool{}
	s.ufApps, s.vars = nil, nil
	if s.kind == "cvc5" {
		s.cmd = exec.Command("cvc5", "--lang", "smt2", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	} else {
		s.cmd = exec.Command(z3Binary(), "-in", "-smt2")
	}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if s.kind == "cvc5" {
		s.send("(set-logic ALL)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.since = 0
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) define(e *Expr) {
	if e.op == OConst || s.defined[e.id] {
		return
	}
	for _, a := range e.args {
		s.define(a)
	}
	s.defined[e.id] = true
	switch e.op {
	case OVar:
		s.send(fmt.Sprintf("(declare-const e%d %s)\n", e.id, sortName(e.w)))
		s.vars = append(s.vars, e)
		return
	case OUF:
		n := ufName(e)
		if !s.ufs[n] {
			s.ufs[n] = true
			var as []string
			for _, a := range e.args {
				as = append(as, sortName(a.w))
			}
			s.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), sortName(e.w)))
		}
		s.ufApps = append(s.ufApps, e)
	}
	s.send(fmt.Sprintf("(define-fun e%d () %s %s)\n", e.id, sortName(e.w), e.body()))
}

func (s *Solver) Push() {
	s.depth++
	s.send("(push 1)\n")
}
func (s *Solver) Pop() {
	s.depth--
	s.send("(pop 1)\n")
}
func (s *Solver) Assert(e *Expr) {
	if e == s.ctx.tru {
		return
	}
	s.asserted = append(s.asserted, e)
	if !s.lazy {
		s.define(e)
		s.send("(assert " + e.ref() + ")\n")
	}
}

// flush sends the assertions that the solver has not seen.
func (s *Solver) flush() {
	if !s.lazy {
		return
	}
	if !s.opened {
		s.opened = true
		s.Push()
	}
	for ; s.sent < len(s.asserted); s.sent++ {
		e := s.asserted[s.sent]
		s.define(e)
		s.send("(assert " + e.ref() + ")\n")
	}
}

// BeginPath opens a fresh scope; restarts the process from time to time to bound its memory.
func (s *Solver) BeginPath() error {
	if s.dead || s.since > 3000 {
		s.Close()
		if err := s.start(); err != nil {
			return err
		}
		s.dead = false
		s.depth = 0
	}
	s.asserted = s.asserted[:0]
	s.lazy, s.opened, s.sent = true, false, 0
	return nil
}
func (s *Solver) EndPath() {
	if !s.dead && s.opened {
		s.Pop()
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the current assertions together with extra. Returns "sat", "unsat" or "unknown".
func (s *Solver) Check(extra *Expr, wantModel bool) (string, *Model) {
	if s.dead {
		return "unknown", nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.since++
	s.flush()
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	r, err := s.readLine()
	if err != nil {
		s.dead = true
		s.Unknown++
		return "unknown", nil
	}
	var m *Model
	switch r {
	case "sat":
		s.Sat++
		if wantModel {
			m = s.model(extra)
		}
	case "unsat":
		s.Unsat++
	default:
		if strings.HasPrefix(r, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", r)
			s.dead = true
		}
		r = "unknown"
		s.Unknown++
	}
	if extra != nil && !s.dead {
		s.send("(pop 1)\n")
	}
	return r, m
}

// relevant variables and UF applications of the asserted formulas
func (s *Solver) relevant(extra *Expr) []*Expr {
	seen := map[int]bool{}
	var out []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.op == OConst || seen[e.id] {
			return
		}
		seen[e.id] = true
		if e.op == OVar || e.op == OUF {
			out = append(out, e)
		}
		for _, a := range e.args {
			walk(a)
		}
	}
	for _, e := range s.asserted {
		walk(e)
	}
	if extra != nil {
		walk(extra)
	}
	return out
}

func (s *Solver) model(extra *Expr) *Model {
	m := &Model{vals: map[int]uint64{}}
	es := s.relevant(extra)
	if len(es) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, e := range es {
		sb.WriteString(" e" + strconv.Itoa(e.id))
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	started := false
	var buf strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return m
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started {
			buf.WriteByte(b)
		}
		if started && depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(buf.String()))
	for i := 0; i+1 < len(toks); i++ {
		if strings.HasPrefix(toks[i], "e") {
			id, err := strconv.Atoi(toks[i][1:])
			if err != nil {
				continue
			}
			v := toks[i+1]
			var x uint64
			switch {
			case v == "true":
				x = 1
			case v == "false":
				x = 0
			case strings.HasPrefix(v, "#x"):
				x, _ = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				x, _ = strconv.ParseUint(v[2:], 2, 64)
			case v == "(" && i+3 < len(toks) && toks[i+2] == "_":
				x, _ = strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
			}
			m.vals[id] = x
		}
	}
	return m
}
