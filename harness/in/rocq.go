package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:lib

// zzRocq reads a theorem and its script in the language of Rocq and runs the script.
type zzRocq struct {
	toks   []string
	i      int
	nv     int
	bound  []string // variables of the binders around
	ids    []int
	decl   map[string]int // declared names, with what they are
	goals  []*zzGoal
	lemmas map[string]zzRule
}

// zzGoal is what is left to prove.
type zzGoal struct {
	names []string
	hyps  []*fgen.Form // nil for a variable
	fams  []string
	goal  *fgen.Form
}

func (g *zzGoal) copy(f *fgen.Form) *zzGoal {
	return &zzGoal{append([]string(nil), g.names...), append([]*fgen.Form(nil), g.hyps...), append([]string(nil), g.fams...), f}
}

func (g *zzGoal) at(n string) int {
	for i, m := range g.names {
		if m == n {
			return i
		}
	}
	return -1
}

func zzRocqLex(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		if c == ' ' || c == '\n' || c == '\t' {
			i++
			continue
		}
		if zzWordChar(c) {
			j := i + 1
			for j < len(s) && (zzWordChar(s[j]) || s[j] == '\'') {
				j++
			}
			r = append(r, s[i:j])
			i = j
			continue
		}
		n := 1
		for _, o := range []string{"<->", "->", "=>", ":=", "<>", "/\\", "\\/", "(*"} {
			if strings.HasPrefix(s[i:], o) {
				n = len(o)
				break
			}
		}
		if n == 2 && s[i+1] == '*' && c == '(' {
			j := strings.Index(s[i:], "*)")
			vt.Assert(j > 0, "the text is made of tokens of Rocq")
			i += j + 2
			continue
		}
		vt.Assert(n > 1 || strings.IndexByte("()[],.:;|~=*", c) >= 0, "the text is made of tokens of Rocq")
		r = append(r, s[i:i+n])
		i += n
	}
	return r
}

func (g *zzRocq) peek() string {
	if g.i < len(g.toks) {
		return g.toks[g.i]
	}
	return ""
}

func (g *zzRocq) next() string {
	t := g.peek()
	g.i++
	return t
}

func (g *zzRocq) take(l ...string) {
	for _, s := range l {
		vt.Assert(g.peek() == s, "the text follows the grammar of Rocq")
		g.i++
	}
}

func (g *zzRocq) word() string {
	t := g.next()
	vt.Assert(t != "" && zzWordChar(t[0]) && (t[0] < '0' || t[0] > '9'), "the text follows the grammar of Rocq")
	return t
}

// zzExpr is a formula or a term, which an atom may be.
type zzExpr struct {
	f *fgen.Form
	t *fgen.Term
}

func (e zzExpr) form() *fgen.Form {
	if e.f != nil {
		return e.f
	}
	vt.Assert(e.t.Var < 0, "what is declared in the context is used as it is declared")
	return &fgen.Form{Op: fgen.Atom, Fam: e.t.Fam, Args: e.t.Args}
}

func (e zzExpr) term() *fgen.Term {
	vt.Assert(e.f == nil, "what is declared in the context is used as it is declared")
	return e.t
}

// expr reads an expression whose operators bind at least as tightly as a level.
func (g *zzRocq) expr(level int) zzExpr {
	var e zzExpr
	switch t := g.peek(); t {
	case "~":
		g.i++
		e.f = fgen.Mk(fgen.Not, g.expr(75).form())
	case "forall", "exists":
		g.i++
		g.take("(")
		x := g.word()
		g.take(":", "goeland_U", ")", ",")
		v := g.nv
		g.nv++
		g.bound, g.ids = append(g.bound, x), append(g.ids, v)
		b := g.expr(200).form()
		g.bound, g.ids = g.bound[:len(g.bound)-1], g.ids[:len(g.ids)-1]
		op := fgen.All
		if t == "exists" {
			op = fgen.Ex
		}
		return zzExpr{f: &fgen.Form{Op: op, Var: v, Sub: []*fgen.Form{b}}}
	case "(":
		g.i++
		e = g.expr(200)
		g.take(")")
	default:
		e = g.app()
	}
	iff := false
	for {
		t := g.peek()
		switch {
		case (t == "=" || t == "<>") && level >= 70 && e.f == nil:
			g.i++
			op := fgen.Eq
			if t == "<>" {
				op = fgen.Neq
			}
			e = zzExpr{f: &fgen.Form{Op: op, Args: []*fgen.Term{e.term(), g.expr(69).term()}}}
		case t == "/\\" && level >= 80:
			g.i++
			e = zzExpr{f: fgen.Mk(fgen.And, e.form(), g.expr(80).form())}
		case t == "\\/" && level >= 85:
			g.i++
			e = zzExpr{f: fgen.Mk(fgen.Or, e.form(), g.expr(85).form())}
		case t == "<->" && level >= 95 && !iff:
			g.i++
			e = zzExpr{f: fgen.Mk(fgen.Iff, e.form(), g.expr(94).form())}
			iff = true
		case t == "->" && level >= 99:
			g.i++
			e = zzExpr{f: fgen.Mk(fgen.Imp, e.form(), g.expr(200).form())}
		default:
			return e
		}
	}
}

func (g *zzRocq) app() zzExpr {
	x := g.word()
	if x == "True" {
		return zzExpr{f: fgen.Mk(fgen.True)}
	}
	if x == "False" {
		return zzExpr{f: fgen.Mk(fgen.False)}
	}
	for i := len(g.bound) - 1; i >= 0; i-- {
		if g.bound[i] == x {
			return zzExpr{t: &fgen.Term{Var: g.ids[i]}}
		}
	}
	if len(g.goals) > 0 {
		s := g.goals[len(g.goals)-1]
		if i := s.at(x); i >= 0 {
			vt.Assert(s.hyps[i] == nil, "what is declared in the context is used as it is declared")
			return zzExpr{t: &fgen.Term{Var: -1, Fam: s.fams[i]}}
		}
	}
	t := &fgen.Term{Var: -1}
	if g.peek() == "(" {
		for first := true; first || g.peek() == ","; first = false {
			g.i++
			t.Args = append(t.Args, g.expr(70).term())
		}
		g.take(")")
	}
	n, ok := g.decl[x]
	vt.Assert(ok && n == len(t.Args), "what is declared in the context is used as it is declared")
	t.Fam = x + string([]byte{'0' + byte(len(t.Args))})
	return zzExpr{t: t}
}

// context reads the declarations.
func (g *zzRocq) context() {
	g.decl = map[string]int{}
	for g.peek() == "Parameter" || g.peek() == "Parameters" {
		g.i++
		var ns []string
		for g.peek() != ":" {
			ns = append(ns, g.word())
		}
		g.i++
		n := 0
		for g.peek() == "goeland_U" {
			n++
			g.i++
			if g.peek() == "*" {
				g.i++
			}
		}
		if g.peek() == "->" {
			g.i++
			t := g.next()
			vt.Assert(n > 0 && (t == "Prop" || t == "goeland_U"), "the text follows the grammar of Rocq")
		} else if n == 0 {
			g.take("Prop")
		} else {
			n--
			vt.Assert(n == 0, "the text follows the grammar of Rocq")
		}
		g.take(".")
		for _, x := range ns {
			_, dup := g.decl[x]
			vt.Assert(!dup, "a name is declared once")
			g.decl[x] = n
		}
	}
}

func (g *zzRocq) set(l ...*zzGoal) {
	g.goals = g.goals[:len(g.goals)-1]
	for i := len(l) - 1; i >= 0; i-- {
		g.goals = append(g.goals, l[i])
	}
}

func (g *zzRocq) top() *zzGoal {
	vt.Assert(len(g.goals) > 0, "a tactic applies to a goal")
	return g.goals[len(g.goals)-1]
}

// hyp is a hypothesis of the goal.
func (g *zzRocq) hyp() *fgen.Form {
	s := g.top()
	i := s.at(g.word())
	vt.Assert(i >= 0 && s.hyps[i] != nil, "a tactic uses a hypothesis of the goal")
	return s.hyps[i]
}

func (g *zzRocq) intros(s *zzGoal) *zzGoal {
	for w := g.peek(); w != "." && w != "|" && w != "]" && w != ";"; w = g.peek() {
		x := g.word()
		vt.Assert(s.at(x) < 0, "a name that is introduced is new")
		r := s.copy(nil)
		r.names = append(r.names, x)
		switch s.goal.Op {
		case fgen.Imp:
			r.hyps, r.fams, r.goal = append(r.hyps, s.goal.Sub[0]), append(r.fams, ""), s.goal.Sub[1]
		case fgen.Not:
			r.hyps, r.fams, r.goal = append(r.hyps, s.goal.Sub[0]), append(r.fams, ""), fgen.Mk(fgen.False)
		case fgen.All:
			f := "$" + zzItoa(g.nv)
			g.nv++
			r.hyps, r.fams = append(r.hyps, nil), append(r.fams, f)
			r.goal = zzInst(s.goal.Sub[0], s.goal.Var, &fgen.Term{Var: -1, Fam: f})
		default:
			vt.Assert(false, "a tactic applies to its goal")
		}
		s = r
	}
	return s
}

func zzItoa(n int) string {
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}
	return zzItoa(n/10) + zzItoa(n%10)
}

// zzRule is a lemma, or a function that calls one with its arguments in another order.
type zzRule struct {
	vars []string     // the propositions it is about
	prem []*fgen.Form // what it needs to conclude to the absurd, in the order in which it is given
}

// rules reads the lemmas about propositions and the functions that call them.
func (g *zzRocq) rules(in *fgen.Interp) {
	g.lemmas = map[string]zzRule{}
	for {
		switch g.peek() {
		case "Lemma":
			g.i++
			name := g.word()
			g.take(":")
			var r zzRule
			g.decl = map[string]int{}
			if g.peek() == "forall" && g.i+1 < len(g.toks) && g.toks[g.i+1] != "(" {
				g.i++
				for g.peek() != ":" {
					x := g.word()
					r.vars = append(r.vars, x)
					g.decl[x] = 0
				}
				g.take(":", "Prop", ",")
			}
			if g.peek() != "forall" {
				f := g.expr(200).form()
				vt.Assert(in.Eval(f, map[int]int{}), "the lemmas that the script uses are true")
				for ; f.Op == fgen.Imp; f = f.Sub[1] {
					r.prem = append(r.prem, f.Sub[0])
				}
				if f.Op == fgen.Not {
					r.prem, f = append(r.prem, f.Sub[0]), fgen.Mk(fgen.False)
				}
				if f.Op == fgen.False {
					g.lemmas[name] = r
				}
			}
			for t := g.next(); t != "Qed"; t = g.next() {
				vt.Assert(t != "", "the text follows the grammar of Rocq")
			}
			g.take(".")
		case "Definition":
			g.i++
			name := g.word()
			g.take(":=", "fun")
			var ps []string
			for g.peek() != "=>" {
				ps = append(ps, g.word())
			}
			g.i++
			l, ok := g.lemmas[g.word()]
			if !ok {
				for g.peek() != "." {
					g.word()
				}
				g.i++
				break
			}
			r := zzRule{prem: make([]*fgen.Form, len(ps)-len(l.vars))}
			used := make([]bool, len(ps))
			vt.Assert(len(ps) == len(l.vars)+len(l.prem), "the text follows the grammar of Rocq")
			for k := range ps {
				x, at := g.word(), -1
				for j, p := range ps {
					if p == x {
						at = j
					}
				}
				vt.Assert(at >= 0 && !used[at] && (at < len(l.vars)) == (k < len(l.vars)), "the text follows the grammar of Rocq")
				used[at] = true
				if k >= len(l.vars) {
					r.prem[at-len(l.vars)] = l.prem[k-len(l.vars)]
				}
			}
			r.vars = l.vars
			g.take(".")
			g.lemmas[name] = r
		case "From":
			for g.next() != "." {
			}
		default:
			return
		}
	}
}

// zzMatch finds what the propositions of a lemma are in a formula.
func zzMatch(p, f *fgen.Form, m map[string]*fgen.Form) bool {
	if p.Op == fgen.Atom {
		if x, ok := m[p.Fam]; ok {
			return zzSame(x, f)
		}
		m[p.Fam] = f
		return true
	}
	if p.Op != f.Op || len(p.Sub) != len(f.Sub) || p.Op == fgen.All || p.Op == fgen.Ex {
		return false
	}
	for i := range p.Sub {
		if !zzMatch(p.Sub[i], f.Sub[i], m) {
			return false
		}
	}
	return true
}

func zzFill(p *fgen.Form, m map[string]*fgen.Form) *fgen.Form {
	if p.Op == fgen.Atom {
		return m[p.Fam]
	}
	r := &fgen.Form{Op: p.Op}
	for _, s := range p.Sub {
		r.Sub = append(r.Sub, zzFill(s, m))
	}
	return r
}

// lemma gives what is left to prove when a lemma on a hypothesis is applied to the absurd goal.
func (g *zzRocq) lemma(name string, blanks int, f *fgen.Form) []*fgen.Form {
	r, ok := g.lemmas[name]
	m := map[string]*fgen.Form{}
	if !ok || blanks != len(r.vars) || len(r.prem) == 0 || !zzMatch(r.prem[0], f, m) {
		return nil
	}
	var gs []*fgen.Form
	for _, x := range r.vars {
		if m[x+"0"] == nil {
			return nil
		}
	}
	for _, p := range r.prem[1:] {
		gs = append(gs, zzFill(p, m))
	}
	return gs
}

// tactic runs a tactic.
func (g *zzRocq) tactic(ins []*fgen.Interp) {
	const wrong = "a tactic applies to its goal"
	s := g.top()
	w := g.word()
	vt.Cover(w)
	switch w {
	case "intros", "intro":
		g.set(g.intros(s))
	case "auto":
		closed := false
		for _, h := range s.hyps {
			if h == nil {
				continue
			}
			if h.Op == fgen.False || h.Op == fgen.Not && h.Sub[0].Op == fgen.True {
				closed = true
			}
			for _, k := range s.hyps {
				closed = closed || k != nil && h.Op == fgen.Not && zzSame(h.Sub[0], k)
			}
		}
		vt.Assert(closed, "a branch is closed by two complementary hypotheses or an absurd one")
		g.set()
	case "congruence":
		for _, in := range ins {
			r := true
			for _, h := range s.hyps {
				if h == nil {
					continue
				}
				l := h
				if h.Op == fgen.Not {
					l = h.Sub[0]
				}
				if l.Op == fgen.Eq || l.Op == fgen.Neq || l.Op == fgen.Atom {
					r = vt.And(r, in.Eval(h, map[int]int{}))
				}
			}
			vt.Assert(vt.Not(r), "equality reasoning closes a branch whose literals exclude each other")
		}
		g.set()
	case "clear":
		x := g.word()
		i := s.at(x)
		vt.Assert(i >= 0, "what is cleared is there")
		r := s.copy(s.goal)
		r.names = append(r.names[:i], r.names[i+1:]...)
		r.hyps = append(r.hyps[:i], r.hyps[i+1:]...)
		r.fams = append(r.fams[:i], r.fams[i+1:]...)
		if s.hyps[i] == nil {
			for _, h := range r.hyps {
				vt.Assert(h == nil || zzSame(zzFor(h, s.fams[i], 1000000), h), "a variable that is cleared does not occur in a hypothesis")
			}
		}
		g.set(r)
	case "elim":
		f := g.hyp()
		vt.Assert(f.Op == fgen.Ex, wrong)
		g.set(s.copy(&fgen.Form{Op: fgen.All, Var: f.Var, Sub: []*fgen.Form{fgen.Mk(fgen.Imp, f.Sub[0], s.goal)}}))
	case "generalize":
		g.take("(")
		f := g.hyp()
		t := g.expr(0).term()
		g.take(")")
		vt.Assert(f.Op == fgen.All, wrong)
		g.set(s.copy(fgen.Mk(fgen.Imp, zzInst(f.Sub[0], f.Var, t), s.goal)))
	case "exists":
		t := g.expr(0).term()
		vt.Assert(s.goal.Op == fgen.Ex, wrong)
		g.set(s.copy(zzInst(s.goal.Sub[0], s.goal.Var, t)))
	case "apply":
		if g.peek() == "NNPP" {
			g.i++
			g.set(s.copy(fgen.Mk(fgen.Not, fgen.Mk(fgen.Not, s.goal))))
			break
		}
		vt.Assert(s.goal.Op == fgen.False, wrong)
		if g.peek() != "(" {
			f := g.hyp()
			vt.Assert(f.Op == fgen.Not, wrong)
			g.set(s.copy(f.Sub[0]))
			break
		}
		g.i++
		name := g.word()
		n := 0
		for ; g.peek() == "_"; n++ {
			g.i++
		}
		f := g.hyp()
		g.take(")")
		var gs []*zzGoal
		for _, l := range g.lemma(name, n, f) {
			gs = append(gs, s.copy(l))
		}
		vt.Assert(len(gs) > 0, wrong)
		if g.peek() == ";" {
			g.take(";", "[")
			for i := range gs {
				if i > 0 {
					g.take("|")
				}
				g.take("intros")
				gs[i] = g.intros(gs[i])
			}
			g.take("]")
		}
		g.set(gs...)
	default:
		vt.Assert(false, "the script is made of known tactics")
	}
	g.take(".")
}

// zzRocqText checks the theorem and the script that are written for a problem.
func zzRocqText(text string, axioms []*fgen.Form, conj *fgen.Form, d int) {
	g := &zzRocq{toks: zzRocqLex(text)}
	var ins []*fgen.Interp
	for k := 1; k <= d; k++ {
		ins = append(ins, &fgen.Interp{D: k, Tag: string([]byte{'0' + byte(k)})})
	}
	g.rules(ins[0])
	g.take("Parameter", "goeland_U", ":", "Set", ".")
	g.context()
	g.take("Theorem")
	g.word()
	g.take(":")
	f := g.expr(200).form()
	g.take(".", "Proof", ".")
	for _, in := range ins {
		x := true
		for _, a := range axioms {
			x = vt.And(x, in.Holds(a))
		}
		vt.Assert(vt.Iff(in.Eval(f, map[int]int{}), vt.Implies(x, in.Holds(conj))), "the theorem says what the problem says")
	}
	g.goals = []*zzGoal{{goal: f}}
	for g.peek() != "Qed" {
		g.tactic(ins)
	}
	vt.Assert(len(g.goals) == 0, "the script proves every goal")
	g.take("Qed", ".")
	vt.Assert(g.i == len(g.toks), "the script proves every goal")
}
