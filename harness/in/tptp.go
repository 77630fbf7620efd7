package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:lib

// zzRead reads a text in the TPTP language: formulas of first-order logic, and the sequents of the SC-TPTP proof format.
type zzRead struct {
	toks  []string
	i     int
	scope []string
	ids   []int
	nv    int
}

func zzWordChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// zzLex splits a text into the tokens of TPTP.
func zzLex(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		if c == ' ' || c == '\n' || c == '\t' {
			i++
			continue
		}
		if zzWordChar(c) || c == '$' {
			j := i + 1
			for j < len(s) && zzWordChar(s[j]) {
				j++
			}
			r = append(r, s[i:j])
			i = j
			continue
		}
		if c == '\'' {
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				j++
			}
			vt.Assert(j < len(s), "a quoted name is closed")
			r = append(r, s[i:j+1])
			i = j + 1
			continue
		}
		n := 1
		for _, o := range []string{"-->", "<=>", "=>", "!="} {
			if strings.HasPrefix(s[i:], o) {
				n = len(o)
				break
			}
		}
		vt.Assert(n > 1 || strings.IndexByte("()[],.:~!?&|=", c) >= 0, "the text is made of tokens of TPTP")
		r = append(r, s[i:i+n])
		i += n
	}
	return r
}

func (g *zzRead) peek() string {
	if g.i < len(g.toks) {
		return g.toks[g.i]
	}
	return ""
}

func (g *zzRead) next() string {
	t := g.peek()
	g.i++
	return t
}

func (g *zzRead) take(s string) {
	vt.Assert(g.peek() == s, "the text follows the grammar of TPTP")
	g.i++
}

func (g *zzRead) logic() *fgen.Form {
	f := g.unit()
	t := g.peek()
	o, ok := map[string]fgen.Op{"<=>": fgen.Iff, "=>": fgen.Imp, "&": fgen.And, "|": fgen.Or}[t]
	if !ok {
		return f
	}
	g.i++
	f = fgen.Mk(o, f, g.unit())
	for (t == "&" || t == "|") && g.peek() == t {
		g.i++
		f.Name = 1 // part of a chain
		f = fgen.Mk(o, f, g.unit())
	}
	return f
}

func (g *zzRead) unit() *fgen.Form {
	switch t := g.peek(); t {
	case "~":
		g.i++
		return fgen.Mk(fgen.Not, g.unit())
	case "(":
		g.i++
		f := g.logic()
		g.take(")")
		return f
	case "!", "?":
		g.i++
		g.take("[")
		n := len(g.scope)
		for {
			x := g.next()
			vt.Assert(len(x) > 0 && x[0] >= 'A' && x[0] <= 'Z', "the text follows the grammar of TPTP")
			g.scope = append(g.scope, x)
			g.ids = append(g.ids, g.nv)
			g.nv++
			if g.peek() != "," {
				break
			}
			g.i++
		}
		g.take("]")
		g.take(":")
		vs := append([]int(nil), g.ids[n:]...)
		f := g.unit()
		g.scope, g.ids = g.scope[:n], g.ids[:n]
		for i := len(vs) - 1; i >= 0; i-- {
			op := fgen.All
			if t == "?" {
				op = fgen.Ex
			}
			f = &fgen.Form{Op: op, Var: vs[i], Sub: []*fgen.Form{f}}
		}
		return f
	case "$true":
		g.i++
		return fgen.Mk(fgen.True)
	case "$false":
		g.i++
		return fgen.Mk(fgen.False)
	}
	u := g.term()
	if t := g.peek(); t == "=" || t == "!=" {
		g.i++
		op := fgen.Eq
		if t == "!=" {
			op = fgen.Neq
		}
		return &fgen.Form{Op: op, Args: []*fgen.Term{u, g.term()}}
	}
	vt.Assert(u.Var < 0, "the text follows the grammar of TPTP")
	return &fgen.Form{Op: fgen.Atom, Fam: u.Fam, Args: u.Args}
}

func (g *zzRead) term() *fgen.Term {
	x := g.next()
	vt.Assert(len(x) > 0 && (x[0] >= 'a' && x[0] <= 'z' || x[0] >= 'A' && x[0] <= 'Z' || x[0] == '\''), "the text follows the grammar of TPTP")
	if x[0] >= 'A' && x[0] <= 'Z' {
		for i := len(g.scope) - 1; i >= 0; i-- {
			if g.scope[i] == x {
				return &fgen.Term{Var: g.ids[i]}
			}
		}
		return &fgen.Term{Var: -1, Fam: "$" + x} // a parameter
	}
	if x[0] == '\'' {
		x = x[1 : len(x)-1]
	}
	t := &fgen.Term{Var: -1}
	if g.peek() == "(" {
		for first := true; first || g.peek() == ","; first = false {
			g.i++
			t.Args = append(t.Args, g.term())
		}
		g.take(")")
	}
	t.Fam = x + string([]byte{'0' + byte(len(t.Args))})
	return t
}

// zzTerm writes a term; bound variables are given by env.
func zzTermText(t *fgen.Term, env map[int]string) string {
	if t.Var >= 0 {
		return env[t.Var]
	}
	r := t.Fam + "("
	for _, a := range t.Args {
		r += zzTermText(a, env) + ","
	}
	return r + ")"
}

// zzFormText writes a formula so that two formulas equal up to the names of bound variables are written alike.
func zzFormText(f *fgen.Form, env map[int]string) string {
	r := string([]byte{'a' + byte(f.Op)}) + f.Fam + "("
	e := env
	if f.Op == fgen.All || f.Op == fgen.Ex {
		e = map[int]string{}
		for k, v := range env {
			e[k] = v
		}
		e[f.Var] = "$" + string([]byte{'a' + byte(len(env))})
	}
	for _, a := range f.Args {
		r += zzTermText(a, e) + ","
	}
	for _, s := range f.Sub {
		r += zzFormText(s, e) + ";"
	}
	return r + ")"
}

func zzSame(f, g *fgen.Form) bool {
	return zzFormText(f, map[int]string{}) == zzFormText(g, map[int]string{})
}

func zzAmong(l []*fgen.Form, f *fgen.Form) bool {
	for _, g := range l {
		if zzSame(g, f) {
			return true
		}
	}
	return false
}

// zzFor puts a variable in place of a constant.
func zzFor(f *fgen.Form, c string, v int) *fgen.Form {
	var term func(t *fgen.Term) *fgen.Term
	term = func(t *fgen.Term) *fgen.Term {
		if t.Var < 0 && t.Fam == c {
			return &fgen.Term{Var: v}
		}
		u := &fgen.Term{Var: t.Var, Fam: t.Fam}
		for _, a := range t.Args {
			u.Args = append(u.Args, term(a))
		}
		return u
	}
	g := &fgen.Form{Op: f.Op, Var: f.Var, Fam: f.Fam, Name: f.Name}
	for _, t := range f.Args {
		g.Args = append(g.Args, term(t))
	}
	for _, s := range f.Sub {
		g.Sub = append(g.Sub, zzFor(s, c, v))
	}
	return g
}

// zzInst puts a term in place of a variable.
func zzInst(f *fgen.Form, v int, t *fgen.Term) *fgen.Form {
	var term func(u *fgen.Term) *fgen.Term
	term = func(u *fgen.Term) *fgen.Term {
		if u.Var == v {
			return t
		}
		w := &fgen.Term{Var: u.Var, Fam: u.Fam}
		for _, a := range u.Args {
			w.Args = append(w.Args, term(a))
		}
		return w
	}
	g := &fgen.Form{Op: f.Op, Var: f.Var, Fam: f.Fam, Name: f.Name}
	for _, t := range f.Args {
		g.Args = append(g.Args, term(t))
	}
	for _, s := range f.Sub {
		g.Sub = append(g.Sub, zzInst(s, v, t))
	}
	return g
}

// zzStep is a statement of a proof.
type zzStep struct {
	name, role, rule string
	left, right      []*fgen.Form
	index            int
	witness          string
	term             *fgen.Term // of a rule for a quantifier
	parents          []string
}

func (g *zzRead) forms() (r []*fgen.Form) {
	g.take("[")
	for g.peek() != "]" {
		if len(r) > 0 {
			g.take(",")
		}
		r = append(r, g.logic())
	}
	g.take("]")
	return
}

func zzNum(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func (g *zzRead) step() *zzStep {
	s := &zzStep{index: -1}
	g.take("fof")
	g.take("(")
	s.name = g.next()
	g.take(",")
	s.role = g.next()
	g.take(",")
	if s.role != "plain" {
		s.right = []*fgen.Form{g.logic()}
		g.take(")")
		g.take(".")
		return s
	}
	s.left = g.forms()
	g.take("-->")
	s.right = g.forms()
	g.take(",")
	g.take("inference")
	g.take("(")
	s.rule = g.next()
	g.take(",")
	g.take("[")
	g.take("status")
	g.take("(")
	g.take("thm")
	g.take(")")
	if g.peek() == "," {
		g.i++
		s.index = zzNum(g.next())
		vt.Assert(s.index >= 0, "a step points to a formula")
	}
	if g.peek() == "," {
		g.i++
		if g.peek() == "$fot" {
			g.i++
			g.take("(")
			s.term = g.term()
			g.take(")")
		} else {
			s.term = g.term()
			s.witness = s.term.Fam
			if s.witness[0] >= 'A' && s.witness[0] <= 'Z' { // a variable
				s.witness = "$" + s.witness[:len(s.witness)-1]
				s.term = &fgen.Term{Var: -1, Fam: s.witness}
			}
		}
	}
	g.take("]")
	g.take(",")
	g.take("[")
	for g.peek() != "]" {
		if len(s.parents) > 0 {
			g.take(",")
		}
		s.parents = append(s.parents, g.next())
	}
	g.take("]")
	g.take(")")
	g.take(")")
	g.take(".")
	return s
}

func (s *zzStep) holds(in *fgen.Interp, env map[int]int) bool {
	r := false
	for _, f := range s.left {
		r = vt.Or(r, vt.Not(in.Eval(f, env)))
	}
	for _, f := range s.right {
		r = vt.Or(r, in.Eval(f, env))
	}
	return r
}

// zzShape is what a rule needs of the formula it points to.
func zzShape(rule string, f *fgen.Form) bool {
	neg := func(o ...fgen.Op) bool {
		for _, x := range o {
			if f.Op == fgen.Not && f.Sub[0].Op == x {
				return true
			}
		}
		return false
	}
	switch rule {
	case "leftNotNot":
		return neg(fgen.Not)
	case "leftAnd":
		return f.Op == fgen.And
	case "leftNotOr":
		return neg(fgen.Or)
	case "leftNotImplies":
		return neg(fgen.Imp)
	case "leftNotAnd":
		return neg(fgen.And)
	case "leftOr":
		return f.Op == fgen.Or
	case "leftImp2":
		return f.Op == fgen.Imp
	case "leftIff":
		return f.Op == fgen.Iff
	case "leftNotIff":
		return neg(fgen.Iff)
	case "leftNotAll":
		return neg(fgen.All)
	case "leftExists":
		return f.Op == fgen.Ex
	case "leftForall":
		return f.Op == fgen.All
	case "leftNotEx":
		return neg(fgen.Ex)
	case "leftHyp", "hyp", "leftWeaken":
		return true
	case "leftFalse":
		return f.Op == fgen.False
	case "rightTrue":
		return f.Op == fgen.True
	case "rightNot", "leftNot":
		return f.Op == fgen.Not
	}
	return false
}

// zzParts are the members of a chain.
func zzParts(f *fgen.Form) []*fgen.Form {
	if f.Sub[0].Op == f.Op && f.Sub[0].Name == 1 && (f.Op == fgen.And || f.Op == fgen.Or) {
		return append(zzParts(f.Sub[0]), f.Sub[1])
	}
	return append([]*fgen.Form(nil), f.Sub...)
}

// gives lists, for each premise of a rule on the left, the formulas it adds.
func (s *zzStep) gives() (r [][]*fgen.Form) {
	f, neg := s.left[s.index], false
	not := func(f *fgen.Form) *fgen.Form { return fgen.Mk(fgen.Not, f) }
	if f.Op == fgen.Not && s.rule != "leftNot" {
		f, neg = f.Sub[0], true
	}
	switch s.rule {
	case "leftNotNot":
		return [][]*fgen.Form{{f.Sub[0]}}
	case "leftAnd":
		return [][]*fgen.Form{zzParts(f)}
	case "leftNotOr":
		var l []*fgen.Form
		for _, p := range zzParts(f) {
			l = append(l, not(p))
		}
		return [][]*fgen.Form{l}
	case "leftNotImplies":
		return [][]*fgen.Form{{f.Sub[0], not(f.Sub[1])}}
	case "leftNotAnd":
		for _, p := range zzParts(f) {
			r = append(r, []*fgen.Form{not(p)})
		}
		return
	case "leftOr":
		for _, p := range zzParts(f) {
			r = append(r, []*fgen.Form{p})
		}
		return
	case "leftImp2":
		return [][]*fgen.Form{{not(f.Sub[0])}, {f.Sub[1]}}
	case "leftIff":
		return [][]*fgen.Form{{fgen.Mk(fgen.Imp, f.Sub[0], f.Sub[1]), fgen.Mk(fgen.Imp, f.Sub[1], f.Sub[0])}}
	case "leftNotIff":
		return [][]*fgen.Form{{not(fgen.Mk(fgen.Imp, f.Sub[0], f.Sub[1]))}, {not(fgen.Mk(fgen.Imp, f.Sub[1], f.Sub[0]))}}
	case "leftNotAll", "leftExists", "leftForall", "leftNotEx":
		if s.term == nil {
			return nil
		}
		g := zzInst(f.Sub[0], f.Var, s.term)
		if neg {
			g = not(g)
		}
		return [][]*fgen.Form{{g}}
	}
	return nil
}

func zzSubset(l, m []*fgen.Form) bool {
	for _, f := range l {
		if !zzAmong(m, f) {
			return false
		}
	}
	return true
}

func zzPlus(l []*fgen.Form, f ...*fgen.Form) []*fgen.Form {
	return append(append([]*fgen.Form(nil), l...), f...)
}

// premises checks that the premises of a step have the formulas that its rule gives them and no others.
func (s *zzStep) premises(from []*zzStep) bool {
	one := func(left, right []*fgen.Form) bool {
		return len(from) == 1 && zzSubset(from[0].left, left) && zzSubset(from[0].right, right)
	}
	switch s.rule {
	case "congruence", "leftHyp", "hyp", "leftFalse", "rightTrue":
		return len(from) == 0
	case "cut":
		f := from[0].right[s.index]
		return len(from) == 2 && zzSubset(from[0].left, s.left) && zzSubset(from[0].right, zzPlus(s.right, f)) &&
			zzSubset(from[1].left, zzPlus(s.left, f)) && zzSubset(from[1].right, s.right)
	case "rightNot":
		return one(zzPlus(s.left, s.right[s.index].Sub[0]), s.right)
	case "leftNot":
		return one(s.left, zzPlus(s.right, s.left[s.index].Sub[0]))
	case "leftWeaken":
		l := append([]*fgen.Form(nil), s.left[:s.index]...)
		return one(append(l, s.left[s.index+1:]...), s.right)
	}
	l := s.gives()
	if len(l) != len(from) || len(l) == 0 {
		return false
	}
	for i := range l {
		all := zzPlus(s.left, l[i]...)
		if !zzSubset(from[i].left, all) || !zzSubset(all, from[i].left) || !zzSubset(from[i].right, s.right) {
			return false
		}
	}
	return true
}

// zzProofText checks the proof of a conjecture from axioms.
func zzProofText(text string, axioms []*fgen.Form, conj *fgen.Form, d int) {
	g := &zzRead{toks: zzLex(text)}
	var ins []*fgen.Interp
	for k := 1; k <= d; k++ {
		ins = append(ins, &fgen.Interp{D: k, Tag: string([]byte{'0' + byte(k)})})
	}
	by := map[string]*zzStep{}
	var last *zzStep
	var stated []*fgen.Form
	var goal *fgen.Form
	for g.i < len(g.toks) {
		s := g.step()
		last = s
		vt.Assert(by[s.name] == nil, "two steps do not have one name")
		by[s.name] = s
		switch s.role {
		case "axiom":
			stated = append(stated, s.right[0])
			continue
		case "conjecture":
			vt.Assert(goal == nil, "the proof is one of the conjecture of the problem")
			goal = s.right[0]
			for _, in := range ins {
				vt.Assert(vt.Iff(in.Holds(goal), in.Holds(conj)), "the proof is one of the conjecture of the problem")
			}
			continue
		}
		var from []*zzStep
		for _, n := range s.parents {
			vt.Assert(by[n] != nil && by[n].role != "conjecture", "a step follows from steps that come before it")
			from = append(from, by[n])
		}
		vt.Cover(s.rule)
		switch s.rule {
		case "cut":
			vt.Assert(len(from) == 2 && s.index >= 0 && s.index < len(from[0].right), "a step points to a formula")
			vt.Assert(zzAmong(from[1].left, from[0].right[s.index]), "what is cut is on both sides")
		case "congruence":
		default:
			side := s.left
			if s.rule == "rightNot" || s.rule == "rightTrue" {
				side = s.right
			}
			vt.Assert(s.index < len(side) && s.index >= 0, "a step points to a formula")
			vt.Assert(zzShape(s.rule, side[s.index]), "a rule applies to the formula it points to")
		}
		switch s.rule {
		case "hyp":
			vt.Assert(zzAmong(s.right, s.left[s.index]), "a hypothesis is on both sides")
		case "leftHyp":
			vt.Assert(zzAmong(s.left, fgen.Mk(fgen.Not, s.left[s.index])), "a branch is closed by two complementary formulas")
		case "leftWeaken":
			vt.Assert(len(from) == 1 && len(from[0].left) == len(s.left)-1, "weakening forgets a formula")
		}
		vt.Assert(s.premises(from), "the premises of a step have the formulas its rule gives them and no others")
		for _, in := range ins {
			env := map[int]int{}
			premises := true
			if s.witness == "" {
				for _, p := range from {
					premises = vt.And(premises, p.holds(in, env))
				}
			} else {
				vt.Assert(len(from) == 1, "a witness is introduced in one continuation")
				for _, f := range append(append([]*fgen.Form(nil), s.left...), s.right...) {
					vt.Assert(zzSame(zzFor(f, s.witness, 1000), f), "the constant a step introduces is new")
				}
				p := &zzStep{}
				for _, f := range from[0].left {
					p.left = append(p.left, zzFor(f, s.witness, 1000))
				}
				for _, f := range from[0].right {
					p.right = append(p.right, zzFor(f, s.witness, 1000))
				}
				for e := 0; e < in.D; e++ {
					premises = vt.And(premises, p.holds(in, map[int]int{1000: e}))
				}
			}
			vt.Assert(vt.Implies(premises, s.holds(in, env)), "a step follows from its premises")
		}
	}
	for _, in := range ins {
		x, y := true, true
		for _, f := range stated {
			x = vt.And(x, in.Holds(f))
		}
		for _, f := range axioms {
			y = vt.And(y, in.Holds(f))
		}
		vt.Assert(vt.Iff(x, y), "the proof has the axioms of the problem")
	}
	vt.Assert(last != nil && goal != nil, "the proof is one of the conjecture of the problem")
	vt.Assert(len(last.left) == 0 && len(last.right) == 1 && zzSame(last.right[0], goal), "the proof ends with the conjecture")
}

// zzBetween is the text of the proof.
func zzBetween(out string) string {
	i := strings.Index(out, "% SZS output start Proof for")
	j := strings.Index(out, "% SZS output end Proof for")
	vt.Assert(0 < i && i < j, "the proof is written between its two marks")
	p := out[i:j]
	return p[strings.Index(p, "\n")+1:]
}
