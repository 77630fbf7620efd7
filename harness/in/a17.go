package main

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Engine"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Parser"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

//vt:needs zzparse.go comp.go mean.go

// zzGram reads a list of tokens as a formula of TPTP, as its grammar is written (SyntaxBNF, <fof_formula> and <tff_logic_formula>).
type zzGram struct {
	toks  []string
	i     int
	bad   bool
	cut   bool // it is bad because there are no more tokens
	tff   bool
	free  bool // an unbound variable was used
	loose bool // two declarations of one bound variable in a scope
	scope []string
	ids   []int
	nv    int
}

func (g *zzGram) peek() string {
	if g.i < len(g.toks) {
		return g.toks[g.i]
	}
	return ""
}

func (g *zzGram) fail() {
	g.cut = g.cut || !g.bad && g.i >= len(g.toks)
	g.bad = true
}

func (g *zzGram) take(s string) {
	if g.peek() != s {
		g.fail()
	}
	g.i++
}

func (g *zzGram) logic() *fgen.Form {
	f := g.unit()
	o, ok := map[string]fgen.Op{"<=>": fgen.Iff, "=>": fgen.Imp, "<=": fgen.RevImp, "<~>": fgen.Xor, "~|": fgen.Nor, "~&": fgen.Nand}[g.peek()]
	if ok && !g.bad {
		g.i++
		return fgen.Mk(o, f, g.unit())
	}
	for _, a := range []string{"&", "|"} {
		o := map[string]fgen.Op{"&": fgen.And, "|": fgen.Or}[a]
		if g.peek() == a && !g.bad {
			for g.peek() == a && !g.bad {
				g.i++
				f = fgen.Mk(o, f, g.unit())
			}
			return f
		}
	}
	return f
}

// unit is <fof_unit_formula> or <tff_unit_formula>.
func (g *zzGram) unit() *fgen.Form {
	if g.peek() == "~" {
		g.i++
		if !g.tff {
			return fgen.Mk(fgen.Not, g.unit())
		}
		f := g.preunit()
		return fgen.Mk(fgen.Not, f)
	}
	return g.unitary(true)
}

// preunit is <tff_preunit_formula>: no equation without parentheses.
func (g *zzGram) preunit() *fgen.Form {
	if g.peek() == "~" {
		g.i++
		return fgen.Mk(fgen.Not, g.preunit())
	}
	return g.unitary(false)
}

func (g *zzGram) unitary(infix bool) *fgen.Form {
	t := g.peek()
	switch t {
	case "(":
		g.i++
		f := g.logic()
		g.take(")")
		return f
	case "!", "?":
		g.i++
		g.take("[")
		var vs []int
		n := len(g.scope)
		for !g.bad {
			x := g.peek()
			if x != "X" && x != "Y" {
				g.fail()
			}
			g.i++
			for _, y := range g.scope[n:] {
				g.loose = g.loose || x == y
			}
			if g.tff && g.peek() == ":" {
				g.i++
				g.take("$i")
			}
			vs = append(vs, g.nv)
			g.scope = append(g.scope, x)
			g.ids = append(g.ids, g.nv)
			g.nv++
			if g.peek() != "," {
				break
			}
			g.i++
		}
		g.take("]")
		g.take(":")
		f := g.unit()
		g.scope, g.ids = g.scope[:n], g.ids[:n]
		for i := len(vs) - 1; i >= 0; i-- {
			f = zzQ(map[string]fgen.Op{"!": fgen.All, "?": fgen.Ex}[t], vs[i], f)
		}
		return f
	case "$true", "$false":
		g.i++
		return &fgen.Form{Op: map[string]fgen.Op{"$true": fgen.True, "$false": fgen.False}[t]}
	}
	if !infix && (t == "X" || t == "Y") {
		g.fail()
	}
	u := g.term()
	if (g.peek() == "=" || g.peek() == "!=") && infix && !g.bad {
		o := map[string]fgen.Op{"=": fgen.Eq, "!=": fgen.Neq}[g.peek()]
		g.i++
		return &fgen.Form{Op: o, Args: []*fgen.Term{u, g.term()}}
	}
	if u.Var >= 0 {
		g.fail()
		return fgen.Mk(fgen.True)
	}
	return &fgen.Form{Op: fgen.Atom, Fam: u.Fam, Args: u.Args}
}

func (g *zzGram) term() *fgen.Term {
	if g.bad {
		return &fgen.Term{Var: -1}
	}
	x := g.peek()
	switch x {
	case "X", "Y":
		g.i++
		for i := len(g.scope) - 1; i >= 0; i-- {
			if g.scope[i] == x {
				return &fgen.Term{Var: g.ids[i]}
			}
		}
		g.free = true
		return &fgen.Term{Var: 99}
	case "p", "q", "$i":
		g.loose = g.loose || x == "$i" // a defined symbol
		g.i++
		t := &fgen.Term{Var: -1}
		if g.peek() == "(" {
			for first := true; (first || g.peek() == ",") && !g.bad; first = false {
				g.i++
				t.Args = append(t.Args, g.term())
			}
			g.take(")")
		}
		t.Fam = x + string([]byte{'0' + byte(len(t.Args))})
		return t
	}
	g.fail()
	return &fgen.Term{Var: -1}
}

var zzVocab = [][]string{
	{"p", "q", "(", ")", "~", "&", "|", "=>", "<=>", "<=", "<~>", "~|", "~&", "$true", "$false"},
	{"p", "X", "(", ")", ",", "~", "&", "=>", "=", "!=", "!", "[", "]", ":"},
	{"p", "X", "Y", "(", ")", ",", "|", "=", "?", "!", "[", "]", ":", "$i"},
}

// zzGrammar has the parser ask for the tokens of a formula; it is accepted exactly when it is one, and means what it says.
func zzGrammar(n, voc int, tff bool) {
	zzInit()
	var given []string
	pre := []string{"fof(", "(", "c", ",", "axiom", ","}
	if tff {
		pre[0] = "tff("
	}
	post := []string{")", "."}
	i := 0
	done := false
	open := 0
	stmts, ok := Parser.ZZParse(func() (string, bool) {
		i++
		if i <= len(pre) {
			return pre[i-1], true
		}
		if !done {
			k := len(zzVocab[voc])
			if len(given) < n {
				k = zzPick("token", k+1)
			}
			if k < len(zzVocab[voc]) {
				t := zzVocab[voc][k]
				// a parenthesis that closes the statement, or a comma that ends the formula, is not one of its tokens
				if t == "(" || t == "[" {
					open++
				}
				if t == ")" || t == "]" {
					open--
				}
				vt.Assume(open >= 0 && (open > 0 || t != ","))
				given = append(given, t)
				return t, true
			}
			done = true
		}
		if len(post) == 0 {
			return "", false
		}
		t := post[0]
		post = post[1:]
		return t, true
	})
	s := ""
	for _, t := range given {
		s += t + " "
	}
	vt.Obs("formula", s)
	for k := 0; tff && k+1 < len(given) && given[k] != ")"; k++ {
		if given[k] == "p" && given[k+1] == ":" && (k == 0 || given[k-1] == "(") {
			return // a type declaration
		}
		if given[k] != "(" {
			break
		}
	}
	// the parser stopped: is there a formula that starts like this?
	g := &zzGram{toks: given, tff: tff}
	f := g.logic()
	right := !g.bad && g.i == len(given)
	if !ok {
		vt.Cover("refused")
		if done {
			vt.Assert(!right, "a formula of TPTP is accepted")
		} else {
			vt.Assert(g.bad && !g.cut || !g.bad && g.i < len(given), "what is refused is not the beginning of a formula")
		}
		return
	}
	vt.Cover("accepted")
	vt.Assert(right, "what is accepted is a formula of TPTP")
	if g.free || g.loose {
		return
	}
	vt.Cover("understood")
	var core []Core.Statement
	r := vt.Catch(func() { core, _ = Engine.ToInternalSyntax(stmts) })
	vt.Assert(r == 0 && len(core) == 1, "the formula is translated")
	af, isF := core[0].GetForm().(Lib.Some[AST.Form])
	vt.Assert(isF, "the statement has a formula")
	for d := 1; d <= 2; d++ {
		in := &fgen.Interp{D: d, Tag: string([]byte{'0' + byte(d)})}
		z := &zzMeaning{in}
		vt.Assert(vt.Iff(z.form(af.Val, map[int]int{}), in.Holds(f)), "the formula means what TPTP says")
	}
}

//vt:check A17 quick=20 thorough=200 bounds=sequences_of_at_most_7_tokens_out_of_15,_all_9_connectives
func ZZA17Prop() { zzGrammar(7, 0, zzPick("tff", 2) == 1) }

//vt:check A17 quick=20 thorough=200 bounds=sequences_of_at_most_10_tokens_out_of_14,_terms,_equations_and_a_quantifier
func ZZA17FirstOrder() { zzGrammar(10, 1, zzPick("tff", 2) == 1) }

//vt:check A17 quick=20 thorough=200 bounds=sequences_of_at_most_13_tokens_out_of_14,_two_quantifiers
func ZZA17Quant() { zzGrammar(13, 2, zzPick("tff", 2) == 1) }
