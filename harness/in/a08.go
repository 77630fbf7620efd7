package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

func zzDmt(ax []*fgen.Form, c *fgen.Form, flags ...string) (bool, *fgen.Form) {
	text := ""
	var all *fgen.Form
	for i, a := range ax {
		text += "fof(s" + string([]byte{'0' + byte(i)}) + ", axiom, " + a.Text() + ").\n"
		if all == nil {
			all = a
		} else {
			all = fgen.Mk(fgen.And, all, a)
		}
	}
	text += zzConj(c)
	return zzProve(text, append([]string{"-dmt"}, flags...)...), fgen.Mk(fgen.Imp, all, c)
}

// Implications and literals under a universal quantifier, which become rules with -polarized, and a ground conjecture.
// Rules that are no definitions are used incompletely by design, so only soundness is claimed of them.
//
//vt:check A08 quick=12 thorough=300 steps=500000 bounds=2_axioms,_3_unary_predicates,_2_constants,_domains_up_to_3
func ZZA08Ground() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 1, Conc: true}
	var body *fgen.Form
	switch zzPick("op", 4) {
	case 0:
		body = fgen.Mk(fgen.Imp, g.Lit([]int{0}), g.Lit([]int{0}))
	case 1:
		body = fgen.Mk(fgen.Iff, g.Lit([]int{0}), g.Lit([]int{0}))
	case 2:
		body = fgen.Mk(fgen.RevImp, g.Lit([]int{0}), fgen.Mk([]fgen.Op{fgen.And, fgen.Or}[vt.Pick("c", 2)], g.Lit([]int{0}), g.Lit([]int{0})))
	default:
		body = g.Lit([]int{0})
	}
	flags := []string{"-one_step", "-l", "4"}
	if vt.Pick("pol", 2) == 1 {
		flags = append(flags, "-polarized")
	}
	if vt.Pick("presko", 3) == 2 {
		flags = append(flags, "-presko")
	}
	ax := []*fgen.Form{{Op: fgen.All, Var: 0, Sub: []*fgen.Form{body}}, g.Lit(nil)}
	c := g.Lit(nil)
	if vt.Pick("two", 2) == 1 {
		c = fgen.Mk([]fgen.Op{fgen.Imp, fgen.Or, fgen.And}[vt.Pick("co", 3)], g.Lit(nil), c)
	}
	thm, f := zzDmt(ax, c, flags...)
	if thm {
		zzSound(f, 3)
	}
}

// Rewrite rules whose right-hand side is a formula, possibly with a quantifier of its own.
//
//vt:check A08 quick=14 thorough=300 steps=700000 bounds=one_rule_with_a_compound_side,_one_literal,_domains_up_to_3
func ZZA08Compound() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3, Arity: 1}}, MaxVars: 2, Conc: true}
	op := []fgen.Op{fgen.Iff, fgen.Imp, fgen.RevImp}[zzPick("op", 3)]
	if vt.Pick("const", 3) == 2 {
		g.FunFam = []fgen.Fam{{Base: 'a', N: 2}}
	}
	var rhs *fgen.Form
	l := g.Lit([]int{0})
	q := vt.Pick("q", 2) == 1
	if q {
		rhs = &fgen.Form{Op: []fgen.Op{fgen.All, fgen.Ex}[vt.Pick("qq", 2)], Var: 1, Sub: []*fgen.Form{g.Lit([]int{0, 1})}}
	} else {
		rhs = fgen.Mk([]fgen.Op{fgen.And, fgen.Or, fgen.Imp}[vt.Pick("c", 3)], g.Lit([]int{0}), g.Lit([]int{0}))
	}
	if len(g.FunFam) == 0 {
		g.FunFam = []fgen.Fam{{Base: 'a', N: 1}}
	}
	ax := []*fgen.Form{{Op: fgen.All, Var: 0, Sub: []*fgen.Form{fgen.Mk(op, l, rhs)}}, g.Lit(nil)}
	c := g.Lit(nil)
	if vt.Pick("c2", 2) == 1 {
		c = fgen.Mk(fgen.Imp, g.Lit(nil), c)
	}
	thm, f := zzDmt(ax, c, "-one_step", "-l", "4")
	if thm {
		zzSound(f, 3)
	} else if !q && !(op == fgen.Iff && zzMentions(rhs, zzAtomOf(l))) {
		zzCounter(f, 3) // an axiom that defines a predicate in terms of itself may be used incompletely
	}
}

// A definition of a binary predicate, perhaps at an instance: the instance of the rule is the one that matches.
//
//vt:check A08 quick=12 thorough=300 steps=1400000 bounds=one_rule_over_a_binary_predicate_and_a_function,_2_literals,_domains_up_to_3
func ZZA08Match() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}}, MaxVars: 2, Conc: true}
	h := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}, {Base: 's', N: 1, Arity: 2}}, FunFam: g.FunFam[:1], MaxVars: 2, Conc: true}
	g.TermDep = 1
	l := g.Atom([]int{0, 1})
	var vs []int // those of the variables that occur
	for v := 0; v < 2; v++ {
		if zzOccurs(l, v) {
			vs = append(vs, v)
		}
	}
	var r *fgen.Form
	switch vt.Pick("rhs", 4) {
	case 0:
		r = fgen.Mk(fgen.And, h.Lit(vs), h.Lit(vs))
	case 1:
		r = fgen.Mk(fgen.Or, h.Lit(vs), h.Lit(vs))
	case 2:
		r = fgen.Mk(fgen.Imp, h.Lit(vs), h.Lit(vs))
	default:
		r = fgen.Mk(fgen.Iff, h.Atom(vs), h.Atom(vs))
	}
	if vt.Pick("neg", 3) == 2 {
		l = fgen.Mk(fgen.Not, l)
	}
	body := fgen.Mk(fgen.Iff, l, r)
	if vt.Pick("swap", 2) == 1 {
		body = fgen.Mk(fgen.Iff, r, l)
	}
	for i := len(vs) - 1; i >= 0; i-- {
		body = zzQ(fgen.All, vs[i], body)
	}
	lit := func() *fgen.Form {
		if vt.Pick("which", 2) == 0 {
			return h.Lit(nil)
		}
		return g.Lit(nil)
	}
	var c *fgen.Form
	if vt.Pick("lits", 2) == 0 {
		c = lit()
	} else {
		c = fgen.Mk([]fgen.Op{fgen.Imp, fgen.Or, fgen.And}[vt.Pick("co", 3)], lit(), lit())
	}
	thm, f := zzDmt([]*fgen.Form{body, lit()}, c, "-one_step", "-l", "4")
	if thm {
		zzSound(f, 3)
	} else {
		zzCounter(f, 3)
	}
}

// Two definitions, one in terms of the other.
//
//vt:check A08 quick=12 thorough=300 steps=1400000 bounds=two_chained_definitions_of_unary_predicates,_2_literals,_domains_up_to_3
func ZZA08Chain() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}, {Base: 'q', N: 1, Arity: 1}, {Base: 'r', N: 1, Arity: 2}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 2, Conc: true}
	q := &fgen.Gen{PredFam: g.PredFam[1:], FunFam: g.FunFam, MaxVars: 2, Conc: true}
	r := &fgen.Gen{PredFam: g.PredFam[2:], FunFam: g.FunFam, MaxVars: 2, Conc: true}
	ops := func() fgen.Op { return []fgen.Op{fgen.And, fgen.Or, fgen.Imp}[vt.Pick("o", 3)] }
	def := func(v int, l, rhs *fgen.Form) *fgen.Form {
		if vt.Pick("neg", 3) == 2 {
			l = fgen.Mk(fgen.Not, l)
		}
		if vt.Pick("swap", 2) == 1 {
			l, rhs = rhs, l
		}
		return zzQ(fgen.All, v, fgen.Mk(fgen.Iff, l, rhs))
	}
	d1 := def(0, zzP("p", 0, zzV(0)), fgen.Mk(ops(), q.Lit([]int{0}), q.Lit([]int{0})))
	d2 := def(1, zzP("q", 0, zzV(1)), fgen.Mk(ops(), r.Lit([]int{1}), r.Lit([]int{1})))
	c := g.Lit(nil)
	if vt.Pick("lits", 2) == 1 {
		c = fgen.Mk([]fgen.Op{fgen.Imp, fgen.Or, fgen.And}[vt.Pick("co", 3)], g.Lit(nil), c)
	}
	thm, f := zzDmt([]*fgen.Form{d1, d2, g.Lit(nil)}, c, "-one_step", "-l", "4")
	if thm {
		zzSound(f, 3)
	} else {
		zzCounter(f, 3)
	}
}

// Several rules for one predicate, at instances or in general, and a goal that may have a variable: the rules that match
// are tried one after the other. Only soundness is claimed (the rewrite system need not be confluent).
//
//vt:check A08 quick=12 thorough=300 steps=900000 bounds=two_rules_for_one_predicate,_2_literals,_one_variable_in_the_goal,_domains_up_to_3
func ZZA08Rules() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}, {Base: 'q', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 3, Conc: true}
	q := &fgen.Gen{PredFam: g.PredFam[1:], FunFam: g.FunFam, MaxVars: 3, Conc: true}
	rule := func(v int) *fgen.Form {
		t, vs := zzV(v), []int{v}
		if vt.Pick("inst", 2) == 1 {
			t, vs = g.Term(1, nil), nil
		}
		l := zzP("p", 0, t)
		if vt.Pick("neg", 3) == 2 {
			l = fgen.Mk(fgen.Not, l)
		}
		r := fgen.Mk([]fgen.Op{fgen.And, fgen.Or, fgen.Imp}[vt.Pick("o", 3)], q.Lit(vs), q.Lit(vs))
		f := fgen.Mk(fgen.Iff, l, r)
		if vs != nil {
			f = zzQ(fgen.All, v, f)
		}
		return f
	}
	r1, r2 := rule(0), rule(1)
	var c *fgen.Form
	if vt.Pick("goal", 2) == 1 {
		c = zzQ(zzAnyQ(), 2, fgen.Mk([]fgen.Op{fgen.And, fgen.Or, fgen.Imp}[vt.Pick("co", 3)], g.Lit([]int{2}), g.Lit([]int{2})))
	} else {
		c = g.Lit(nil)
	}
	flags := []string{"-one_step", "-l", "4"}
	if vt.Pick("pol", 3) == 2 {
		flags = append(flags, "-polarized")
	}
	thm, f := zzDmt([]*fgen.Form{r1, r2, g.Lit(nil)}, c, flags...)
	if thm {
		zzSound(f, 3)
	}
}

// A definition by a quantified formula, used twice: the witnesses of the two uses are different.
//
//vt:check A08 quick=35 thorough=300 steps=1400000 bounds=a_definition_with_a_quantifier_used_for_two_constants_and_a_goal_about_both,_domains_up_to_3
func ZZA08Quant() {
	sign := func(n string, f *fgen.Form) *fgen.Form {
		if vt.Pick(n, 2) == 1 {
			return fgen.Mk(fgen.Not, f)
		}
		return f
	}
	r := func(t *fgen.Term, v int) *fgen.Form { return zzP("r", 0, t, zzV(v)) }
	flags := []string{"-one_step", "-l", "3"}
	if zzPick("presko", 2) == 1 {
		flags = append(flags, "-presko")
	}
	if vt.Pick("pol", 3) == 2 {
		flags = append(flags, "-polarized")
	}
	l := sign("neg", zzP("p", 0, zzV(0)))
	var body *fgen.Form
	if vt.Pick("deep", 3) == 2 {
		body = zzQ(zzAnyQ(), 1, zzQ(zzAnyQ(), 2, sign("body", zzP("s", 0, zzV(0), zzV(1), zzV(2)))))
		r = func(t *fgen.Term, v int) *fgen.Form { return zzQ(zzAnyQ(), v+3, zzP("s", 0, t, zzV(v), zzV(v+3))) }
	} else {
		body = zzQ(zzAnyQ(), 1, sign("body", r(zzV(0), 1)))
	}
	if vt.Pick("swap", 3) == 2 {
		l, body = body, l
	}
	d := zzQ(fgen.All, 0, fgen.Mk(fgen.Iff, l, body))
	a, b := &fgen.Term{Var: -1, Fam: "a"}, &fgen.Term{Var: -1, Fam: "a", Name: 1}
	hyp := fgen.Mk(fgen.And, sign("ha", zzP("p", 0, a)), sign("hb", zzP("p", 0, b)))
	goal := zzQ(zzAnyQ(), 3, fgen.Mk([]fgen.Op{fgen.And, fgen.Or}[vt.Pick("co", 2)], sign("ga", r(a, 3)), sign("gb", r(b, 3))))
	thm, f := zzDmt([]*fgen.Form{d}, fgen.Mk(fgen.Imp, hyp, goal), flags...)
	if thm {
		zzSound(f, 2)
	}
}

func zzAtomOf(l *fgen.Form) *fgen.Form {
	if l.Op == fgen.Not {
		return l.Sub[0]
	}
	return l
}

func zzMentions(f, a *fgen.Form) bool {
	if f.Op == fgen.Atom {
		return f.Fam == a.Fam && f.Name == a.Name
	}
	for _, s := range f.Sub {
		if zzMentions(s, a) {
			return true
		}
	}
	return false
}

func zzOccurs(f *fgen.Form, v int) bool {
	var in func(t *fgen.Term) bool
	in = func(t *fgen.Term) bool {
		if t.Var >= 0 {
			return t.Var == v
		}
		for _, a := range t.Args {
			if in(a) {
				return true
			}
		}
		return false
	}
	for _, t := range f.Args {
		if in(t) {
			return true
		}
	}
	return false
}
