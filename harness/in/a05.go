package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// zzEqGround: e1 & e2 => e3 over ground terms, with literals chosen among equations, disequations and a predicate.
func zzEqGround(g *fgen.Gen) *fgen.Form {
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, g.Lit(nil), g.Lit(nil)), g.Lit(nil))
	return f
}

func zzDecideGround(f *fgen.Form, d int, flags ...string) {
	if zzProve(zzConj(f), flags...) {
		zzSound(f, 3)
	} else {
		zzCounter(f, d)
	}
}

// Two ground literals imply a third, over three constants: equality is an equivalence.
//
//vt:check A05 quick=9 thorough=100 bounds=3_ground_equational_literals_over_3_constants
func ZZA05Constants() {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}}, Equality: true, Conc: true}
	zzDecideGround(zzEqGround(g), 3)
}

// Two ground literals imply a third, over two constants, a unary function and a predicate: equality is a congruence.
//
//vt:check A05 quick=9 thorough=300 bounds=3_ground_literals_over_2_constants,_1_function,_1_predicate
func ZZA05Congruence() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}},
		TermDep: 1, Equality: true, Conc: true}
	a := &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{g.Term(1, nil), g.Term(1, nil)}}
	zzDecideGround(fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, a, g.Lit(nil)), g.Lit(nil)), 4)
}

// Quantified equations: a proved conjecture holds in every interpretation with at most three elements.
//
//vt:check A05 quick=9 thorough=300 steps=1500000 bounds=a_quantified_equation_and_a_literal_imply_a_quantified_literal,_one_search_step,_domains_up_to_3
func ZZA05Quantified() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}},
		TermDep: 1, MaxVars: 1, Equality: true, Conc: true}
	ax := g.Quant(nil, func(v []int) *fgen.Form {
		return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{g.Term(1, v), g.Term(0, v)}}
	})
	g.Equality = vt.Pick("eq", 2) == 1
	f := fgen.Mk(fgen.Imp, ax, g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(fgen.Imp, g.Atom(v), g.Atom(v)) }))
	if zzProve(zzConj(f), "-one_step") {
		zzSound(f, 3)
	}
}

// A disjunction of two equations and a third imply a fourth: what one branch learns stays in that branch.
//
//vt:check A05 quick=10 thorough=300 steps=4000000 bounds=(e1_or_e2)_and_e3_imply_e4,_ground_equations_over_3_constants_or_2_constants_and_1_function
func ZZA05Branch() {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}}, Equality: true, Conc: true}
	if vt.Pick("fun", 2) == 1 {
		g = &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}}, TermDep: 1, Equality: true, Conc: true}
	}
	eq := func(d1 int) *fgen.Form {
		return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{g.Term(d1, nil), g.Term(0, nil)}}
	}
	d := fgen.Mk(fgen.Or, eq(g.TermDep), eq(0))
	zzDecideGround(fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, d, eq(0)), eq(g.TermDep)), 4)
}

// Congruence of a binary function.
//
//vt:check A05 quick=10 thorough=300 steps=4000000 bounds=2_ground_equations_imply_an_equation,_2_constants,_1_binary_function
func ZZA05Binary() {
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 3}, {Base: 'g', N: 1, Arity: 2}}, Equality: true, Conc: true}
	c := func() *fgen.Term { return g.Term(0, nil) }
	ap := func() *fgen.Term { return &fgen.Term{Var: -1, Fam: "g", Args: []*fgen.Term{c(), c()}} }
	eq := func(a, b *fgen.Term) *fgen.Form { return &fgen.Form{Op: fgen.Eq, Args: []*fgen.Term{a, b}} }
	e1 := eq(c(), c())
	vt.Assume(e1.Args[0].Name != e1.Args[1].Name)
	e2 := eq(c(), c())
	if vt.Pick("l", 2) == 1 {
		e2 = eq(ap(), c())
	}
	e3 := eq(ap(), ap())
	if vt.Pick("r", 2) == 1 {
		e3 = eq(ap(), c())
	}
	zzDecideGround(fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, e1, e2), e3), 4)
}

// An existential goal modulo ground equations.
//
//vt:check A05 quick=10 thorough=300 steps=1500000 bounds=1_or_2_ground_equations_and_an_optional_ground_atom_imply_an_existential_equation_or_atom,_3_constants_or_2_constants_and_a_unary_or_binary_function
func ZZA05Unify() {
	f := zzEqUnify()
	if zzProve(zzConj(f), "-one_step", "-l", "4") {
		zzSound(f, 3)
	} else {
		zzCounter(f, 4)
	}
}

// Powers of a unary function.
//
//vt:check A05 quick=8 thorough=300 steps=1500000 bounds=f^i(a)=f^j(a)_and_f^k(a)=f^l(a)_imply_f^m(a)=f^n(a),_exponents_up_to_3
func ZZA05Power() {
	f := zzEqPower(3)
	if zzProve(zzConj(f)) {
		zzSound(f, 3)
	} else {
		zzCounter(f, 6)
	}
}

// Equations under a predicate.
//
//vt:check A05 quick=8 thorough=300 steps=1500000 bounds=2_equations_and_an_atom_imply_an_atom,_3_constants,_unary_or_binary_predicate,_perhaps_under_a_function
func ZZA05Pred() {
	zzDecideGround(zzEqPred(), 4)
}
