package main

//vt:needs comp.go

import (
	"strings"
	"sync"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Core/Sko"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Formulas as the prover holds them, and what its operations must do to them. Variables 0..2 are free variables
// (metavariables), the others are bound.
var zzBVs []AST.TypedVar

func zzBV(v int) AST.TypedVar {
	for len(zzBVs) <= v {
		zzBVs = append(zzBVs, AST.MakerTypedVar("V"+string([]byte{'0' + byte(len(zzBVs))}), AST.TIndividual()))
	}
	return zzBVs[v]
}

func zzMetaTerm(t *fgen.Term) AST.Term {
	if t.Var >= len(zzMetas) {
		return zzBV(t.Var).ToBoundVar()
	}
	if t.Var >= 0 {
		return zzMetas[t.Var]
	}
	args := Lib.NewList[AST.Term]()
	for _, a := range t.Args {
		args.Append(zzMetaTerm(a))
	}
	return AST.MakerFun(AST.MakerId(string([]byte{t.Fam[0] + byte(t.Name)})), Lib.NewList[AST.Ty](), args)
}

// zzFormOf builds the formula; the quantifiers of a block share one node.
func zzFormOf(f *fgen.Form) AST.Form {
	switch f.Op {
	case fgen.Not:
		return AST.MakerNot(zzFormOf(f.Sub[0]))
	case fgen.And, fgen.Or:
		l := Lib.NewList[AST.Form]()
		for _, s := range f.Sub {
			l.Append(zzFormOf(s))
		}
		if f.Op == fgen.And {
			return AST.MakerAnd(l)
		}
		return AST.MakerOr(l)
	case fgen.Imp:
		return AST.MakerImp(zzFormOf(f.Sub[0]), zzFormOf(f.Sub[1]))
	case fgen.Iff:
		return AST.MakerEqu(zzFormOf(f.Sub[0]), zzFormOf(f.Sub[1]))
	case fgen.All, fgen.Ex:
		vs := Lib.NewList[AST.TypedVar]()
		vs.Append(zzBV(f.Var))
		b := f.Sub[0]
		for b.Op == f.Op {
			vs.Append(zzBV(b.Var))
			b = b.Sub[0]
		}
		if f.Op == fgen.All {
			return AST.MakerAll(vs, zzFormOf(b))
		}
		return AST.MakerEx(vs, zzFormOf(b))
	}
	args := Lib.NewList[AST.Term]()
	for _, a := range f.Args {
		args.Append(zzMetaTerm(a))
	}
	return AST.MakerPred(AST.MakerId(string([]byte{f.Fam[0] + byte(f.Name)})), Lib.NewList[AST.Ty](), args)
}

// zzSaw collects what a reading met.
type zzSaw struct {
	metas  map[int]bool
	funs   []AST.Fun // applications of symbols the harness did not make
	bound  map[int]int
	repeat bool // two quantifiers bind the same variable
}

func (z *zzSaw) term(t AST.Term, env map[int]int) string {
	switch u := t.(type) {
	case AST.Meta:
		z.metas[u.GetIndex()] = true
		for i, m := range zzMetas {
			if m.GetIndex() == u.GetIndex() {
				return "?" + string([]byte{'0' + byte(i)})
			}
		}
		return "?new"
	case AST.Var:
		d, ok := env[u.GetIndex()]
		if !ok {
			return "free!"
		}
		return "#" + string([]byte{'0' + byte(d)})
	}
	u := t.(AST.Fun)
	n := u.GetID().GetName()
	if len(n) > 1 {
		z.funs = append(z.funs, u)
		n = "sk"
	}
	s := n + "("
	for _, a := range u.GetArgs().GetSlice() {
		s += z.term(a, env) + ","
	}
	if n == "sk" {
		return n
	}
	return s + ")"
}

func (z *zzSaw) quant(q string, vs Lib.List[AST.TypedVar], b AST.Form, env map[int]int) string {
	e := map[int]int{}
	for k, v := range env {
		e[k] = v
	}
	for _, v := range vs.GetSlice() {
		z.bound[v.GetIndex()]++
		z.repeat = z.repeat || z.bound[v.GetIndex()] > 1
		e[v.GetIndex()] = len(e)
		q += "."
	}
	return q + z.form(b, e)
}

func (z *zzSaw) list(o string, l Lib.List[AST.Form], env map[int]int) string {
	s := o + "("
	for _, f := range l.GetSlice() {
		s += z.form(f, env) + ","
	}
	return s + ")"
}

// form reads a formula up to the names of its bound variables.
func (z *zzSaw) form(f AST.Form, env map[int]int) string {
	switch u := f.(type) {
	case AST.Not:
		return "~(" + z.form(u.GetForm(), env) + ")"
	case AST.And:
		return z.list("&", u.GetChildFormulas(), env)
	case AST.Or:
		return z.list("|", u.GetChildFormulas(), env)
	case AST.Imp:
		return "=>(" + z.form(u.GetF1(), env) + "," + z.form(u.GetF2(), env) + ",)"
	case AST.Equ:
		return "<=>(" + z.form(u.GetF1(), env) + "," + z.form(u.GetF2(), env) + ",)"
	case AST.All:
		return z.quant("!", u.GetVarList(), u.GetForm(), env)
	case AST.Ex:
		return z.quant("?", u.GetVarList(), u.GetForm(), env)
	}
	p := f.(AST.Pred)
	s := p.GetID().GetName() + "["
	for _, a := range p.GetArgs().GetSlice() {
		s += z.term(a, env) + ","
	}
	return s + "]"
}

func zzRead(f AST.Form) (string, *zzSaw) {
	z := &zzSaw{metas: map[int]bool{}, bound: map[int]int{}}
	return z.form(f, map[int]int{}), z
}

// zzSubst applies a substitution of the free variables to the formula as the harness built it.
func zzSubstTerm(t *fgen.Term, s map[int]*fgen.Term) *fgen.Term {
	if t.Var >= 0 {
		if u := s[t.Var]; u != nil {
			return u
		}
		return t
	}
	r := &fgen.Term{Var: -1, Fam: t.Fam, Name: t.Name}
	for _, a := range t.Args {
		r.Args = append(r.Args, zzSubstTerm(a, s))
	}
	return r
}

func zzSubstForm(f *fgen.Form, s map[int]*fgen.Term) *fgen.Form {
	r := &fgen.Form{Op: f.Op, Fam: f.Fam, Name: f.Name, Var: f.Var}
	for _, a := range f.Args {
		r.Args = append(r.Args, zzSubstTerm(a, s))
	}
	for _, g := range f.Sub {
		r.Sub = append(r.Sub, zzSubstForm(g, s))
	}
	return r
}

// zzSameForm requires that f is the expected formula, up to the names of bound variables, and knows its free variables.
func zzSameForm(f AST.Form, want *fgen.Form) {
	a, z := zzRead(f)
	b, _ := zzRead(zzFormOf(want))
	vt.Obs("result", a)
	vt.Assert(a == b, "every occurrence is replaced and nothing else")
	zzKnowsMetas(f, z)
}

func zzKnowsMetas(f AST.Form, z *zzSaw) {
	n := 0
	for _, m := range f.GetMetas().Elements().GetSlice() {
		n++
		vt.Assert(z.metas[m.GetIndex()], "a free variable of a formula occurs in it")
	}
	vt.Assert(n == len(z.metas), "a variable that occurs in a formula is one of its free variables")
}

func zzSubGen(budget, metas int) (*fgen.Gen, []int) {
	zzInit()
	zzMkMetas(metas)
	zzBVs = nil
	vars := []int{0, 1, 2}[:metas]
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}, {Base: 'r', N: 1, Arity: 2}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}, {Base: 'g', N: 1, Arity: 2}},
		Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff, fgen.All, fgen.Ex}, MaxVars: metas + 2, Budget: budget, TermDep: 1, Conc: true, SymVars: true}
	g.Reserve(metas)
	return g, vars
}

// A substitution is applied to a formula.
//
//vt:check A22 quick=12 thorough=200 bounds=formulas_of_2_connectives_or_quantifiers_over_p/1_r/2_with_terms_of_depth_1_over_a_constant_and_g/2,_3_free_variables,_1_or_2_of_them_replaced_by_terms_of_depth_1
func ZZA22Apply() {
	g, vars := zzSubGen(2, 3)
	f := g.Small(vars)
	h := zzFormOf(f)
	if vt.Pick("asked", 2) == 1 {
		_, z := zzRead(h)
		zzKnowsMetas(h, z)
	}
	vt.Obs("formula", h.ToString())
	s := map[int]*fgen.Term{0: g.Term(1, []int{2})}
	l := Lib.NewList[Unif.MixedSubstitution]()
	l.Append(Unif.MkMixedFromSubst(Unif.MakeSubstitution(zzMetas[0], zzMetaTerm(s[0]))))
	if vt.Pick("two", 2) == 1 {
		s[1] = g.Term(1, []int{2})
		l.Append(Unif.MkMixedFromSubst(Unif.MakeSubstitution(zzMetas[1], zzMetaTerm(s[1]))))
	}
	vt.Obs("substitution", Lib.ListToString(l))
	r := Core.ApplySubstitutionsOnFormula(l, h)
	vt.Cover("applied")
	zzSameForm(r, zzSubstForm(f, s))
	zzSameForm(h, f)
}

// A quantified formula is instantiated: every free occurrence of its first variable, and nothing else, becomes a new
// free variable.
//
//vt:check A22 quick=12 thorough=200 bounds=a_quantified_formula_of_2_connectives_or_quantifiers_over_p/1_r/2,_terms_of_depth_1,_1_free_variable
func ZZA22Instantiate() {
	g, vars := zzSubGen(2, 1)
	f := g.Quant(vars, g.Small)
	neg := f.Op == fgen.Ex
	h := zzFormOf(f)
	if neg {
		h = AST.MakerNot(h)
	}
	if vt.Pick("asked", 2) == 1 {
		_, z := zzRead(h)
		zzKnowsMetas(h, z)
	}
	vt.Obs("formula", h.ToString())
	r, ms := Core.Instantiate(Core.MakeFormAndTerm(h, Lib.NewList[AST.Term]()), 0)
	vt.Assert(ms.Cardinal() == 1, "an instance has one new free variable")
	m := ms.Elements().At(0)
	vt.Assert(m.GetIndex() != zzMetas[0].GetIndex(), "the free variable of an instance is new")
	zzMetas = append(zzMetas, m)
	vt.Cover("instantiated")
	// the new variable is number 1, as the bound one was
	b := f.Sub[0]
	want := b
	if neg {
		want = fgen.Mk(fgen.Not, b)
	}
	zzSameForm(r.GetForm(), want)
}

// An existential formula is Skolemised: every free occurrence of its first variable, and nothing else, becomes a term
// with a new symbol, which depends on the free variables of the branch.
//
//vt:check A22 quick=12 thorough=200 bounds=a_quantified_formula_of_2_connectives_or_quantifiers_over_p/1_r/2,_terms_of_depth_1,_2_free_variables
func ZZA22Skolemise() {
	g, vars := zzSubGen(2, 2)
	f := g.Quant(vars, g.Small)
	neg := f.Op == fgen.All
	h := zzFormOf(f)
	if neg {
		h = AST.MakerNot(h)
	}
	if vt.Pick("asked", 2) == 1 {
		_, z := zzRead(h)
		zzKnowsMetas(h, z)
	}
	vt.Obs("formula", h.ToString())
	fv := Lib.EmptySet[AST.Meta]()
	fv = fv.Add(zzMetas[0])
	fv = fv.Add(zzMetas[1])
	r := Core.Skolemize(h, fv)
	vt.Cover("skolemised")
	b := f.Sub[0]
	want := zzSubstForm(b, map[int]*fgen.Term{f.Var: {Var: -1, Fam: "k"}})
	if neg {
		want = fgen.Mk(fgen.Not, want)
	}
	got, z := zzRead(r)
	exp, _ := zzRead(zzFormOf(want))
	exp = strings.ReplaceAll(exp, "k()", "sk")
	vt.Obs("result", got)
	vt.Assert(got == exp, "every occurrence is replaced and nothing else")
	zzKnowsMetas(r, z)
	for _, u := range z.funs {
		vt.Assert(u.Equals(z.funs[0]), "one term stands for all the occurrences")
		vt.Assert(u.GetArgs().Len() == 2 && u.GetMetas().Cardinal() == 2, "a Skolem term depends on the free variables of the branch")
	}
	// once more: another symbol
	r2 := Core.Skolemize(h, fv)
	_, z2 := zzRead(r2)
	if len(z.funs) > 0 && len(z2.funs) > 0 {
		vt.Cover("twice")
		vt.Assert(!z.funs[0].GetID().Equals(z2.funs[0].GetID()), "a Skolem symbol is new")
	}
}

// Bound variables are renamed apart without changing the formula; copies are equal; formulas that are found equal mean
// the same.
//
//vt:check A22 quick=12 thorough=200 bounds=a_quantified_formula_of_2_connectives_or_quantifiers_over_p/1_r/2,_1_free_variable,_and_a_formula_that_differs_in_one_place
func ZZA22Equal() {
	g, vars := zzSubGen(2, 1)
	g.FunFam = g.FunFam[:1]
	f := g.Quant(vars, g.Small)
	h := zzFormOf(f)
	vt.Obs("formula", h.ToString())
	r := h.RenameVariables()
	a, _ := zzRead(h)
	b, z := zzRead(r)
	vt.Assert(a == b, "renaming bound variables keeps the formula")
	vt.Assert(!z.repeat, "bound variables are different after renaming")
	zzKnowsMetas(r, z)
	c := h.Copy()
	vt.Assert(c.Equals(h) && h.Equals(c), "a formula is equal to its copy")
	vt.Assert(zzFormOf(f).Equals(h), "a formula is equal to the same formula")
	m := fgen.Mutate(f)
	k := zzFormOf(m)
	vt.Obs("other", k.ToString())
	if h.Equals(k) {
		vt.Cover("equal")
		for d := 1; d <= 2; d++ {
			in := &fgen.Interp{D: d, Tag: "e" + string([]byte{'0' + byte(d)})}
			env := func() map[int]int { return map[int]int{0: vt.UF(in.Tag+"free", in.D)} }
			vt.Assert(vt.Iff(in.Eval(f, env()), in.Eval(m, env())), "equal formulas mean the same")
		}
	} else {
		vt.Cover("different")
		x, _ := zzRead(k)
		vt.Assert(x != a || f.Text() != m.Text(), "a formula is equal to the same formula")
	}
}

// The part of a unifier that a branch sends to its parent says of the parent's variables what the unifier says.
//
//vt:check A22 quick=12 thorough=300 bounds=a_solution_of_2_or_3_equations_between_terms_of_depth_1_over_2_constants_and_g/2_in_4_variables,_2_or_3_of_them_of_the_parent
func ZZA22Restrict() {
	zzInit()
	zzMkMetas(4)
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'g', N: 1, Arity: 2}}, Conc: true}
	vars := []int{0, 1, 2, 3}
	nm := 2 + vt.Pick("mothers", 2)
	n := 2 + vt.Pick("n", 2)
	s := Unif.MakeEmptySubstitution()
	desc := ""
	for i := 0; i < n; i++ {
		d := 1
		if n == 3 && i > 0 {
			d = 0
		}
		x, t := zzMetas[vt.Pick("x", 4)], zzTermOf(g.Term(d, vars))
		desc += x.ToString() + " = " + t.ToString() + "  "
		s = Unif.AddUnification(x, t, s)
		if s.Equals(Unif.Failure()) {
			return
		}
	}
	vt.Obs("equations", desc)
	mm := Lib.EmptySet[AST.Meta]()
	for _, m := range zzMetas[:nm] {
		mm = mm.Add(m)
	}
	full := zzOfSubsts(s)
	res := Core.RemoveElementWithoutMM(Unif.FromSubstitutions(s), mm)
	vt.Obs("restricted", Lib.ListToString(res))
	part := zzOfSubsts(Unif.ToSubstitutions(res))
	vt.Cover("restricted")
	// the parent's variables have the same values, up to a renaming
	to, from := map[int]int{}, map[int]int{}
	var same func(a, b AST.Term, fuel int) bool
	same = func(a, b AST.Term, fuel int) bool {
		vt.Assert(fuel > 0, "a substitution has no cycle")
		a, b = full.walk(a), part.walk(b)
		ma, oka := a.(AST.Meta)
		mb, okb := b.(AST.Meta)
		if oka != okb {
			return false
		}
		if oka {
			x, ok := to[ma.GetIndex()]
			y, ok2 := from[mb.GetIndex()]
			to[ma.GetIndex()], from[mb.GetIndex()] = mb.GetIndex(), ma.GetIndex()
			return (!ok || x == mb.GetIndex()) && (!ok2 || y == ma.GetIndex())
		}
		fa, fb := a.(AST.Fun), b.(AST.Fun)
		if fa.GetID().GetName() != fb.GetID().GetName() || fa.GetArgs().Len() != fb.GetArgs().Len() {
			return false
		}
		for i := 0; i < fa.GetArgs().Len(); i++ {
			if !same(fa.GetArgs().At(i), fb.GetArgs().At(i), fuel-1) {
				return false
			}
		}
		return true
	}
	for _, m := range zzMetas[:nm] {
		vt.Assert(same(m, m, 50), "the parent's variables get the values of the unifier")
	}
}

// Branches Skolemise at the same time: a symbol belongs to one formula and one branch.
//
//vt:check A22 quick=12 thorough=200 bounds=two_or_three_Skolemisations_in_two_branches,_outer,_inner_and_pre-inner,_schedules_with_at_most_1_preemption
func ZZA22Fresh() {
	zzInit()
	zzMkMetas(1)
	vt.Schedule(1)
	mode := vt.Pick("mode", 3)
	switch mode {
	case 0:
		Core.SetSelectedSkolemization(Sko.MkOuterSkolemization())
	case 1:
		Core.SetSelectedSkolemization(Sko.MkInnerSkolemization())
	case 2:
		Core.SetSelectedSkolemization(Sko.MkPreInnerSkolemization())
	}
	zzBVs = nil
	var fs []AST.Form
	for i := 0; i < 3; i++ {
		v := zzBV(1)
		vs := Lib.MkListV(v)
		// different formulas that bind the same variable
		at := AST.MakerPred(AST.MakerId(string([]byte{'p' + byte(i)})), Lib.NewList[AST.Ty](), Lib.MkListV[AST.Term](v.ToBoundVar(), zzMetas[0]))
		if vt.Pick("ex", 2) == 1 {
			fs = append(fs, AST.MakerEx(vs, at))
		} else {
			fs = append(fs, AST.MakerNot(AST.MakerAll(vs, at)))
		}
	}
	fv := Lib.EmptySet[AST.Meta]()
	fv = fv.Add(zzMetas[0])
	rs := make([]AST.Form, 3)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		rs[0] = Core.Skolemize(fs[0], fv)
		if vt.Pick("three", 2) == 1 {
			rs[2] = Core.Skolemize(fs[2], fv)
		}
		wg.Done()
	}()
	go func() {
		rs[1] = Core.Skolemize(fs[1], fv)
		wg.Done()
	}()
	wg.Wait()
	vt.Cover("skolemised")
	names := map[string]bool{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		_, z := zzRead(r)
		for _, u := range z.funs {
			n := u.GetID().GetName()
			vt.Obs("symbol", n)
			vt.Assert(!names[n], "two formulas have different Skolem symbols")
			names[n] = true
		}
	}
}
