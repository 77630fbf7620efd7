package main

//vt:needs comp.go

import (
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// zzRetrieve builds an index of the stored atoms and requires that looking for the query returns exactly the atoms
// that unify with it, each with a most general unifier.
func zzRetrieve(stored []AST.Pred, query AST.Pred, incremental bool) {
	l := Lib.NewList[AST.Form]()
	for _, p := range stored {
		l.Append(p)
	}
	var ds Unif.DataStructure
	if incremental && len(stored) > 1 {
		first := Lib.NewList[AST.Form]()
		first.Append(stored[0])
		rest := Lib.NewList[AST.Form]()
		for _, p := range stored[1:] {
			rest.Append(p)
		}
		ds = Unif.NewNode().MakeDataStruct(first, true)
		ds = ds.InsertFormulaListToDataStructure(rest)
	} else {
		ds = Unif.NewNode().MakeDataStruct(l, true)
	}
	desc := ""
	for _, p := range stored {
		desc += p.ToString() + " "
	}
	vt.Obs("stored", desc)
	vt.Obs("query", query.ToString())
	ok, res := ds.Unify(query)
	vt.Assert(ok == (len(res) > 0), "success is reported when there is a match")
	var found []string
	for _, m := range res {
		found = append(found, m.ToString())
	}
	sort.Strings(found)
	vt.Obs("matches", strings.Join(found, " "))
	seen := map[int]bool{}
	for i, p := range stored {
		dup := false
		for _, q := range stored[:i] {
			dup = dup || q.Equals(p)
		}
		if dup {
			continue
		}
		ref, ok := zzUnifyPred(p, query)
		n := 0
		for j, m := range res {
			if !m.GetForm().Equals(p) {
				continue
			}
			n++
			seen[j] = true
			vt.Assert(ok, "an atom that does not unify with the query is not returned")
			s := zzOfSubsts(m.GetTrmSubsts())
			for k := 0; k < p.GetArgs().Len(); k++ {
				vt.Assert(s.equal(p.GetArgs().At(k), query.GetArgs().At(k), 50), "the returned substitution unifies the atom with the query")
			}
			for _, b := range m.GetTrmSubsts() {
				x, t := b.Get()
				vt.Assert(ref.equal(x, t, 50), "the returned substitution is most general")
			}
		}
		if ok {
			vt.Cover("unifies")
			vt.Assert(n > 0, "an atom that unifies with the query is returned")
		} else {
			vt.Cover("does not unify")
		}
	}
	for j := range res {
		vt.Assert(seen[j], "every match is a stored atom")
	}
}

// One stored atom.
//
//vt:check A21 quick=25 thorough=200 bounds=one_stored_atom,_binary,_terms_of_depth_1_over_two_constants_f/1_g/2_and_three_variables
func ZZA21Pair() {
	zzInit()
	zzMkMetas(3)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'r', N: 1, Arity: 2}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}, {Base: 'g', N: 1, Arity: 2}}, TermDep: 1, Conc: true, SymVars: true}
	vars := []int{0, 1, 2}
	p := g.Atom(vars)
	q := g.Atom(vars)
	zzRetrieve([]AST.Pred{zzPredOf(p)}, zzPredOf(q), false)
}

// Three stored atoms that share beginnings.
//
//vt:check A21 quick=25 thorough=300 bounds=three_stored_unary_atoms,_terms_of_depth_1_over_two_constants_f/1_g/2_and_two_variables,_built_at_once_or_incrementally
func ZZA21Set() {
	zzInit()
	zzMkMetas(2)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'f', N: 1, Arity: 1}, {Base: 'g', N: 1, Arity: 2}}, TermDep: 1, Conc: true, SymVars: true}
	vars := []int{0, 1}
	var ps []AST.Pred
	for i := 0; i < 3; i++ {
		ps = append(ps, zzPredOf(g.Atom(vars)))
	}
	zzRetrieve(ps, zzPredOf(g.Atom(vars)), vt.Pick("incr", 2) == 1)
}

// Atoms with more arguments and predicates of several arities.
//
//vt:check A21 quick=25 thorough=300 bounds=two_stored_atoms_of_arity_0,_1_or_3,_terms_of_depth_1_over_a_constant_f/1_and_three_variables
func ZZA21Wide() {
	zzInit()
	zzMkMetas(3)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 's', N: 1, Arity: 3}, {Base: 'p', N: 2, Arity: 1}, {Base: 'n', N: 2}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}, {Base: 'f', N: 1, Arity: 1}}, TermDep: 1, Conc: true, SymVars: true}
	vars := []int{0, 1, 2}
	a, b := zzPredOf(g.Atom(vars)), zzPredOf(g.Atom(vars))
	zzRetrieve([]AST.Pred{a, b}, zzPredOf(g.Atom(vars)), vt.Pick("incr", 2) == 1)
}

// Nested terms.
//
//vt:check A21 quick=25 thorough=400 bounds=one_stored_unary_atom,_terms_of_depth_3_over_a_constant_f/1_g/2_and_two_variables
func ZZA21Deep() {
	zzInit()
	zzMkMetas(2)
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}, {Base: 'f', N: 1, Arity: 1}, {Base: 'g', N: 1, Arity: 2}}, Conc: true, SymVars: true}
	vars := []int{0, 1}
	d := 2 + vt.Pick("d", 2)
	g.TermDep = d
	p := g.Atom(vars)
	g.TermDep = 4 - d
	q := g.Atom(vars)
	if vt.Pick("swap", 2) == 1 {
		p, q = q, p
	}
	zzRetrieve([]AST.Pred{zzPredOf(p)}, zzPredOf(q), false)
}

func zzCheckUnifier(res Unif.Substitutions, ref zzSubst, ok bool, eqs [][2]AST.Term) {
	vt.Obs("result", res.ToString())
	failed := res.Equals(Unif.Failure())
	if !ok {
		vt.Cover("does not unify")
		vt.Assert(failed, "equations without a solution are refused")
		return
	}
	vt.Cover("unifies")
	vt.Assert(!failed, "equations with a solution are solved")
	if failed {
		return
	}
	s := zzOfSubsts(res)
	for _, e := range eqs {
		vt.Assert(s.equal(e[0], e[1], 50), "the substitution solves the equations")
	}
	for _, b := range res {
		x, t := b.Get()
		vt.Assert(ref.equal(x, t, 50), "the substitution is most general")
	}
}

// Equations are solved one after the other, or separately and then merged.
//
//vt:check A21 quick=25 thorough=300 bounds=two_or_three_equations_between_terms_of_depth_1_over_two_constants_g/2_and_three_variables
func ZZA21Solve() {
	zzInit()
	zzMkMetas(3)
	g := &fgen.Gen{FunFam: []fgen.Fam{{Base: 'a', N: 2}, {Base: 'g', N: 1, Arity: 2}}, Conc: true, SymVars: true}
	vars := []int{0, 1, 2}
	n := 2 + vt.Pick("n", 2)
	var eqs [][2]AST.Term
	ref, ok := zzSubst{}, true
	desc := ""
	for i := 0; i < n; i++ {
		d := 1
		if n == 3 && i > 0 {
			d = 0
		}
		e := [2]AST.Term{zzTermOf(g.Term(0, vars)), zzTermOf(g.Term(d, vars))}
		eqs = append(eqs, e)
		desc += e[0].ToString() + " = " + e[1].ToString() + "  "
	}
	vt.Obs("equations", desc)
	for _, e := range eqs {
		ok = ok && ref.unify(e[0], e[1])
	}
	if vt.Pick("merge", 2) == 0 {
		s := Unif.MakeEmptySubstitution()
		for _, e := range eqs {
			if s.Equals(Unif.Failure()) {
				break
			}
			s = Unif.AddUnification(e[0], e[1], s.Copy())
		}
		zzCheckUnifier(s, ref, ok, eqs)
		return
	}
	s := Unif.MakeEmptySubstitution()
	for i, e := range eqs {
		t := Unif.AddUnification(e[0], e[1], Unif.MakeEmptySubstitution())
		if s.Equals(Unif.Failure()) || t.Equals(Unif.Failure()) {
			vt.Assert(!ok, "an equation without a solution is alone in being refused")
			return
		}
		if i == 0 {
			s = t
		} else {
			s, _ = Unif.MergeSubstitutions(s, t)
		}
	}
	zzCheckUnifier(s, ref, ok, eqs)
}
