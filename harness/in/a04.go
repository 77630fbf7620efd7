package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Problems of two or three statements with any roles: the verdict says whether the axioms entail the conjecture,
// and is worded for a problem with or without a conjecture.
//
//vt:check A04 quick=16 thorough=300 bounds=2_or_3_statements_of_at_most_1_connective,_2_letters
func ZZA04Assembly() {
	n := 2 + vt.Pick("n", 2)
	roles := []string{"axiom", "hypothesis", "definition", "lemma", "theorem", "assumption", "conjecture", "negated_conjecture"}
	if n == 3 {
		roles = []string{"axiom", "conjecture", "negated_conjecture"}
	}
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Ops: []fgen.Op{fgen.Not, fgen.Imp}}
	text := ""
	var all *fgen.Form
	conj := false
	for i := 0; i < n; i++ {
		k := roles[vt.Pick("role", len(roles))]
		g.Budget = 1
		f := g.Small(nil)
		text += "fof(s" + string([]byte{'0' + byte(i)}) + ", " + k + ", " + f.Text() + ").\n"
		if strings.HasSuffix(k, "conjecture") {
			vt.Assume(!conj)
			conj = true
		}
		if k == "conjecture" {
			f = fgen.Mk(fgen.Not, f)
		}
		if all == nil {
			all = f
		} else {
			all = fgen.Mk(fgen.And, all, f)
		}
	}
	out, r := zzRun(text, "-quiet")
	vt.Obs("verdict", out)
	vt.Assert(r == 0, "the run ends normally")
	unsat := fgen.Valid(fgen.Mk(fgen.Not, all), 2)
	word := [2][2]string{{"Satisfiable", "CounterSatisfiable"}, {"Unsatisfiable", "Theorem"}}
	c := 0
	if conj {
		c = 1
	}
	yes, no := out == "% SZS status "+word[1][c]+" for zz_problem.p\n", out == "% SZS status "+word[0][c]+" for zz_problem.p\n"
	vt.Assert(yes != no, "the verdict is worded for a problem with, or without, a conjecture")
	vt.Assert(vt.Iff(yes, unsat), "the verdict says whether the axioms entail the conjecture")
	if yes {
		vt.Cover("entailed")
	} else {
		vt.Cover("not entailed")
	}
}

// First-order statements: two axioms and a conjecture over two predicates and two constants.
//
//vt:check A04 quick=16 thorough=200 bounds=2_quantified_axioms_and_a_ground_conjecture,_domains_of_1_and_2_elements
func ZZA04FirstOrder() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 2}}, MaxVars: 1, Conc: true}
	ax1 := g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(fgen.Imp, g.Atom(v), g.Lit(v)) })
	ax2 := g.Atom(nil)
	c := g.Lit(nil)
	text := "fof(s0, axiom, " + ax1.Text() + ").\nfof(s1, conjecture, " + c.Text() + ").\nfof(s2, axiom, " + ax2.Text() + ").\n"
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, ax1, ax2), c)
	if zzProve(text, "-one_step", "-l", "4") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 3)
	}
}
