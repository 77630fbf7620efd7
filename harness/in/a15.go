package main

import (
	"os"
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// zzInc is a file and the directory it is in, the way it is included and what it holds.
type zzInc struct {
	path, text string
}

// zzSplit writes the statements into a main file and two included ones; the second is included by the main file or by the
// first one. Statements named "x…" are not part of the problem: they may only stand in an included file, and are not selected.
func zzSplit(stmts [][2]string, keepOrder bool) string {
	dir := []string{"", "d/"}[zzPick("dir", 2)] // of the problem
	sub := []string{"", "s/"}[zzPick("sub", 2)] // of the first included file, in that of the problem
	inc1 := [2]string{dir + sub + "ax1.p", sub + "ax1.p"}
	if zzPick("tptp", 2) == 1 { // found in the directory of the TPTP library
		vt.Env("TPTP", "lib")
		inc1[0] = "lib/" + inc1[1]
	}
	nested := zzPick("nested", 2) == 1
	inc2 := [2]string{dir + "ax2.p", "ax2.p"}
	if nested {
		inc2[0] = dir + sub + "ax2.p"
	}
	text := [3]string{}
	names := [3][]string{}
	var where []int
	hasX := [3]bool{}
	last := 0
	for _, s := range stmts {
		x := s[0][0] == 'x'
		w := 0
		if x {
			w = 1 + zzPick("where", 2)
		} else if keepOrder {
			w = last + zzPick("where", 3-last)
			last = w
		} else {
			w = zzPick("where", 3)
		}
		where = append(where, w)
		text[w] += strings.Replace(s[1], "NAME", s[0], 1) + "\n"
		if x {
			hasX[w] = true
			if nested && w == 2 {
				hasX[1] = hasX[1] || zzPick("at", 2) == 1 // selected by the inner include, not by the outer one
				hasX[2] = !hasX[1]
			}
		} else {
			names[w] = append(names[w], s[0])
			if nested && w == 2 {
				names[1] = append(names[1], s[0])
			}
		}
	}
	inc := func(i int, name string) string {
		s := "include('" + name + "'"
		if hasX[i] || zzPick("select", 2) == 1 {
			if len(names[i]) == 0 {
				vt.Assume(hasX[i])
				s += ", [zz_none]"
			} else {
				sep := []string{",", " , "}[zzPick("sep", 2)]
				l := append([]string(nil), names[i]...)
				if zzPick("rev", 2) == 1 {
					for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
				}
				if l[0][0] >= 'a' && zzPick("quote", 2) == 1 { // 'ax1' is another way to write ax1
					l[0] = "'" + l[0] + "'"
				}
				s += sep + "[" + strings.Join(l, sep) + "]"
			}
		}
		return s + ").\n"
	}
	place := func(t, i string) string {
		// keepOrder needs the includes of a file to follow what stands before them in the problem
		if !keepOrder && zzPick("before", 2) == 1 {
			return i + t
		}
		return t + i
	}
	// an include of nothing is left out half of the time
	in2 := ""
	if text[2] != "" || zzPick("empty", 2) == 1 {
		in2 = inc(2, inc2[1])
		vt.File(inc2[0], text[2])
		vt.Obs("file "+inc2[0], text[2])
	}
	if nested {
		text[1] = place(text[1], in2)
		in2 = ""
	}
	if text[1] != "" {
		vt.File(inc1[0], text[1])
		vt.Obs("file "+inc1[0], text[1])
		in2 = inc(1, inc1[1]) + in2
	}
	text[0] = place(text[0], in2)
	vt.File(dir+"zz_problem.p", text[0])
	vt.Obs("file "+dir+"zz_problem.p", text[0])
	return dir + "zz_problem.p"
}

func zzRunPath(path string, flags ...string) (string, int) {
	os.Args = append(append([]string{"goeland"}, flags...), path)
	r := vt.Catch(main)
	out := vt.Output()
	vt.Obs("verdict", zzStatus(out))
	return out, r
}

// A problem spread over a file and the files it includes has the verdict of its statements together, and statements that
// the formula selections leave out are not part of it.
//
//vt:check A15 quick=25 thorough=200 bounds=two_axioms,_a_conjecture_and_a_statement_left_out,_in_three_files_in_any_distribution,_nested_or_not,_4_places_for_the_files,_formula_selections
func ZZA15Include() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 1, Conc: true}
	ax1 := g.Quant(nil, func(v []int) *fgen.Form { return fgen.Mk(fgen.Imp, g.Atom(v), g.Atom(v)) })
	ax2 := g.Lit(nil)
	c := g.Atom(nil)
	stmts := [][2]string{{"ax1", "fof(NAME, axiom, " + ax1.Text() + ")."}, {"'ax 2'", "fof(NAME, axiom, " + ax2.Text() + ")."}, {"con", "fof(NAME, conjecture, " + c.Text() + ")."}}
	if zzPick("other", 2) == 1 {
		stmts[1][0] = "7"
	}
	if zzPick("extra", 2) == 1 {
		stmts = append(stmts, [2]string{"x1", "fof(NAME, axiom, " + c.Text() + ")."})
	}
	f := fgen.Mk(fgen.Imp, fgen.Mk(fgen.And, ax1, ax2), c)
	vt.Obs("problem", f.Text())
	out, r := zzRunPath(zzSplit(stmts, false), "-quiet", "-one_step", "-l", "4")
	vt.Assert(r == 0, "the run ends normally")
	thm, no := zzVerdict(out)
	vt.Assert(thm != no, "exactly one verdict is printed")
	if thm {
		vt.Cover("proved")
		zzSound(f, 2)
	} else {
		vt.Cover("not proved")
		zzCounter(f, 2)
	}
}

// Typed problems: what an included file declares is known after the include; a problem that is not well typed, or that has two
// conjectures, is refused wherever its statements stand.
var zzIncTyped = [][]string{
	{"proved", "type, t: $tType", "type, a: t", "type, p: t > $o", "axiom, ! [X: t]: p(X)", "conjecture, p(a)"},
	{"proved", "type, t: $tType", "type, a: t", "type, q: !>[A: $tType]: ((A * A) > $o)", "axiom, ! [X: t, Y: t]: q(t, X, Y)", "conjecture, q(t, a, a)"},
	{"not proved", "type, t: $tType", "type, a: t", "type, q: !>[A: $tType]: (A > $o)", "type, b: $i", "axiom, q(t, a)", "conjecture, q($i, b)"},
	{"proved", "type, t: $tType", "type, a: t", "type, b: t", "axiom, ! [X: t, Y: t]: X = Y", "conjecture, a = b"},
	{"refused", "type, t: $tType", "type, a: t", "type, p: $i > $o", "axiom, ! [X: t]: p(X)", "conjecture, p(a)"},
	{"refused", "type, t: $tType", "type, u: $tType", "type, p: t > $o", "axiom, ! [X: t]: p(X)", "conjecture, ! [X: u]: p(X)"},
	{"refused", "type, t: $tType", "type, p: t > $o", "axiom, ! [X: t]: p(X)", "conjecture, ! [X: t]: p(X)", "conjecture, ? [X: t]: p(X)"},
	{"refused", "axiom, p", "conjecture, p", "negated_conjecture, p"},
}

//vt:check A15 quick=20 thorough=100 bounds=8_typed_problems_and_one_untyped_one,_split_over_three_files_in_every_way_that_keeps_the_order
func ZZA15Types() {
	pb := zzIncTyped[zzPick("problem", len(zzIncTyped))]
	var stmts [][2]string
	for i, s := range pb[1:] {
		stmts = append(stmts, [2]string{"s" + string([]byte{'0' + byte(i)}), "tff(NAME, " + s + ")."})
	}
	out, r := zzRunPath(zzSplit(stmts, true), "-quiet", "-one_step")
	thm, no := zzVerdict(out)
	vt.Cover(pb[0])
	if pb[0] == "refused" {
		vt.Assert(!thm && !no && r == 2, "a problem that is not well formed is refused")
		return
	}
	vt.Assert(r == 0, "the run ends normally")
	vt.Assert(thm != no, "exactly one verdict is printed")
	vt.Assert(thm == (pb[0] == "proved"), "the verdict is that of the statements together")
}
