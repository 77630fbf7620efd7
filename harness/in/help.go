package main

import (
	"os"
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// zzRun runs the whole program on a problem text and returns its standard output and how it ended.
func zzRun(text string, flags ...string) (string, int) {
	vt.Obs("problem", text)
	vt.File("zz_problem.p", text)
	os.Args = append(append([]string{"goeland"}, flags...), "zz_problem.p")
	r := vt.Catch(main)
	return vt.Output(), r
}

// zzVerdict reads the verdict: proved, and not proved.
func zzVerdict(out string) (bool, bool) {
	return strings.Contains(out, "% SZS status Theorem for") || strings.Contains(out, "% SZS status Unsatisfiable for"),
		strings.Contains(out, "% SZS status CounterSatisfiable for") || strings.Contains(out, "% SZS status Satisfiable for")
}

// zzStatus keeps the lines of the output that start with %.
func zzStatus(out string) string {
	s := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "%") {
			s += l + "\n"
		}
	}
	return s
}

func zzConj(f *fgen.Form) string { return "fof(c, conjecture, " + f.Text() + ").\n" }

// zzProve runs a problem, requires exactly one verdict and returns whether it was proved.
func zzProve(text string, flags ...string) bool {
	out, r := zzRun(text, append([]string{"-quiet"}, flags...)...)
	vt.Obs("verdict", zzStatus(out))
	vt.Assert(r == 0, "the run ends normally")
	thm, no := zzVerdict(out)
	vt.Assert(thm != no, "exactly one verdict is printed")
	vt.Assert(strings.Count(out, "SZS status") == 1, "the verdict is printed once")
	if thm {
		vt.Cover("proved")
	} else {
		vt.Cover("not proved")
	}
	return thm
}

// zzSound requires the formula to be true in every interpretation with at most d elements.
func zzSound(f *fgen.Form, d int) {
	for k := 1; k <= d; k++ {
		in := &fgen.Interp{D: k, Tag: string([]byte{'0' + byte(k)})}
		vt.Assert(in.Holds(f), "a proved formula is true in every interpretation")
	}
}

func zzPick(n string, k int) int { return vt.Pick(n, k) }

// zzCounter requires a countermodel with at most d elements; names must be concrete.
func zzCounter(f *fgen.Form, d int) {
	if len(f.Text()) == 0 {
		return
	}
	for k := d; k >= 1; k-- {
		in := &fgen.Interp{D: k, Tag: "c" + string([]byte{'0' + byte(k)})}
		if vt.Possible(vt.Not(in.Holds(f))) {
			return
		}
	}
	vt.Assert(false, "a problem declared satisfiable or counter-satisfiable has a countermodel")
}

func zzPropIff(f *fgen.Form, n int, flags ...string) {
	thm := zzProve(zzConj(f), flags...)
	vt.Assert(vt.Iff(thm, fgen.Valid(f, n)), "the verdict is Theorem exactly for the valid formulas")
}
