package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Problems as lists of tokens; %d in a name position is replaced by the chosen spelling.
var zzLayoutProblems = [][]string{
	{"fof( NAME , axiom , ! [ X , Y ] : ( r ( X , Y ) => p ( X ) ) EXTRA ) .", "fof( n2 , axiom , r ( a , b ) | ~ ( a = a ) ) .", "fof( n3 , conjecture , p ( a ) & ? [ X ] : r ( a , X ) ) ."},
	{"fof( n1 , axiom , ( p <=> ~ q ) & ( $true => q ) ) .", "fof( NAME , conjecture , ( ~ p & a != b ) => ( q <~> p ) EXTRA ) ."},
	{"tff( t , type , t : $tType ) .", "tff( a , type , a : t ) .", "tff( p , type , p : ( t * t ) > $o ) .", "tff( n1 , axiom , ! [ X : t , Y : t ] : ( p ( X , Y ) | p ( Y , X ) ) ) .", "tff( NAME , conjecture , p ( a , a ) EXTRA ) ."},
}

// A white space or comment; the first one is the empty one.
var zzBlanks = []string{"", "\n", "\t", "\r\n", " % it's (\"\n", "%\n", "% tab\there . fof(\n", "% caf\u00e9\n", "/**/", "/* a * b / c . \" ' */", "/***/", "/*\n* / **/", "/* \u00e9\t*/"}

func zzWordChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '$'
}

// zzGlue: the two tokens may stand side by side without changing meaning.
func zzGlue(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if zzWordChar(x) && zzWordChar(y) {
		return false
	}
	op := func(c byte) bool { return strings.IndexByte("!?~&|<=>*:", c) >= 0 }
	return !(op(x) && op(y)) && !(x == '.' && y == '.')
}

func zzLayout() {
	pb := zzPick("problem", len(zzLayoutProblems))
	lines := zzLayoutProblems[pb]
	name := []string{"name_1", "'a name'", "1", "fof", "'it\\'s'", "aB9"}[zzPick("name", 6)]
	extra := []string{"", ", file ( 'x/y.p' , name )", ", file ( 'x.p' , unknown ) , [ ]", ", introduced ( definition )"}[zzPick("extra", 4)]
	var toks []string
	var ends []int
	for _, l := range lines {
		l = strings.Replace(strings.Replace(l, "NAME", "@", 1), "EXTRA", extra, 1)
		for _, t := range strings.Fields(l) {
			if t == "@" {
				t = name
			}
			toks = append(toks, t)
		}
		ends = append(ends, len(toks)-1)
	}
	// everything is separated by one space, or by nothing where possible, but two places
	tight := zzPick("tight", 2) == 1
	at := zzPick("at", len(toks)+1)
	what := zzBlanks[zzPick("what", len(zzBlanks))]
	at2 := zzPick("at2", 3) // start, after the first statement, end
	what2 := zzBlanks[zzPick("what2", len(zzBlanks))]
	s := ""
	if at2 == 0 {
		s = what2
	}
	for i, t := range toks {
		sep := " "
		if i == 0 {
			sep = ""
		} else if tight && zzGlue(toks[i-1], t) {
			sep = ""
		}
		if i == at {
			if what != "" {
				sep = what
			} else if i > 0 && zzGlue(toks[i-1], t) {
				sep = ""
			}
		}
		if at2 == 1 && i == ends[0]+1 {
			sep += what2
		}
		s += sep + t
	}
	if at == len(toks) {
		s += what
	}
	if at2 == 2 {
		s += what2
	}
	if zzPick("eof", 2) == 1 {
		s += "\n"
	}
	out, r := zzRun(s, "-quiet")
	thm, no := zzVerdict(out)
	vt.Obs("verdict", zzStatus(out))
	vt.Cover("read")
	vt.Assert(r == 0, "the run ends normally")
	vt.Assert(thm && !no, "the verdict is that of the problem")
}

// The layout of a file, its comments, the names of its statements and their annotations do not matter.
//
//vt:check A19 quick=25 thorough=200 bounds=3_problems,_two_places_with_one_of_13_blanks_and_comments,_6_names,_4_annotations,_with_and_without_optional_spaces_and_a_final_newline
func ZZA19Layout() {
	zzLayout()
}

// Formulas are read with the precedences and the notations of TPTP: as few parentheses as possible, more than needed, or
// some symbols between quotes.
//
//vt:check A19 quick=20 thorough=200 bounds=formulas_of_4_connectives_or_quantifiers,_all_9_connectives,_a_propositional_letter_and_a_unary_predicate
func ZZA19Notation() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'q', N: 2}, {Base: 'p', N: 1, Arity: 1}}, FunFam: []fgen.Fam{{Base: 'a', N: 1}}, MaxVars: 2, Ops: append([]fgen.Op{fgen.All, fgen.Ex}, zzAllOps...), Budget: 3, Conc: true}
	var f *fgen.Form
	if zzPick("shape", 2) == 0 {
		f = g.Small(nil)
	} else {
		g.Budget = 4
		f = g.Small(nil)
	}
	s := f.Flat()
	switch zzPick("style", 4) {
	case 1:
		s = f.Text()
	case 2:
		s = strings.Replace(strings.Replace(s, "p(", "'p'(", 1), "q", "'q'", 1)
	case 3:
		s = "((" + strings.ReplaceAll(strings.ReplaceAll(s, "q", "((q))"), "p(a)", "(p(a))") + "))"
	}
	if zzProve("fof(c, conjecture, "+s+").\n", "-one_step", "-l", "6") {
		zzSound(f, 2)
	} else {
		zzCounter(f, 2)
	}
}
