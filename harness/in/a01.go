package main

import (
	"github.com/GoelandProver/Goeland/zzvt/fgen"
)

// Every propositional conjecture of connective depth 2 over three letters (up to renaming): the whole program
// (parser, elaboration, search, printing) is run on its text and the verdict compared with truth tables.
//
//vt:check A01 quick=25 thorough=60 bounds=connective_depth_2,_3_letters,_not_and_or_implies_iff
func ZZA01Depth2() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3}}, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff}}
	zzPropIff(g.Form(2, nil), 3)
}

// All nine connectives, at most two of them nested.
//
//vt:check A01 quick=15 thorough=60 bounds=at_most_2_connectives,_2_letters,_all_9_connectives
func ZZA01Ops() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Ops: zzAllOps, Budget: 2}
	zzPropIff(g.Small(nil), 2)
}

// Depth 2 under all nine connectives.
//
//vt:check A01 tier=thorough thorough=300 bounds=connective_depth_2,_3_letters,_all_9_connectives
func ZZA01Depth2Ops() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3}}, Ops: zzAllOps}
	zzPropIff(g.Form(2, nil), 3)
}

// The constants $true and $false under every connective.
//
//vt:check A01 quick=20 thorough=60 bounds=at_most_2_connectives,_constants
func ZZA01Const() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 2}}, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff}, Consts: true, Budget: 2}
	zzPropIff(g.Small(nil), 2)
}

// Deeper formulas over the connectives not, and, or, implies, iff.
//
//vt:check A01 quick=15 thorough=500 bounds=at_most_5_connectives,_3_letters
func ZZA01Deep() {
	g := &fgen.Gen{PredFam: []fgen.Fam{{Base: 'p', N: 3}}, Ops: []fgen.Op{fgen.Not, fgen.And, fgen.Or, fgen.Imp, fgen.Iff}, Budget: 5}
	zzPropIff(g.Small(nil), 3)
}
