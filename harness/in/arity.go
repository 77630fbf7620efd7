package main

//vt:lib

import "github.com/GoelandProver/Goeland/zzvt/fgen"

// zzArity names the symbols of a formula as zzMeaning does, with their arity.
func zzArity(f *fgen.Form) *fgen.Form {
	g := &fgen.Form{Op: f.Op, Var: f.Var}
	if f.Op == fgen.Atom {
		g.Fam = string([]byte{f.Fam[0] + byte(f.Name), '0' + byte(len(f.Args))})
	}
	var term func(t *fgen.Term) *fgen.Term
	term = func(t *fgen.Term) *fgen.Term {
		if t.Var >= 0 {
			return t
		}
		u := &fgen.Term{Var: -1, Fam: string([]byte{t.Fam[0] + byte(t.Name), '0' + byte(len(t.Args))})}
		for _, a := range t.Args {
			u.Args = append(u.Args, term(a))
		}
		return u
	}
	for _, t := range f.Args {
		g.Args = append(g.Args, term(t))
	}
	for _, s := range f.Sub {
		g.Sub = append(g.Sub, zzArity(s))
	}
	return g
}
