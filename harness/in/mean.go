package main

//vt:lib

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/zzvt/fgen"
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// zzMeaning is the truth value of an internal formula in an interpretation.
type zzMeaning struct {
	in *fgen.Interp
}

func (z *zzMeaning) term(t AST.Term, env map[int]int) int {
	switch u := t.(type) {
	case AST.Var:
		return env[u.GetIndex()]
	case AST.Meta:
		return vt.UF(z.in.Tag+"meta", z.in.D, u.GetIndex())
	case AST.Fun:
		a := []int{0}
		for _, x := range u.GetArgs().GetSlice() {
			a = append(a, z.term(x, env))
		}
		return vt.UF(z.in.Tag+"fun_"+u.GetID().GetName()+string([]byte{'0' + byte(len(a)-1)}), z.in.D, a...)
	}
	vt.Assert(false, "a term is a variable or an application")
	return 0
}

func (z *zzMeaning) quant(vs []AST.TypedVar, all bool, b AST.Form, env map[int]int) bool {
	if len(vs) == 0 {
		return z.form(b, env)
	}
	r := all
	for d := 0; d < z.in.D; d++ {
		e := map[int]int{}
		for k, v := range env {
			e[k] = v
		}
		e[vs[0].GetIndex()] = d
		x := z.quant(vs[1:], all, b, e)
		if all {
			r = vt.And(r, x)
		} else {
			r = vt.Or(r, x)
		}
	}
	return r
}

func (z *zzMeaning) list(l Lib.List[AST.Form], and bool, env map[int]int) bool {
	r := and
	for _, f := range l.GetSlice() {
		x := z.form(f, env)
		if and {
			r = vt.And(r, x)
		} else {
			r = vt.Or(r, x)
		}
	}
	return r
}

func (z *zzMeaning) form(f AST.Form, env map[int]int) bool {
	switch u := f.(type) {
	case AST.Top:
		return true
	case AST.Bot:
		return false
	case AST.Not:
		return vt.Not(z.form(u.GetForm(), env))
	case AST.And:
		return z.list(u.GetChildFormulas(), true, env)
	case AST.Or:
		return z.list(u.GetChildFormulas(), false, env)
	case AST.Imp:
		return vt.Or(vt.Not(z.form(u.GetF1(), env)), z.form(u.GetF2(), env))
	case AST.Equ:
		return vt.Iff(z.form(u.GetF1(), env), z.form(u.GetF2(), env))
	case AST.All:
		return z.quant(u.GetVarList().GetSlice(), true, u.GetForm(), env)
	case AST.Ex:
		return z.quant(u.GetVarList().GetSlice(), false, u.GetForm(), env)
	case AST.Pred:
		as := u.GetArgs().GetSlice()
		if u.GetID().GetName() == "=" {
			return vt.EqInt(z.term(as[0], env), z.term(as[1], env))
		}
		a := []int{0}
		for _, x := range as {
			a = append(a, z.term(x, env))
		}
		return vt.EqInt(vt.UF(z.in.Tag+"pred_"+u.GetID().GetName()+string([]byte{'0' + byte(len(a)-1)}), 2, a...), 1)
	}
	vt.Assert(false, "a formula is one of the known kinds")
	return false
}
