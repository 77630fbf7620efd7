package main

import (
	"strings"

	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Typed problems. A type is a name: t, u, or a type variable A, B. Its meaning is an element of a set of types, and
// the elements of every type are numbered; a polymorphic symbol takes its type argument as a first argument.
type zzTTerm struct {
	v    string // variable, or
	f    string // symbol
	tys  []string
	args []*zzTTerm
}

type zzTForm struct {
	op   string // p, =, ~, &, =>, !, ?, !T
	sym  string
	tys  []string
	args []*zzTTerm
	sub  []*zzTForm
	v    string
	ty   string
}

func (t *zzTTerm) text() string {
	if t.v != "" {
		return t.v
	}
	var as []string
	as = append(as, t.tys...)
	for _, a := range t.args {
		as = append(as, a.text())
	}
	if len(as) == 0 {
		return t.f
	}
	return t.f + "(" + strings.Join(as, ",") + ")"
}

func (f *zzTForm) text() string {
	switch f.op {
	case "p":
		return (&zzTTerm{f: f.sym, tys: f.tys, args: f.args}).text()
	case "=":
		return f.args[0].text() + " = " + f.args[1].text()
	case "~":
		return "~ (" + f.sub[0].text() + ")"
	case "!", "?":
		return f.op + " [" + f.v + " : " + f.ty + "] : (" + f.sub[0].text() + ")"
	case "!T":
		return "! [" + f.v + " : $tType] : (" + f.sub[0].text() + ")"
	}
	return "(" + f.sub[0].text() + " " + f.op + " " + f.sub[1].text() + ")"
}

// zzTInterp has K types, each with D elements.
type zzTInterp struct {
	K, D int
	tag  string
}

func (in *zzTInterp) ty(t string, env map[string]int) int {
	if x, ok := env[t]; ok {
		return x
	}
	if i := strings.IndexByte(t, '('); i >= 0 { // a type constructor: any function on types
		var as []int
		for _, a := range zzTArgs(t[i+1 : len(t)-1]) {
			as = append(as, in.ty(a, env))
		}
		return vt.UF(in.tag+"ty_"+t[:i], in.K, as...)
	}
	return vt.UF(in.tag+"ty_"+t, in.K)
}

// zzTArgs splits "t,pair(u,t)" at its outer commas.
func zzTArgs(s string) []string {
	var as []string
	d, k := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				as, k = append(as, s[k:i]), i+1
			}
		}
	}
	return append(as, s[k:])
}

func (in *zzTInterp) term(t *zzTTerm, env map[string]int) int {
	if t.v != "" {
		return env[t.v]
	}
	return vt.UF(in.tag+"fun_"+t.f, in.D, in.argv(t.tys, t.args, env)...)
}

func (in *zzTInterp) argv(tys []string, args []*zzTTerm, env map[string]int) []int {
	var as []int
	for _, t := range tys {
		as = append(as, in.ty(t, env))
	}
	for _, a := range args {
		as = append(as, in.term(a, env))
	}
	return as
}

func (in *zzTInterp) eval(f *zzTForm, env map[string]int) bool {
	switch f.op {
	case "p":
		return vt.EqInt(vt.UF(in.tag+"pred_"+f.sym, 2, in.argv(f.tys, f.args, env)...), 1)
	case "=":
		return vt.EqInt(in.term(f.args[0], env), in.term(f.args[1], env))
	case "~":
		return vt.Not(in.eval(f.sub[0], env))
	case "&":
		return vt.And(in.eval(f.sub[0], env), in.eval(f.sub[1], env))
	case "|":
		return vt.Or(in.eval(f.sub[0], env), in.eval(f.sub[1], env))
	case "=>":
		return vt.Implies(in.eval(f.sub[0], env), in.eval(f.sub[1], env))
	}
	n := in.D
	if f.op == "!T" {
		n = in.K
	}
	r := f.op != "?"
	for d := 0; d < n; d++ {
		e := map[string]int{}
		for k, v := range env {
			e[k] = v
		}
		e[f.v] = d
		x := in.eval(f.sub[0], e)
		if f.op == "?" {
			r = vt.Or(r, x)
		} else {
			r = vt.And(r, x)
		}
	}
	return r
}

func zzTSound(hyp, c *zzTForm, kmax, dmax int) {
	for k := 1; k <= kmax; k++ {
		for d := 1; d <= dmax; d++ {
			in := &zzTInterp{k, d, "s" + string([]byte{'0' + byte(k), '0' + byte(d)})}
			h := true
			if hyp != nil {
				h = in.eval(hyp, map[string]int{})
			}
			vt.Assert(vt.Implies(h, in.eval(c, map[string]int{})), "a proved typed conjecture is true in every interpretation")
		}
	}
}

func zzTCounter(hyp, c *zzTForm, k, d int) {
	in := &zzTInterp{k, d, "c"}
	h := true
	if hyp != nil {
		h = in.eval(hyp, map[string]int{})
	}
	vt.Assert(vt.Possible(vt.And(h, vt.Not(in.eval(c, map[string]int{})))), "a typed problem declared counter-satisfiable has a countermodel")
}

type zzTGen struct {
	vars  []string // term variables in scope
	tys   []string // their types
	types []string // types in scope
	fun   bool     // unary polymorphic function f
	con   bool     // polymorphic constant c
	mono  bool     // monomorphic constants a:t and b:u
	eq    bool
	pred2 bool // nullary-term polymorphic predicate q(A)
}

func (g *zzTGen) term(ty string, depth int) *zzTTerm {
	var alts []*zzTTerm
	for i, v := range g.vars {
		if g.tys[i] == ty {
			alts = append(alts, &zzTTerm{v: v})
		}
	}
	if g.mono && ty == "t" {
		alts = append(alts, &zzTTerm{f: "a"})
	}
	if g.mono && ty == "u" {
		alts = append(alts, &zzTTerm{f: "b"})
	}
	if g.con || len(alts) == 0 {
		alts = append(alts, &zzTTerm{f: "c", tys: []string{ty}})
	}
	n := len(alts)
	if g.fun && depth > 0 {
		n++
	}
	k := vt.Pick("t", n)
	if k == len(alts) {
		return &zzTTerm{f: "f", tys: []string{ty}, args: []*zzTTerm{g.term(ty, depth-1)}}
	}
	return alts[k]
}

func (g *zzTGen) anyTy() string { return g.types[vt.Pick("ty", len(g.types))] }

func (g *zzTGen) atom(depth int) *zzTForm {
	ty := g.anyTy()
	k := 1
	if g.eq {
		k = 2
	}
	switch vt.Pick("at", k) {
	case 1:
		return &zzTForm{op: "=", args: []*zzTTerm{g.term(ty, depth), g.term(ty, depth)}}
	}
	if g.pred2 {
		return &zzTForm{op: "p", sym: "q", tys: []string{ty}}
	}
	return &zzTForm{op: "p", sym: "p", tys: []string{ty}, args: []*zzTTerm{g.term(ty, depth)}}
}

func (g *zzTGen) lit(depth int) *zzTForm {
	f := g.atom(depth)
	if vt.Pick("neg", 2) == 1 {
		return &zzTForm{op: "~", sub: []*zzTForm{f}}
	}
	return f
}

func (g *zzTGen) quant(v string, body func() *zzTForm) *zzTForm {
	ty := g.anyTy()
	o := []string{"!", "?"}[vt.Pick("q", 2)]
	g.vars, g.tys = append(g.vars, v), append(g.tys, ty)
	b := body()
	g.vars, g.tys = g.vars[:len(g.vars)-1], g.tys[:len(g.tys)-1]
	return &zzTForm{op: o, v: v, ty: ty, sub: []*zzTForm{b}}
}

func zzTBin(o string, a, b *zzTForm) *zzTForm { return &zzTForm{op: o, sub: []*zzTForm{a, b}} }

const zzTDecl = `tff(t_t, type, t : $tType).
tff(u_t, type, u : $tType).
tff(a_t, type, a : t).
tff(b_t, type, b : u).
tff(c_t, type, c : !> [A : $tType] : A).
tff(f_t, type, f : !> [A : $tType] : (A > A)).
tff(p_t, type, p : !> [A : $tType] : (A > $o)).
tff(q_t, type, q : !> [A : $tType] : $o).
`

func zzTProve(ax, c *zzTForm, flags ...string) bool {
	s := zzTDecl
	if ax != nil {
		s += "tff(ax, axiom, " + ax.text() + ").\n"
	}
	return zzProve(s+"tff(c, conjecture, "+c.text()+").\n", flags...)
}

// A conjecture quantified over one or two types: literals over polymorphic symbols and quantified variables.
//
//vt:check A14 quick=15 thorough=200 bounds=conjectures_over_2_type_variables_or_a_type_constant,_one_term_quantifier,_2_literals,_at_most_3_types_of_2_elements
func ZZA14Poly() {
	g := &zzTGen{types: []string{"A", "t"}, con: true, fun: vt.Pick("fun", 2) == 1}
	two := vt.Pick("two", 2) == 1
	if two {
		g.types = []string{"A", "B"}
	}
	b := g.quant("X", func() *zzTForm { return zzTBin([]string{"=>", "&"}[vt.Pick("op", 2)], g.atom(1), g.atom(1)) })
	if two {
		b = &zzTForm{op: "!T", v: "B", sub: []*zzTForm{b}}
	}
	c := &zzTForm{op: "!T", v: "A", sub: []*zzTForm{b}}
	if zzTProve(nil, c, "-one_step", "-l", "6") {
		zzTSound(nil, c, 3, 2)
	} else {
		zzTCounter(nil, c, 3, 2)
	}
}

// A polymorphic axiom (over one or two types) and a ground conjecture at fixed types.
//
//vt:check A14 quick=15 thorough=200 steps=1000000 bounds=an_axiom_of_2_literals_over_1_or_2_type_variables,_a_ground_implication,_3_types_of_2_elements
func ZZA14Axiom() {
	g := &zzTGen{types: []string{"A"}, mono: true, con: true, pred2: vt.Pick("q", 2) == 1}
	two := vt.Pick("two", 2) == 1
	if two {
		g.types = []string{"A", "B"}
	}
	body := func() *zzTForm { return zzTBin("=>", g.atom(0), g.atom(0)) }
	var ax *zzTForm
	if g.pred2 {
		ax = body()
	} else {
		ax = g.quant("X", body)
	}
	if two {
		ax = &zzTForm{op: "!T", v: "B", sub: []*zzTForm{ax}}
	}
	ax = &zzTForm{op: "!T", v: "A", sub: []*zzTForm{ax}}
	g.types = []string{"t", "u"}
	c := zzTBin("=>", g.atom(0), g.atom(0))
	if zzTProve(ax, c, "-one_step", "-l", "6") {
		zzTSound(ax, c, 3, 2)
	} else {
		zzTCounter(ax, c, 3, 2)
	}
}

// Equality at several types.
//
//vt:check A14 quick=15 thorough=200 steps=1500000 bounds=a_polymorphic_or_ground_equation_and_a_ground_implication_at_2_types,_3_types_of_3_elements
func ZZA14Eq() {
	g := &zzTGen{types: []string{"t", "u"}, mono: true, con: true}
	poly := vt.Pick("poly", 2) == 1
	if poly {
		g.types, g.mono = []string{"A"}, false
	}
	eq := func(d int) *zzTForm {
		ty := g.anyTy()
		return &zzTForm{op: "=", args: []*zzTTerm{g.term(ty, d), g.term(ty, d)}}
	}
	g.fun = true
	var ax *zzTForm
	if poly {
		g.vars, g.tys = []string{"X"}, []string{"A"}
		ax = eq(1)
		g.vars, g.tys = nil, nil
		ax = &zzTForm{op: "!T", v: "A", sub: []*zzTForm{{op: "!", v: "X", ty: "A", sub: []*zzTForm{ax}}}}
	} else {
		ax = eq(1)
	}
	g.types, g.mono = []string{"t", "u"}, true
	c := g.atom(1)
	if vt.Pick("imp", 2) == 1 {
		c = zzTBin("=>", g.atom(0), c)
	}
	flags := []string{"-one_step", "-l", "4"}
	if vt.Pick("sateq", 2) == 1 {
		flags = append(flags, "-sateq")
	}
	if zzTProve(ax, c, flags...) {
		zzTSound(ax, c, 3, 2)
		zzTSound(ax, c, 1, 3)
	} else if !poly {
		zzTCounter(ax, c, 3, 3)
	}
}

// Well-typed problems get a verdict, and a variable used at another type than its own is rejected, in and after nested
// quantifiers that reuse its name.
//
//vt:check A14 quick=15 thorough=200 bounds=2_types,_2_constants,_a_function_and_a_predicate_of_chosen_types,_a_polymorphic_function_and_constant,_equality,_nested_typed_quantifiers_sharing_a_name
func ZZA14Typing() {
	nest := vt.Pick("nest", 3)
	ty := func(n string) string { return []string{"t", "u"}[vt.Pick(n, 2)] }
	outer, inner := ty("X"), ty("Y")
	pi := ty("pi")
	gi, go_ := "t", "u"
	if nest == 0 {
		gi, go_ = ty("gi"), ty("go")
	}
	decl := zzTDecl + "tff(g_t, type, g : (" + gi + " > " + go_ + ")).\ntff(r_t, type, r : (" + pi + " > $o)).\n"
	scope := outer
	ok, app := true, false // well typed; an application (not a variable) has the wrong type
	need := func(isVar bool, t, want string) {
		if t != want {
			ok = false
			app = app || !isVar
		}
	}
	var term func(d int) (string, string, bool)
	term = func(d int) (string, string, bool) {
		n := 3
		if d > 0 {
			n = 6
		}
		switch vt.Pick("t", n) {
		case 0:
			return "X", scope, true
		case 1:
			return "a", "t", false
		case 2:
			return "b", "u", false
		case 3:
			x := ty("c")
			return "c(" + x + ")", x, false
		case 4:
			s, t, v := term(d - 1)
			need(v, t, gi)
			return "g(" + s + ")", go_, false
		}
		s, t, v := term(d - 1)
		x := ty("f")
		need(v, t, x)
		return "f(" + x + "," + s + ")", x, false
	}
	atom := func(d int) string {
		n := 3
		if nest > 0 {
			n = 2
		}
		switch vt.Pick("p", n) {
		case 0:
			s, t, v := term(d)
			need(v, t, pi)
			return "r(" + s + ")"
		case 1:
			s, t, v := term(d)
			x := ty("p")
			need(v, t, x)
			return "p(" + x + "," + s + ")"
		}
		s1, t1, v1 := term(d)
		s2, t2, v2 := term(0)
		need(v1 && v2, t1, t2)
		return "(" + s1 + " = " + s2 + ")"
	}
	q := func(v, t, b string) string {
		return []string{"! [", "? ["}[vt.Pick("q", 2)] + v + " : " + t + "] : (" + b + ")"
	}
	var f string
	switch nest {
	case 0:
		f = q("X", outer, atom(1))
	case 1:
		scope = inner
		in := q("X", inner, atom(0))
		scope = outer
		f = q("X", outer, "("+in+") => "+atom(0))
	case 2: // X is out of scope after its quantifier: only closed atoms there
		scope = inner
		in := q("X", inner, atom(0))
		scope = outer
		f = "(" + q("X", outer, atom(0)) + ") => (" + in + ")"
	}
	out, r := zzRun(decl+"tff(c, conjecture, "+f+").\n", "-quiet", "-one_step", "-l", "4")
	thm, no := zzVerdict(out)
	vt.Obs("verdict", zzStatus(out))
	if ok {
		vt.Cover("well typed")
		vt.Assert(r == 0 && thm != no, "a well-typed problem gets a verdict")
	} else {
		vt.Cover("ill typed")
		vt.AssertKnown(!thm && !no, app, "ill-typed-application", "an ill-typed problem gets no verdict")
	}
}

// Types built with constructors: an axiom about every type of one shape, and a conjecture about one type (or every type
// of another shape), proved exactly when the second shape is an instance of the first.
//
//vt:check A14 quick=12 thorough=200 steps=1000000 bounds=types_of_depth_3_over_list_and_pair,_2_type_variables,_2_type_constants,_4_types_of_1_element
func ZZA14Constr() {
	bin := vt.Pick("bin", 2) == 1
	var ty func(d int, leaves []string) string
	ty = func(d int, leaves []string) string {
		if d > 0 {
			switch vt.Pick("ty", 2) {
			case 1:
				if bin {
					return "pair(" + ty(d-1, leaves) + "," + ty(d-1, leaves) + ")"
				}
				return "list(" + ty(d-1, leaves) + ")"
			}
		}
		return leaves[vt.Pick("leaf", len(leaves))]
	}
	d := 3
	if bin {
		d = 2
	}
	form := vt.Pick("form", 3)
	fact := func(t string, all bool) *zzTForm {
		if form == 0 {
			return &zzTForm{op: "p", sym: "q", tys: []string{t}}
		}
		if all && form == 2 {
			return &zzTForm{op: "!", v: "X", ty: t, sub: []*zzTForm{{op: "p", sym: "p", tys: []string{t}, args: []*zzTTerm{{v: "X"}}}}}
		}
		return &zzTForm{op: "p", sym: "p", tys: []string{t}, args: []*zzTTerm{{f: "c", tys: []string{t}}}}
	}
	vars := []string{"A"}
	if bin {
		vars = []string{"A", "B"}
	}
	ax := fact(ty(d, vars), true)
	for i := len(vars) - 1; i >= 0; i-- {
		ax = &zzTForm{op: "!T", v: vars[i], sub: []*zzTForm{ax}}
	}
	var c *zzTForm
	if vt.Pick("poly", 2) == 1 {
		c = &zzTForm{op: "!T", v: "A", sub: []*zzTForm{fact(ty(d, []string{"A", "t"}), vt.Pick("all", 2) == 1)}}
	} else {
		c = fact(ty(d, []string{"t", "u"}), vt.Pick("all", 2) == 1)
	}
	s := "tff(l_t, type, list : $tType > $tType).\ntff(k_t, type, pair : ($tType * $tType) > $tType).\n" + zzTDecl +
		"tff(ax, axiom, " + ax.text() + ").\ntff(c, conjecture, " + c.text() + ").\n"
	if zzProve(s, "-one_step", "-l", "4") {
		zzTSound(ax, c, 4, 1)
	} else {
		zzTCounter(ax, c, 4, 1)
	}
}
