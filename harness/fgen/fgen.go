// Package fgen builds symbolic first-order problems together with their meaning.
package fgen

import (
	"github.com/GoelandProver/Goeland/zzvt/vt"
)

// Term: a variable (Fun==0), or a function symbol applied to arguments.
type Term struct {
	Var  int // index of the binding quantifier, counted from the outermost; -1 for an application
	Fam  string
	Name int // symbolic index of the name within its family
	Args []*Term
	Show string // the variable's name
}

type Op int

const (
	Atom Op = iota
	Eq
	Not
	And
	Or
	Imp
	Iff
	Xor
	RevImp
	Nand
	Nor
	All
	Ex
	True
	False
	Neq
)

type Form struct {
	Op   Op
	Sub  []*Form
	Fam  string
	Name int
	Args []*Term
	Var  int    // index of the variable bound by All/Ex
	Show string // its name
}

// Gen chooses formulas within bounds.
type Gen struct {
	PredFam  []Fam // predicate families by arity
	FunFam   []Fam
	Equality bool
	Consts   bool // $true / $false
	Ops      []Op
	MaxVars  int
	TermDep  int
	Budget   int  // connectives and quantifiers left (used by Small)
	Names    int  // when positive, quantified variables share this many names (shadowing)
	Conc     bool // names are chosen on every path
	SymVars  bool // up to renaming of the variables: the first one used is the first, and so on
	usedVars int
	nvars    int
	vname    map[int]int
	used     map[string]int
}

// Fam is a family of symbols of one arity: letters Base, Base+1, ... (N of them).
type Fam struct {
	Base  byte
	N     int
	Arity int
}

func letter(f byte, idx int) string { return string([]byte{f + byte(idx)}) }

// name chooses a symbol; up to renaming the first one is symbol 0, the second 0 or 1, and so on.
func (g *Gen) name(f Fam) int {
	if g.used == nil {
		g.used = map[string]int{}
	}
	k := string([]byte{f.Base})
	hi := g.used[k]
	g.used[k] = hi + 1
	if hi > f.N-1 {
		hi = f.N - 1
	}
	if g.Conc {
		n := vt.Pick("n"+k, hi+1)
		if n < hi {
			g.used[k] = hi
		}
		return n
	}
	return vt.Int("n"+k, 0, hi)
}

func (g *Gen) Term(depth int, vars []int) *Term {
	type alt struct {
		v int
		f int
	}
	var alts []alt
	for i, v := range vars {
		if g.SymVars && i > g.usedVars {
			break
		}
		hidden := false
		for _, w := range vars[i+1:] {
			hidden = hidden || g.Names > 0 && g.vname[v] == g.vname[w]
		}
		if !hidden {
			alts = append(alts, alt{v, -1})
		}
	}
	for i, f := range g.FunFam {
		if f.Arity == 0 || depth > 0 {
			alts = append(alts, alt{-1, i})
		}
	}
	a := alts[vt.Pick("t", len(alts))]
	if a.f < 0 {
		for i, v := range vars {
			if v == a.v && i == g.usedVars {
				g.usedVars++
			}
		}
		return &Term{Var: a.v, Show: g.show(a.v)}
	}
	f := g.FunFam[a.f]
	t := &Term{Var: -1, Fam: string([]byte{f.Base}), Name: g.name(f)}
	for i := 0; i < f.Arity; i++ {
		t.Args = append(t.Args, g.Term(depth-1, vars))
	}
	return t
}

func (g *Gen) Atom(vars []int) *Form {
	var alts []int
	for i := range g.PredFam {
		alts = append(alts, i)
	}
	if g.Equality {
		alts = append(alts, -1)
	}
	if g.Consts {
		alts = append(alts, -2, -3)
	}
	k := alts[vt.Pick("p", len(alts))]
	switch k {
	case -1:
		return &Form{Op: Eq, Args: []*Term{g.Term(g.TermDep, vars), g.Term(g.TermDep, vars)}}
	case -2:
		return &Form{Op: True}
	case -3:
		return &Form{Op: False}
	}
	f := g.PredFam[k]
	x := &Form{Op: Atom, Fam: string([]byte{f.Base}), Name: g.name(f)}
	for i := 0; i < f.Arity; i++ {
		x.Args = append(x.Args, g.Term(g.TermDep, vars))
	}
	return x
}

// Reserve leaves the first n variables for the caller: they are free, and bound variables come after them.
func (g *Gen) Reserve(n int) { g.nvars += n }

func (g *Gen) newVar() int {
	v := g.nvars
	g.nvars++
	if g.Names > 0 {
		if g.vname == nil {
			g.vname = map[int]int{}
		}
		g.vname[v] = vt.Pick("vn", g.Names)
	}
	return v
}

func (g *Gen) show(v int) string {
	if g.Names > 0 {
		return varName(g.vname[v])
	}
	return varName(v)
}

// Small chooses a formula with at most g.Budget connectives and quantifiers in all.
func (g *Gen) Small(vars []int) *Form {
	ops := []Op{Atom}
	if g.Budget > 0 {
		for _, o := range g.Ops {
			if (o == All || o == Ex) && len(vars) >= g.MaxVars {
				continue
			}
			ops = append(ops, o)
		}
	}
	o := ops[vt.Pick("op", len(ops))]
	if o == Atom {
		return g.Atom(vars)
	}
	g.Budget--
	switch o {
	case Not:
		return &Form{Op: Not, Sub: []*Form{g.Small(vars)}}
	case All, Ex:
		v := g.newVar()
		nv := append(append([]int{}, vars...), v)
		return &Form{Op: o, Var: v, Show: g.show(v), Sub: []*Form{g.Small(nv)}}
	}
	a := g.Small(vars)
	b := g.Small(vars)
	return &Form{Op: o, Sub: []*Form{a, b}}
}

// Lit chooses a literal.
func (g *Gen) Lit(vars []int) *Form {
	neg := vt.Pick("neg", 2) == 1
	a := g.Atom(vars)
	if neg {
		return &Form{Op: Not, Sub: []*Form{a}}
	}
	return a
}

// Quant prefixes a formula with a chosen quantifier.
func (g *Gen) Quant(vars []int, body func(vars []int) *Form) *Form {
	o := []Op{All, Ex}[vt.Pick("q", 2)]
	v := g.newVar()
	nv := append(append([]int{}, vars...), v)
	return &Form{Op: o, Var: v, Show: g.show(v), Sub: []*Form{body(nv)}}
}

// Mk builds a formula.
func Mk(o Op, sub ...*Form) *Form { return &Form{Op: o, Sub: sub} }

// Form chooses a formula with at most depth nested connectives.
func (g *Gen) Form(depth int, vars []int) *Form {
	var ops []Op
	ops = append(ops, Atom)
	if depth > 0 {
		for _, o := range g.Ops {
			if (o == All || o == Ex) && len(vars) >= g.MaxVars {
				continue
			}
			ops = append(ops, o)
		}
	}
	o := ops[vt.Pick("op", len(ops))]
	return g.Build(o, depth, vars)
}

func (g *Gen) Build(o Op, depth int, vars []int) *Form {
	switch o {
	case Atom:
		return g.Atom(vars)
	case Not:
		return &Form{Op: Not, Sub: []*Form{g.Form(depth-1, vars)}}
	case All, Ex:
		v := g.newVar()
		nv := append(append([]int{}, vars...), v)
		return &Form{Op: o, Var: v, Show: g.show(v), Sub: []*Form{g.Form(depth-1, nv)}}
	}
	a := g.Form(depth-1, vars)
	b := g.Form(depth-1, vars)
	return &Form{Op: o, Sub: []*Form{a, b}}
}

var sym = map[Op]string{And: " & ", Or: " | ", Imp: " => ", Iff: " <=> ", Xor: " <~> ", RevImp: " <= ", Nand: " ~& ", Nor: " ~| "}

func varName(i int) string { return string([]byte{'X' + byte(i%3)}) + digits(i/3) }
func digits(i int) string {
	if i == 0 {
		return ""
	}
	return string([]byte{'0' + byte(i)})
}

func (t *Term) Text() string {
	if t.Var >= 0 {
		if t.Show != "" {
			return t.Show
		}
		return varName(t.Var)
	}
	s := letter(t.Fam[0], t.Name)
	if len(t.Args) > 0 {
		s += "("
		for i, a := range t.Args {
			if i > 0 {
				s += ","
			}
			s += a.Text()
		}
		s += ")"
	}
	return s
}

func (f *Form) vn() string {
	if f.Show != "" {
		return f.Show
	}
	return varName(f.Var)
}

// flatText prints a chain of the same associative connective, or a block of the same quantifier, without the
// parentheses and separate quantifiers that the syntax does not need.
func (f *Form) flatText(o Op) string {
	if f.Op == o {
		return f.Sub[0].flatText(o) + sym[o] + f.Sub[1].flatText(o)
	}
	return f.unitary()
}

// unitary prints f with parentheses where the syntax needs them.
func (f *Form) unitary() string {
	switch f.Op {
	case Atom, True, False, Eq, Neq:
		return f.Text()
	case Not:
		if f.Sub[0].Op == Eq {
			return "~ (" + f.Sub[0].Text() + ")"
		}
		return "~ " + f.Sub[0].unitary()
	case All, Ex:
		vs := f.vn()
		g := f.Sub[0]
		for g.Op == f.Op {
			vs += ", " + g.vn()
			g = g.Sub[0]
		}
		q := "! ["
		if f.Op == Ex {
			q = "? ["
		}
		return q + vs + "] : " + g.unitary()
	}
	return "(" + f.Flat() + ")"
}

// Flat prints the formula in TPTP syntax with as few parentheses as the syntax allows.
func (f *Form) Flat() string {
	switch f.Op {
	case And, Or:
		return f.flatText(f.Op)
	case Imp, Iff, Xor, RevImp, Nand, Nor:
		return f.Sub[0].unitary() + sym[f.Op] + f.Sub[1].unitary()
	}
	return f.unitary()
}

// Mutate copies f with one chosen change: another connective or quantifier, a negation, swapped operands or
// arguments, another constant or variable. No change is one of the choices.
func Mutate(f *Form) *Form {
	n := 0
	g := mutate(f, -1, &n)
	k := vt.Pick("mut", n+1)
	if k == n {
		return g
	}
	n = 0
	return mutate(f, k, &n)
}

func mutate(f *Form, k int, n *int) *Form {
	at := func() bool { *n++; return *n-1 == k }
	g := &Form{Op: f.Op, Fam: f.Fam, Name: f.Name, Args: f.Args, Var: f.Var, Show: f.Show}
	switch f.Op {
	case And, Or, Imp, Iff, Xor, RevImp:
		for _, o := range []Op{And, Or, Imp, Iff} {
			if o != f.Op && at() {
				g.Op = o
			}
		}
		a, b := mutate(f.Sub[0], k, n), mutate(f.Sub[1], k, n)
		if at() {
			a, b = b, a
		}
		g.Sub = []*Form{a, b}
		return g
	case All, Ex:
		if at() {
			g.Op = All + Ex - f.Op
		}
	case Atom, Eq:
		if len(f.Args) == 2 && at() {
			g.Args = []*Term{f.Args[1], f.Args[0]}
		}
	}
	for _, s := range f.Sub {
		g.Sub = append(g.Sub, mutate(s, k, n))
	}
	if f.Op == Not {
		if at() {
			return g.Sub[0]
		}
	} else if at() {
		return Mk(Not, g)
	}
	return g
}

// Text prints the formula in TPTP syntax.
func (f *Form) Text() string {
	switch f.Op {
	case Atom:
		t := &Term{Var: -1, Fam: f.Fam, Name: f.Name, Args: f.Args}
		return t.Text()
	case Eq:
		return f.Args[0].Text() + " = " + f.Args[1].Text()
	case Neq:
		return f.Args[0].Text() + " != " + f.Args[1].Text()
	case True:
		return "$true"
	case False:
		return "$false"
	case Not:
		return "~ (" + f.Sub[0].Text() + ")"
	case All:
		return "! [" + f.vn() + "] : (" + f.Sub[0].Text() + ")"
	case Ex:
		return "? [" + f.vn() + "] : (" + f.Sub[0].Text() + ")"
	}
	return "(" + f.Sub[0].Text() + sym[f.Op] + f.Sub[1].Text() + ")"
}

// Interp is a finite interpretation of domain size D with uninterpreted symbols.
type Interp struct {
	D   int
	Tag string
}

func (in *Interp) term(t *Term, env map[int]int) int {
	if t.Var >= 0 {
		return env[t.Var]
	}
	args := []int{t.Name}
	for _, a := range t.Args {
		args = append(args, in.term(a, env))
	}
	return vt.UF(in.Tag+"fun_"+t.Fam, in.D, args...)
}

// Valid is true when f holds in this interpretation.
func (in *Interp) Holds(f *Form) bool { return in.Eval(f, map[int]int{}) }

// Eval is the truth value of f.
func (in *Interp) Eval(f *Form, env map[int]int) bool {
	switch f.Op {
	case True:
		return true
	case False:
		return false
	case Atom:
		args := []int{f.Name}
		for _, a := range f.Args {
			args = append(args, in.term(a, env))
		}
		return vt.EqInt(vt.UF(in.Tag+"pred_"+f.Fam, 2, args...), 1)
	case Eq:
		return vt.EqInt(in.term(f.Args[0], env), in.term(f.Args[1], env))
	case Neq:
		return vt.Not(vt.EqInt(in.term(f.Args[0], env), in.term(f.Args[1], env)))
	case Not:
		return vt.Not(in.Eval(f.Sub[0], env))
	case All, Ex:
		r := f.Op == All
		for d := 0; d < in.D; d++ {
			e := map[int]int{}
			for k, v := range env {
				e[k] = v
			}
			e[f.Var] = d
			x := in.Eval(f.Sub[0], e)
			if f.Op == All {
				r = vt.And(r, x)
			} else {
				r = vt.Or(r, x)
			}
		}
		return r
	}
	return bin(f.Op, in.Eval(f.Sub[0], env), in.Eval(f.Sub[1], env))
}

// prop is the truth value of a propositional formula under the assignment whose bit n is the value of letter n.
func prop(f *Form, a int) bool {
	switch f.Op {
	case True:
		return true
	case False:
		return false
	case Atom:
		return vt.EqInt((a>>uint(f.Name))&1, 1)
	case Not:
		return vt.Not(prop(f.Sub[0], a))
	}
	return bin(f.Op, prop(f.Sub[0], a), prop(f.Sub[1], a))
}

// Valid is true when a propositional formula over n letters holds under every assignment.
func Valid(f *Form, n int) bool {
	r := true
	for a := 0; a < 1<<uint(n); a++ {
		r = vt.And(r, prop(f, a))
	}
	return r
}

func bin(o Op, a, b bool) bool {
	switch o {
	case And:
		return vt.And(a, b)
	case Or:
		return vt.Or(a, b)
	case Imp:
		return vt.Implies(a, b)
	case RevImp:
		return vt.Implies(b, a)
	case Iff:
		return vt.Iff(a, b)
	case Xor:
		return vt.Not(vt.Iff(a, b))
	case Nand:
		return vt.Not(vt.And(a, b))
	case Nor:
		return vt.Not(vt.Or(a, b))
	}
	panic("op")
}

// Unify tells whether the pairs of terms have a unifier (variables are numbered over the whole formula).
func Unify(ps [][2]*Term) bool {
	s := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		for t.Var >= 0 && s[t.Var] != nil {
			t = s[t.Var]
		}
		return t
	}
	var occurs func(v int, t *Term) bool
	occurs = func(v int, t *Term) bool {
		t = walk(t)
		if t.Var >= 0 {
			return t.Var == v
		}
		for _, a := range t.Args {
			if occurs(v, a) {
				return true
			}
		}
		return false
	}
	for len(ps) > 0 {
		a, b := walk(ps[len(ps)-1][0]), walk(ps[len(ps)-1][1])
		ps = ps[:len(ps)-1]
		switch {
		case a.Var >= 0 && a.Var == b.Var:
		case a.Var >= 0 || b.Var >= 0:
			if a.Var < 0 {
				a, b = b, a
			}
			if occurs(a.Var, b) {
				return false
			}
			s[a.Var] = b
		case a.Fam != b.Fam || a.Name != b.Name || len(a.Args) != len(b.Args):
			return false
		default:
			for i := range a.Args {
				ps = append(ps, [2]*Term{a.Args[i], b.Args[i]})
			}
		}
	}
	return true
}
