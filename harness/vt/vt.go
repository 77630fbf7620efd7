// Package vt is the harness runtime. Under the symbolic engine most of these functions are intrinsics;
// the bodies below are used when a counterexample or a sampled path is replayed natively.
package vt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
)

type inputVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}
type ufVal struct {
	Args []int64 `json:"args"`
	Val  int64   `json:"val"`
}
type replay struct {
	Inputs []inputVal         `json:"inputs"`
	UFs    map[string][]ufVal `json:"ufs"`
}

type stop struct{}

var (
	mu     sync.Mutex
	rep    replay
	vals   = map[string]int64{}
	occ    = map[string]int{}
	out    *os.File
	cap_   *os.File
	capOff int64
)

func emit(k, l, v string) {
	b, _ := json.Marshal(map[string]string{"K": k, "L": l, "V": v})
	if out != nil {
		out.Write(append(b, '\n'))
	}
}

func uniq(name string) string {
	k := occ[name]
	occ[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

// Main runs one harness natively on recorded inputs.
func Main(hs map[string]func()) {
	f := os.Getenv("VT_FUNC")
	if f == "" {
		return
	}
	out, _ = os.OpenFile(os.Getenv("VT_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	b, err := os.ReadFile(os.Getenv("VT_REPLAY"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		panic(err)
	}
	for _, i := range rep.Inputs {
		vals[i.Name] = i.Val
	}
	cap_, _ = os.CreateTemp("", "vtout")
	if cap_ != nil {
		os.Remove(cap_.Name())
		os.Stdout = cap_
	}
	h := hs[f]
	defer func() {
		r := recover()
		switch {
		case r == nil:
		case isStop(r):
		case isExit(r):
			emit("exit", "", "")
		default:
			emit("panic", "", fmt.Sprint(r))
		}
		emit("done", "", "")
		os.Exit(0)
	}()
	h()
}

func isStop(r any) bool { _, ok := r.(stop); return ok }
func isExit(r any) bool { return strings.HasSuffix(fmt.Sprintf("%T", r), "ZzVtExitCode") }

// Int is a symbolic integer in [lo, hi].
func Int(name string, lo, hi int) int {
	name = uniq(name)
	if lo >= hi {
		return lo
	}
	v, ok := vals[name]
	if !ok {
		return lo
	}
	return int(v)
}

// Bool is a symbolic boolean.
func Bool(name string) bool { return vals[uniq(name)] != 0 }

// Possible is whether the condition can hold for some values of the inputs on this path (decided by the solver).
func Possible(b bool) bool { return vals[uniq("possible")] != 0 }

// Pick is a symbolic choice in [0, n), decided on every path.
func Pick(name string, n int) int { return Int(name, 0, n-1) }

// Str is a symbolic string of length n over the given alphabet.
func Str(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[Int(fmt.Sprintf("%s.%d", name, i), 0, len(alphabet)-1)]
	}
	return string(b)
}

// Concrete forks over the values of x.
func Concrete(x int) int       { return x }
func ConcreteBool(x bool) bool { return x }
func Assume(b bool) {
	if !b {
		emit("assume", "", "")
		panic(stop{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		emit("fail", label, "")
		panic(stop{})
	}
}

// AssertKnown states the property; where it fails and known holds, the failure is the known finding id.
func AssertKnown(b, known bool, id, label string) { Assert(b, label) }

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func EqInt(a, b int) bool    { return a == b }
func EqStr(a, b string) bool { return a == b }
func LtStr(a, b string) bool { return a < b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// UF is an uninterpreted function of its arguments with values in [0, n).
func UF(name string, n int, args ...int) int {
	for _, e := range rep.UFs[name] {
		if len(e.Args) != len(args) {
			continue
		}
		same := true
		for i, a := range args {
			if e.Args[i] != int64(a) {
				same = false
				break
			}
		}
		if same {
			return int(e.Val)
		}
	}
	return 0
}

// Cover marks a situation that must be reachable.
func Cover(label string) {}

// Obs records an observable result; the engine and the native run must agree on it.
func Obs(label, v string) { obs(label, v) }

func obs(label, v string) { emit("obs", label, v) }

func Symbolic() bool    { return false }
func Cut(why string)    { panic(stop{}) }
func Schedule(n int)    {}
func Deterministic()    {}
func MapOrder(b bool)   {}
func RacePoints(b bool) {}
func enterCatch()       {}
func leaveCatch()       {}
func classify(r any) int {
	if isStop(r) {
		panic(r)
	}
	if isExit(r) {
		return 2
	}
	return 1
}

// LastErr is the last thing Catch recovered.
var LastErr any

// Catch runs f: 0 = returned, 1 = panicked, 2 = the program would have exited.
func Catch(f func()) (r int) {
	enterCatch()
	defer func() {
		leaveCatch()
		if e := recover(); e != nil {
			LastErr = e
			if os.Getenv("VT_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "CATCH %v\n%s\n", e, debug.Stack())
			}
			r = classify(e)
		}
	}()
	f()
	return 0
}

// Output returns what was printed on standard output since the last call.
func Output() string {
	if cap_ == nil {
		return ""
	}
	cap_.Sync()
	fi, err := cap_.Stat()
	if err != nil {
		return ""
	}
	b := make([]byte, fi.Size()-capOff)
	cap_.ReadAt(b, capOff)
	capOff = fi.Size()
	return string(b)
}

// File makes a file readable through os.ReadFile under the given name.
func File(name, content string) string {
	if i := strings.LastIndexByte(name, '/'); i > 0 {
		os.MkdirAll(name[:i], 0o755)
	}
	os.WriteFile(name, []byte(content), 0o644)
	return name
}

// Env sets an environment variable.
func Env(name, val string) { os.Setenv(name, val) }
