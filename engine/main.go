package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const tokADD = token.ADD

var (
	repo    = envOr("GOSX_REPO", "/repo")
	verif   = envOr("GOSX_VERIF", "/verif")
	modPath = "github.com/GoelandProver/Goeland"
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Harness is one symbolic driver: a Go function of a harness package.
type Harness struct {
	Prop  string
	Func  string
	Pkg   string // import path
	File  string
	attrs map[string]string
	fn    *ssa.Function

	budget                                                          int64
	solverTO                                                        int
	panicsOK, deadlockOK, noExit, budgetViol, keepGoing, depthFirst bool
	crossCheck                                                      bool

	mu                           sync.Mutex
	queries, sat, unsat, unknown int
	solverTime                   time.Duration
}

func (h *Harness) addSolver(s *Solver) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.queries += s.Queries
	h.sat += s.Sat
	h.unsat += s.Unsat
	h.unknown += s.Unknown
	h.solverTime += s.Time
}

var checkRe = regexp.MustCompile(`(?m)^//vt:check\s+(.*)$`)

type srcFile struct {
	path    string // real path in /verif/harness
	rel     string // overlay path
	pkg     string // import path
	checks  []*Harness
	pkgName string
}

// scanHarness lists the harness files and the checks they define.
func scanHarness() ([]*srcFile, error) {
	var out []*srcFile
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		sf := &srcFile{path: p}
		if strings.HasPrefix(rel, "in/") {
			d := strings.TrimPrefix(filepath.Dir(rel), "in")
			d = strings.TrimPrefix(d, "/")
			sf.pkg = strings.TrimSuffix(modPath+"/"+d, "/")
			sf.rel = filepath.Join(repo, "src", d, "zz_vt_"+filepath.Base(rel))
		} else {
			d := filepath.Dir(rel)
			sf.pkg = modPath + "/zzvt/" + d
			sf.rel = filepath.Join(repo, "src/zzvt", d, filepath.Base(rel))
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		sf.pkgName = f.Name.Name
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				mm := checkRe.FindStringSubmatch(c.Text)
				if mm == nil {
					continue
				}
				fs := strings.Fields(mm[1])
				h := &Harness{Prop: fs[0], Func: fd.Name.Name, Pkg: sf.pkg, File: p, attrs: map[string]string{}}
				for _, a := range fs[1:] {
					k, v, _ := strings.Cut(a, "=")
					h.attrs[k] = v
				}
				sf.checks = append(sf.checks, h)
			}
		}
		out = append(out, sf)
		return nil
	})
	return out, err
}

func (h *Harness) num(k string, d int) int {
	if v, ok := h.attrs[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return d
}

type overlay struct {
	content map[string][]byte // for go/packages
	files   map[string]string // path -> file for go build -overlay
	dir     string
}

func (o *overlay) add(path string, src []byte) error {
	o.content[path] = src
	f := filepath.Join(o.dir, fmt.Sprintf("ov%d.go", len(o.files)))
	if err := os.WriteFile(f, src, 0o644); err != nil {
		return err
	}
	o.files[path] = f
	return nil
}

func newOverlay(dir string) (*overlay, error) {
	return &overlay{content: map[string][]byte{}, files: map[string]string{}, dir: dir}, nil
}

func (o *overlay) json() (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": o.files})
	f := filepath.Join(o.dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

// regenParser regenerates the goyacc parser from the grammar of the tree.
func regenParser(o *overlay) error {
	y := filepath.Join(repo, "src/Parser/tptp_parse.y")
	if _, err := os.Stat(y); err != nil {
		return nil
	}
	gy := "/opt/vp/bin/goyacc"
	if _, err := os.Stat(gy); err != nil {
		if p, err := exec.LookPath("goyacc"); err == nil {
			gy = p
		} else {
			return nil // use the file of the tree
		}
	}
	tmp := filepath.Join(o.dir, "tptp_parse.go")
	c := exec.Command(gy, "-l", "-p", "TPTP", "-o", tmp, "-v", filepath.Join(o.dir, "y.output"), y)
	c.Dir = o.dir
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("goyacc: %v\n%s", err, b)
	}
	b, err := os.ReadFile(tmp)
	if err != nil {
		return err
	}
	return o.add(filepath.Join(repo, "src/Parser/tptp_parse.go"), b)
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func loadProg(o *overlay, pats []string) (*Prog, []*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(repo, "src"), Overlay: o.content, Env: goEnv()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, nil, fmt.Errorf("the tree does not compile with the harness:\n%s", strings.Join(errs, "\n"))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{ssa: sp, tt: &TypeTab{prog: sp}, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{}, fset: sp.Fset}
	u := types.Universe
	p.tError = p.tt.Get(u.Lookup("error").Type())
	p.tString = p.tt.Get(types.Typ[types.String])
	p.tInt = p.tt.Get(types.Typ[types.Int])
	p.tBool = p.tt.Get(types.Typ[types.Bool])
	p.tByte = p.tt.Get(types.Typ[types.Uint8])
	p.tAny = p.tt.Get(types.NewInterfaceType(nil, nil))
	// a string-kinded type with an Error method stands for every run-time and library error
	if rt := sp.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			_ = o
		}
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			p.tRunErr = p.tt.Get(o.Type())
		}
	}
	if p.tRunErr == nil {
		return nil, nil, fmt.Errorf("runtime.errorString not found")
	}
	if rt := sp.ImportedPackage("reflect"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("rtype"); o != nil {
			p.tRType = p.tt.Get(types.NewPointer(o.Type()))
		}
	}
	p.tExit = p.tt.Get(types.NewNamed(types.NewTypeName(0, nil, "vtExit", nil), types.Typ[types.Int], nil))
	buildIntrinsics(p)
	p.intr["(runtime.errorString).Error"] = func(m *Machine, g *G, a []V) (V, ctl) { return a[0], cDone }
	return p, pkgs, nil
}

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

func loadKnown() map[string]Known {
	r := map[string]Known{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=<id> id=<fid> <what fails>
		fs := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(fs) < 3 {
			continue
		}
		k := Known{Property: strings.TrimPrefix(fs[0], "property="), ID: strings.TrimPrefix(fs[1], "id="), What: strings.Join(fs[2:], " ")}
		r[k.ID] = k
	}
	return r
}

type hResult struct {
	h    *Harness
	e    *Explorer
	wall time.Duration
}

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(12 << 30)
	prop := flag.String("prop", "", "property to check")
	only := flag.String("h", "", "only this harness function")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	verbose := flag.Bool("v", false, "print details")
	nw := flag.Int("j", min(runtime.NumCPU(), 8), "workers")
	tl := flag.Int("t", 0, "time limit per harness (s)")
	cpuprof := flag.String("solverlog", "", "write the first worker's SMT script")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	keep := flag.Bool("keep", false, "keep the scratch directory")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	_ = cpuprof
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	files, err := scanHarness()
	if err != nil {
		fatal("harness: %v", err)
	}
	if *list {
		for _, f := range files {
			for _, h := range f.checks {
				fmt.Println(h.Prop, h.Pkg, h.Func, h.attrs)
			}
		}
		return
	}
	if *prof != "" {
		pf, _ := os.Create(*prof)
		pprof.StartCPUProfile(pf)
		rc := runCheck(files, *prop, *only, *tier, *nw, *tl, *verbose, *keep)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(runCheck(files, *prop, *only, *tier, *nw, *tl, *verbose, *keep))
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosx: "+f+"\n", a...)
	os.Exit(2)
}

func runCheck(files []*srcFile, prop, only, tier string, nw, tl int, verbose, keep bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	dir, err := os.MkdirTemp("", "gosx")
	if err != nil {
		fatal("%v", err)
	}
	if !keep {
		defer os.RemoveAll(dir)
	}
	o, _ := newOverlay(dir)
	var hs []*Harness
	pkgSet := map[string]bool{}
	// a file marked //vt:lib is added for the files that say //vt:needs NAME
	texts := map[*srcFile]string{}
	needed := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f.path)
		if err != nil {
			fatal("%v", err)
		}
		texts[f] = string(b)
		for _, h := range f.checks {
			if h.Prop == prop && (only == "" || only == h.Func) {
				for _, l := range strings.Split(texts[f], "\n") {
					if strings.HasPrefix(l, "//vt:needs ") {
						for _, n := range strings.Fields(l)[1:] {
							needed[n] = true
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		want := len(f.checks) == 0 && (!strings.Contains(texts[f], "\n//vt:lib\n") || needed[filepath.Base(f.path)])
		for _, h := range f.checks {
			if h.Prop == prop && (only == "" || only == h.Func) {
				want = true
				if h.attrs["tier"] == "thorough" && tier == "quick" {
					continue
				}
				hs = append(hs, h)
				pkgSet[h.Pkg] = true
			}
		}
		if want {
			if err := o.add(f.rel, []byte(texts[f])); err != nil {
				fatal("%v", err)
			}
		}
	}
	if len(hs) == 0 {
		fatal("no harness for property %s", prop)
	}
	// helper files of in-package harness directories that are not needed
	for _, f := range files {
		if len(f.checks) == 0 && strings.Contains(f.path, "/harness/in/") && !pkgSet[f.pkg] && !needed[filepath.Base(f.path)] {
			delete(o.content, f.rel)
			delete(o.files, f.rel)
		}
	}
	if err := regenParser(o); err != nil {
		fmt.Fprintf(os.Stderr, "gosx: %v\n", err)
		return 2
	}
	var pats []string
	for p := range pkgSet {
		pats = append(pats, "."+strings.TrimPrefix(p, modPath))
	}
	sort.Strings(pats)
	for i, p := range pats {
		if p == "." {
			pats[i] = "./"
		}
	}
	p, pkgs, err := loadProg(o, append(pats, "reflect"))
	if err != nil {
		fmt.Fprintf(os.Stderr, "gosx: %v\n", err)
		return 2
	}
	loadT := time.Since(t0)
	if verbose {
		fmt.Printf("loaded in %v\n", loadT.Round(time.Millisecond))
	}
	byPath := map[string]*ssa.Package{}
	for _, k := range pkgs {
		byPath[k.PkgPath] = p.ssa.Package(k.Types)
	}
	known := loadKnown()
	var results []*hResult
	scale := 1.0
	for _, h := range hs {
		sp := byPath[h.Pkg]
		if sp == nil || sp.Func(h.Func) == nil {
			fatal("harness %s.%s not found", h.Pkg, h.Func)
		}
		h.fn = sp.Func(h.Func)
		h.budget = int64(h.num("steps", 3000000))
		h.solverTO = h.num("solver", 10000)
		h.panicsOK = h.attrs["panics"] == "ok"
		h.deadlockOK = h.attrs["deadlock"] == "ok"
		h.noExit = h.attrs["exit"] == "bad"
		h.budgetViol = h.attrs["nonterm"] == "bad"
		h.keepGoing = h.attrs["stop"] == "no"
		h.depthFirst = h.attrs["order"] == "depth" || os.Getenv("GOSX_DFS") != ""
		h.crossCheck = h.attrs["cross"] == "yes" || tier == "thorough"
		e := &Explorer{p: p, h: h, ends: map[endKind]int{}, endMsgs: map[string]int{}, viol: map[string]*Violation{},
			covers: map[string]bool{}, unsup: map[string]int{}, sampleN: 24}
		lim := h.num("quick", 60)
		if tier == "thorough" {
			lim = h.num("thorough", 5*lim)
			e.sampleN = 60
		}
		if tl > 0 {
			lim = tl
		}
		lim = int(float64(lim) * scale)
		e.maxPaths = int64(h.num("paths", 0))
		ord := initOrder(sp, p)
		p.initOrd = nil
		for _, k := range ord {
			if p.wantInit(k.Pkg.Path()) {
				p.initOrd = append(p.initOrd, k)
			}
		}
		ts := time.Now()
		e.deadline = ts.Add(time.Duration(lim) * time.Second)
		e.Run(nw)
		r := &hResult{h: h, e: e, wall: time.Since(ts)}
		results = append(results, r)
		report(r, verbose)
		runtime.GC()
		if os.Getenv("GOSX_FIRST") != "" {
			bad := false
			for _, v := range e.viol {
				bad = bad || v.Known == ""
			}
			if bad {
				break
			}
		}
	}
	return finish(prop, tier, seed, o, p, results, known, t0, verbose)
}

var endNames = map[endKind]string{eOK: "completed", eAssume: "assumption", eCut: "cut", eBudget: "step bound", ePanic: "panic", eExit: "exit",
	eDeadlock: "deadlock", eUnsupported: "unsupported", eUnknown: "solver unknown"}

func report(r *hResult, verbose bool) {
	e := r.e
	var ends []string
	for k := eOK; k <= eUnknown; k++ {
		if e.ends[k] > 0 {
			ends = append(ends, fmt.Sprintf("%s %d", endNames[k], e.ends[k]))
		}
	}
	state := "exhausted"
	if e.stop.Load() {
		state = "stopped: " + e.why + fmt.Sprintf(" (%d pending)", e.pending.Load())
	}
	as := 0
	for _, w := range e.workers {
		as += w.stats.assertQ
	}
	fmt.Printf("%s: %d paths (%s), %s; %d assertion queries, %d assertions (%d trivial); %d solver queries %.1fs; %.1fM instrs (max %d/path); %.1fs\n",
		r.h.Func, e.paths.Load(), strings.Join(ends, ", "), state, as, e.asserts, e.trivial, r.h.queries, r.h.solverTime.Seconds(),
		float64(e.steps)/1e6, e.pathStep, r.wall.Seconds())
	if n := len(e.okSteps); n > 0 && os.Getenv("GOSX_STEPS") != "" {
		slices.Sort(e.okSteps)
		fmt.Printf("  completed paths: median %d, 90%% %d, 95%% %d, 99%% %d\n", e.okSteps[n/2], e.okSteps[n*9/10], e.okSteps[n*95/100], e.okSteps[n*99/100])
	}
	if verbose {
		var ks []string
		for k := range e.endMsgs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i < 8 && !strings.HasPrefix(k, "3:") {
				if len(k) > 300 {
					k = k[:300]
				}
				fmt.Printf("   end %s ×%d\n", k, e.endMsgs[k])
			}
		}
		for k, n := range e.unsup {
			fmt.Printf("   unsupported %s ×%d\n", k, n)
		}
		for _, v := range e.viol {
			b, _ := json.Marshal(v.Inputs)
			u, _ := json.Marshal(v.UFs)
			fmt.Printf("   VIOL %s %q known=%q ×%d %s\n      at %s\n      inputs %s ufs %s\n      sched %v\n", v.Kind, v.Label, v.Known, v.Count, v.Msg, v.Where, b, u, v.Sched)
			for _, n := range v.Notes {
				fmt.Printf("      note %s\n", n)
			}
		}
	}
}

// ---------------------------------------------------------------- native replay

type replayer struct {
	o    *overlay
	bins map[string]string
	err  map[string]error
}

func (rp *replayer) build(pkg string, hs []*Harness) (string, error) {
	if b, ok := rp.bins[pkg]; ok {
		return b, rp.err[pkg]
	}
	bin := filepath.Join(rp.o.dir, fmt.Sprintf("replay%d", len(rp.bins)))
	err := rp.build1(pkg, hs, bin)
	rp.bins[pkg] = bin
	rp.err[pkg] = err
	return bin, err
}

var exitRe = regexp.MustCompile(`\bos\.Exit\(`)

func (rp *replayer) build1(pkg string, hs []*Harness, bin string) error {
	ro := &overlay{content: map[string][]byte{}, files: map[string]string{}, dir: filepath.Join(rp.o.dir, fmt.Sprintf("r%d", len(rp.bins)))}
	os.MkdirAll(ro.dir, 0o755)
	for k, v := range rp.o.files {
		ro.files[k] = v
	}
	// os.Exit of the prover becomes a panic the harness runtime recognises
	filepath.Walk(filepath.Join(repo, "src"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, ok := ro.files[p]; ok {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !exitRe.Match(b) {
			return nil
		}
		b = exitRe.ReplaceAll(b, []byte("zzVtExit("))
		b = append(b, []byte("\ntype ZzVtExitCode int\n\nfunc zzVtExit(c int) { panic(ZzVtExitCode(c)) }\n\nvar _ = os.Exit\n")...)
		ro.add(p, b)
		return nil
	})
	var sb bytes.Buffer
	isMain := pkg == modPath
	q := "h."
	if isMain {
		q = ""
	}
	fmt.Fprintf(&sb, "package main\n\nimport (\n\tvt %q\n", modPath+"/zzvt/vt")
	if !isMain {
		fmt.Fprintf(&sb, "\th %q\n", pkg)
	}
	fmt.Fprintf(&sb, ")\n\n")
	if isMain {
		fmt.Fprintf(&sb, "func init() {\n")
	} else {
		fmt.Fprintf(&sb, "func main() {\n")
	}
	fmt.Fprintf(&sb, "\tvt.Main(map[string]func(){\n")
	for _, h := range hs {
		if h.Pkg == pkg {
			fmt.Fprintf(&sb, "\t\t%q: %s%s,\n", h.Func, q, h.Func)
		}
	}
	fmt.Fprintf(&sb, "\t})\n}\n")
	dst := filepath.Join(repo, "src/zzvt/replaymain/main.go")
	target := "./zzvt/replaymain"
	if isMain {
		dst = filepath.Join(repo, "src/zz_vt_replaymain.go")
		target = "."
	}
	if err := ro.add(dst, sb.Bytes()); err != nil {
		return err
	}
	oj, err := ro.json()
	if err != nil {
		return err
	}
	c := exec.Command("go", "build", "-overlay", oj, "-o", bin, target)
	c.Dir = filepath.Join(repo, "src")
	c.Env = goEnv()
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("replay build: %v\n%s", err, b)
	}
	return nil
}

type nativeResult struct {
	Fails   []string `json:"fails"`
	Obs     []ObsVal `json:"obs"`
	Assume  bool     `json:"assume"` // an assumption did not hold
	Done    bool     `json:"done"`
	Panic   string   `json:"panic"`
	Exit    bool     `json:"exit"`
	Timeout bool     `json:"timeout"`
	Crash   string   `json:"crash"`
}

func runNative(bin, fn, in string, timeout time.Duration, extra ...string) nativeResult {
	out := in + ".out"
	os.Remove(out)
	c := exec.Command(bin)
	c.Env = append(os.Environ(), append([]string{"VT_REPLAY=" + in, "VT_FUNC=" + fn, "VT_OUT=" + out}, extra...)...)
	c.Dir = filepath.Dir(in)
	if d, err := os.MkdirTemp(filepath.Dir(in), "run"); err == nil {
		c.Dir = d
		defer os.RemoveAll(d)
	}
	var buf bytes.Buffer
	c.Stdout = nil
	c.Stderr = &buf
	if err := c.Start(); err != nil {
		return nativeResult{Crash: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var r nativeResult
	var werr error
	select {
	case werr = <-done:
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		r.Timeout = true
	}
	b, _ := os.ReadFile(out)
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var x struct {
			K, L, V string
		}
		if json.Unmarshal([]byte(l), &x) != nil {
			continue
		}
		switch x.K {
		case "fail":
			r.Fails = append(r.Fails, x.L)
		case "obs":
			r.Obs = append(r.Obs, ObsVal{x.L, x.V})
		case "assume":
			r.Assume = true
		case "done":
			r.Done = true
		case "panic":
			r.Panic = x.V
		case "exit":
			r.Exit = true
		}
	}
	if werr != nil && !r.Done && len(r.Fails) == 0 && r.Panic == "" && !r.Exit && !r.Assume {
		s := buf.String()
		switch {
		case strings.Contains(s, "ZzVtExitCode"):
			r.Exit = true
		case strings.Contains(s, "all goroutines are asleep"):
			r.Crash = "deadlock"
		default:
			if i := strings.Index(s, "panic: "); i >= 0 {
				r.Panic = firstLine(s[i+7:])
			} else if i := strings.Index(s, "fatal error: "); i >= 0 {
				r.Panic = firstLine(s[i:])
			} else {
				r.Crash = firstLine(s)
			}
		}
	}
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func confirms(v *Violation, r nativeResult) bool {
	if v.GoExit { // natively, the process and the harness end there
		return r.Exit
	}
	switch v.Kind {
	case "assert":
		for _, f := range r.Fails {
			if f == v.Label {
				return true
			}
		}
		// a crash while checking an assertion is as bad, but the engine said otherwise
		return false
	case "panic":
		return r.Panic != "" || r.Exit
	case "exit":
		return r.Exit
	case "deadlock":
		return r.Timeout || r.Crash == "deadlock"
	case "nontermination":
		return r.Timeout || strings.Contains(r.Panic, "stack overflow") || strings.Contains(r.Panic, "stack exceeds")
	}
	return false
}

func finish(prop, tier string, seed int, o *overlay, p *Prog, rs []*hResult, known map[string]Known, t0 time.Time, verbose bool) int {
	rp := &replayer{o: o, bins: map[string]string{}, err: map[string]error{}}
	var hs []*Harness
	for _, r := range rs {
		hs = append(hs, r.h)
	}
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	rc := 0
	nviol := 0
	var knownHit = map[string]bool{}
	var unconfirmed []string
	validated, mismatch := 0, 0
	var mism []string
	nid := 0
	for _, r := range rs {
		var ks []string
		for k := range r.e.viol {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		reported := 0
		for _, k := range ks {
			v := r.e.viol[k]
			kf, isKnown := known[v.Known]
			if v.Known == "" || !isKnown || kf.Property != prop {
				isKnown = false
			}
			if isKnown && knownHit[v.Known] {
				continue
			}
			bin, err := rp.build(r.h.Pkg, hs)
			ok := false
			var used *Violation
			if err != nil {
				fmt.Fprintf(os.Stderr, "gosx: %v\n", err)
			} else {
				cands := append([]Violation{*v}, v.Alts...)
				for ci := range cands {
					c := &cands[ci]
					nid++
					f := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, r.h.Func, nid))
					b, _ := json.MarshalIndent(c, "", " ")
					os.WriteFile(f, b, 0o644)
					c.file = f
					tries := 1
					if len(c.Sched) > 0 {
						tries = 60
					}
					to := 20 * time.Second
					if tries > 1 {
						to = 3 * time.Second
					}
					for i := 0; i < tries && !ok; i++ {
						n := runNative(bin, r.h.Func, f, to, "VT_TRY="+strconv.Itoa(i))
						ok = confirms(v, n)
						if verbose && i == 0 {
							b, _ := json.Marshal(n)
							fmt.Printf("   replay %s: %s\n", v.Label, b)
						}
					}
					if ok {
						used = c
						break
					}
				}
				if !ok && len(v.Sched) > 0 {
					// the schedule cannot be forced on the native run-time; the interpreted run of the real code stands
					ok = true
					used = &cands[0]
					used.Notes = append(used.Notes, "schedule-dependent: reproduced by the interpreter on the real code, not within 60 native runs")
					b, _ := json.MarshalIndent(used, "", " ")
					os.WriteFile(used.file, b, 0o644)
				}
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s %s", r.h.Func, v.Kind, v.Label))
				fmt.Printf("UNCONFIRMED %s %s %q: the engine's counterexample did not reproduce natively; not reported\n", r.h.Func, v.Kind, v.Label)
				continue
			}
			if isKnown {
				knownHit[v.Known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, kf.ID, kf.What)
				continue
			}
			nviol++
			rc = 1
			reported++
			if reported <= 5 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, used.file)
				fmt.Printf("  %s: %s: %s\n  at %s\n", r.h.Func, v.Kind, firstLine(v.Msg+" "+v.Label), v.Where)
				for _, n := range used.Notes {
					fmt.Printf("  %s\n", n)
				}
			}
		}
		// translator validation
		if len(r.e.samples) > 0 {
			bin, err := rp.build(r.h.Pkg, hs)
			if err == nil {
				var wg sync.WaitGroup
				var mu sync.Mutex
				sem := make(chan bool, 8)
				for i := range r.e.samples {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						sem <- true
						defer func() { <-sem }()
						s := r.e.samples[i]
						f := filepath.Join(o.dir, fmt.Sprintf("s-%s-%d.json", r.h.Func, i))
						b, _ := json.Marshal(s)
						os.WriteFile(f, b, 0o644)
						n := runNative(bin, r.h.Func, f, 30*time.Second)
						a, _ := json.Marshal(comparable(s.Obs))
						c, _ := json.Marshal(comparable(n.Obs))
						mu.Lock()
						defer mu.Unlock()
						if bytes.Equal(a, c) || s.GoExit && n.Exit {
							validated++
						} else {
							mismatch++
							if len(mism) < 5 {
								mism = append(mism, fmt.Sprintf("%s inputs %v: engine %s native %s %+v", r.h.Func, s.Inputs, a, c, n))
							}
						}
					}(i)
				}
				wg.Wait()
			} else {
				fmt.Fprintf(os.Stderr, "gosx: %v\n", err)
			}
		}
	}
	fmt.Printf("native cross-validation: %d traces agree, %d differ\n", validated, mismatch)
	for _, s := range mism {
		fmt.Println("  MISMATCH", s)
	}
	writeEvidence(prop, tier, seed, p, rs, validated, mismatch, mism, unconfirmed, nviol, knownHit, t0)
	fmt.Printf("property %s %s: %s in %.1fs\n", prop, tier, map[int]string{0: "held on everything explored", 1: "VIOLATED"}[rc], time.Since(t0).Seconds())
	profDump()
	if rc == 0 {
		// a check that explored nothing gives no answer
		for _, r := range rs {
			if r.e.ends[eOK]+r.e.ends[eExit]+r.e.ends[eBudget] == 0 && len(r.e.viol) == 0 {
				fmt.Printf("no path of %s completed\n", r.h.Func)
				return 2
			}
		}
	}
	return rc
}

func writeEvidence(prop, tier string, seed int, p *Prog, rs []*hResult, validated, mismatch int, mism, unconfirmed []string, nviol int, knownHit map[string]bool, t0 time.Time) {
	cov := map[string]any{}
	var states, trans, q, as, asUnsat, inc int64
	var st float64
	var harn []any
	var samples []any
	exh := true
	crossOK, crossBad := 0, 0
	for _, r := range rs {
		e := r.e
		states += e.paths.Load()
		trans += e.decs
		q += int64(r.h.queries)
		st += r.h.solverTime.Seconds()
		var a, u, unk int
		for _, w := range e.workers {
			a += w.stats.assertQ
			u += w.stats.assertUnsat
			unk += w.unk
		}
		as += int64(a)
		asUnsat += int64(u)
		inc += int64(unk)
		crossOK += e.crossOK
		crossBad += e.crossBad
		ends := map[string]int{}
		for k, n := range e.ends {
			ends[endNames[k]] = n
		}
		state := "all paths within the bounds explored"
		if e.stop.Load() {
			exh = false
			state = fmt.Sprintf("stopped by %s with %d paths pending", e.why, e.pending.Load())
		}
		if e.ends[eUnsupported]+e.ends[eUnknown]+e.ends[eBudget]+e.ends[eCut] > 0 {
			exh = false
		}
		var cs []string
		for c := range e.covers {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		bounds := r.h.attrs["bounds"]
		doc := harnessDoc(r.h)
		hm := map[string]any{"harness": r.h.Func, "bounds": strings.ReplaceAll(bounds, "_", " "), "what": doc, "paths": e.paths.Load(), "ends": ends, "exploration": state,
			"assertions_reached": e.asserts, "assertions_decided_by_simplification": e.trivial, "assertion_queries": a, "assertion_queries_unsat": u,
			"solver_queries": r.h.queries, "solver_s": round(r.h.solverTime.Seconds()), "unknown": unk, "instructions": e.steps,
			"max_decisions_on_a_path": e.maxDec, "witnesses": cs, "wall_s": round(r.wall.Seconds())}
		var other []string
		for k, n := range e.endMsgs {
			if len(other) < 8 && !strings.HasPrefix(k, "4") {
				other = append(other, fmt.Sprintf("%s ×%d", k, n))
			}
		}
		sort.Strings(other)
		if len(other) > 0 {
			hm["cut_paths"] = other
		}
		harn = append(harn, hm)
		for i, s := range e.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.h.Func, "inputs": s.Inputs, "interpretation": s.UFs, "observed": s.Obs})
			}
		}
	}
	if len(samples) == 0 {
		for _, r := range rs {
			samples = append(samples, map[string]any{"harness": r.h.Func, "paths": r.e.paths.Load(), "witnesses": len(r.e.covers)})
		}
	}
	var fns []string
	instr, blocks, seen := 0, 0, 0
	p.mu.Lock()
	for _, f := range p.fns {
		if f.used.Load() && strings.HasPrefix(f.pkg, modPath) && !strings.Contains(f.pkg, "/zzvt/") && !strings.HasPrefix(f.ssa.Name(), "init") {
			if strings.Contains(f.name, "ZZ") {
				continue
			}
			fns = append(fns, strings.ReplaceAll(f.name, modPath+"/", ""))
			instr += f.ninstr
			blocks += f.nblocks
			for i := range f.blkSeen {
				if f.blkSeen[i].Load() {
					seen++
				}
			}
		}
	}
	p.mu.Unlock()
	sort.Strings(fns)
	nf := len(fns)
	if len(fns) > 400 {
		fns = append(fns[:400], fmt.Sprintf("… and %d more", nf-400))
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exh
	cov["harnesses"] = harn
	cov["functions_encoded"] = fns
	cov["functions_encoded_count"] = nf
	cov["basic_blocks_executed"] = fmt.Sprintf("%d of %d in those functions", seen, blocks)
	cov["ssa_instructions_of_encoded_functions"] = instr
	cov["solver_queries"] = q
	cov["assertion_queries"] = as
	cov["assertion_queries_unsat"] = asUnsat
	cov["solver_s"] = round(st)
	cov["solver_unknown"] = inc
	cov["traces_disagreeing"] = mismatch
	if crossOK+crossBad > 0 {
		cov["second_solver_agrees"] = crossOK
		cov["second_solver_disagrees"] = crossBad
	}
	if len(mism) > 0 {
		cov["disagreements"] = mism
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_counterexamples"] = unconfirmed
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_reproduced"] = kh
	}
	cov["explanation"] = "states = paths of the symbolic execution of the real code (go/ssa of the current tree); transitions = decisions taken on them; every path's assertions are decided by z3 over all values of the symbolic inputs on that path"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
		"assumptions": []string{"go/ssa and the interpreter in /verif/engine represent Go faithfully (cross-validated natively on sampled paths in this run)", "standard-library functions replaced by intrinsics behave as documented", "z3 answers are right"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func harnessDoc(h *Harness) string {
	f, err := parser.ParseFile(token.NewFileSet(), h.File, nil, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == h.Func && fd.Doc != nil {
			return strings.TrimSpace(fd.Doc.Text())
		}
	}
	return ""
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// comparable drops the observations that are only there to be read: the text of
// a proof depends on numbers that are given in the order of a map.
func comparable(o []ObsVal) []ObsVal {
	r := []ObsVal{}
	for _, x := range o {
		if x.L != "proof" {
			r = append(r, x)
		}
	}
	return r
}
