package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const virtDir = "zzvx"

type config struct {
	repo, verif, prop, tier, only string
	seed                          int64
	budget                        time.Duration
	maxTrace, maxPaths, workers   int
	noNative, verbose             bool
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

// harnessFiles returns the harness sources and the check functions they declare.
func harnessFiles(dir string) (map[string][]byte, []string) {
	files := map[string][]byte{}
	var names []string
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			fatal("%v", err)
		}
		files[e.Name()] = b
		f, err := parser.ParseFile(token.NewFileSet(), e.Name(), b, 0)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Check_") {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package main\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\tvxRegistry[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	files["vx_registry.go"] = []byte(sb.String())
	return files, names
}

func loadEngine(cfg *config, files map[string][]byte) (*Engine, *ssa.Package) {
	ov := map[string][]byte{}
	for n, b := range files {
		ov[filepath.Join(cfg.repo, virtDir, n)] = b
	}
	if root := os.Getenv("GOROOT"); root != "" {
		ov[filepath.Join(root, "src", "sync", "map.go")] = []byte(syncMapSource)
		ov[filepath.Join(root, "src", "crypto", "md5", "md5.go")] = []byte(md5Source)
		ov[filepath.Join(root, "src", "sync", "atomic", "value.go")] = []byte(atomicValueSource)
		ov[filepath.Join(root, "src", "sort", "slice.go")] = []byte(sortSliceSource)
	}
	pc := &packages.Config{Mode: packages.LoadAllSyntax, Dir: cfg.repo, Overlay: ov, Env: os.Environ()}
	pk, err := packages.Load(pc, "./"+virtDir)
	if err != nil {
		fatal("loading: %v", err)
	}
	nerr := 0
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			nerr++
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, e)
			}
		}
	})
	if nerr > 0 {
		fatal("the tree with the harness does not type-check")
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, snap: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, initing: map[*ssa.Package]bool{},
		meth: map[methKey]*ssa.Function{}, repoPath: "github.com/octarinesec/MAPL", sizes: types.SizesFor("gc", "amd64")}
	theEngine = e
	if p := prog.ImportedPackage("errors"); p != nil {
		e.errStr = p.Type("errorString").Type()
	}
	if p := prog.ImportedPackage("fmt"); p != nil {
		if t := p.Type("wrapError"); t != nil {
			e.wrapErr = t.Type()
		}
	}
	if p := prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	if e.rtErr == nil {
		e.rtErr = types.Typ[types.String]
	}
	return e, pkgs[0]
}

func readKnown(path string) (map[string]map[string]string, error) {
	out := map[string]map[string]string{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "property=") {
			return nil, fmt.Errorf("bad line %q", l)
		}
		p := strings.TrimPrefix(f[1], "property=")
		if out[p] == nil {
			out[p] = map[string]string{}
		}
		out[p][f[0]] = f[2]
	}
	return out, nil
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	cfg := &config{}
	flag.StringVar(&cfg.repo, "repo", "/repo", "repository")
	flag.StringVar(&cfg.verif, "verif", "/verif", "this framework")
	flag.StringVar(&cfg.prop, "prop", "", "property id")
	flag.StringVar(&cfg.tier, "tier", "", "quick or thorough")
	flag.StringVar(&cfg.only, "only", "", "substring of harness names")
	flag.DurationVar(&cfg.budget, "budget", 0, "exploration budget of the property")
	flag.IntVar(&cfg.maxTrace, "traces", 0, "traces replayed per harness")
	flag.IntVar(&cfg.maxPaths, "paths", 50_000_000, "path limit per harness")
	flag.IntVar(&cfg.workers, "workers", runtime.NumCPU(), "workers")
	flag.BoolVar(&cfg.noNative, "nonative", false, "skip native replay (debugging)")
	flag.BoolVar(&cfg.verbose, "v", false, "verbose")
	replay := flag.String("replay", "", "replay one violation file against the real code")
	list := flag.Bool("list", false, "list harnesses")
	flag.Parse()
	if cfg.tier == "" {
		cfg.tier = os.Getenv("VERIF_TIER")
	}
	if cfg.tier != "thorough" {
		cfg.tier = "quick"
	}
	cfg.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if cfg.budget == 0 {
		if cfg.tier == "quick" {
			cfg.budget = 240 * time.Second
		} else {
			cfg.budget = 40 * time.Minute
		}
	}
	if cfg.maxTrace == 0 {
		if cfg.tier == "quick" {
			cfg.maxTrace = 300
		} else {
			cfg.maxTrace = 2000
		}
	}
	files, names := harnessFiles(filepath.Join(cfg.verif, "harness"))
	if *list {
		for _, n := range names {
			fmt.Println(n)
		}
		return
	}
	if *replay != "" {
		os.Exit(replayFile(cfg, files, *replay))
	}
	if cfg.prop == "" {
		fatal("no property given")
	}
	code := runProperty(cfg, files, names)
	profileDump()
	os.Exit(code)
}

func runProperty(cfg *config, files map[string][]byte, names []string) int {
	t0 := time.Now()
	known, err := readKnown(filepath.Join(cfg.verif, "known_findings.txt"))
	if err != nil {
		fatal("known findings: %v", err)
	}
	var sel []string
	for _, n := range names {
		if strings.HasPrefix(n, "Check_"+cfg.prop+"_") && strings.Contains(n, cfg.only) {
			sel = append(sel, n)
		}
	}
	if len(sel) == 0 {
		fatal("no harness for property %s", cfg.prop)
	}
	type nres struct {
		n   *native
		err error
	}
	nch := make(chan nres, 1)
	go func() {
		if cfg.noNative {
			nch <- nres{}
			return
		}
		n, err := buildNative(cfg, files)
		nch <- nres{n, err}
	}()
	eng, hpkg := loadEngine(cfg, files)
	loadT := time.Since(t0)
	nr := <-nch
	if nr.err != nil {
		fatal("building the native harness: %v", nr.err)
	}
	if nr.n != nil {
		defer nr.n.Close()
	}
	var results []*HarnessResult
	deadline := time.Now().Add(cfg.budget)
	tier := 0
	if cfg.tier == "thorough" {
		tier = 1
	}
	ids := known[cfg.prop]
	for i, n := range sel {
		fn := hpkg.Func(n)
		if fn == nil {
			fatal("harness %s not found", n)
		}
		left := time.Until(deadline)
		share := left
		if rem := len(sel) - i; rem > 1 {
			share = left * 2 / time.Duration(rem+1)
		}
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		x := &Explorer{eng: eng, fn: fn, name: n, tier: tier, workers: cfg.workers, budget: share, maxPaths: cfg.maxPaths, maxSteps: 40_000_000, maxTrace: cfg.maxTrace, knownIDs: ids, seed: cfg.seed}
		r := x.Run()
		if cfg.verbose {
			fmt.Fprintln(os.Stderr, r.Summary())
		}
		results = append(results, r)
	}
	return report(cfg, eng, hpkg, nr.n, results, ids, loadT, t0)
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	WallS       float64        `json:"wall_s"`
	Assumptions []string       `json:"assumptions,omitempty"`
	Violations  int            `json:"violations"`
}

func report(cfg *config, eng *Engine, hpkg *ssa.Package, nat *native, results []*HarnessResult, ids map[string]string, loadT time.Duration, t0 time.Time) int {
	evDir := filepath.Join(cfg.verif, "evidence")
	repDir := filepath.Join(evDir, "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, cfg.prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	var samples []any
	cov := map[string]any{}
	states, trans, validated, mismatched, asserts, discharged, undecided := 0, 0, 0, 0, 0, 0, 0
	queries, sat, unsat, unknown := 0, 0, 0, 0
	var solver time.Duration
	exhaustive := true
	funcs := map[string]bool{}
	hs := map[string]any{}
	var inconcl []string
	nviol := 0
	knownHit := map[string]bool{}
	exit := 0
	emit := func(v *Violation, how string) {
		nviol++
		exit = 1
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", cfg.prop, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": cfg.prop, "harness": v.Harness, "label": v.Label, "detail": v.Detail, "vars": v.Vars, "observed": how,
			"replay_with": "bash /verif/checks/replay.sh " + path}, "", "  ")
		os.WriteFile(path, b, 0o644)
		if nviol <= 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, path)
			fmt.Printf("  %s: %s (%s)\n", v.Harness, v.Label, how)
		}
	}
	for _, r := range results {
		states += r.Paths
		trans += r.Branches
		asserts += r.Asserts
		discharged += r.Discharged
		undecided += r.Undecided
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		solver += r.SolverTime
		for f := range r.Funcs {
			funcs[f] = true
		}
		bad := 0
		for _, n := range r.Unsup {
			bad += n
		}
		complete := r.Unexplored == 0 && bad == 0 && r.Undecided == 0 && r.UnknownPath == 0 && len(r.SolverErrs) == 0
		if !complete {
			exhaustive = false
		}
		h := map[string]any{"paths": r.Paths, "ended": r.Ended, "assertions": r.Asserts, "assertions_discharged": r.Discharged, "branch_decisions": r.Branches, "forks": r.Forks,
			"solver_queries": r.Queries, "solver_s": round3(r.SolverTime.Seconds()), "wall_s": round3(r.Wall.Seconds()), "unexplored_prefixes": r.Unexplored, "complete": complete}
		if len(r.Unsup) > 0 {
			h["not_encoded"] = r.Unsup
		}
		missed := []string{}
		for _, l := range coverLabels(hpkg, r.Name) {
			if r.Covers[l] == 0 {
				missed = append(missed, l)
			}
		}
		h["reached"] = r.Covers
		if len(missed) > 0 {
			h["not_reached"] = missed
			if complete {
				inconcl = append(inconcl, fmt.Sprintf("%s: never reached %v", r.Name, missed))
			}
		}
		// violations first
		if nat != nil {
			done := map[string]int{}
			for i := range r.Violations {
				v := &r.Violations[i]
				k := v.Label + "|" + v.Known
				if done[k] >= 1 {
					continue
				}
				n := 1
				if v.mapOrd {
					n = 400
				}
				nr := nat.run(v.Harness, v.Vars, n)
				if hit, how := nr.shows(v.Label); hit {
					done[k]++
					if v.Known != "" {
						knownHit[v.Known] = true
						continue
					}
					if kn := nr.knownFor(ids); kn != "" && v.Known == "" && false {
						continue
					}
					emit(v, how)
				}
			}
			un := map[string]bool{}
			for i := range r.Violations {
				k := r.Violations[i].Label + "|" + r.Violations[i].Known
				if done[k] == 0 && !un[k] {
					un[k] = true
					b, _ := json.Marshal(r.Violations[i].Vars)
					inconcl = append(inconcl, fmt.Sprintf("%s: counterexample to %q did not reproduce natively: %s %s", r.Name, r.Violations[i].Label, b, r.Violations[i].Detail))
				}
			}
			// every trace against the real code
			okT := 0
			for i := range r.Traces {
				tr := &r.Traces[i]
				n := 1
				nr := nat.run(tr.Harness, tr.Vars, n)
				if nr.Err != "" {
					inconcl = append(inconcl, r.Name+": native run: "+nr.Err)
					continue
				}
				good := true
				// a failure without a counterexample of the solver is an error of the encoding
				if (len(nr.Fails) > 0 || nr.Panic != "") && tr.Ended != "assertfail" && tr.Ended != "panic" && nr.knownFor(ids) == "" && len(r.Violations) == 0 {
					good = false
				}
				if !tr.mapOrd && (tr.Ended == "ok" || tr.Ended == "unsupported" || tr.Ended == "limit" || tr.Ended == "engine") {
					m := len(tr.Obs)
					if m > len(nr.Obs) {
						good = false
						m = len(nr.Obs)
					}
					for k := 0; k < m; k++ {
						if tr.Obs[k] != nr.Obs[k] {
							good = false
						}
					}
					if tr.Ended == "ok" && len(tr.Obs) != len(nr.Obs) {
						good = false
					}
					if nr.Assume {
						good = false
					}
				}
				if good {
					okT++
				} else {
					mismatched++
					if mismatched <= 5 || cfg.verbose {
						b, _ := json.Marshal(tr.Vars)
						inconcl = append(inconcl, fmt.Sprintf("%s: model and real code differ on %s: model(%s) %v real %v assume=%v panic=%s", r.Name, b, tr.Ended, tr.Obs, nr.Obs, nr.Assume, nr.Panic))
					}
				}
			}
			validated += okT
			h["traces_agreeing"] = okT
		} else {
			for i := range r.Violations {
				if r.Violations[i].Known == "" {
					exit = 1
				}
			}
		}
		hs[r.Name] = h
		for i := range r.Traces {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Name, "vars": r.Traces[i].Vars, "observed": r.Traces[i].Obs, "ended": r.Traces[i].Ended})
			}
		}
		if len(r.SolverErrs) > 0 {
			inconcl = append(inconcl, "solver: "+r.SolverErrs[0])
		}
	}
	for _, id := range sortKeysS(ids) {
		if knownHit[id] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.prop, ids[id])
		}
	}
	initFailed := false
	initErrs.Range(func(k, v any) bool {
		inconcl = append(inconcl, fmt.Sprintf("initialisation of %v not modelled: %v", k, v))
		if strings.HasPrefix(fmt.Sprint(k), "github.com/octarinesec/MAPL") {
			initFailed = true
		}
		return true
	})
	if mismatched > 0 || len(inconcl) > 0 {
		exhaustive = false
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, "github.com/octarinesec/MAPL/", ""))
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["assertions_checked"] = asserts
	cov["assertions_discharged"] = discharged
	cov["assertions_undecided"] = undecided
	cov["solver_queries"] = map[string]int{"total": queries, "sat": sat, "unsat": unsat, "unknown": unknown}
	cov["solver_s"] = round3(solver.Seconds())
	cov["encode_s"] = round3(loadT.Seconds())
	cov["functions_encoded"] = fl
	cov["harnesses"] = hs
	cov["model_mismatches"] = mismatched
	if len(inconcl) > 0 {
		cov["inconclusive"] = inconcl
	}
	ev := evidence{Property: cfg.prop, Tier: cfg.tier, Seed: cfg.seed, Level: "model_checking", Coverage: cov, WallS: round3(time.Since(t0).Seconds()), Violations: nviol,
		Assumptions: assumptions}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	if cfg.only == "" {
		if err := os.WriteFile(filepath.Join(evDir, cfg.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: %d paths, %d branch decisions, %d assertions (%d discharged, %d undecided), %d solver queries in %.1f s, %d traces agree with the real code, %d violations, complete within bounds: %v, %.1f s\n",
		cfg.prop, cfg.tier, states, trans, asserts, discharged, undecided, queries, solver.Seconds(), validated, nviol, exhaustive, time.Since(t0).Seconds())
	for i, s := range inconcl {
		if i >= 12 && !cfg.verbose {
			break
		}
		fmt.Println("  note:", s)
	}
	if initFailed && exit == 0 {
		fmt.Println("  error: the packages of the repository could not be initialised")
		return 2
	}
	if mismatched > 0 && exit == 0 {
		fmt.Println("  error: the encoding differs from the real code")
		return 2
	}
	return exit
}

var assumptions = []string{
	"the harness bounds (sizes, alphabets, choices) are those written in /verif/harness and listed in DESIGN.md",
	"encoding/json, gopkg.in/yaml.v2 decoding, bson round trips, regexp matching, fmt formatting, string searching and sync primitives are engine models, compared with the real library on every replayed trace",
	"md5 is treated as collision free",
	"the SMT solver (z3) and go/ssa are trusted",
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func sortKeysS(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// coverLabels lists the labels of the reachability witnesses a harness declares.
func coverLabels(pkg *ssa.Package, name string) []string {
	fn := pkg.Func(name)
	seen := map[*ssa.Function]bool{}
	var out []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != pkg && f.Parent() == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := c.Common().StaticCallee(); g != nil {
					if g.Name() == "vxCover" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(k.Value.ExactString())
							out = append(out, s)
						}
						continue
					}
					if g.Pkg == pkg {
						walk(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return out
}
