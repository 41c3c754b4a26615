// gosym decides the properties of /verif/properties.jsonl by executing
// symbolically the SSA form of the functions of /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type PropCfg struct {
	Harnesses   []*HarnessCfg `json:"harnesses"`
	Assumptions []string      `json:"assumptions"`
	Files       []string      `json:"files"` // pkg/file.go
	Bounds      string        `json:"bounds"`
}

var (
	flagRepo    = flag.String("repo", "/repo", "")
	flagVerif   = flag.String("verif", "/verif", "")
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "")
	flagOnly    = flag.String("only", "", "only this harness")
	flagReplay  = flag.String("replay", "", "replay file")
	flagV       = flag.Bool("v", false, "verbose")
	flagWorkers = flag.Int("workers", 0, "")
	flagSolver  = flag.String("solver", "z3-new", "")
	flagVals    = flag.String("vals", "", "run natively on these values")
	flagLimit   = flag.Int("limit", 0, "time limit per harness")
	flagSet     = flag.String("set", "", "parameters k=v,...")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type knownFindings struct {
	known map[string]string // tag -> text, for the property
}

func readKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "tag=") {
			out[strings.TrimPrefix(f[0], "tag=")] = f[1]
		}
	}
	return out
}

func tagOf(msg string) string {
	if strings.HasPrefix(msg, "[") {
		if i := strings.IndexByte(msg, ']'); i > 0 {
			return msg[1:i]
		}
	}
	return ""
}

func solverCmd(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models"}
	case "z3":
		return []string{"z3", "-in"}
	}
	return []string{"z3-new", "-in"}
}

type violation struct {
	Harness string           `json:"harness"`
	Pkg     string           `json:"pkg"`
	Msg     string           `json:"message"`
	Vals    []int64          `json:"values"`
	Params  map[string]int64 `json:"params"`
	Native  string           `json:"native_result"`
	Property string          `json:"property"`
}

func main() {
	flag.Parse()
	t0 := time.Now()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var rep *violation
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			fatal("%v", err)
		}
		rep = &violation{}
		if err := json.Unmarshal(b, rep); err != nil {
			fatal("%v", err)
		}
		*flagProp = rep.Property
	}
	var cfgs map[string]*PropCfg
	b, err := os.ReadFile(filepath.Join(*flagVerif, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fatal("checks.json: %v", err)
	}
	cfg := cfgs[*flagProp]
	if cfg == nil {
		fatal("unknown property %q", *flagProp)
	}
	pkgSet := map[string]bool{}
	files := map[string][]string{}
	tables := map[string][]string{}
	for _, h := range cfg.Harnesses {
		pkgSet[h.Pkg] = true
		dup := false
		for _, f := range tables[h.Pkg] {
			dup = dup || f == h.Func
		}
		if !dup {
			tables[h.Pkg] = append(tables[h.Pkg], h.Func)
		}
	}
	for _, f := range cfg.Files {
		pkg := filepath.Dir(f)
		pkgSet[pkg] = true
		files[pkg] = append(files[pkg], filepath.Join(*flagVerif, "harness", f))
	}
	pkgs := sortedKeys(pkgSet)
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	exit := func(code int) {
		os.RemoveAll(work)
		os.Exit(code)
	}
	overlay, ov, err := buildOverlay(*flagRepo, *flagVerif, work, pkgs, files, tables)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	addStubs(ov)
	nat := &Native{bin: filepath.Join(work, "native")}
	natErr := make(chan error, 1)
	go func() { natErr <- buildNative(*flagRepo, overlay, nat.bin) }()

	if rep != nil {
		if err := <-natErr; err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		r := nat.run(nativeReq{rep.Harness, rep.Vals, rep.Params}, 20*time.Second)
		nat.kill()
		fmt.Printf("harness %s on %v: %s %s\n", rep.Harness, rep.Vals, r.Status, r.Msg)
		if r.Status == "ok" || r.Status == "assume" {
			exit(0)
		}
		exit(1)
	}
	if *flagVals != "" {
		if err := <-natErr; err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		var vals []int64
		for _, f := range strings.Fields(strings.ReplaceAll(strings.Trim(*flagVals, "[]"), ",", " ")) {
			var x int64
			fmt.Sscan(f, &x)
			vals = append(vals, x)
		}
		for _, h := range cfg.Harnesses {
			if h.Func == strings.SplitN(*flagOnly, "#", 2)[0] {
				fmt.Println(nat.run(nativeReq{h.Func, vals, paramsOf(h)}, 20*time.Second))
			}
		}
		nat.kill()
		exit(0)
	}

	// load the code
	fset := token.NewFileSet()
	var patterns []string
	for _, p := range pkgs {
		patterns = append(patterns, "./"+p)
	}
	lp, err := packages.Load(&packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     *flagRepo,
		Env:     goEnv(),
		Fset:    fset,
		Overlay: ov,
	}, patterns...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	nerr := 0
	for _, p := range lp {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			nerr++
		}
	}
	if nerr > 0 {
		exit(2)
	}
	tLoad := time.Since(t0)
	prog, spkgs := ssautil.AllPackages(lp, ssa.InstantiateGenerics)
	pr := newProg(prog)
	eng := &Engine{pr: pr, solverBin: solverCmd(*flagSolver), solverTmo: 20000, nWorkers: 8, fset: fset, verbose: *flagV}
	if *flagWorkers > 0 {
		eng.nWorkers = *flagWorkers
	}
	mains := map[string]*ssa.Package{}
	for i, p := range lp {
		mains[strings.TrimPrefix(p.PkgPath, "github.com/benoitkugler/textprocessing/")] = spkgs[i]
	}
	// the package importing the others goes last
	var root *ssa.Package
	for _, p := range lp {
		sp := mains[strings.TrimPrefix(p.PkgPath, "github.com/benoitkugler/textprocessing/")]
		if root == nil || importsPkg(p, root.Pkg.Path()) {
			root = sp
		}
	}
	eng.setup(root)
	tInit := time.Since(t0)
	if *flagV {
		fmt.Printf("load %.1fs init %.1fs\n", tLoad.Seconds(), (tInit - tLoad).Seconds())
		for k, v := range eng.initErr {
			if len(v) > 300 {
				v = v[:300]
			}
			fmt.Println("init", k, ":", v)
		}
	}
	if err := <-natErr; err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}

	known := readKnown(filepath.Join(*flagVerif, "known-findings.txt"), *flagProp)
	var results []*harnessResult
	var confirmed []violation
	knownSeen := map[string]violation{}
	spurious := []string{}
	validated, mismatched := 0, 0
	var mism []string
	var cmu sync.Mutex
	for hi, h := range cfg.Harnesses {
		if only := strings.SplitN(*flagOnly, "#", 2); *flagOnly != "" && (h.Func != only[0] || len(only) == 2 && only[1] != fmt.Sprint(hi)) {
			continue
		}
		params := paramsOf(h)
		limit := time.Duration(h.TimeQ) * time.Second
		if *flagTier == "thorough" {
			limit = time.Duration(h.TimeT) * time.Second
		}
		if *flagLimit > 0 {
			limit = time.Duration(*flagLimit) * time.Second
		}
		if limit == 0 {
			limit = 60 * time.Second
			if *flagTier == "thorough" {
				limit = 600 * time.Second
			}
		}
		newV := 0
		check := func(c candidate, retries int) bool {
			// replay against the real code
			var r nativeRes
			for k := 0; k <= retries; k++ {
				tmo := 10 * time.Second
				r = nat.run(nativeReq{c.harness, c.vals, params}, tmo)
				if r.Status != "ok" {
					break
				}
			}
			cmu.Lock()
			defer cmu.Unlock()
			switch r.Status {
			case "assert", "panic", "timeout":
				v := violation{Harness: c.harness, Pkg: h.Pkg, Msg: r.Msg, Vals: c.vals, Params: params, Native: r.Status + ": " + r.Msg, Property: *flagProp}
				if tag := tagOf(r.Msg); tag != "" && r.Status == "assert" {
					if _, ok := known[tag]; ok {
						knownSeen[tag] = v
						return false
					}
				}
				confirmed = append(confirmed, v)
				newV++
				return newV >= 3
			default:
				if c.kind != "hang" {
					spurious = append(spurious, fmt.Sprintf("%s: %s (%s) on %v: native %s %s [%s]", c.harness, c.kind, c.msg, c.vals, r.Status, r.Msg, c.pos))
				}
			}
			return false
		}
		retries := h.Retries
		res := eng.runHarness(h.Func, mains[h.Pkg], h, params, limit, seed, func(c candidate) bool { return check(c, retries) })
		// translation validation: the model of a sample of the paths, through the real code
		if !h.NoValid && newV == 0 {
			for _, s := range res.samples {
				r := nat.run(nativeReq{s.harness, s.vals, params}, 10*time.Second)
				if r.Status == "ok" && sameObs(r.Obs, s.obs) {
					validated++
					continue
				}
				if r.Status == "assert" || r.Status == "panic" || r.Status == "timeout" {
					// the real code fails on an input the engine found correct
					check(s, 0)
				}
				mismatched++
				if len(mism) < 5 {
					mism = append(mism, fmt.Sprintf("%s on %v: native %s %s %v, engine %v", s.harness, s.vals, r.Status, r.Msg, r.Obs, s.obs))
				}
			}
		}
		results = append(results, res)
		if *flagV {
			fmt.Printf("%s: paths %d pruned %d pending %d timeout %v instrs %d queries %d solver %.1fs unknown %d dom %d/%d/%d asserts %d (%d symbolic) merges %d aborts %v wall %.1fs cands %d\n", h.Func, res.paths, res.pruned, res.pending, res.timedOut, res.nInstr, res.queries, res.solverDur.Seconds(), res.unknown, res.domQ, res.audits, res.disagree, res.asserts, res.assertQ, res.merges, res.aborts, res.wall.Seconds(), len(res.cands))
			fmt.Println("  incomplete", res.incomplete, "covers", sortedKeys(res.covers), "unk", res.unk)
			fmt.Println("  functions", len(res.fns), sortedKeys(res.fns))
		}
	}
	nat.kill()
	if *flagV {
		for _, s := range spurious {
			fmt.Println("NOT REPRODUCED", s)
		}
		for _, s := range mism {
			fmt.Println("MISMATCH", s)
		}
	}

	// report
	evDir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	var vlist []map[string]any
	for i, v := range confirmed {
		path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", *flagProp, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s %s: %s values=%v\n", *flagProp, path, v.Harness, v.Native, v.Vals)
		vlist = append(vlist, map[string]any{"replay": path, "harness": v.Harness, "message": v.Native, "values": v.Vals})
	}
	for _, tag := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (values=%v)\n", *flagProp, known[tag], knownSeen[tag].Vals)
	}
	writeEvidence(evDir, cfg, results, vlist, spurious, mism, validated, mismatched, t0, seed, knownSeen, eng)
	missing := 0
	for _, r := range results {
		for _, c := range r.cfg.Covers {
			if !r.covers[c] && len(confirmed) == 0 {
				fmt.Printf("warning: %s: witness %q not reached\n", r.cfg.Func, c)
				missing++
			}
		}
	}
	if len(confirmed) > 0 {
		exit(1)
	}
	fmt.Printf("property %s: no violation (%s tier, %.1fs)\n", *flagProp, *flagTier, time.Since(t0).Seconds())
	exit(0)
}

func importsPkg(p *packages.Package, path string) bool {
	seen := map[*packages.Package]bool{}
	var rec func(p *packages.Package) bool
	rec = func(p *packages.Package) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		if p.PkgPath == path {
			return true
		}
		for _, q := range p.Imports {
			if rec(q) {
				return true
			}
		}
		return false
	}
	return rec(p)
}

func paramsOf(h *HarnessCfg) map[string]int64 {
	params := map[string]int64{}
	for k, v := range h.Quick {
		params[k] = v
	}
	if *flagTier == "thorough" {
		for k, v := range h.Thorough {
			params[k] = v
		}
	}
	if *flagSet != "" {
		for _, kv := range strings.Split(*flagSet, ",") {
			f := strings.SplitN(kv, "=", 2)
			var x int64
			fmt.Sscan(f[1], &x)
			params[f[0]] = x
		}
	}
	return params
}

func sameObs(a, b []obsVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func writeEvidence(dir string, cfg *PropCfg, results []*harnessResult, vlist []map[string]any, spurious, mism []string, validated, mismatched int, t0 time.Time, seed int64, known map[string]violation, eng *Engine) {
	var states, trans, queries, unknown, asserts, assertQ, merges, incomplete, domQ, audits, disagree int64
	var solver float64
	fns := map[string]bool{}
	var hs []map[string]any
	var samples []any
	exhaustive := true
	for _, r := range results {
		states += r.paths
		trans += r.nInstr
		queries += r.queries
		unknown += r.unknown
		asserts += r.asserts
		assertQ += r.assertQ
		domQ += r.domQ
		audits += r.audits
		disagree += r.disagree
		merges += r.merges
		solver += r.solverDur.Seconds()
		for f := range r.fns {
			fns[f] = true
		}
		var inc int64
		for _, n := range r.incomplete {
			inc += n
		}
		incomplete += inc
		complete := !r.timedOut && inc == 0 && r.unknown == 0 && r.disagree == 0
		if !complete {
			exhaustive = false
		}
		hs = append(hs, map[string]any{
			"harness": r.cfg.Pkg + "." + r.cfg.Func, "parameters": r.params, "bounds": r.cfg.Bounds,
			"paths": r.paths, "pruned_paths": r.pruned, "merged_regions": r.merges,
			"instructions": r.nInstr, "solver_queries": r.queries, "solver_s": r.solverDur.Seconds(), "solver_unknown": r.unknown,
			"assertions": r.asserts, "symbolic_assertions": r.assertQ, "input_variables": r.vars,
			"complete_within_bounds": complete, "pending_paths": r.pending, "incomplete": r.incomplete,
			"witnesses_reached": sortedKeys(r.covers), "wall_s": r.wall.Seconds(),
		})
		for i, s := range r.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.cfg.Func, "values": s.vals})
			}
		}
	}
	if samples == nil {
		samples = []any{map[string]any{"note": "no completed path"}}
	}
	assumptions := append([]string{
		"the SSA form built by golang.org/x/tools/go/ssa from /repo's sources is executed; its translation is validated by replaying a sample of the path models through the compiled code",
		"package initializers are executed concretely; logging is a no-op; fmt, sort.Slice, strings.Index, math rounding functions and internal/bytealg are modelled by intrinsics",
		"map iteration follows the insertion order unless a harness asks for every order; append grows slices as the Go runtime does",
	}, cfg.Assumptions...)
	if vlist == nil {
		vlist = []map[string]any{}
	}
	if spurious == nil {
		spurious = []string{}
	}
	ev := map[string]any{
		"property": *flagProp, "tier": *flagTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{"model_checking": nil},
		"wall_s":   time.Since(t0).Seconds(), "assumptions": assumptions, "violations": vlist,
	}
	ev["coverage"] = map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"bounds": cfg.Bounds, "complete_within_bounds": exhaustive, "functions_encoded": sortedKeys(fns),
		"solver": strings.Join(eng.solverBin, " "), "queries_discharged": queries, "solver_s": solver, "solver_unknown": unknown,
		"finite_domain_decisions": domQ, "finite_domain_decisions_audited_by_the_smt_solver": audits, "audit_disagreements": disagree,
		"assertions": asserts, "symbolic_assertions": assertQ, "merged_regions": merges, "harnesses": hs,
		"counterexamples_not_reproduced": spurious, "translation_mismatches": mismatched, "translation_mismatch_samples": mism,
		"known_findings": len(known),
		"meaning": "queries over one input of small range are decided by filtering its finite domain, and a sample of these verdicts is submitted to the SMT solver (audited); states: explored paths (each covers every input satisfying its path condition); transitions: SSA instructions executed symbolically",
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, *flagProp+".json"), b, 0o644)
}

var _ = sort.Strings
