package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessCfg struct {
	Pkg      string           `json:"pkg"`
	Func     string           `json:"func"`
	Quick    map[string]int64 `json:"quick"`
	Thorough map[string]int64 `json:"thorough"`
	TimeQ    int              `json:"time_quick"`
	TimeT    int              `json:"time_thorough"`
	NoMerge  bool             `json:"nomerge"`
	Steps    int64            `json:"steps"`
	Covers   []string         `json:"covers"`
	Bounds   string           `json:"bounds"`
	NoValid  bool             `json:"novalidate"`
	Retries  int              `json:"retries"`
}

type workItem struct {
	prefix []entry
	model  *Model
}

type candidate struct {
	msg    string
	vals   []int64
	kind   string // assert, panic, hang
	pos    string
	obs    []obsVal
	harness string
}

type obsVal struct {
	Label string
	V     int64
}

type harnessResult struct {
	cfg        *HarnessCfg
	params     map[string]int64
	paths      int64
	pruned     int64
	incomplete map[string]int64
	pending    int64
	timedOut   bool
	covers     map[string]bool
	cands      []candidate
	samples    []candidate
	nSat       int64
	nInstr     int64
	queries    int64
	solverDur  time.Duration
	unknown    int64
	asserts    int64
	assertQ    int64
	merges     int64
	aborts     map[string]int
	fns        map[string]bool
	vars       int
	wall       time.Duration
	unk        map[string]int
	disagree   int64
	domQ, audits int64
	mu         sync.Mutex
}

type pool struct {
	mu      sync.Mutex
	cond    *sync.Cond
	stacks  [][]workItem
	active  int
	pending int
	stop    bool
}

func (p *pool) push(w int, it workItem) {
	p.mu.Lock()
	p.stacks[w] = append(p.stacks[w], it)
	p.pending++
	p.mu.Unlock()
	p.cond.Signal()
}

func (p *pool) pop(w int) (workItem, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.stop {
			return workItem{}, false
		}
		if s := p.stacks[w]; len(s) > 0 {
			it := s[len(s)-1]
			p.stacks[w] = s[:len(s)-1]
			p.pending--
			p.active++
			return it, true
		}
		best, bi := 0, -1
		for i, s := range p.stacks {
			if len(s) > best {
				best, bi = len(s), i
			}
		}
		if bi >= 0 {
			it := p.stacks[bi][0]
			p.stacks[bi] = p.stacks[bi][1:]
			p.pending--
			p.active++
			return it, true
		}
		if p.active == 0 {
			p.cond.Broadcast()
			return workItem{}, false
		}
		p.cond.Wait()
	}
}

func (p *pool) done() {
	p.mu.Lock()
	p.active--
	p.mu.Unlock()
	p.cond.Broadcast()
}

type Engine struct {
	pr      *Prog
	spkgs   map[string]*ssa.Package
	workers []*Exec
	initErr map[string]string
	solverBin []string
	solverTmo int
	nWorkers int
	verbose bool
	fset    *token.FileSet
}

func newExec(pr *Prog) *Exec {
	e := &Exec{pr: pr, maxSteps: 1 << 60}
	e.reset()
	return e
}

func (e *Exec) reset() {
	if e.sol != nil {
		e.sol.close()
		e.sol = nil
	}
	e.tt = newTermTable()
	e.fnSeen = map[*Fn]bool{}
	e.covers = map[string]bool{}
	e.sites = map[int]*siteStat{}
	e.unkMsgs = map[string]int{}
	e.aborts = map[string]int{}
	e.nInstr, e.nMerge, e.nAbort, e.nAssert, e.nAssertQ, e.nTrivial, e.nUnknown = 0, 0, 0, 0, 0, 0, 0
	e.nDom, e.nAudit, e.nAuditBad, e.auditEvery = 0, 0, 0, 400
}

// runInit executes the package initializers concretely
func (e *Exec) runInit(main *ssa.Package, initErr *sync.Map) {
	e.inInit = true
	e.floor = 0
	e.model = &Model{}
	visited := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if visited[p] {
			return
		}
		visited[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := e.pr.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(main.Pkg)
	for _, sp := range order {
		if skipInit(sp.Pkg.Path()) {
			continue
		}
		e.initPkg(sp, initErr)
	}
	e.inInit = false
	e.initBirth = e.births
	e.births++
	e.floor = e.births + 1
	e.ulog = nil
}

func (e *Exec) initPkg(sp *ssa.Package, initErr *sync.Map) {
	sp.Build()
	fn := e.pr.fn(sp.Func("init"))
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch r := r.(type) {
			case engineError:
				msg = r.msg
			case pathEnd:
				msg = r.kind + " " + r.msg
			case *targetPanic:
				msg = r.msg
			default:
				msg = fmt.Sprintf("internal: %v %s", r, debug.Stack())
			}
			e.depth = 0
			initErr.Store(sp.Pkg.Path(), msg)
			// the remaining variables are unknown
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
					o := e.global(e.pr.globalIndex(g))
					for k := range o.cells {
						if o.cells[k] == (Val{}) {
							o.cells[k].p = poison
						}
					}
				}
			}
		}
	}()
	// the init guard is skipped: imports are handled by the caller
	e.initing(fn)
}

// initing runs an init function without the calls to the init of the imports
func (e *Exec) initing(fn *Fn) {
	fn.ensure()
	fr := &Frame{fn: fn, regs: make([]Val, fn.nregs)}
	e.run(fr, fn.blocks[0], -1, nil, false)
}

func (eng *Engine) setup(main *ssa.Package) {
	var wg sync.WaitGroup
	var ie sync.Map
	eng.workers = make([]*Exec, eng.nWorkers)
	for i := range eng.workers {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex := newExec(eng.pr)
			ex.runInit(main, &ie)
			eng.workers[i] = ex
		}(i)
	}
	wg.Wait()
	eng.initErr = map[string]string{}
	ie.Range(func(k, v any) bool {
		eng.initErr[k.(string)] = v.(string)
		return true
	})
}

func (eng *Engine) runHarness(fnName string, main *ssa.Package, cfg *HarnessCfg, params map[string]int64, limit time.Duration, seed int64, onCand func(c candidate) bool) *harnessResult {
	res := &harnessResult{cfg: cfg, params: params, incomplete: map[string]int64{}, covers: map[string]bool{}, fns: map[string]bool{}, aborts: map[string]int{}, unk: map[string]int{}}
	sf := main.Func(fnName)
	if sf == nil {
		res.incomplete["missing harness function"]++
		return res
	}
	t0 := time.Now()
	fn := eng.pr.fn(sf)
	p := &pool{stacks: make([][]workItem, len(eng.workers))}
	p.cond = sync.NewCond(&p.mu)
	p.stacks[0] = []workItem{{model: &Model{}}}
	p.pending = 1
	timer := time.AfterFunc(limit, func() {
		p.mu.Lock()
		p.stop = true
		res.timedOut = true
		p.mu.Unlock()
		p.cond.Broadcast()
	})
	var sampled int64
	rng := rand.New(rand.NewSource(seed))
	seenMsg := map[string]int{}
	var wg sync.WaitGroup
	for w := range eng.workers {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			e := eng.workers[w]
			e.reset()
			e.sol = newSolver(e.tt, eng.solverBin, eng.solverTmo)
			if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
				lf, _ := os.Create(fmt.Sprintf("%s.%d", f, w))
				e.sol.logger = lf
			}
			e.params = params
			e.newWork = func(prefix []entry, m *Model) { p.push(w, workItem{prefix, m}) }
			vals := func(m *Model) []int64 {
				out := make([]int64, 0, len(e.vars))
				for i, v := range e.vars {
					if e.internal[i] {
						continue
					}
					out = append(out, m.valueOf(v))
				}
				return out
			}
			report := func(kind, msg string, m *Model, pos token.Pos) {
				c := candidate{msg: msg, kind: kind, vals: vals(m), harness: fnName}
				if pos.IsValid() {
					c.pos = eng.fset.Position(pos).String()
				}
				res.mu.Lock()
				key := kind + msg
				seenMsg[key]++
				n := seenMsg[key]
				res.nSat++
				res.mu.Unlock()
				if n > 6 {
					return
				}
				stop := onCand(c)
				res.mu.Lock()
				res.cands = append(res.cands, c)
				res.mu.Unlock()
				if stop {
					p.mu.Lock()
					p.stop = true
					p.mu.Unlock()
					p.cond.Broadcast()
				}
			}
			e.onViolation = func(msg string, m *Model, pos token.Pos) { report("assert", msg, m, pos) }
			e.stopFn = func() bool { return p.stop }
			for {
				it, ok := p.pop(w)
				if !ok {
					break
				}
				kind, msg := e.runPath(fn, it, cfg)
				switch kind {
				case "ok":
					atomic.AddInt64(&res.paths, 1)
					res.mu.Lock()
					sampled++
					const K = 300
					if !e.usedInternal() {
						c := candidate{vals: vals(e.model), harness: fnName}
						for _, o := range e.obs {
							e.tt.newEval()
							x := o.v.c
							if t := o.v.term(); t != nil {
								x = e.tt.eval(t, e.model)
							}
							c.obs = append(c.obs, obsVal{o.label, int64(x)})
						}
						if len(res.samples) < K {
							res.samples = append(res.samples, c)
						} else if j := rng.Int63n(sampled); j < K {
							res.samples[j] = c
						}
					}
					res.mu.Unlock()
				case "pruned":
					atomic.AddInt64(&res.pruned, 1)
				case "violated":
					atomic.AddInt64(&res.paths, 1)
				case "panic":
					atomic.AddInt64(&res.paths, 1)
					report("panic", msg, e.model, e.curPos)
				case "steps":
					report("hang", msg, e.model, e.curPos)
					res.mu.Lock()
					res.incomplete["step limit: "+msg]++
					res.mu.Unlock()
				case "stop":
					// interrupted
					p.mu.Lock()
					p.pending++
					p.mu.Unlock()
				default:
					res.mu.Lock()
					res.incomplete[kind+": "+msg]++
					res.mu.Unlock()
				}
				p.done()
			}
			res.mu.Lock()
			for k := range e.covers {
				res.covers[k] = true
			}
			for f := range e.fnSeen {
				if !strings.Contains(f.name, "erif") || f.repo && !isHarnessFile(eng.fset, f.sf) {
					res.fns[f.name] = true
				}
			}
			res.nInstr += e.nInstr
			res.queries += int64(e.sol.nq)
			res.solverDur += e.sol.dur
			res.unknown += int64(e.sol.nUnk)
			res.asserts += e.nAssert
			res.domQ += e.nDom
			res.audits += e.nAudit
			res.disagree += e.nAuditBad
			res.assertQ += e.nAssertQ
			res.merges += e.nMerge
			for k, v := range e.aborts {
				res.aborts[k] += v
			}
			for k, v := range e.unkMsgs {
				res.unk[k] += v
			}
			if n := e.maxVars; n > res.vars {
				res.vars = n
			}
			res.mu.Unlock()
			e.sol.close()
			e.sol = nil
		}(w)
	}
	wg.Wait()
	timer.Stop()
	res.pending = int64(p.pending)
	res.wall = time.Since(t0)
	return res
}

func isHarnessFile(fset *token.FileSet, f *ssa.Function) bool {
	return strings.Contains(fset.Position(f.Pos()).Filename, "zz_verif")
}

func (e *Exec) usedInternal() bool {
	for _, b := range e.internal {
		if b {
			return true
		}
	}
	return false
}

// runPath executes one path
func (e *Exec) runPath(fn *Fn, it workItem, cfg *HarnessCfg) (kind, msg string) {
	e.pc = e.pc[:0]
	e.dom = e.dom[:0]
	e.trail = e.trail[:0]
	e.tangle = 0
	e.log = e.log[:0]
	e.prefix = it.prefix
	e.given = it.model
	e.model = it.model
	if len(it.prefix) > 0 {
		e.model = &Model{}
	}
	e.vars = e.vars[:0]
	e.internal = e.internal[:0]
	e.local = 0
	e.steps = 0
	e.maxSteps = cfg.Steps
	if e.maxSteps == 0 {
		e.maxSteps = 20_000_000
	}
	e.depth = 0
	e.epoch++
	e.panicFrames = nil
	e.obs = e.obs[:0]
	e.merging = !cfg.NoMerge
	e.mapPerm = false
	e.births++
	e.floor = e.births + 1
	kind = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case *targetPanic:
					kind, msg = "panic", r.msg
				case pathEnd:
					kind, msg = r.kind, r.msg
				case engineError:
					kind, msg = "unsupported", r.msg
					if e.debug {
						fmt.Println("unsupported:", r.msg)
					}
				case mergeAbort:
					kind, msg = "unsupported", "merge abort at top level: "+r.why
				default:
					kind, msg = "internal", fmt.Sprintf("%v", r)
					fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		e.callFn(fn, nil, nil)
	}()
	e.nInstr += e.steps
	if len(e.vars) > e.maxVars {
		e.maxVars = len(e.vars)
	}
	// models of the end of path: the small variables not constrained keep their value
	e.undoTo(0)
	if len(e.tt.cons) > 3_000_000 {
		// drop the terms
		s := e.sol
		e.tt = newTermTable()
		s.tt = e.tt
		s.defs = nil
		s.restart()
	}
	return kind, msg
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
