package main

import (
	"fmt"
	"go/token"
	"math"
	"math/bits"
	"time"

	"go/types"
)

// entries of the decision log
const (
	eTrue = iota
	eFalse
	eForcedTrue
	eForcedFalse
	eMerged
	eValue // candidate value of a concretization, val
	eChoice
)

type entry struct {
	kind uint8
	val  uint64
}

type undoRec struct {
	o   *Obj
	off int32
	w   uint8
	old Val
	m   *MapObj
	md  *mapData
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b bitset) count() int {
	n := 0
	for _, w := range b {
		n += bits.OnesCount64(w)
	}
	return n
}
func (b bitset) first() int {
	for i, w := range b {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

type domTrail struct {
	idx int
	old bitset
}

type targetPanic struct {
	val Val // interface value
	msg string
	rt  bool // runtime error
}

type mergeAbort struct{ why string }

// end of a path
type pathEnd struct {
	kind string // "pruned", "unsupported", "steps", "stop", "unknown"
	msg  string
}

type Frame struct {
	fn        *Fn
	regs      []Val
	ret       Val
	defers    []deferred
	panicking *targetPanic
	recovered bool
}

type deferred struct {
	call *callInfo
	args []Val
	fv   Val
}

type siteStat struct{ tries, aborts int32 }

type obsRec struct {
	label string
	v     Val
	ti    *TI
}

// Exec executes paths of one harness (one per worker).
type Exec struct {
	pr      *Prog
	tt      *TermTable
	sol     *Solver
	globals []*Obj
	entryFn *Fn

	births int64
	floor  int64
	epoch  int64
	ulog   []undoRec

	pc          []*Term
	dom         []bitset
	trail       []domTrail
	tangle      uint64 // variables in multi-variable constraints
	log         []entry
	prefix      []entry
	model       *Model
	given       *Model
	vars        []*Var
	local       int
	steps       int64
	maxSteps    int64
	depth       int
	panicFrames []*Frame
	obs         []obsRec
	covers      map[string]bool
	sites       map[int]*siteStat
	inInit      bool
	params      map[string]int64
	merging     bool

	newWork     func(prefix []entry, m *Model)
	onViolation func(msg string, m *Model, pos token.Pos)

	// stats
	nInstr                              int64
	nMerge                              int64
	nAbort                              int64
	nAssert                             int64
	nAssertQ                            int64
	nTrivial                            int64
	nUnknown                            int64
	nDom, nAudit, nAuditBad, auditEvery int64
	auditTime                           time.Duration
	fnSeen                              map[*Fn]bool
	mapPerm                             bool
	curPos                              token.Pos
	debug                               bool
	unkMsgs                             map[string]int
	regPool                             [][]Val
	aborts                              map[string]int
	stopFlag                            *int32
	internal                            []bool
	cstack                              [2048]*Fn
	maxVars                             int
	stopFn                              func() bool
	fdCons                              []*Term
	fdUsed                              []bool
	initBirth                           int64
	ptrOf                               map[uint64]Val
	tabMemo                             map[*Fn]map[string]Val
}

func (e *Exec) fail(format string, args ...any) {
	panic(engineErr(fmt.Sprintf(format, args...) + e.where()))
}

func (e *Exec) where() string {
	s := ""
	for d, n := e.depth, 0; d > 0 && n < 4; d, n = d-1, n+1 {
		if f := e.cstack[d]; f != nil {
			s += " < " + f.name
		}
	}
	return s
}

func (e *Exec) newObj(n int) *Obj {
	e.births++
	return &Obj{cells: make([]Val, n), birth: e.births}
}

func (e *Exec) setCell(o *Obj, off int, v Val, w uint8) {
	if o.birth < e.floor {
		e.ulog = append(e.ulog, undoRec{o: o, off: int32(off), w: w, old: o.cells[off]})
	}
	o.cells[off] = v
}

func (e *Exec) undoTo(n int) {
	for i := len(e.ulog) - 1; i >= n; i-- {
		r := &e.ulog[i]
		if r.m != nil {
			r.m.d = r.md
		} else {
			r.o.cells[r.off] = r.old
		}
		*r = undoRec{}
	}
	e.ulog = e.ulog[:n]
}

// --- path condition

func (e *Exec) assume(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(pathEnd{kind: "pruned"})
		}
		return
	}
	if c.w == 0 {
		if c.op == OpAnd {
			e.assume(c.a)
			e.assume(c.b)
			return
		}
		if c.op == OpNot && c.a.op == OpOr {
			e.assume(e.tt.not(c.a.a))
			e.assume(e.tt.not(c.a.b))
			return
		}
	}
	if c.op == OpTab {
		old := e.dom[c.v.idx]
		nw := make(bitset, len(old))
		changed := false
		for i, x := range c.tab {
			if x != 0 && old.has(i) {
				nw[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		for i := range old {
			if old[i] != nw[i] {
				changed = true
			}
		}
		if !changed {
			return
		}
		e.trail = append(e.trail, domTrail{c.v.idx, old})
		e.dom[c.v.idx] = nw
	} else {
		e.tangle |= c.vs
	}
	e.pc = append(e.pc, c)
}

type pcMark struct {
	pc, trail int
	tangle    uint64
	model     *Model
}

func (e *Exec) markPC() pcMark { return pcMark{len(e.pc), len(e.trail), e.tangle, e.model} }

func (e *Exec) resetPC(m pcMark) {
	e.pc = e.pc[:m.pc]
	for len(e.trail) > m.trail {
		t := e.trail[len(e.trail)-1]
		e.dom[t.idx] = t.old
		e.trail = e.trail[:len(e.trail)-1]
	}
	e.tangle = m.tangle
	e.model = m.model
}

// domForced checks a condition against the domains: returns (forced, value)
func (e *Exec) domForced(c *Term) (bool, bool) {
	if c.op == OpConst {
		return true, c.k != 0
	}
	if c.op != OpTab {
		return false, false
	}
	d := e.dom[c.v.idx]
	hasT, hasF := false, false
	for i, x := range c.tab {
		if d.has(i) {
			if x != 0 {
				hasT = true
			} else {
				hasF = true
			}
			if hasT && hasF {
				return false, false
			}
		}
	}
	return true, hasT
}

// feasible returns 1 (with a model), 0, or -1
func (e *Exec) feasible(c *Term) (int, *Model) {
	if f, v := e.domForced(c); f && !v {
		return 0, nil
	}
	e.tt.newEval()
	if e.tt.eval(c, e.model) != 0 {
		return 1, e.model
	}
	if c.op == OpTab && e.tangle&c.vs == 0 {
		d := e.dom[c.v.idx]
		for i, x := range c.tab {
			if x != 0 && d.has(i) {
				m := e.model.clone()
				m.vals[c.v.idx] = c.v.lo + int64(i)
				e.audit(c, 1)
				return 1, m
			}
		}
		e.audit(c, 0)
		return 0, nil
	}
	if r, m, ok := e.smallSolve(c); ok {
		e.audit(c, r)
		return r, m
	}
	r, m := e.sol.check(e.pc, e.vars, c)
	if r == -1 {
		e.nUnknown++
	}
	return r, m
}

func (e *Exec) replaying() bool { return len(e.log) < len(e.prefix) }

func (e *Exec) nextEntry() entry {
	en := e.prefix[len(e.log)]
	e.log = append(e.log, en)
	if len(e.log) == len(e.prefix) {
		// end of the replay: the given model becomes valid
		e.model = e.given
	}
	return en
}

// audit submits to the SMT solver a sample of the facts decided by the finite
// domain procedure: c has to be unsatisfiable (satisfiable) with the path condition
func (e *Exec) audit(c *Term, want int) {
	e.nDom++
	if e.inInit || e.sol == nil || e.replaying() {
		return
	}
	if e.nDom > 25 && e.nDom%e.auditEvery != 0 {
		return
	}
	if e.nAudit > 5 && e.auditTime > 1500*time.Millisecond*time.Duration(1+e.nDom/20000) {
		return // slow queries (floats): a smaller sample
	}
	t0 := time.Now()
	defer func() { e.auditTime += time.Since(t0) }()
	if e.nDom > 2000 && e.nDom > 50*e.auditEvery {
		e.auditEvery *= 2
	}
	r, _ := e.sol.check(e.pc, e.vars, c)
	e.nAudit++
	if r == 1-want {
		e.nAuditBad++
	}
}

// decide returns the truth of c on this path, forking if needed
func (e *Exec) decide(c *Term) bool {
	if f, v := e.domForced(c); f {
		if c.op != OpConst {
			if v {
				e.audit(e.tt.not(c), 0)
			} else {
				e.audit(c, 0)
			}
		}
		return v
	}
	if e.inInit {
		e.fail("symbolic decision in init")
	}
	if e.replaying() {
		en := e.nextEntry()
		switch en.kind {
		case eTrue:
			e.assume(c)
			return true
		case eFalse:
			e.assume(e.tt.not(c))
			return false
		case eForcedTrue:
			return true
		case eForcedFalse:
			return false
		}
		panic(engineErr("replay mismatch"))
	}
	nc := e.tt.not(c)
	e.tt.newEval()
	mv := e.tt.eval(c, e.model) != 0
	other := nc
	if !mv {
		other = c
	}
	r, m := e.feasible(other)
	if r == 0 {
		if mv {
			e.log = append(e.log, entry{kind: eForcedTrue})
		} else {
			e.log = append(e.log, entry{kind: eForcedFalse})
		}
		return mv
	}
	if e.local > 0 {
		panic(mergeAbort{"fork in region"})
	}
	if r == 1 {
		k := uint8(eFalse)
		if !mv {
			k = eTrue
		}
		pf := append(append(make([]entry, 0, len(e.log)+1), e.log...), entry{kind: k})
		e.newWork(pf, m)
	} else {
		e.unk("solver gave no answer for a branch")
	}
	if mv {
		e.log = append(e.log, entry{kind: eTrue})
		e.assume(c)
	} else {
		e.log = append(e.log, entry{kind: eFalse})
		e.assume(nc)
	}
	return mv
}

func (e *Exec) unk(msg string) {
	e.unkMsgs[msg]++
}

func (e *Exec) decideVal(v Val) bool {
	if t := v.term(); t != nil {
		return e.decide(t)
	}
	return v.c != 0
}

// concretize returns a concrete value for v, forking over the possible values
func (e *Exec) concretize(v Val) uint64 {
	t := v.term()
	if t == nil {
		if v.p != nil {
			e.fail("concretize %T", v.p)
		}
		return v.c
	}
	for {
		if t.op == OpConst {
			return t.k
		}
		// forced by the domain ?
		if t.op == OpTab {
			d := e.dom[t.v.idx]
			first := true
			same := true
			var x0 uint64
			for i, x := range t.tab {
				if d.has(i) {
					if first {
						x0, first = x, false
					} else if x != x0 {
						same = false
						break
					}
				}
			}
			if same {
				return x0
			}
		}
		if e.local > 0 && !e.replaying() {
			panic(mergeAbort{"concretize in region"})
		}
		var cand uint64
		if e.replaying() {
			en := e.nextEntry()
			if en.kind != eValue {
				e.fail("replay mismatch (value)")
			}
			cand = en.val
		} else {
			e.tt.newEval()
			cand = e.tt.eval(t, e.model)
			e.log = append(e.log, entry{kind: eValue, val: cand})
		}
		if e.decide(e.tt.op2(OpEq, t, e.tt.constant(t.w, cand))) {
			return cand
		}
	}
}

func (e *Exec) concInt(v Val) int { return int(int64(e.concretize(v))) }

// choice: non deterministic choice in [0, n), explored exhaustively
func (e *Exec) newVar(lo, hi int64) Val {
	if lo > hi {
		panic(pathEnd{kind: "pruned"})
	}
	if lo == hi {
		// still counts as an input, so that the values keep their position
	}
	if e.local > 0 {
		panic(mergeAbort{"input in region"})
	}
	idx := len(e.vars)
	v := e.tt.variable(idx, lo, hi)
	e.vars = append(e.vars, v)
	e.internal = append(e.internal, false)
	var full bitset
	if v.n > 0 {
		full = make(bitset, (v.n+63)/64)
		for i := 0; i < v.n; i++ {
			full[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	e.dom = append(e.dom, full)
	e.model = e.model.clone()
	for len(e.model.vals) <= idx {
		e.model.vals = append(e.model.vals, lo)
	}
	if x := e.model.vals[idx]; x < lo || x > hi {
		e.model.vals[idx] = lo
	}
	if v.rng != nil {
		e.pc = append(e.pc, v.rng)
		// a lone range constraint does not entangle
	}
	if v.ident.op == OpConst {
		return Val{c: v.ident.k}
	}
	return Val{p: v.ident}
}

// --- values and terms

func (e *Exec) toTerm(v Val, w uint8) *Term {
	switch t := v.p.(type) {
	case *Term:
		if t.w != w {
			e.fail("term width %d, expected %d", t.w, w)
		}
		return t
	case nil:
		return e.tt.constant(w, v.c)
	}
	e.fail("not a scalar: %T", v.p)
	return nil
}

func fromTerm(t *Term) Val {
	if t.op == OpConst {
		return Val{c: t.k}
	}
	return Val{p: t}
}

func (e *Exec) rtPanic(msg string) {
	if e.inInit {
		e.fail("panic in init: %s", msg)
	}
	panic(&targetPanic{msg: "runtime error: " + msg, rt: true, val: Val{p: &Iface{ti: e.pr.rtErrTI(), v: vString("runtime error: " + msg)}}})
}

// --- memory

func (e *Exec) load(ptr Val, ti *TI) Val {
	switch o := ptr.p.(type) {
	case *Obj:
		off := int(ptr.c)
		if !ti.agg {
			v := o.cells[off]
			if v.p != nil && v.p == any(poison) && !e.inInit {
				e.fail("read of an uninitialized value (package not initialized)")
			}
			return v
		}
		if ti.cells == 0 {
			return Val{}
		}
		a := make(Agg, ti.cells)
		copy(a, o.cells[off:off+ti.cells])
		return Val{p: a}
	case *SymPtr:
		return e.symLoad(o, ti)
	case *PtrSel:
		return e.load(e.resolvePtr(ptr), ti)
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	e.fail("load through %T", ptr.p)
	return Val{}
}

func (e *Exec) liveCands(o *SymPtr) []int32 {
	if o.off.op != OpTab {
		return o.cands
	}
	seen := map[int32]bool{}
	var out []int32
	d := e.dom[o.off.v.idx]
	for i, x := range o.off.tab {
		if d.has(i) && !seen[int32(x)] {
			seen[int32(x)] = true
			out = append(out, int32(x))
		}
	}
	return out
}

func (e *Exec) symLoad(o *SymPtr, ti *TI) Val {
	// the bounds have been checked: the offsets out of range are infeasible here
	var cands []int32
	for _, c := range e.liveCands(o) {
		if c >= 0 && int(c) < len(o.o.cells) {
			cands = append(cands, c)
		}
	}
	if len(cands) == 0 {
		panic(pathEnd{kind: "pruned"})
	}
	readCell := func(k int, w uint8) (Val, bool) {
		if w == wNone {
			first := o.o.cells[int(cands[0])+k]
			same := true
			for _, c := range cands[1:] {
				if !sameVal(first, o.o.cells[int(c)+k]) {
					same = false
					break
				}
			}
			if same {
				return first, true
			}
			var acc *Term
			for i := len(cands) - 1; i >= 0; i-- {
				t, ok := e.ptrTerm(o.o.cells[int(cands[i])+k])
				if !ok {
					return Val{}, false
				}
				if acc == nil {
					acc = t
				} else {
					acc = e.tt.ite(e.tt.op2(OpEq, o.off, e.tt.constant(64, uint64(cands[i]))), t, acc)
				}
			}
			return e.fromPtrTerm(acc), true
		}
		if o.off.op == OpTab {
			// pointwise when the cells are concrete or depend on the same variable
			ok := true
			for _, c := range cands {
				x := o.o.cells[int(c)+k]
				if x.p == nil {
					continue
				}
				if t, is := x.p.(*Term); is && t.op == OpTab && t.v == o.off.v {
					continue
				}
				ok = false
				break
			}
			if ok {
				tab := make([]uint64, len(o.off.tab))
				d := e.dom[o.off.v.idx]
				var dflt uint64
				set := false
				for i, off := range o.off.tab {
					if !d.has(i) || int32(off) < 0 || int(int32(off)) >= len(o.o.cells) {
						continue
					}
					x := o.o.cells[int(off)+k]
					if x.p == nil {
						tab[i] = x.c
					} else {
						tab[i] = x.p.(*Term).tab[i]
					}
					if !set {
						dflt, set = tab[i], true
					}
				}
				for i, off := range o.off.tab {
					if !d.has(i) || int32(off) < 0 || int(int32(off)) >= len(o.o.cells) {
						tab[i] = dflt
					}
				}
				return fromTerm(e.tt.mkTab(w, o.off.v, tab)), true
			}
		}
		var acc *Term
		for i := len(cands) - 1; i >= 0; i-- {
			x := o.o.cells[int(cands[i])+k]
			if x.p == any(poison) {
				e.fail("read of an uninitialized value")
			}
			t := e.toTerm(x, w)
			if acc == nil {
				acc = t
			} else {
				acc = e.tt.ite(e.tt.op2(OpEq, o.off, e.tt.constant(64, uint64(cands[i]))), t, acc)
			}
		}
		return fromTerm(acc), true
	}
	if !ti.agg {
		if v, ok := readCell(0, ti.w); ok {
			return v
		}
	} else {
		if ti.cells == 0 {
			return Val{}
		}
		a := make(Agg, ti.cells)
		all := true
		for k := range a {
			v, ok := readCell(k, ti.ws[k])
			if !ok {
				all = false
				break
			}
			a[k] = v
		}
		if all {
			return Val{p: a}
		}
	}
	off := e.concretize(Val{p: o.off})
	return e.load(Val{p: o.o, c: off}, ti)
}

func (e *Exec) store(ptr Val, v Val, ti *TI) {
	switch o := ptr.p.(type) {
	case *Obj:
		off := int(ptr.c)
		if !ti.agg {
			e.setCell(o, off, v, ti.w)
			return
		}
		a, _ := v.p.(Agg)
		for k := 0; k < ti.cells; k++ {
			var x Val
			if a != nil {
				x = a[k]
			}
			w := uint8(wNone)
			if k < len(ti.ws) {
				w = ti.ws[k]
			}
			e.setCell(o, off+k, x, w)
		}
		return
	case *SymPtr:
		// the bounds have been checked: the other offsets are infeasible
		var cands []int32
		for _, c := range e.liveCands(o) {
			if c >= 0 && int(c)+ti.cells <= len(o.o.cells) {
				cands = append(cands, c)
			}
		}
		scal := true
		if ti.agg {
			for _, w := range ti.ws {
				if w == wNone {
					scal = false
				}
			}
		} else {
			scal = ti.w != wNone
		}
		if scal && len(cands) <= 64 {
			a, _ := v.p.(Agg)
			for _, c := range cands {
				cond := e.tt.op2(OpEq, o.off, e.tt.constant(64, uint64(c)))
				for k := 0; k < ti.cells; k++ {
					w := ti.w
					x := v
					if ti.agg {
						w = ti.ws[k]
						x = Val{}
						if a != nil {
							x = a[k]
						}
					}
					old := o.o.cells[int(c)+k]
					e.setCell(o.o, int(c)+k, fromTerm(e.tt.ite(cond, e.toTerm(x, w), e.toTerm(old, w))), w)
				}
			}
			return
		}
		off := e.concretize(Val{p: o.off})
		e.store(Val{p: o.o, c: off}, v, ti)
		return
	case *PtrSel:
		e.store(e.resolvePtr(ptr), v, ti)
		return
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	e.fail("store through %T", ptr.p)
}

func (e *Exec) offsetPtr(ptr Val, n int) Val {
	switch o := ptr.p.(type) {
	case *Obj:
		return Val{p: o, c: ptr.c + uint64(n)}
	case *SymPtr:
		if n == 0 {
			return ptr
		}
		c2 := make([]int32, len(o.cands))
		for i, c := range o.cands {
			c2[i] = c + int32(n)
		}
		return Val{p: &SymPtr{o: o.o, off: e.tt.op2(OpAdd, o.off, e.tt.constant(64, uint64(n))), cands: c2}}
	case *PtrSel:
		return e.offsetPtr(e.resolvePtr(ptr), n)
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	e.fail("field of %T", ptr.p)
	return Val{}
}

// index returns the address base[idx], checking the bounds
func (e *Exec) indexPtr(o *Obj, base int, sym *SymPtr, idx Val, iti *TI, n int, esz int) Val {
	t := idx.term()
	if t == nil {
		i := int64(idx.c)
		if iti != nil && iti.w < 64 {
			if iti.signed {
				i = sext64(idx.c, iti.w)
			}
		}
		if i < 0 || i >= int64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		if sym != nil {
			return e.offsetPtr(Val{p: sym}, int(i)*esz)
		}
		return Val{p: o, c: uint64(base + int(i)*esz)}
	}
	t = e.widen(t, iti)
	if !e.decide(e.tt.op2(OpUlt, t, e.tt.constant(64, uint64(n)))) {
		e.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	// forced to one value by the domain ?
	if t.op == OpTab {
		d := e.dom[t.v.idx]
		one, first := true, true
		var x0 uint64
		for i, x := range t.tab {
			if d.has(i) {
				if first {
					x0, first = x, false
				} else if x != x0 {
					one = false
					break
				}
			}
		}
		if one {
			return e.indexPtr(o, base, sym, Val{c: x0}, nil, n, esz)
		}
	}
	off := e.tt.op2(OpMul, t, e.tt.constant(64, uint64(esz)))
	var cands []int32
	if sym != nil {
		off = e.tt.op2(OpAdd, off, sym.off)
		if off.op == OpTab {
			cands = e.liveCands(&SymPtr{off: off})
		} else {
			if len(sym.cands)*n > 4096 {
				i := e.concretize(Val{p: t})
				return e.offsetPtr(Val{p: sym}, int(i)*esz)
			}
			for _, c := range sym.cands {
				for i := 0; i < n; i++ {
					cands = append(cands, c+int32(i*esz))
				}
			}
		}
		return Val{p: &SymPtr{o: sym.o, off: off, cands: cands}}
	}
	off = e.tt.op2(OpAdd, off, e.tt.constant(64, uint64(base)))
	if off.op == OpTab {
		cands = e.liveCands(&SymPtr{off: off})
	} else {
		if n > 4096 {
			i := e.concretize(Val{p: t})
			return Val{p: o, c: uint64(base + int(i)*esz)}
		}
		for i := 0; i < n; i++ {
			cands = append(cands, int32(base+i*esz))
		}
	}
	return Val{p: &SymPtr{o: o, off: off, cands: cands}}
}

func (e *Exec) widen(t *Term, iti *TI) *Term {
	if t.w == 64 {
		return t
	}
	if iti != nil && iti.signed {
		return e.tt.op1(OpSext, 64, t)
	}
	return e.tt.op1(OpZext, 64, t)
}

// stableID numbers the pointers to the objects of the initial state, which are the
// same for every path and every worker.
func (e *Exec) stableID(v Val) (uint64, bool) {
	o, ok := v.p.(*Obj)
	if !ok {
		return 0, v.p == nil && v.c == 0
	}
	if v.c >= 1<<24 {
		return 0, false
	}
	var id uint64
	switch {
	case o.gid > 0:
		id = 1<<62 | uint64(o.gid)<<24 | v.c
	case o.birth > 0 && o.birth <= e.initBirth:
		id = 1<<61 | uint64(o.birth)<<24 | v.c
	default:
		return 0, false
	}
	if e.ptrOf == nil {
		e.ptrOf = map[uint64]Val{}
	}
	if _, ok := e.ptrOf[id]; !ok {
		e.ptrOf[id] = v
	}
	return id, true
}

// ptrTerm is the number of a pointer as a term
func (e *Exec) ptrTerm(v Val) (*Term, bool) {
	if s, ok := v.p.(*PtrSel); ok {
		return s.t, true
	}
	id, ok := e.stableID(v)
	if !ok {
		return nil, false
	}
	return e.tt.constant(64, id), true
}

func (e *Exec) fromPtrTerm(t *Term) Val {
	if t.op == OpConst {
		return e.ptrVal(t.k)
	}
	return Val{p: &PtrSel{t}}
}

func (e *Exec) ptrVal(id uint64) Val {
	if id == 0 {
		return Val{}
	}
	v, ok := e.ptrOf[id]
	if !ok {
		e.fail("unknown pointer number")
	}
	return v
}

func (e *Exec) resolvePtr(v Val) Val {
	if s, ok := v.p.(*PtrSel); ok {
		return e.ptrVal(e.concretize(Val{p: s.t}))
	}
	if s, ok := v.p.(*SymPtr); ok {
		return Val{p: s.o, c: e.concretize(Val{p: s.off})}
	}
	return v
}

// sameVal reports identity of two (cell) values
func sameVal(a, b Val) bool {
	if a.c != b.c {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case *Obj, *Term, *MapObj, *Closure, string, *SymPtr, *SymStr, *poisonT, *Iter:
		if a.p == b.p {
			return true
		}
		if x, ok := x.(*SymStr); ok {
			y, ok := b.p.(*SymStr)
			if !ok || len(x.b) != len(y.b) {
				return false
			}
			for i := range x.b {
				if !sameVal(x.b[i], y.b[i]) {
					return false
				}
			}
			return true
		}
		if x, ok := x.(*SymPtr); ok {
			y, ok := b.p.(*SymPtr)
			return ok && x.o == y.o && x.off == y.off
		}
		return false
	case *PtrSel:
		y, ok := b.p.(*PtrSel)
		return ok && x.t == y.t
	case *SliceV:
		y, ok := b.p.(*SliceV)
		return ok && *x == *y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && x.ti == y.ti && sameVal(x.v, y.v)
	case Agg:
		y, ok := b.p.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.p.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// the largest terms (size of the tree) merged at the join points
const maxMerge = 1 << 30

// mergeVals builds ite(c, a, b); ok is false when not possible
func (e *Exec) mergeVals(c *Term, a, b Val, w uint8) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if w != wNone {
		_, t1 := a.p.(*Term)
		_, t2 := b.p.(*Term)
		if (t1 || a.p == nil) && (t2 || b.p == nil) {
			ta, tb := e.toTerm(a, w), e.toTerm(b, w)
			if ta.size > maxMerge || tb.size > maxMerge {
				return Val{}, false
			}
			return fromTerm(e.tt.ite(c, ta, tb)), true
		}
		return Val{}, false
	}
	if ta, ok := e.ptrTerm(a); ok {
		// two nil values are the same: one at least is a pointer
		if tb, ok := e.ptrTerm(b); ok && ta.size < maxMerge && tb.size < maxMerge {
			return e.fromPtrTerm(e.tt.ite(c, ta, tb)), true
		}
	}
	if x, ok := a.p.(*Iface); ok {
		if y, ok := b.p.(*Iface); ok && x.ti == y.ti && x.ti.w != wNone {
			v, ok := e.mergeVals(c, x.v, y.v, x.ti.w)
			if ok {
				return Val{p: &Iface{ti: x.ti, v: v}}, true
			}
		}
	}
	return Val{}, false
}

func (e *Exec) mergeTI(c *Term, a, b Val, ti *TI) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if !ti.agg {
		return e.mergeVals(c, a, b, ti.w)
	}
	x, _ := a.p.(Agg)
	y, _ := b.p.(Agg)
	out := make(Agg, ti.cells)
	for k := range out {
		var u, v Val
		if x != nil {
			u = x[k]
		}
		if y != nil {
			v = y[k]
		}
		if k >= len(ti.ws) {
			return Val{}, false
		}
		r, ok := e.mergeVals(c, u, v, ti.ws[k])
		if !ok {
			return Val{}, false
		}
		out[k] = r
	}
	return Val{p: out}, true
}

// --- the interpreter

func (e *Exec) opd(fr *Frame, o *Opd) Val {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.v
	}
	return Val{p: e.global(int(o.idx))}
}

func (e *Exec) global(i int) *Obj {
	for i >= len(e.globals) {
		e.globals = append(e.globals, nil)
	}
	o := e.globals[i]
	if o == nil {
		g := e.pr.gl[i]
		ti := e.pr.ti(g.Type().Underlying().(*types.Pointer).Elem())
		o = &Obj{cells: make([]Val, ti.cells), birth: 0, gid: int32(i) + 1}
		if g.Pkg != nil && skipInit(g.Pkg.Pkg.Path()) && !allowZero(g) {
			for k := range o.cells {
				o.cells[k].p = poison
			}
		}
		e.globals[i] = o
	}
	return o
}

func (e *Exec) callFn(fn *Fn, args []Val, free []Val) Val {
	if fn.intr != nil {
		return fn.intr(e, fn, args)
	}
	if e.inInit && skipInit(fn.pkg) {
		return e.callSkipped(fn, args, free)
	}
	if fn.lookup && !e.inInit {
		if v, ok := e.tabulate(fn, args, free); ok {
			return v
		}
	}
	return e.callBody(fn, args, free)
}

// callSkipped calls, during the initialization, a function from a package
// which has not been initialized: the result is unknown if it fails
func (e *Exec) callSkipped(fn *Fn, args []Val, free []Val) (ret Val) {
	depth := e.depth
	defer func() {
		if r := recover(); r != nil {
			e.depth = depth
			ret = Val{p: poison}
			if n := len(fn.sf.Signature.Results().String()); n > 0 && fn.sf.Signature.Results().Len() > 1 {
				tu := make(Tuple, fn.sf.Signature.Results().Len())
				for i := range tu {
					tu[i].p = poison
				}
				ret = Val{p: tu}
			}
		}
	}()
	return e.callBody(fn, args, free)
}

func (e *Exec) callBody(fn *Fn, args []Val, free []Val) Val {
	fn.ensure()
	if len(fn.blocks) == 0 {
		e.fail("no body for %s", fn.name)
	}
	if fn.repo && !e.inInit && !e.fnSeen[fn] {
		e.fnSeen[fn] = true
	}
	e.depth++
	if e.depth > 2000 {
		panic(pathEnd{kind: "steps", msg: "call depth in " + fn.name})
	}
	e.cstack[e.depth] = fn
	fr := &Frame{fn: fn}
	// registers
	fr.regs = make([]Val, fn.nregs)
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], free)
	var ret Val
	if fn.hasDefer {
		ret = e.runWithDefers(fr)
	} else {
		e.run(fr, fn.blocks[0], -1, nil, false)
		ret = fr.ret
	}
	e.depth--
	return ret
}

func (e *Exec) runWithDefers(fr *Frame) (ret Val) {
	depth := e.depth
	np := len(e.panicFrames)
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok || e.inInit {
				panic(r)
			}
			e.depth = depth
			e.panicFrames = e.panicFrames[:np]
			if e.local > 0 {
				panic(mergeAbort{"panic"})
			}
			fr.panicking = tp
			e.panicFrames = append(e.panicFrames, fr)
			e.runDefers(fr)
			e.panicFrames = e.panicFrames[:np]
			if fr.panicking != nil {
				panic(fr.panicking)
			}
			if fr.fn.recover != nil {
				e.run(fr, fr.fn.recover, -1, nil, false)
				ret = fr.ret
			} else {
				ret = Val{}
				if len(fr.fn.resTI) > 1 {
					ret = Val{p: make(Tuple, len(fr.fn.resTI))}
				}
			}
		}
	}()
	e.run(fr, fr.fn.blocks[0], -1, nil, false)
	return fr.ret
}

func (e *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		e.doCall(d.call, d.fv, d.args)
	}
}

const (
	outReturn = iota
	outStop
)

func (e *Exec) enter(fr *Frame, b *Block, pred int) {
	switch len(b.phis) {
	case 0:
	case 1:
		p := &b.phis[0]
		fr.regs[p.dst] = e.opd(fr, &p.ops[pred])
	default:
		var buf [16]Val
		tmp := buf[:0]
		for i := range b.phis {
			tmp = append(tmp, e.opd(fr, &b.phis[i].ops[pred]))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = tmp[i]
		}
	}
}

// run executes from block b. When stop is reached, its phis are evaluated and
// outStop is returned.
func (e *Exec) run(fr *Frame, b *Block, pred int, stop *Block, skipPhis bool) int {
	for {
		if !skipPhis && pred >= 0 {
			e.enter(fr, b, pred)
		}
		skipPhis = false
		if b == stop {
			return outStop
		}
		n := int64(len(b.ins))
		e.steps += n
		if e.steps&^0xfff != (e.steps-n)&^0xfff && e.stopFn != nil && e.stopFn() {
			panic(pathEnd{kind: "stop"})
		}
		if e.steps > e.maxSteps {
			e.nInstr += e.steps
			e.steps = 0
			panic(pathEnd{kind: "steps", msg: "step limit in " + fr.fn.name})
		}
		last := len(b.ins) - 1
		for i := 0; i < last; i++ {
			e.step(fr, &b.ins[i])
		}
		in := &b.ins[last]
		switch in.op {
		case iJump:
			pred = b.pidx[0]
			b = b.succs[0]
		case iIf:
			c := e.opd(fr, &in.a)
			t := c.term()
			k := 0
			if t == nil {
				if c.c == 0 {
					k = 1
				}
			} else {
				e.curPos = in.pos
				r := e.symIf(fr, b, in, t, stop)
				switch r {
				case 0, 1:
					k = r
				case 2: // merged at the post-dominator
					b = b.ipdom
					skipPhis = true
					pred = -1
					continue
				case 3:
					return outReturn
				}
			}
			pred = b.pidx[k]
			b = b.succs[k]
		case iReturn:
			switch len(in.args) {
			case 0:
				fr.ret = Val{}
			case 1:
				fr.ret = e.opd(fr, &in.args[0])
			default:
				tu := make(Tuple, len(in.args))
				for i := range in.args {
					tu[i] = e.opd(fr, &in.args[i])
				}
				fr.ret = Val{p: tu}
			}
			return outReturn
		case iPanic:
			v := e.opd(fr, &in.a)
			e.curPos = in.pos
			if e.inInit {
				e.fail("panic in init")
			}
			panic(&targetPanic{val: v, msg: e.panicMsg(v)})
		default:
			e.step(fr, in)
			e.fail("bad terminator")
		}
	}
}

type writeKey struct {
	o   *Obj
	off int32
}

type sideResult struct {
	out    int
	writes map[writeKey]Val
	order  []writeKey
	ws     map[writeKey]uint8
	maps   map[*MapObj]*mapData
	regs   []Val
	ret    Val
}

// symIf handles a branch on a symbolic condition.
// returns 0/1 for the successor taken, 2 if merged at ipdom, 3 if merged at return
func (e *Exec) symIf(fr *Frame, b *Block, in *Instr, c *Term, stop *Block) int {
	if f, v := e.domForced(c); f {
		if v {
			return 0
		}
		return 1
	}
	var m1, m0 *Model
	if e.replaying() {
		if e.prefix[len(e.log)].kind != eMerged {
			if e.decide(c) {
				return 0
			}
			return 1
		}
		e.nextEntry()
	} else {
		site := e.sites[in.site]
		can := e.merging && (b.ipdom != nil || b.exitPD) && !fr.fn.noMerge
		if b.exitPD && b.ipdom == nil && fr.fn.hasDefer {
			can = false
		}
		if site != nil && site.aborts >= 2 && site.aborts*4 > site.tries {
			can = false
		}
		if !can {
			if e.decide(c) {
				return 0
			}
			return 1
		}
		var r1, r0 int
		r1, m1 = e.feasible(c)
		if r1 == 0 {
			e.log = append(e.log, entry{kind: eForcedFalse})
			return 1
		}
		r0, m0 = e.feasible(e.tt.not(c))
		if r0 == 0 {
			e.log = append(e.log, entry{kind: eForcedTrue})
			return 0
		}
		if r1 == -1 || r0 == -1 {
			if e.decide(c) {
				return 0
			}
			return 1
		}
		e.log = append(e.log, entry{kind: eMerged})
	}
	logAt := len(e.log)
	replayed := e.replaying() || m1 == nil
	site := e.sites[in.site]
	if site == nil {
		site = &siteStat{}
		e.sites[in.site] = site
	}
	site.tries++
	res, why := e.tryMerge(fr, b, c, m1, m0)
	if why == "" {
		e.nMerge++
		return res
	}
	if replayed {
		e.fail("merge aborted during replay: %s", why)
	}
	e.nAbort++
	e.aborts[why]++
	site.aborts++
	e.log = e.log[:logAt-1]
	if e.local > 0 {
		// the enclosing regions would fail also
		panic(mergeAbort{why})
	}
	if e.decide(c) {
		return 0
	}
	return 1
}

func (e *Exec) tryMerge(fr *Frame, b *Block, c *Term, m1, m0 *Model) (res int, why string) {
	P := b.ipdom // nil: function exit
	savedRegs := append([]Val(nil), fr.regs...)
	savedRet := fr.ret
	nd := len(fr.defers)
	mark := e.markPC()
	ulogAt := len(e.ulog)
	savedFloor := e.floor
	depth, np, nobs := e.depth, len(e.panicFrames), len(e.obs)
	e.local++
	e.epoch++
	stepsAt := e.steps
	restore := func() {
		e.undoTo(ulogAt)
		copy(fr.regs, savedRegs)
		fr.ret = savedRet
		fr.defers = fr.defers[:nd]
		e.resetPC(mark)
		e.floor = savedFloor
		e.depth = depth
		e.panicFrames = e.panicFrames[:np]
		e.obs = e.obs[:nobs]
	}
	side := func(k int, cond *Term, m *Model) (r sideResult, why string) {
		defer func() {
			if x := recover(); x != nil {
				switch x := x.(type) {
				case mergeAbort:
					why = x.why
				case *targetPanic:
					why = "panic"
				case pathEnd:
					if x.kind == "stop" {
						panic(x)
					}
					why = "end:" + x.kind
				case engineError:
					why = "engine"
				default:
					panic(x)
				}
			}
		}()
		e.births++
		e.floor = e.births + 1 // every object existing now has birth < floor
		if m != nil {
			e.model = m
		}
		e.assume(cond)
		r.out = e.run(fr, b.succs[k], b.pidx[k], P, false)
		if len(fr.defers) != nd {
			return r, "defer"
		}
		if len(e.obs) != nobs {
			return r, "observation"
		}
		if P != nil && r.out != outStop {
			return r, "return"
		}
		if len(e.ulog) > ulogAt {
			r.writes = map[writeKey]Val{}
			r.ws = map[writeKey]uint8{}
			for i := ulogAt; i < len(e.ulog); i++ {
				u := &e.ulog[i]
				if u.m != nil {
					if r.maps == nil {
						r.maps = map[*MapObj]*mapData{}
					}
					r.maps[u.m] = u.m.d
					continue
				}
				key := writeKey{u.o, u.off}
				if _, ok := r.writes[key]; !ok {
					r.order = append(r.order, key)
					r.ws[key] = u.w
				}
				r.writes[key] = u.o.cells[u.off]
			}
		}
		r.regs = append([]Val(nil), fr.regs...)
		r.ret = fr.ret
		return r, ""
	}
	s1, why := side(0, c, m1)
	restore()
	if why == "" && e.steps-stepsAt > 2000000 {
		why = "steps"
	}
	if why != "" {
		e.local--
		return 0, why
	}
	s0, why := side(1, e.tt.not(c), m0)
	restore()
	e.local--
	if why != "" {
		return 0, why
	}
	// merge
	if s1.maps != nil || s0.maps != nil {
		return 0, "map write"
	}
	type wr struct {
		k writeKey
		v Val
		w uint8
	}
	var ws []wr
	for _, k := range s1.order {
		b, ok := s0.writes[k]
		if !ok {
			b = k.o.cells[k.off]
		}
		v, ok := e.mergeVals(c, s1.writes[k], b, s1.ws[k])
		if !ok {
			return 0, "write merge"
		}
		ws = append(ws, wr{k, v, s1.ws[k]})
	}
	for _, k := range s0.order {
		if _, ok := s1.writes[k]; ok {
			continue
		}
		v, ok := e.mergeVals(c, k.o.cells[k.off], s0.writes[k], s0.ws[k])
		if !ok {
			return 0, "write merge"
		}
		ws = append(ws, wr{k, v, s0.ws[k]})
	}
	var newRegs []Val
	var newRet Val
	if P != nil {
		newRegs = append([]Val(nil), fr.regs...)
		for _, r := range fr.fn.domRegsOf(P) {
			isPhi := false
			if int(fr.fn.regBlk[r]) == P.idx {
				for i := range P.phis {
					if P.phis[i].dst == r {
						isPhi = true
					}
				}
				if !isPhi {
					continue
				}
			}
			v, ok := e.mergeTI(c, s1.regs[r], s0.regs[r], fr.fn.regTI[r])
			if !ok {
				return 0, "register merge"
			}
			newRegs[r] = v
		}
	} else {
		switch len(fr.fn.resTI) {
		case 0:
		case 1:
			v, ok := e.mergeTI(c, s1.ret, s0.ret, fr.fn.resTI[0])
			if !ok {
				return 0, "return merge"
			}
			newRet = v
		default:
			a, _ := s1.ret.p.(Tuple)
			b, _ := s0.ret.p.(Tuple)
			out := make(Tuple, len(fr.fn.resTI))
			for i := range out {
				v, ok := e.mergeTI(c, a[i], b[i], fr.fn.resTI[i])
				if !ok {
					return 0, "return merge"
				}
				out[i] = v
			}
			newRet = Val{p: out}
		}
	}
	for _, w := range ws {
		e.setCell(w.k.o, int(w.k.off), w.v, w.w)
	}
	if P != nil {
		copy(fr.regs, newRegs)
		return 2, ""
	}
	fr.ret = newRet
	return 3, ""
}

func (e *Exec) step(fr *Frame, in *Instr) {
	switch in.op {
	case iAlloc:
		fr.regs[in.dst] = Val{p: e.newObj(in.ti.cells)}
	case iBinOp:
		a, b := e.opd(fr, &in.a), e.opd(fr, &in.b)
		fr.regs[in.dst] = e.binop(in, a, b)
	case iUnNot:
		a := e.opd(fr, &in.a)
		if t := a.term(); t != nil {
			fr.regs[in.dst] = fromTerm(e.tt.not(t))
		} else {
			fr.regs[in.dst] = Val{c: a.c ^ 1}
		}
	case iUnNeg:
		a := e.opd(fr, &in.a)
		w := in.ti.w
		if in.ti.float {
			if t := a.term(); t != nil {
				fr.regs[in.dst] = fromTerm(e.tt.op2(OpXor, t, e.tt.constant(w, 1<<(w-1))))
			} else {
				fr.regs[in.dst] = Val{c: a.c ^ 1<<(w-1)}
			}
			return
		}
		if t := a.term(); t != nil {
			fr.regs[in.dst] = fromTerm(e.tt.op2(OpSub, e.tt.constant(w, 0), t))
		} else {
			fr.regs[in.dst] = Val{c: -a.c & mask(w)}
		}
	case iUnXor:
		a := e.opd(fr, &in.a)
		if t := a.term(); t != nil {
			fr.regs[in.dst] = fromTerm(e.tt.op1(OpNot, in.ti.w, t))
		} else {
			fr.regs[in.dst] = Val{c: ^a.c & mask(in.ti.w)}
		}
	case iLoad:
		fr.regs[in.dst] = e.load(e.opd(fr, &in.a), in.ti)
	case iStore:
		e.store(e.opd(fr, &in.a), e.opd(fr, &in.b), in.ti)
	case iCall:
		args := make([]Val, len(in.args))
		for i := range in.args {
			args[i] = e.opd(fr, &in.args[i])
		}
		var fv Val
		ci := in.call
		e.curPos = in.pos
		if ci.static == nil && ci.builtin == "" {
			fv = e.opd(fr, &ci.fv)
		}
		fr.regs[in.dst] = e.doCall(ci, fv, args)
	case iDefer:
		args := make([]Val, len(in.args))
		for i := range in.args {
			args[i] = e.opd(fr, &in.args[i])
		}
		var fv Val
		if in.call.static == nil && in.call.builtin == "" {
			fv = e.opd(fr, &in.call.fv)
		}
		fr.defers = append(fr.defers, deferred{in.call, args, fv})
	case iRunDefers:
		e.runDefers(fr)
	case iChangeType:
		fr.regs[in.dst] = e.opd(fr, &in.a)
	case iConvert:
		fr.regs[in.dst] = e.convert(e.opd(fr, &in.a), in.ti2, in.ti)
	case iMakeIface:
		fr.regs[in.dst] = Val{p: &Iface{ti: in.ti2, v: e.opd(fr, &in.a)}}
	case iExtract:
		a := e.opd(fr, &in.a)
		tu, ok := a.p.(Tuple)
		if !ok {
			e.fail("extract from %T", a.p)
		}
		fr.regs[in.dst] = tu[in.n]
	case iField:
		a := e.opd(fr, &in.a)
		ag, _ := a.p.(Agg)
		if ag == nil {
			fr.regs[in.dst] = Val{}
			return
		}
		if in.ti.agg {
			if in.ti.cells == 0 {
				fr.regs[in.dst] = Val{}
				return
			}
			fr.regs[in.dst] = Val{p: ag[in.n : in.n+in.ti.cells : in.n+in.ti.cells]}
		} else {
			fr.regs[in.dst] = ag[in.n]
		}
	case iFieldAddr:
		a := e.opd(fr, &in.a)
		if o, ok := a.p.(*Obj); ok {
			fr.regs[in.dst] = Val{p: o, c: a.c + uint64(in.n)}
		} else {
			e.curPos = in.pos
			fr.regs[in.dst] = e.offsetPtr(a, in.n)
		}
	case iIndex:
		a, b := e.opd(fr, &in.a), e.opd(fr, &in.b)
		ag, _ := a.p.(Agg)
		if ag == nil {
			ag = make(Agg, in.n*in.ti2.cells)
		}
		e.curPos = in.pos
		o := &Obj{cells: ag, birth: math.MaxInt64}
		p := e.indexPtr(o, 0, nil, b, in.b.ti, in.n, in.ti2.cells)
		fr.regs[in.dst] = e.load(p, in.ti2)
	case iIndexAddr:
		a, b := e.opd(fr, &in.a), e.opd(fr, &in.b)
		e.curPos = in.pos
		if in.flag {
			s, _ := a.p.(*SliceV)
			if s == nil {
				s = &SliceV{}
			}
			if b.p == nil && b.c < uint64(s.len) {
				fr.regs[in.dst] = Val{p: s.o, c: uint64(s.off + int(b.c)*s.esz)}
				return
			}
			fr.regs[in.dst] = e.indexPtr(s.o, s.off, nil, b, in.b.ti, s.len, in.ti2.cells)
		} else {
			if _, is := a.p.(*PtrSel); is {
				a = e.resolvePtr(a)
			}
			switch o := a.p.(type) {
			case *Obj:
				fr.regs[in.dst] = e.indexPtr(o, int(a.c), nil, b, in.b.ti, in.n, in.ti2.cells)
			case *SymPtr:
				fr.regs[in.dst] = e.indexPtr(nil, 0, o, b, in.b.ti, in.n, in.ti2.cells)
			case nil:
				e.rtPanic("invalid memory address or nil pointer dereference")
			default:
				e.fail("indexaddr of %T", a.p)
			}
		}
	case iIndexStr:
		a, b := e.opd(fr, &in.a), e.opd(fr, &in.b)
		e.curPos = in.pos
		fr.regs[in.dst] = e.indexStr(a, b, in.b.ti)
	case iLookup:
		e.curPos = in.pos
		v, ok := e.mapLookup(e.opd(fr, &in.a), e.opd(fr, &in.b), in.ti2, in.ti)
		if in.flag {
			fr.regs[in.dst] = Val{p: Tuple{v, ok}}
		} else {
			fr.regs[in.dst] = v
		}
	case iMapUpdate:
		e.curPos = in.pos
		e.mapUpdate(e.opd(fr, &in.a), e.opd(fr, &in.b), e.opd(fr, &in.c), in.ti2)
	case iMakeMap:
		e.births++
		fr.regs[in.dst] = Val{p: &MapObj{d: &mapData{idx: map[any]int{}, epoch: e.epoch}, birth: e.births}}
	case iMakeClosure:
		cl := in.a.v.p.(*Closure)
		free := make([]Val, len(in.args))
		for i := range in.args {
			free[i] = e.opd(fr, &in.args[i])
		}
		fr.regs[in.dst] = Val{p: &Closure{fn: cl.fn, free: free}}
	case iMakeSlice:
		n := e.concretize(e.opd(fr, &in.a))
		c := e.concretize(e.opd(fr, &in.b))
		if in.a.ti != nil && in.a.ti.signed && in.a.ti.w < 64 {
			n = uint64(sext64(n, in.a.ti.w))
		}
		if in.b.ti != nil && in.b.ti.signed && in.b.ti.w < 64 {
			c = uint64(sext64(c, in.b.ti.w))
		}
		if int64(n) < 0 || n > 1<<40 {
			e.rtPanic("makeslice: len out of range")
		}
		if int64(c) < int64(n) || c > 1<<40 {
			e.rtPanic("makeslice: cap out of range")
		}
		if c*uint64(in.ti2.cells) > 1<<24 {
			e.fail("slice too large (%d)", c)
		}
		fr.regs[in.dst] = e.makeSlice(int(n), int(c), in.ti2)
	case iNext:
		fr.regs[in.dst] = e.next(e.opd(fr, &in.a), in.flag)
	case iRange:
		fr.regs[in.dst] = e.rangeOver(e.opd(fr, &in.a), in.flag)
	case iSlice:
		e.curPos = in.pos
		fr.regs[in.dst] = e.slice(fr, in)
	case iSliceToArrPtr:
		a := e.opd(fr, &in.a)
		s, _ := a.p.(*SliceV)
		n := 0
		if s != nil {
			n = s.len
		}
		if n < in.n {
			e.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			fr.regs[in.dst] = Val{}
		} else {
			fr.regs[in.dst] = Val{p: s.o, c: uint64(s.off)}
		}
	case iTypeAssert:
		e.curPos = in.pos
		fr.regs[in.dst] = e.typeAssert(e.opd(fr, &in.a), in)
	case iUnsupported:
		e.fail("unsupported instruction %s in %s", in.s, fr.fn.name)
	default:
		e.fail("bad instruction %d in %s", in.op, fr.fn.name)
	}
}

func (e *Exec) makeSlice(n, c int, elem *TI) Val {
	o := e.newObj(c * elem.cells)
	return Val{p: &SliceV{o: o, len: n, cap: c, esz: elem.cells}}
}

func (e *Exec) doCall(ci *callInfo, fv Val, args []Val) Val {
	if ci.static != nil {
		return e.callFn(ci.static, args, nil)
	}
	if ci.builtin != "" {
		return e.builtin(ci, args)
	}
	if ci.invoke {
		ifc, _ := fv.p.(*Iface)
		if ifc == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := e.pr.method(ifc.ti, ci.mpkg, ci.method)
		if m == nil {
			e.fail("no method %s on %s", ci.method, ifc.ti.t)
		}
		return e.callFn(m, append([]Val{ifc.v}, args...), nil)
	}
	return e.callVal(fv, args)
}

func (e *Exec) callVal(fv Val, args []Val) Val {
	cl, _ := fv.p.(*Closure)
	if cl == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(e, args)
	}
	return e.callFn(cl.fn, args, cl.free)
}
