package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Lookups in constant tables (Unicode properties): applied to a value which is a
// function of one input with a small domain, the result is again such a function,
// computed by executing the body for each value. The body must not write anything
// visible, nor depend on anything symbolic: both are checked.

func isLookup(fn *Fn) bool {
	if fn.sf.Signature.Recv() != nil {
		return false
	}
	switch fn.pkg {
	case "unicode":
		switch fn.sf.Name() {
		case "Is", "In", "To", "ToLower", "ToUpper", "SimpleFold":
			return true
		}
		return strings.HasPrefix(fn.sf.Name(), "Is")
	case "github.com/benoitkugler/textlayout/unicodedata", "github.com/benoitkugler/textlayout/language":
		return strings.HasPrefix(fn.sf.Name(), "Lookup") || strings.HasPrefix(fn.sf.Name(), "Is")
	}
	if fn.repo {
		// functions of one character
		sig := fn.sf.Signature
		return sig.Params().Len() == 1 && sig.Params().At(0).Type() == types.Universe.Lookup("rune").Type() && sig.Results().Len() > 0
	}
	return false
}

func (e *Exec) tabulate(fn *Fn, args []Val, free []Val) (Val, bool) {
	at := -1
	key := ""
	for i, a := range args {
		switch x := a.p.(type) {
		case nil:
			key += fmt.Sprintf("%d,", a.c)
		case *Obj:
			id, ok := e.stableID(a)
			if !ok {
				return Val{}, false
			}
			key += fmt.Sprintf("p%x,", id)
		case *Term:
			if at >= 0 || x.op != OpTab {
				return Val{}, false
			}
			at = i
			key += "?,"
		default:
			return Val{}, false
		}
	}
	fn.ensure()
	if at < 0 || len(fn.resTI) == 0 {
		return Val{}, false
	}
	for _, r := range fn.resTI {
		if r.agg || r.isStr || r.isIfc || r.isMap || r.isSlc {
			return Val{}, false
		}
	}
	if e.tabMemo == nil {
		e.tabMemo = map[*Fn]map[string]Val{}
	}
	memo := e.tabMemo[fn]
	if memo == nil {
		memo = map[string]Val{}
		e.tabMemo[fn] = memo
	}
	t := args[at].p.(*Term)
	d := e.dom[t.v.idx]
	nr := len(fn.resTI)
	tabs := make([][]uint64, nr)
	for k := range tabs {
		tabs[k] = make([]uint64, len(t.tab))
	}
	first := -1
	for i, x := range t.tab {
		if !d.has(i) {
			continue
		}
		kx := fmt.Sprintf("%s%d", key, x)
		r, ok := memo[kx]
		if !ok {
			cargs := append([]Val(nil), args...)
			cargs[at] = Val{c: x}
			r, ok = e.pureCall(fn, cargs, free)
			if !ok {
				return Val{}, false
			}
			memo[kx] = r
		}
		for k := 0; k < nr; k++ {
			v := r
			if nr > 1 {
				v = r.p.(Tuple)[k]
			}
			if fn.resTI[k].w != wNone {
				if v.p != nil {
					return Val{}, false
				}
				tabs[k][i] = v.c
				continue
			}
			id, ok := e.stableID(v)
			if !ok {
				return Val{}, false
			}
			tabs[k][i] = id
		}
		if first < 0 {
			first = i
		}
	}
	if first < 0 {
		return Val{}, false
	}
	out := make(Tuple, nr)
	for k := range tabs {
		for i := range t.tab {
			if !d.has(i) {
				tabs[k][i] = tabs[k][first]
			}
		}
		w := fn.resTI[k].w
		if w != wNone {
			out[k] = fromTerm(e.tt.mkTab(w, t.v, tabs[k]))
		} else {
			out[k] = e.fromPtrTerm(e.tt.mkTab(64, t.v, tabs[k]))
		}
	}
	if nr == 1 {
		return out[0], true
	}
	return Val{p: out}, true
}

// pureCall executes a call on concrete arguments; it fails if the call is not pure.
func (e *Exec) pureCall(fn *Fn, args []Val, free []Val) (ret Val, ok bool) {
	ulogAt, floor, depth, np, nobs := len(e.ulog), e.floor, e.depth, len(e.panicFrames), len(e.obs)
	steps := e.steps
	e.local++
	e.births++
	e.floor = e.births + 1
	defer func() {
		e.local--
		e.floor = floor
		e.depth = depth
		e.panicFrames = e.panicFrames[:np]
		e.obs = e.obs[:nobs]
		if len(e.ulog) > ulogAt {
			e.undoTo(ulogAt)
			ok = false
		}
		if x := recover(); x != nil {
			if p, is := x.(pathEnd); is && (p.kind == "stop" || p.kind == "steps") {
				panic(x)
			}
			ok = false
		}
		e.nInstr += e.steps - steps
		if e.steps >= steps {
			e.steps = steps
		}
	}()
	ret = e.callBody(fn, args, free)
	return ret, true
}
