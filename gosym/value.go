package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is a value of the interpreted program. The zero Val is the zero value
// of every type. Scalars: c (concrete) or p = *Term. See below for the others.
type Val struct {
	c uint64
	p any
}

type (
	// Agg is a struct or array value, flattened.
	Agg []Val
	// Tuple is a multiple result
	Tuple []Val
	// Obj is a memory object; a pointer is (p: *Obj, c: offset)
	Obj struct {
		cells []Val
		birth int64
		ws    []uint8
		gid   int32 // global: index + 1
	}
	// PtrSel is a pointer among objects of the initial state: t is its number
	// (see Exec.stableID)
	PtrSel struct{ t *Term }
	// SymPtr is a pointer with a symbolic offset
	SymPtr struct {
		o     *Obj
		off   *Term // 64 bits
		cands []int32
	}
	SliceV struct {
		o             *Obj
		off, len, cap int
		esz           int
	}
	SymStr struct{ b []Val }
	Iface  struct {
		ti *TI
		v  Val
	}
	Closure struct {
		fn     *Fn
		free   []Val
		native func(ex *Exec, args []Val) Val
	}
	MapObj struct {
		d     *mapData
		birth int64
	}
	mapEnt struct {
		k, v Val
		dead bool
		sym  bool
	}
	mapData struct {
		ents  []mapEnt
		idx   map[any]int
		n     int // live entries
		nsym  int
		epoch int64
	}
	ptrKey struct {
		o   *Obj
		off uint64
	}
	ifaceKey struct {
		t int
		k any
	}
	poisonT struct{}
	// Iter is a range iterator, the position lives in pos.cells[0]
	Iter struct {
		pos   *Obj
		str   Val
		m     *mapData
		order []int
		isStr bool
	}
	TypeVal struct{ t types.Type }
)

var poison = &poisonT{}

const wNone = 255

type TI struct {
	t      types.Type
	under  types.Type
	id     int
	cells  int
	agg    bool
	w      uint8 // 0 bool, wNone: not a scalar
	signed bool
	float  bool
	isStr  bool
	isIfc  bool
	isMap  bool
	isSlc  bool
	fields []*TI
	offs   []int
	elem   *TI
	n      int
	ws     []uint8 // width of the cells (aggregates)
}

// shared, immutable program information
type Prog struct {
	prog *ssa.Program
	mu   sync.Mutex
	tmap typeutil.Map
	tptr sync.Map // types.Type -> *TI
	nti  int
	fns  sync.Map // *ssa.Function -> *Fn
	fmu  sync.Mutex
	glob map[*ssa.Global]int
	gl   []*ssa.Global
	impl sync.Map // [2]int -> bool
	meth sync.Map // methKey -> *Fn
	nfn  int
	nSites int
	hasher typeutil.Hasher
}

type methKey struct {
	ti   int
	name string
	pkg  *types.Package
}

func newProg(p *ssa.Program) *Prog {
	return &Prog{prog: p, glob: map[*ssa.Global]int{}}
}

func (pr *Prog) ti(t types.Type) *TI {
	if x, ok := pr.tptr.Load(t); ok {
		return x.(*TI)
	}
	pr.mu.Lock()
	defer pr.mu.Unlock()
	return pr.tiLocked(t)
}

func (pr *Prog) tiLocked(t types.Type) *TI {
	if x := pr.tmap.At(t); x != nil {
		pr.tptr.Store(t, x)
		return x.(*TI)
	}
	ti := &TI{t: t, cells: 1, w: wNone}
	pr.nti++
	ti.id = pr.nti
	u := t.Underlying()
	ti.under = u
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.w = 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.w, ti.signed = 64, true
		case types.Int8:
			ti.w, ti.signed = 8, true
		case types.Int16:
			ti.w, ti.signed = 16, true
		case types.Int32, types.UntypedRune:
			ti.w, ti.signed = 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.w = 64
		case types.Uint8:
			ti.w = 8
		case types.Uint16:
			ti.w = 16
		case types.Uint32:
			ti.w = 32
		case types.Float32:
			ti.w, ti.float = 32, true
		case types.Float64, types.UntypedFloat:
			ti.w, ti.float = 64, true
		case types.String, types.UntypedString:
			ti.isStr = true
		}
	case *types.Struct:
		ti.agg = true
		ti.cells = 0
		for i := 0; i < u.NumFields(); i++ {
			f := pr.tiLocked(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, ti.cells)
			ti.cells += f.cells
			ti.ws = appendWs(ti.ws, f)
		}
	case *types.Array:
		ti.agg = true
		ti.elem = pr.tiLocked(u.Elem())
		ti.n = int(u.Len())
		ti.cells = ti.n * ti.elem.cells
		if ti.cells < 1<<20 {
			for i := 0; i < ti.n; i++ {
				ti.ws = appendWs(ti.ws, ti.elem)
			}
		}
	case *types.Interface:
		ti.isIfc = true
	case *types.Map:
		ti.isMap = true
	case *types.Slice:
		ti.isSlc = true
	}
	pr.tmap.Set(t, ti)
	pr.tptr.Store(t, ti)
	// elem of slices and pointers can be recursive: resolved lazily by the users
	return ti
}

func appendWs(ws []uint8, f *TI) []uint8 {
	if f.agg {
		return append(ws, f.ws...)
	}
	return append(ws, f.w)
}

func (pr *Prog) implements(ti *TI, ifc *TI) bool {
	key := [2]int{ti.id, ifc.id}
	if x, ok := pr.impl.Load(key); ok {
		return x.(bool)
	}
	r := types.Implements(ti.t, ifc.under.(*types.Interface))
	pr.impl.Store(key, r)
	return r
}

func (pr *Prog) method(ti *TI, pkg *types.Package, name string) *Fn {
	key := methKey{ti.id, name, pkg}
	if x, ok := pr.meth.Load(key); ok {
		return x.(*Fn)
	}
	f := pr.prog.LookupMethod(ti.t, pkg, name)
	if f == nil {
		return nil
	}
	fn := pr.fn(f)
	pr.meth.Store(key, fn)
	return fn
}

func (pr *Prog) globalIndex(g *ssa.Global) int {
	pr.fmu.Lock()
	defer pr.fmu.Unlock()
	if i, ok := pr.glob[g]; ok {
		return i
	}
	i := len(pr.gl)
	pr.glob[g] = i
	pr.gl = append(pr.gl, g)
	return i
}

func vInt64(x int64) Val   { return Val{c: uint64(x)} }
func vBoolean(b bool) Val  { return Val{c: b2u(b)} }
func vString(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: s}
}

func (v Val) term() *Term {
	t, _ := v.p.(*Term)
	return t
}

func (v Val) isSym() bool {
	_, ok := v.p.(*Term)
	return ok
}

func strLen(v Val) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(engineErr(fmt.Sprintf("strLen of %T", v.p)))
}

func strByte(v Val, i int) Val {
	switch s := v.p.(type) {
	case string:
		return Val{c: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(engineErr(fmt.Sprintf("strByte of %T", v.p)))
}

func strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(s))
		for i := range out {
			out[i].c = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(engineErr(fmt.Sprintf("strBytes of %T", v.p)))
}

// mkStr builds a string from bytes, concrete when possible.
func mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	for _, x := range b {
		if x.p != nil {
			return Val{p: &SymStr{b: append([]Val(nil), b...)}}
		}
	}
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x.c)
	}
	return Val{p: string(out)}
}

func strSub(v Val, i, j int) Val {
	switch s := v.p.(type) {
	case nil:
		return Val{}
	case string:
		return vString(s[i:j])
	case *SymStr:
		return mkStr(s.b[i:j])
	}
	panic(engineErr("strSub"))
}

func strConcat(a, b Val) Val {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return Val{p: x + y}
		}
	}
	return mkStr(append(append([]Val(nil), strBytes(a)...), strBytes(b)...))
}

// engine errors: the path cannot be analysed further
type engineError struct{ msg string }

func engineErr(msg string) engineError { return engineError{msg} }
