package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	okReg = iota
	okConst
	okGlobal
)

type Opd struct {
	kind uint8
	idx  int32
	v    Val
	ti   *TI
}

type IOp uint8

const (
	iAlloc IOp = iota
	iBinOp
	iUnNot
	iUnNeg
	iUnXor
	iLoad
	iCall
	iChangeType // also ChangeInterface, no-op conversions
	iConvert
	iMakeIface
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iIndexStr
	iLookup
	iMakeClosure
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iRange
	iSlice
	iStore
	iTypeAssert
	iDefer
	iRunDefers
	iGo
	iUnsupported
	iSliceToArrPtr
	iNop
	iSliceToArr
	// terminators
	iJump
	iIf
	iReturn
	iPanic
)

type Instr struct {
	op      IOp
	tok     token.Token
	dst     int32
	a, b, c Opd
	d       Opd
	args    []Opd
	ti      *TI // result type, or element type
	ti2     *TI
	n, m    int
	flag    bool
	call    *callInfo
	s       string
	pos     token.Pos
	site    int
}

type callInfo struct {
	static  *Fn
	builtin string
	invoke  bool
	method  string
	mpkg    *types.Package
	fv      Opd
	nargs   int
	ti      *TI
	argTIs  []*TI
}

type Phi struct {
	dst int32
	ops []Opd
}

type Block struct {
	idx    int
	phis   []Phi
	ins    []Instr
	succs  [2]*Block
	pidx   [2]int // index of this edge in the preds of the successor
	ipdom  *Block // nil: none
	exitPD bool   // post dominated by the virtual exit only
	sb     *ssa.BasicBlock
	domRegs []int32 // registers defined in blocks dominating this one (lazy)
	domOnce sync.Once
	isPanic bool
}

type Fn struct {
	id       int
	sf       *ssa.Function
	name     string
	pkg      string
	once     sync.Once
	blocks   []*Block
	nregs    int
	nparams  int
	regTI    []*TI
	regBlk   []int32 // defining block of the register, -1 for params
	hasDefer bool
	recover  *Block
	intr     intrinsic
	repo     bool
	harness  bool
	resTI    []*TI
	pr       *Prog
	noMerge  bool
	lookup   bool // pure lookup: see tabulate
}

func (pr *Prog) fn(f *ssa.Function) *Fn {
	if x, ok := pr.fns.Load(f); ok {
		return x.(*Fn)
	}
	pr.fmu.Lock()
	defer pr.fmu.Unlock()
	if x, ok := pr.fns.Load(f); ok {
		return x.(*Fn)
	}
	pr.nfn++
	fn := &Fn{id: pr.nfn, sf: f, name: f.String(), pr: pr}
	if f.Pkg != nil {
		fn.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		fn.pkg = o.Pkg().Path()
	}
	if f.Origin() != nil {
		fn.intr = intrinsics[f.Origin().String()]
	}
	if f.Synthetic == "package initializer" {
		fn.intr = nop
	}
	fn.repo = strings.HasPrefix(fn.pkg, "github.com/benoitkugler/textprocessing")
	if fn.intr == nil {
		fn.intr = intrinsics[fn.name]
	}
	if fn.intr == nil && fn.repo && f.Signature.Recv() == nil {
		fn.intr = harnessIntrinsics[f.Name()]
	}
	fn.lookup = isLookup(fn)
	pr.fns.Store(f, fn)
	return fn
}

func (fn *Fn) ensure() {
	fn.once.Do(fn.compile)
}

func zeroConst(t types.Type) Val { return Val{} }

func (pr *Prog) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Val{}
	}
	ti := pr.ti(c.Type())
	if ti.isStr {
		if c.Value.Kind() == constant.String {
			return vString(constant.StringVal(c.Value))
		}
		x, _ := constant.Int64Val(c.Value)
		return vString(string(rune(x)))
	}
	if ti.w == wNone {
		panic(engineErr("constant of type " + c.Type().String()))
	}
	if ti.w == 0 {
		return vBoolean(constant.BoolVal(c.Value))
	}
	if ti.float {
		if ti.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return Val{c: uint64(math.Float32bits(f))}
		}
		f, _ := constant.Float64Val(c.Value)
		return Val{c: math.Float64bits(f)}
	}
	v := constant.ToInt(c.Value)
	if x, ok := constant.Int64Val(v); ok {
		return Val{c: uint64(x) & mask(ti.w)}
	}
	x, _ := constant.Uint64Val(v)
	return Val{c: x & mask(ti.w)}
}

func (fn *Fn) compile() {
	pr := fn.pr
	f := fn.sf
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if len(f.Blocks) == 0 {
		return
	}
	regs := map[ssa.Value]int32{}
	addReg := func(v ssa.Value, blk int) {
		regs[v] = int32(fn.nregs)
		fn.nregs++
		fn.regTI = append(fn.regTI, pr.ti(v.Type()))
		fn.regBlk = append(fn.regBlk, int32(blk))
	}
	for _, p := range f.Params {
		addReg(p, -1)
	}
	fn.nparams = len(f.Params)
	for _, p := range f.FreeVars {
		addReg(p, -1)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				addReg(v, b.Index)
			}
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fn.resTI = append(fn.resTI, pr.ti(res.At(i).Type()))
	}
	opd := func(v ssa.Value) Opd {
		if v == nil {
			return Opd{kind: okConst}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return Opd{kind: okConst, v: pr.constVal(v), ti: pr.ti(v.Type())}
		case *ssa.Global:
			return Opd{kind: okGlobal, idx: int32(pr.globalIndex(v)), ti: pr.ti(v.Type())}
		case *ssa.Function:
			return Opd{kind: okConst, v: Val{p: &Closure{fn: pr.fn(v)}}, ti: pr.ti(v.Type())}
		case *ssa.Builtin:
			return Opd{kind: okConst}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, f))
		}
		return Opd{kind: okReg, idx: r, ti: fn.regTI[r]}
	}
	fn.blocks = make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		fn.blocks[i] = &Block{idx: i, sb: b}
	}
	seenEdge := map[[2]int]int{}
	for i, b := range f.Blocks {
		blk := fn.blocks[i]
		for k, s := range b.Succs {
			if k < 2 {
				blk.succs[k] = fn.blocks[s.Index]
				// nth occurrence of b in s.Preds
				nth := seenEdge[[2]int{i, s.Index}]
				seenEdge[[2]int{i, s.Index}]++
				for pi, p := range s.Preds {
					if p == b {
						if nth == 0 {
							blk.pidx[k] = pi
							break
						}
						nth--
					}
				}
			}
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := Phi{dst: regs[p]}
				for _, e := range p.Edges {
					ph.ops = append(ph.ops, opd(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			blk.ins = append(blk.ins, fn.compileInstr(in, regs, opd))
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			blk.isPanic = true
		}
	}
	if f.Recover != nil {
		fn.recover = fn.blocks[f.Recover.Index]
	}
	fn.postdom()
}

func (fn *Fn) compileInstr(in ssa.Instruction, regs map[ssa.Value]int32, opd func(ssa.Value) Opd) Instr {
	pr := fn.pr
	r := Instr{dst: -1, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		r.dst = regs[v]
		r.ti = pr.ti(v.Type())
	}
	unsup := func(msg string) {
		r.op = iUnsupported
		r.s = msg
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.ti = pr.ti(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		r.op = iBinOp
		r.tok = in.Op
		r.a, r.b = opd(in.X), opd(in.Y)
		r.ti2 = pr.ti(in.X.Type())
		// comparisons between interface and concrete values
		if ty := pr.ti(in.Y.Type()); ty.isIfc && !r.ti2.isIfc {
			r.flag = true
		}
	case *ssa.UnOp:
		r.a = opd(in.X)
		switch in.Op {
		case token.NOT:
			r.op = iUnNot
		case token.SUB:
			r.op = iUnNeg
		case token.XOR:
			r.op = iUnXor
		case token.MUL:
			r.op = iLoad
		default:
			unsup("unop " + in.Op.String())
		}
	case *ssa.Call:
		r.op = iCall
		fn.compileCall(&r, in.Common(), opd)
	case *ssa.Defer:
		r.op = iDefer
		fn.hasDefer = true
		fn.compileCall(&r, in.Common(), opd)
	case *ssa.Go:
		unsup("go statement")
	case *ssa.ChangeInterface:
		r.op = iChangeType
		r.a = opd(in.X)
	case *ssa.ChangeType:
		r.op = iChangeType
		r.a = opd(in.X)
	case *ssa.Convert:
		r.op = iConvert
		r.a = opd(in.X)
		r.ti2 = pr.ti(in.X.Type())
	case *ssa.MultiConvert:
		r.op = iConvert
		r.a = opd(in.X)
		r.ti2 = pr.ti(in.X.Type())
	case *ssa.MakeInterface:
		r.op = iMakeIface
		r.a = opd(in.X)
		r.ti2 = pr.ti(in.X.Type())
	case *ssa.Extract:
		r.op = iExtract
		r.a = opd(in.Tuple)
		r.n = in.Index
	case *ssa.Field:
		r.op = iField
		r.a = opd(in.X)
		st := pr.ti(in.X.Type())
		r.n = st.offs[in.Field]
		r.ti2 = st
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.a = opd(in.X)
		st := pr.ti(in.X.Type().Underlying().(*types.Pointer).Elem())
		r.n = st.offs[in.Field]
	case *ssa.Index:
		r.a, r.b = opd(in.X), opd(in.Index)
		st := pr.ti(in.X.Type())
		if st.isStr {
			r.op = iIndexStr
		} else if st.elem != nil {
			r.op = iIndex
			r.n = st.n
			r.ti2 = st.elem
		} else {
			unsup("index of type parameter")
		}
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.a, r.b = opd(in.X), opd(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			r.ti2 = pr.ti(u.Elem())
			r.flag = true
		case *types.Pointer:
			arr := pr.ti(u.Elem())
			r.ti2 = arr.elem
			r.n = arr.n
		default:
			unsup("indexaddr")
		}
	case *ssa.Lookup:
		r.a, r.b = opd(in.X), opd(in.Index)
		if pr.ti(in.X.Type()).isStr {
			r.op = iIndexStr
		} else {
			r.op = iLookup
			m := in.X.Type().Underlying().(*types.Map)
			r.ti2 = pr.ti(m.Key())
			r.ti = pr.ti(m.Elem())
			r.flag = in.CommaOk
		}
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		f := pr.fn(in.Fn.(*ssa.Function))
		r.a = Opd{kind: okConst, v: Val{p: &Closure{fn: f}}}
		for _, b := range in.Bindings {
			r.args = append(r.args, opd(b))
		}
	case *ssa.MakeMap:
		r.op = iMakeMap
	case *ssa.MakeSlice:
		r.op = iMakeSlice
		r.a, r.b = opd(in.Len), opd(in.Cap)
		r.ti2 = pr.ti(in.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.a, r.b, r.c = opd(in.Map), opd(in.Key), opd(in.Value)
		r.ti2 = pr.ti(in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Next:
		r.op = iNext
		r.a = opd(in.Iter)
		r.flag = in.IsString
	case *ssa.Range:
		r.op = iRange
		r.a = opd(in.X)
		r.flag = pr.ti(in.X.Type()).isStr
	case *ssa.Slice:
		r.op = iSlice
		r.a, r.b, r.c, r.d = opd(in.X), opd(in.Low), opd(in.High), opd(in.Max)
		r.n = 0
		if in.Low != nil {
			r.n |= 1
		}
		if in.High != nil {
			r.n |= 2
		}
		if in.Max != nil {
			r.n |= 4
		}
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			r.ti2 = pr.ti(u.Elem())
			r.m = 0
		case *types.Pointer:
			arr := pr.ti(u.Elem())
			r.ti2 = arr.elem
			r.m = 1
			r.flag = true
			r.site = arr.n
		default:
			r.m = 2
		}
	case *ssa.SliceToArrayPointer:
		r.op = iSliceToArrPtr
		r.a = opd(in.X)
		r.n = pr.ti(in.Type().Underlying().(*types.Pointer).Elem()).n
	case *ssa.Store:
		r.op = iStore
		r.a, r.b = opd(in.Addr), opd(in.Val)
		r.ti = pr.ti(in.Val.Type())
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.a = opd(in.X)
		r.ti2 = pr.ti(in.AssertedType)
		r.flag = in.CommaOk
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Jump:
		r.op = iJump
	case *ssa.If:
		r.op = iIf
		r.a = opd(in.Cond)
		pr.fmu.Lock()
		r.site = pr.nSites
		pr.nSites++
		pr.fmu.Unlock()
	case *ssa.Return:
		r.op = iReturn
		for _, x := range in.Results {
			r.args = append(r.args, opd(x))
		}
	case *ssa.Panic:
		r.op = iPanic
		r.a = opd(in.X)
	default:
		unsup(fmt.Sprintf("%T", in))
	}
	return r
}

func (fn *Fn) compileCall(r *Instr, c *ssa.CallCommon, opd func(ssa.Value) Opd) {
	pr := fn.pr
	ci := &callInfo{}
	r.call = ci
	if c.IsInvoke() {
		ci.invoke = true
		ci.method = c.Method.Name()
		ci.mpkg = c.Method.Pkg()
		ci.fv = opd(c.Value)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
			if len(c.Args) > 0 {
				ci.ti = pr.ti(c.Args[0].Type())
			}
			for _, a := range c.Args {
				ci.argTIs = append(ci.argTIs, pr.ti(a.Type()))
			}
		case *ssa.Function:
			ci.static = pr.fn(v)
		default:
			ci.fv = opd(c.Value)
		}
	}
	for _, a := range c.Args {
		r.args = append(r.args, opd(a))
	}
}

// postdom computes the immediate post-dominators, ignoring the blocks ending with a panic.
func (fn *Fn) postdom() {
	n := len(fn.blocks)
	exit := n
	// blocks which can reach the exit without panic
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	for i, b := range fn.blocks {
		if b.isPanic || (fn.recover == b) {
			continue
		}
		ss := b.sb.Succs
		if len(ss) == 0 {
			succs[i] = append(succs[i], exit)
			preds[exit] = append(preds[exit], i)
			continue
		}
		for _, s := range ss {
			succs[i] = append(succs[i], s.Index)
			preds[s.Index] = append(preds[s.Index], i)
		}
	}
	can := make([]bool, n+1)
	var order []int // reverse postorder on the reversed graph
	var dfs func(i int)
	dfs = func(i int) {
		if can[i] {
			return
		}
		can[i] = true
		for _, p := range preds[i] {
			dfs(p)
		}
		order = append(order, i)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i, b := range order {
		num[b] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			b := order[k]
			if b == exit {
				continue
			}
			nd := -1
			for _, s := range succs[b] {
				if !can[s] || idom[s] == -1 {
					continue
				}
				if nd == -1 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd != -1 && idom[b] != nd {
				idom[b] = nd
				changed = true
			}
		}
	}
	for i, b := range fn.blocks {
		if !can[i] || idom[i] == -1 {
			continue
		}
		if idom[i] == exit {
			b.exitPD = true
		} else {
			b.ipdom = fn.blocks[idom[i]]
		}
	}
}

// domRegsOf returns the registers whose definition dominates b
func (fn *Fn) domRegsOf(b *Block) []int32 {
	b.domOnce.Do(func() {
		for r, bi := range fn.regBlk {
			if bi >= 0 && fn.blocks[bi].sb.Dominates(b.sb) {
				b.domRegs = append(b.domRegs, int32(r))
			}
		}
	})
	return b.domRegs
}
