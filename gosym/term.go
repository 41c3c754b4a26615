package main

// Hash-consed bit-vector / boolean terms.
//
// A term over a single small-domain input variable is always stored as a
// table ("Tab") giving its value for every element of the domain of this
// variable; any other term is a DAG node.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpInvalid Op = iota
	OpConst
	OpVar // large-domain variable
	OpTab // function of one small-domain variable, as a table
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpNot // bitwise / boolean
	OpZext
	OpSext
	OpTrunc
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	// floats, operating on the IEEE bits, width 32 or 64
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpSIToF // signed int (width of a) to float of width w
	OpUIToF
	OpFToSI // float to signed int of width w
	OpFToUI
	OpFToF // float width conversion
	OpFFloor
	OpFCeil
	OpFTrunc
	OpFRound // halves away from zero
)

var opNames = [...]string{"?", "const", "var", "tab", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvnot", "zext", "sext", "trunc", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"fp.add", "fp.sub", "fp.mul", "fp.div", "fp.lt", "fp.leq", "fp.eq", "si2f", "ui2f", "f2si", "f2ui", "f2f", "floor", "ceil", "trunc", "round"}

// Var is an input variable.
type Var struct {
	id    int
	idx   int // call index
	name  string
	lo    int64
	n     int // size of the domain when small, else 0
	bits  int // number of bits used in the SMT encoding
	hi    int64
	ident *Term // the 64 bit term for the value of this variable
	decl  bool
	rng   *Term
}

func (v *Var) bit() uint64 {
	if v.idx >= 63 {
		return 1 << 63
	}
	return 1 << v.idx
}

type Term struct {
	id      int32
	op      Op
	w       uint8 // 0: boolean
	a, b, c *Term
	k       uint64 // constant
	v       *Var   // OpVar and OpTab
	tab     []uint64
	emitted bool // define-fun already sent
	evGen   uint32
	ev      uint64
	fp      bool // contains a float operation
	multi   bool // depends on something else than one small variable
	size    int32
	vs      uint64 // variables (bit idx, 63 for the last ones)
	iv      ival
	ivDone  bool
}

func (t *Term) isConst() bool { return t.op == OpConst }

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermTable struct {
	cons   map[tkey]*Term
	tabs   map[uint64][]*Term
	nextID int32
	true_  *Term
	false_ *Term
	evGen  uint32
	vars   map[string]*Var
	nvars  int
	smalls []*Var // small variables, index = position
}

func newTermTable() *TermTable {
	tt := &TermTable{cons: map[tkey]*Term{}, tabs: map[uint64][]*Term{}, vars: map[string]*Var{}}
	tt.true_ = tt.constant(0, 1)
	tt.false_ = tt.constant(0, 0)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op: op, w: w, k: k, a: -1, b: -1, c: -1}
	size := int32(1)
	if a != nil {
		key.a = a.id
		size += a.size
	}
	if b != nil {
		key.b = b.id
		size += b.size
	}
	if c != nil {
		key.c = c.id
		size += c.size
	}
	if size > 1<<28 {
		size = 1 << 28
	}
	if t, ok := tt.cons[key]; ok {
		return t
	}
	tt.nextID++
	t := &Term{id: tt.nextID, op: op, w: w, a: a, b: b, c: c, k: k, size: size}
	if a != nil {
		t.vs |= a.vs
	}
	if b != nil {
		t.vs |= b.vs
	}
	if c != nil {
		t.vs |= c.vs
	}
	t.multi = op != OpConst
	t.fp = op >= OpFAdd && op <= OpFRound || a != nil && a.fp || b != nil && b.fp || c != nil && c.fp
	tt.cons[key] = t
	return t
}

func (tt *TermTable) constant(w uint8, k uint64) *Term {
	return tt.mk(OpConst, w, nil, nil, nil, k&mask(w))
}

func (tt *TermTable) boolean(b bool) *Term {
	if b {
		return tt.true_
	}
	return tt.false_
}

const smallDomain = 1200

func (tt *TermTable) variable(idx int, lo, hi int64) *Var {
	name := fmt.Sprintf("v%d_%d_%d", idx, lo, hi)
	name = strings.ReplaceAll(name, "-", "m")
	if v, ok := tt.vars[name]; ok {
		return v
	}
	v := &Var{id: tt.nvars, idx: idx, name: name, lo: lo, hi: hi}
	tt.nvars++
	tt.vars[name] = v
	span := uint64(hi) - uint64(lo)
	if span < smallDomain {
		v.n = int(span) + 1
		v.bits = bits.Len64(span)
		if v.bits == 0 {
			v.bits = 1
		}
		tab := make([]uint64, v.n)
		for i := range tab {
			tab[i] = uint64(lo + int64(i))
		}
		v.ident = tt.mkTab(64, v, tab)
		if v.ident.isConst() { // singleton
			v.n = 1
		}
		if v.n != 1<<v.bits {
			// range constraint, emitted specially
			v.rng = nil
		}
	} else {
		// the variable is the offset from lo
		v.bits = bits.Len64(span)
		w := uint8(v.bits)
		t := tt.mk(OpVar, w, nil, nil, nil, uint64(v.id))
		t.v = v
		t.vs = v.bit()
		v.ident = tt.op2(OpAdd, tt.op1(OpZext, 64, t), tt.constant(64, uint64(lo)))
		if span != mask(w) {
			v.rng = tt.op2(OpUle, t, tt.constant(w, span))
		}
	}
	return v
}

func hashTab(w uint8, v *Var, tab []uint64) uint64 {
	h := uint64(14695981039346656037) ^ uint64(w)<<32 ^ uint64(v.id)
	for _, x := range tab {
		h = (h ^ x) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (tt *TermTable) mkTab(w uint8, v *Var, tab []uint64) *Term {
	m := mask(w)
	same := true
	for i := range tab {
		tab[i] &= m
		if tab[i] != tab[0] {
			same = false
		}
	}
	if same {
		return tt.constant(w, tab[0])
	}
	h := hashTab(w, v, tab)
outer:
	for _, t := range tt.tabs[h] {
		if t.w != w || t.v != v {
			continue
		}
		for i, x := range t.tab {
			if tab[i] != x {
				continue outer
			}
		}
		return t
	}
	tt.nextID++
	t := &Term{id: tt.nextID, op: OpTab, w: w, v: v, tab: tab, size: 1, vs: v.bit()}
	tt.tabs[h] = append(tt.tabs[h], t)
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f2bits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func bits2f(b uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

// evalOp computes op on constants. aw is the width of the first argument.
func evalOp(op Op, w, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m
	case OpNot:
		return ^a & m
	case OpZext, OpTrunc:
		return a & m
	case OpSext:
		return uint64(sext64(a, aw)) & m
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OpSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		if w == 32 {
			x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
			var r float32
			switch op {
			case OpFAdd:
				r = x + y
			case OpFSub:
				r = x - y
			case OpFMul:
				r = x * y
			default:
				r = x / y
			}
			return uint64(math.Float32bits(r))
		}
		x, y := math.Float64frombits(a), math.Float64frombits(b)
		var r float64
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		default:
			r = x / y
		}
		return math.Float64bits(r)
	case OpFLt:
		return b2u(bits2f(a, aw) < bits2f(b, aw))
	case OpFLe:
		return b2u(bits2f(a, aw) <= bits2f(b, aw))
	case OpFEq:
		return b2u(bits2f(a, aw) == bits2f(b, aw))
	case OpSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext64(a, aw))))
		}
		return math.Float64bits(float64(sext64(a, aw)))
	case OpUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OpFToSI:
		if w <= 32 {
			return uint64(int32(bits2f(a, aw))) & m
		}
		return uint64(int64(bits2f(a, aw))) & m
	case OpFToUI:
		return uint64(bits2f(a, aw)) & m
	case OpFToF:
		return f2bits(bits2f(a, aw), w)
	case OpFFloor:
		return f2bits(math.Floor(bits2f(a, aw)), w)
	case OpFCeil:
		return f2bits(math.Ceil(bits2f(a, aw)), w)
	case OpFTrunc:
		return f2bits(math.Trunc(bits2f(a, aw)), w)
	case OpFRound:
		return f2bits(math.Round(bits2f(a, aw)), w)
	}
	panic("evalOp " + strconv.Itoa(int(op)))
}

func isCmp(op Op) bool {
	switch op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle, OpFLt, OpFLe, OpFEq:
		return true
	}
	return false
}

func (t *Term) singleVar() *Var {
	if t.op == OpTab {
		return t.v
	}
	return nil
}

// leaf ite: ite whose two arms are constants, or nested such with small depth
func constIte(t *Term, depth int) bool {
	if t.op == OpConst {
		return true
	}
	if t.op != OpIte || depth == 0 {
		return false
	}
	return constIte(t.b, depth-1) && constIte(t.c, depth-1)
}

func (tt *TermTable) op1(op Op, w uint8, a *Term) *Term {
	if a.op == OpConst {
		return tt.constant(w, evalOp(op, w, a.w, a.k, 0, 0))
	}
	if (op == OpZext || op == OpSext || op == OpTrunc) && a.w == w {
		return a
	}
	if a.op == OpTab {
		tab := make([]uint64, len(a.tab))
		for i, x := range a.tab {
			tab[i] = evalOp(op, w, a.w, x, 0, 0)
		}
		return tt.mkTab(w, a.v, tab)
	}
	switch op {
	case OpNot:
		if a.op == OpNot {
			return a.a
		}
		if w == 0 && a.op == OpIte && (a.b.isConst() || a.c.isConst()) {
			return tt.ite(a.a, tt.not(a.b), tt.not(a.c))
		}
	case OpZext, OpSext, OpTrunc, OpSIToF, OpFToSI, OpFToF, OpUIToF, OpFToUI, OpFFloor, OpFCeil, OpFTrunc, OpFRound:
		if constIte(a, 6) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.op1(op, w, x) })
		}
		if op == OpTrunc && (a.op == OpZext || a.op == OpSext) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w < w {
				return tt.op1(a.op, w, a.a)
			}
			return tt.op1(OpTrunc, w, a.a)
		}
		if op == OpTrunc {
			if t := tt.truncLin(w, a); t != nil {
				return t
			}
		}
		if op == OpZext && a.op == OpZext {
			return tt.op1(OpZext, w, a.a)
		}
		if op == OpSext && a.op == OpSext {
			return tt.op1(OpSext, w, a.a)
		}
	}
	return tt.mk(op, w, a, nil, nil, 0)
}

func (tt *TermTable) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OpConst {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := tt.ite(t.a, rec(t.b), rec(t.c))
		memo[t] = r
		return r
	}
	return rec(t)
}

func (tt *TermTable) op2(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	if isCmp(op) {
		rw = 0
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.constant(rw, evalOp(op, rw, a.w, a.k, b.k, 0))
	}
	if op == OpShl || op == OpLshr || op == OpAshr {
		// b has been normalized to the width of a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in %s", a.w, b.w, opNames[op]))
	}
	// single small variable
	if a.op == OpTab && (b.op == OpConst || b.op == OpTab && b.v == a.v) {
		tab := make([]uint64, len(a.tab))
		for i, x := range a.tab {
			y := b.k
			if b.op == OpTab {
				y = b.tab[i]
			}
			tab[i] = evalOp(op, rw, a.w, x, y, 0)
		}
		return tt.mkTab(rw, a.v, tab)
	}
	if a.op == OpConst && b.op == OpTab {
		tab := make([]uint64, len(b.tab))
		for i, y := range b.tab {
			tab[i] = evalOp(op, rw, a.w, a.k, y, 0)
		}
		return tt.mkTab(rw, b.v, tab)
	}
	switch op {
	case OpAdd, OpOr, OpXor, OpMul, OpAnd, OpEq, OpFEq:
		if b.op == OpConst || (a.op != OpConst && a.id > b.id) {
			// canonical order: smaller id first, constants second
			if a.op == OpConst {
				a, b = b, a
			} else if b.op != OpConst {
				a, b = b, a
			}
		} else if a.op == OpConst {
			a, b = b, a
		}
	}
	if a == b {
		switch op {
		case OpSub, OpXor:
			return tt.constant(rw, 0)
		case OpAnd, OpOr:
			return a
		case OpEq, OpUle, OpSle:
			return tt.true_
		case OpUlt, OpSlt:
			return tt.false_
		}
	}
	if b.op == OpConst {
		switch op {
		case OpAdd, OpSub, OpOr, OpXor, OpShl, OpLshr, OpAshr:
			if b.k == 0 {
				return a
			}
			if op == OpOr && b.k == mask(w) {
				return b
			}
			if op == OpXor && w == 0 {
				return tt.not(a)
			}
			if op == OpSub {
				return tt.op2(OpAdd, a, tt.constant(w, -b.k))
			}
			if op == OpAdd && a.op == OpAdd && a.b.op == OpConst {
				return tt.op2(OpAdd, a.a, tt.constant(w, a.b.k+b.k))
			}
		case OpAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OpUDiv, OpSDiv:
			if b.k == 1 {
				return a
			}
		case OpEq:
			if w == 0 {
				if b.k == 1 {
					return a
				}
				return tt.not(a)
			}
			if a.op == OpZext {
				if b.k > mask(a.a.w) {
					return tt.false_
				}
				return tt.op2(OpEq, a.a, tt.constant(a.a.w, b.k))
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return tt.op2(OpEq, a.a, tt.constant(w, b.k-a.b.k))
			}
		case OpUlt:
			if b.k == 0 {
				return tt.false_
			}
		}
		if constIte(a, 8) || (a.op == OpIte && (a.b.isConst() || a.c.isConst()) && isCmp(op)) {
			return tt.pushIte(op, a, b, false)
		}
	} else if a.op == OpConst {
		if constIte(b, 8) || (b.op == OpIte && (b.b.isConst() || b.c.isConst()) && isCmp(op)) {
			return tt.pushIte(op, b, a, true)
		}
		switch op {
		case OpUle:
			if a.k == 0 {
				return tt.true_
			}
		case OpShl, OpLshr, OpUDiv, OpURem:
			if a.k == 0 && op != OpUDiv && op != OpURem {
				return a
			}
		}
	}
	if w > 0 && op <= OpURem || op >= OpEq && op <= OpSle && w > 0 {
		if t := tt.linOp(op, a, b); t != nil {
			return t
		}
	}
	if w == 0 && (op == OpAnd || op == OpOr) {
		// absorption of negation
		if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
			return tt.boolean(op == OpOr)
		}
	}
	return tt.mk(op, rw, a, b, nil, 0)
}

func (tt *TermTable) pushIte(op Op, t, k *Term, swap bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t.op != OpIte || d == 0 {
			if swap {
				return tt.op2(op, k, t)
			}
			return tt.op2(op, t, k)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := tt.ite(t.a, rec(t.b, d-1), rec(t.c, d-1))
		memo[t] = r
		return r
	}
	return rec(t, 64)
}

func (tt *TermTable) not(a *Term) *Term    { return tt.op1(OpNot, 0, a) }
func (tt *TermTable) and(a, b *Term) *Term { return tt.op2(OpAnd, a, b) }
func (tt *TermTable) or(a, b *Term) *Term  { return tt.op2(OpOr, a, b) }

func (tt *TermTable) ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("ite width mismatch")
	}
	if c.op == OpTab {
		v := c.v
		if (a.op == OpConst || a.op == OpTab && a.v == v) && (b.op == OpConst || b.op == OpTab && b.v == v) {
			tab := make([]uint64, len(c.tab))
			for i, x := range c.tab {
				s := b
				if x != 0 {
					s = a
				}
				if s.op == OpConst {
					tab[i] = s.k
				} else {
					tab[i] = s.tab[i]
				}
			}
			return tt.mkTab(a.w, v, tab)
		}
	}
	if c.op == OpNot {
		return tt.ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OpConst && b.op == OpConst {
			if a.k == 1 {
				return c
			}
			return tt.not(c)
		}
		if a.op == OpConst {
			if a.k == 1 {
				return tt.or(c, b)
			}
			return tt.and(tt.not(c), b)
		}
		if b.op == OpConst {
			if b.k == 1 {
				return tt.or(tt.not(c), a)
			}
			return tt.and(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		return tt.ite(c, a.b, b)
	}
	if b.op == OpIte && b.a == c {
		return tt.ite(c, a, b.c)
	}
	// ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
	if b.op == OpIte && b.b == a {
		return tt.ite(tt.or(c, b.a), a, b.c)
	}
	return tt.mk(OpIte, a.w, c, a, b, 0)
}

// Model: values of the variables, indexed by the order of the calls creating them.
type Model struct {
	vals []int64
}

func (m *Model) valueOf(v *Var) int64 {
	if v.idx < len(m.vals) {
		if x := m.vals[v.idx]; x >= v.lo && x <= v.hi {
			return x
		}
	}
	return v.lo
}

func (m *Model) clone() *Model { return &Model{vals: append([]int64(nil), m.vals...)} }

func (tt *TermTable) newEval() { tt.evGen++ }

func (tt *TermTable) eval(t *Term, m *Model) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpTab:
		return t.tab[m.valueOf(t.v)-t.v.lo]
	case OpVar:
		return uint64(m.valueOf(t.v)) - uint64(t.v.lo)
	}
	if t.evGen == tt.evGen {
		return t.ev
	}
	var r uint64
	if t.op == OpIte {
		if tt.eval(t.a, m) != 0 {
			r = tt.eval(t.b, m)
		} else {
			r = tt.eval(t.c, m)
		}
	} else {
		var a, b uint64
		a = tt.eval(t.a, m)
		if t.b != nil {
			b = tt.eval(t.b, m)
		}
		r = evalOp(t.op, t.w, t.a.w, a, b, 0)
	}
	t.evGen = tt.evGen
	t.ev = r
	return r
}

// --- SMT-LIB emission

func bvlit(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func (v *Var) smtTest(r [2]int) string {
	if r[0] == r[1] {
		return fmt.Sprintf("(= %s (_ bv%d %d))", v.name, r[0], v.bits)
	}
	var parts []string
	if r[0] > 0 {
		parts = append(parts, fmt.Sprintf("(bvuge %s (_ bv%d %d))", v.name, r[0], v.bits))
	}
	if r[1] < v.n-1 {
		parts = append(parts, fmt.Sprintf("(bvule %s (_ bv%d %d))", v.name, r[1], v.bits))
	}
	switch len(parts) {
	case 0:
		return "true"
	case 1:
		return parts[0]
	}
	return "(and " + strings.Join(parts, " ") + ")"
}

func (v *Var) smtIn(set func(i int) bool) string {
	var ranges [][2]int
	for i := 0; i < v.n; i++ {
		if !set(i) {
			continue
		}
		if L := len(ranges); L > 0 && ranges[L-1][1] == i-1 {
			ranges[L-1][1] = i
		} else {
			ranges = append(ranges, [2]int{i, i})
		}
	}
	if len(ranges) == 0 {
		return "false"
	}
	if len(ranges) == 1 {
		return v.smtTest(ranges[0])
	}
	var sb strings.Builder
	sb.WriteString("(or")
	for _, r := range ranges {
		sb.WriteByte(' ')
		sb.WriteString(v.smtTest(r))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) tabSMT() string {
	v := t.v
	if t.w == 0 {
		nTrue := 0
		for _, x := range t.tab {
			if x != 0 {
				nTrue++
			}
		}
		if nTrue*2 > len(t.tab) {
			return "(not " + v.smtIn(func(i int) bool { return t.tab[i] == 0 }) + ")"
		}
		return v.smtIn(func(i int) bool { return t.tab[i] != 0 })
	}
	// affine ?
	affine := true
	for i := range t.tab {
		if t.tab[i] != (t.tab[0]+uint64(i))&mask(t.w) {
			affine = false
			break
		}
	}
	if step := t.tab[1] - t.tab[0]; !affine && len(t.tab) > 8 && v.bits <= int(t.w) {
		aff := true
		for i := range t.tab {
			if t.tab[i] != (t.tab[0]+uint64(i)*step)&mask(t.w) {
				aff = false
				break
			}
		}
		if aff {
			z := v.name
			if d := int(t.w) - v.bits; d > 0 {
				z = fmt.Sprintf("((_ zero_extend %d) %s)", d, v.name)
			}
			return fmt.Sprintf("(bvadd (bvmul %s %s) %s)", z, bvlit(t.w, step&mask(t.w)), bvlit(t.w, t.tab[0]))
		}
	}
	if affine && v.bits <= int(t.w) {
		z := v.name
		if d := int(t.w) - v.bits; d > 0 {
			z = fmt.Sprintf("((_ zero_extend %d) %s)", d, v.name)
		}
		if t.tab[0] == 0 {
			return z
		}
		return fmt.Sprintf("(bvadd %s %s)", z, bvlit(t.w, t.tab[0]))
	}
	// ite chain grouped by value
	groups := map[uint64][]int{}
	var order []uint64
	for i, x := range t.tab {
		if _, ok := groups[x]; !ok {
			order = append(order, x)
		}
		groups[x] = append(groups[x], i)
	}
	// most frequent value last
	sort.SliceStable(order, func(i, j int) bool { return len(groups[order[i]]) < len(groups[order[j]]) })
	var sb strings.Builder
	for _, x := range order[:len(order)-1] {
		xx := x
		sb.WriteString("(ite ")
		sb.WriteString(v.smtIn(func(i int) bool { return t.tab[i] == xx }))
		sb.WriteByte(' ')
		sb.WriteString(bvlit(t.w, x))
		sb.WriteByte(' ')
	}
	sb.WriteString(bvlit(t.w, order[len(order)-1]))
	sb.WriteString(strings.Repeat(")", len(order)-1))
	return sb.String()
}

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) ref() string {
	if t.op == OpConst {
		return bvlit(t.w, t.k)
	}
	if t.op == OpVar {
		return t.v.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

// body returns the definition of t in terms of references
func (t *Term) body() string {
	switch t.op {
	case OpTab:
		return t.tabSMT()
	case OpNot:
		if t.w == 0 {
			return "(not " + t.a.ref() + ")"
		}
		return "(bvnot " + t.a.ref() + ")"
	case OpAnd, OpOr, OpXor:
		if t.w == 0 {
			return "(" + map[Op]string{OpAnd: "and", OpOr: "or", OpXor: "xor"}[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
		}
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	case OpIte:
		return "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		s := fpSort(t.w)
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE ((_ to_fp %s) %s) ((_ to_fp %s) %s)))", opNames[t.op], s, t.a.ref(), s, t.b.ref())
	case OpFLt, OpFLe, OpFEq:
		s := fpSort(t.a.w)
		return fmt.Sprintf("(%s ((_ to_fp %s) %s) ((_ to_fp %s) %s))", opNames[t.op], s, t.a.ref(), s, t.b.ref())
	case OpSIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OpUIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OpFToSI:
		// out of range, the result is the one of the machine
		cw := t.w
		if cw < 32 {
			cw = 32
		}
		x := fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.a.w), t.a.ref())
		lim := func(v float64) string {
			return fmt.Sprintf("((_ to_fp %s) (_ bv%d %d))", fpSort(t.a.w), f2bits(v, t.a.w), t.a.w)
		}
		m := math.Ldexp(1, int(cw)-1)
		r := fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv %d) RTZ %s) (_ bv%d %d))",
			lim(-m), x, x, lim(m), cw, x, uint64(1)<<(cw-1), cw)
		if t.w < cw {
			r = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, r)
		}
		return r
	case OpFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ ((_ to_fp %s) %s))", t.w, fpSort(t.a.w), t.a.ref())
	case OpFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE ((_ to_fp %s) %s)))", fpSort(t.w), fpSort(t.a.w), t.a.ref())
	case OpFFloor, OpFCeil, OpFTrunc, OpFRound:
		mode := map[Op]string{OpFFloor: "RTN", OpFCeil: "RTP", OpFTrunc: "RTZ", OpFRound: "RNA"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s ((_ to_fp %s) %s)))", mode, fpSort(t.w), t.a.ref())
	}
	return "(" + opNames[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
}
