package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

func (e *Exec) binop(in *Instr, a, b Val) Val {
	ti := in.ti2
	tok := in.tok
	if tok == token.EQL || tok == token.NEQ {
		var r Val
		if ti.w != wNone && a.p == nil && b.p == nil && !ti.float {
			r = vBoolean(a.c == b.c)
		} else {
			if in.flag { // concrete == interface
				a = Val{p: &Iface{ti: ti, v: a}}
				ti = in.b.ti
			} else if ti.isIfc && in.b.ti != nil && !in.b.ti.isIfc && !(in.b.kind == okConst && in.b.v.p == nil && in.b.v.c == 0) {
				b = Val{p: &Iface{ti: in.b.ti, v: b}}
			}
			r = e.equal(ti, a, b)
		}
		if tok == token.NEQ {
			if t := r.term(); t != nil {
				return fromTerm(e.tt.not(t))
			}
			return Val{c: r.c ^ 1}
		}
		return r
	}
	if ti.isStr {
		switch tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return e.strLess(a, b, false)
		case token.LEQ:
			return e.strLess(a, b, true)
		case token.GTR:
			return e.strLess(b, a, false)
		case token.GEQ:
			return e.strLess(b, a, true)
		}
		e.fail("string op %s", tok)
	}
	if ti.w == wNone {
		e.fail("binop %s on %s", tok, ti.t)
	}
	w := ti.w
	if ti.float {
		return e.floatOp(tok, w, a, b)
	}
	if tok == token.SHL || tok == token.SHR {
		return e.shift(in, a, b)
	}
	if (tok == token.QUO || tok == token.REM) && w != 0 {
		if b.p == nil {
			if b.c == 0 {
				e.curPos = in.pos
				e.rtPanic("integer divide by zero")
			}
		} else {
			e.curPos = in.pos
			if e.decide(e.tt.op2(OpEq, e.toTerm(b, w), e.tt.constant(w, 0))) {
				e.rtPanic("integer divide by zero")
			}
		}
	}
	var op Op
	swap, neg := false, false
	switch tok {
	case token.ADD:
		op = OpAdd
	case token.SUB:
		op = OpSub
	case token.MUL:
		op = OpMul
	case token.QUO:
		op = OpUDiv
		if ti.signed {
			op = OpSDiv
		}
	case token.REM:
		op = OpURem
		if ti.signed {
			op = OpSRem
		}
	case token.AND:
		op = OpAnd
	case token.OR:
		op = OpOr
	case token.XOR:
		op = OpXor
	case token.AND_NOT:
		if b.p == nil {
			b = Val{c: ^b.c & mask(w)}
		} else {
			b = fromTerm(e.tt.op1(OpNot, w, b.p.(*Term)))
		}
		op = OpAnd
	case token.LSS, token.GTR:
		op = OpUlt
		if ti.signed {
			op = OpSlt
		}
		swap = tok == token.GTR
	case token.LEQ, token.GEQ:
		op = OpUle
		if ti.signed {
			op = OpSle
		}
		swap = tok == token.GEQ
	default:
		e.fail("binop %s", tok)
	}
	if swap {
		a, b = b, a
	}
	if a.p == nil && b.p == nil {
		// fast paths
		switch op {
		case OpAdd:
			return Val{c: (a.c + b.c) & mask(w)}
		case OpSub:
			return Val{c: (a.c - b.c) & mask(w)}
		case OpSlt:
			return vBoolean(sext64(a.c, w) < sext64(b.c, w))
		case OpSle:
			return vBoolean(sext64(a.c, w) <= sext64(b.c, w))
		case OpUlt:
			return vBoolean(a.c < b.c)
		case OpUle:
			return vBoolean(a.c <= b.c)
		}
		return Val{c: evalOp(op, w, w, a.c, b.c, 0)}
	}
	_ = neg
	return fromTerm(e.tt.op2(op, e.toTerm(a, w), e.toTerm(b, w)))
}

func (e *Exec) floatOp(tok token.Token, w uint8, a, b Val) Val {
	var op Op
	switch tok {
	case token.ADD:
		op = OpFAdd
	case token.SUB:
		op = OpFSub
	case token.MUL:
		op = OpFMul
	case token.QUO:
		op = OpFDiv
	case token.LSS:
		op = OpFLt
	case token.LEQ:
		op = OpFLe
	case token.GTR:
		op = OpFLt
		a, b = b, a
	case token.GEQ:
		op = OpFLe
		a, b = b, a
	default:
		e.fail("float op %s", tok)
	}
	if a.p == nil && b.p == nil {
		return Val{c: evalOp(op, w, w, a.c, b.c, 0)}
	}
	return fromTerm(e.tt.op2(op, e.toTerm(a, w), e.toTerm(b, w)))
}

func (e *Exec) shift(in *Instr, a, b Val) Val {
	ti := in.ti2
	w := ti.w
	bti := in.b.ti
	op := OpShl
	if in.tok == token.SHR {
		op = OpLshr
		if ti.signed {
			op = OpAshr
		}
	}
	if bti != nil && bti.signed {
		if b.p == nil {
			if sext64(b.c, bti.w) < 0 {
				e.rtPanic("negative shift amount")
			}
		} else if e.decide(e.tt.op2(OpSlt, b.p.(*Term), e.tt.constant(bti.w, 0))) {
			e.rtPanic("negative shift amount")
		}
	}
	if a.p == nil && b.p == nil {
		return Val{c: evalOp(op, w, w, a.c, b.c, 0)}
	}
	bw := w
	if bti != nil {
		bw = bti.w
	}
	var bt *Term
	if b.p == nil {
		k := b.c
		if k > uint64(w) {
			k = uint64(w)
		}
		bt = e.tt.constant(w, k)
	} else {
		bt = b.p.(*Term)
		if bw > w {
			big := e.tt.op2(OpUle, e.tt.constant(bw, uint64(w)), bt)
			bt = e.tt.ite(big, e.tt.constant(w, uint64(w)), e.tt.op1(OpTrunc, w, bt))
		} else if bw < w {
			bt = e.tt.op1(OpZext, w, bt)
		}
	}
	return fromTerm(e.tt.op2(op, e.toTerm(a, w), bt))
}

// equal compares two values of type ti
func (e *Exec) equal(ti *TI, a, b Val) Val {
	switch {
	case ti.agg:
		x, _ := a.p.(Agg)
		y, _ := b.p.(Agg)
		sub := func(ag Agg, off int, f *TI) Val {
			if ag == nil {
				return Val{}
			}
			if f.agg {
				if f.cells == 0 {
					return Val{}
				}
				return Val{p: ag[off : off+f.cells]}
			}
			return ag[off]
		}
		acc := vBoolean(true)
		n := len(ti.fields)
		if ti.elem != nil {
			n = ti.n
		}
		for i := 0; i < n; i++ {
			f, off := ti.elem, 0
			if f != nil {
				off = i * f.cells
			} else {
				f, off = ti.fields[i], ti.offs[i]
				if st := ti.under.(*types.Struct); st.Field(i).Name() == "_" {
					continue
				}
			}
			acc = e.boolAnd(acc, e.equal(f, sub(x, off, f), sub(y, off, f)))
			if acc.p == nil && acc.c == 0 {
				return acc
			}
		}
		return acc
	case ti.isStr:
		return e.strEq(a, b)
	case ti.isIfc:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return vBoolean(x == y)
		}
		if x.ti != y.ti {
			return vBoolean(false)
		}
		if !types.Comparable(x.ti.t) {
			e.rtPanic("comparing uncomparable type " + x.ti.t.String())
		}
		return e.equal(x.ti, x.v, y.v)
	case ti.w != wNone:
		if ti.float {
			if a.p == nil && b.p == nil {
				return vBoolean(bits2f(a.c, ti.w) == bits2f(b.c, ti.w))
			}
			return fromTerm(e.tt.op2(OpFEq, e.toTerm(a, ti.w), e.toTerm(b, ti.w)))
		}
		if a.p == nil && b.p == nil {
			return vBoolean(a.c == b.c)
		}
		return fromTerm(e.tt.op2(OpEq, e.toTerm(a, ti.w), e.toTerm(b, ti.w)))
	case ti.isSlc:
		// comparison with nil
		x, _ := a.p.(*SliceV)
		y, _ := b.p.(*SliceV)
		return vBoolean(x == nil && y == nil)
	}
	switch ti.under.(type) {
	case *types.Pointer, *types.Chan, *types.Basic:
		_, s1 := a.p.(*PtrSel)
		_, s2 := b.p.(*PtrSel)
		if s1 || s2 {
			a, b := a, b
			if _, is := a.p.(*SymPtr); is {
				a = e.resolvePtr(a)
			}
			if _, is := b.p.(*SymPtr); is {
				b = e.resolvePtr(b)
			}
			ta, ok1 := e.ptrTerm(a)
			tb, ok2 := e.ptrTerm(b)
			if ok1 && ok2 {
				return fromTerm(e.tt.op2(OpEq, ta, tb))
			}
			return vBoolean(false) // the other one is a new object
		}
		a, b = e.resolvePtr(a), e.resolvePtr(b)
		if a.p == nil || b.p == nil {
			return vBoolean(a.p == nil && b.p == nil)
		}
		return vBoolean(a.p == b.p && a.c == b.c)
	case *types.Map:
		return vBoolean(a.p == nil && b.p == nil)
	case *types.Signature:
		return vBoolean(a.p == nil && b.p == nil)
	}
	e.fail("equality on %s", ti.t)
	return Val{}
}

func (e *Exec) boolAnd(a, b Val) Val {
	if a.p == nil {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.p == nil {
		if b.c == 0 {
			return b
		}
		return a
	}
	return fromTerm(e.tt.and(a.p.(*Term), b.p.(*Term)))
}

func (e *Exec) strEq(a, b Val) Val {
	if x, ok := a.p.(string); ok || a.p == nil {
		if y, ok := b.p.(string); ok || b.p == nil {
			return vBoolean(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return vBoolean(false)
	}
	acc := vBoolean(true)
	for i := 0; i < n; i++ {
		x, y := strByte(a, i), strByte(b, i)
		var r Val
		if x.p == nil && y.p == nil {
			r = vBoolean(x.c == y.c)
		} else {
			r = fromTerm(e.tt.op2(OpEq, e.toTerm(x, 8), e.toTerm(y, 8)))
		}
		acc = e.boolAnd(acc, r)
		if acc.p == nil && acc.c == 0 {
			return acc
		}
	}
	return acc
}

func (e *Exec) strLess(a, b Val, orEq bool) Val {
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if (ok1 || a.p == nil) && (ok2 || b.p == nil) {
		if orEq {
			return vBoolean(x <= y)
		}
		return vBoolean(x < y)
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var acc *Term
	if orEq {
		acc = e.tt.boolean(la <= lb)
	} else {
		acc = e.tt.boolean(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := e.toTerm(strByte(a, i), 8), e.toTerm(strByte(b, i), 8)
		acc = e.tt.or(e.tt.op2(OpUlt, p, q), e.tt.and(e.tt.op2(OpEq, p, q), acc))
	}
	return fromTerm(acc)
}

func (e *Exec) indexStr(s, idx Val, iti *TI) Val {
	n := strLen(s)
	if idx.p == nil {
		i := int64(idx.c)
		if iti != nil && iti.w < 64 && iti.signed {
			i = sext64(idx.c, iti.w)
		}
		if i < 0 || i >= int64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strByte(s, int(i))
	}
	t := e.widen(idx.p.(*Term), iti)
	o := &Obj{cells: strBytes(s), birth: math.MaxInt64}
	p := e.indexPtr(o, 0, nil, Val{p: t}, nil, n, 1)
	return e.load(p, e.pr.u8())
}

var basicTIs sync.Map

func (pr *Prog) basic(k types.BasicKind) *TI { return pr.ti(types.Typ[k]) }
func (pr *Prog) u8() *TI                     { return pr.basic(types.Uint8) }

func (pr *Prog) rtErrTI() *TI { return pr.basic(types.String) }

func (e *Exec) typeAssert(v Val, in *Instr) Val {
	ifc, _ := v.p.(*Iface)
	if v.p != nil && ifc == nil {
		e.fail("type assertion on %T", v.p)
	}
	var ok bool
	var res Val
	if ifc != nil {
		if in.ti2.isIfc {
			ok = e.pr.implements(ifc.ti, in.ti2)
			res = v
		} else {
			ok = ifc.ti == in.ti2
			res = ifc.v
		}
	}
	if in.flag {
		if !ok {
			res = Val{}
		}
		return Val{p: Tuple{res, vBoolean(ok)}}
	}
	if !ok {
		have := "nil"
		if ifc != nil {
			have = ifc.ti.t.String()
		}
		e.rtPanic("interface conversion: interface is " + have + ", not " + in.ti2.t.String())
	}
	return res
}

func (e *Exec) convert(v Val, from, to *TI) Val {
	// numeric
	if from.w != wNone && to.w != wNone && from.w != 0 && to.w != 0 {
		switch {
		case !from.float && !to.float:
			t, _ := v.p.(*Term)
			if t == nil {
				if to.w > from.w && from.signed {
					return Val{c: uint64(sext64(v.c, from.w)) & mask(to.w)}
				}
				return Val{c: v.c & mask(to.w)}
			}
			switch {
			case to.w == from.w:
				return v
			case to.w < from.w:
				return fromTerm(e.tt.op1(OpTrunc, to.w, t))
			case from.signed:
				return fromTerm(e.tt.op1(OpSext, to.w, t))
			default:
				return fromTerm(e.tt.op1(OpZext, to.w, t))
			}
		case from.float && to.float:
			if v.p == nil {
				return Val{c: evalOp(OpFToF, to.w, from.w, v.c, 0, 0)}
			}
			if from.w == to.w {
				return v
			}
			return fromTerm(e.tt.op1(OpFToF, to.w, v.p.(*Term)))
		case to.float:
			op := OpUIToF
			if from.signed {
				op = OpSIToF
			}
			return fromTerm(e.tt.op1(op, to.w, e.toTerm(v, from.w)))
		default:
			if v.p == nil {
				f := bits2f(v.c, from.w)
				var r uint64
				switch {
				case to.signed && to.w == 64:
					r = uint64(int64(f))
				case to.signed && to.w == 32:
					r = uint64(int32(f))
				case to.signed && to.w == 16:
					r = uint64(int16(f))
				case to.signed:
					r = uint64(int8(f))
				case to.w == 64:
					r = uint64(f)
				case to.w == 32:
					r = uint64(uint32(f))
				case to.w == 16:
					r = uint64(uint16(f))
				default:
					r = uint64(uint8(f))
				}
				return Val{c: r & mask(to.w)}
			}
			op := OpFToUI
			if to.signed {
				op = OpFToSI
			}
			return fromTerm(e.tt.op1(op, to.w, v.p.(*Term)))
		}
	}
	// strings
	if to.isStr {
		if from.isStr {
			return v
		}
		if from.w != wNone {
			// rune to string
			if v.p == nil {
				x := int64(v.c)
				if from.signed {
					x = sext64(v.c, from.w)
				}
				if x < 0 || x > utf8.MaxRune {
					x = utf8.RuneError
				}
				return vString(string(rune(x)))
			}
			r := e.convert(v, from, e.pr.basic(types.Int32))
			return mkStr(e.encodeRune(r))
		}
		if sl, ok := from.under.(*types.Slice); ok {
			s, _ := v.p.(*SliceV)
			if s == nil {
				return Val{}
			}
			et := e.pr.ti(sl.Elem())
			if et.w == 8 {
				return mkStr(s.o.cells[s.off : s.off+s.len])
			}
			var out []Val
			for i := 0; i < s.len; i++ {
				out = append(out, e.encodeRune(s.o.cells[s.off+i])...)
			}
			return mkStr(out)
		}
	}
	if from.isStr {
		if sl, ok := to.under.(*types.Slice); ok {
			et := e.pr.ti(sl.Elem())
			if et.w == 8 {
				b := strBytes(v)
				o := e.newObj(len(b))
				copy(o.cells, b)
				return Val{p: &SliceV{o: o, len: len(b), cap: len(b), esz: 1}}
			}
			// []rune
			var out []Val
			for i := 0; i < strLen(v); {
				r, n := e.decodeRune(v, i)
				out = append(out, r)
				i += n
			}
			o := e.newObj(len(out))
			copy(o.cells, out)
			return Val{p: &SliceV{o: o, len: len(out), cap: len(out), esz: 1}}
		}
	}
	// unsafe pointers
	if _, ok := to.under.(*types.Pointer); ok {
		return v
	}
	if b, ok := to.under.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if from.w != wNone && to.w == from.w {
		return v
	}
	e.fail("conversion %s to %s", from.t, to.t)
	return Val{}
}

func (e *Exec) encodeRune(r Val) []Val {
	if r.p == nil {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(int32(r.c)))
		out := make([]Val, n)
		for i := range out {
			out[i].c = uint64(b[i])
		}
		return out
	}
	t := e.toTerm(r, 32)
	tt := e.tt
	k := func(x uint64) *Term { return tt.constant(32, x) }
	byteOf := func(shift uint64, m, or uint64) Val {
		x := tt.op2(OpOr, tt.op2(OpAnd, tt.op2(OpLshr, t, k(shift)), k(m)), k(or))
		return fromTerm(tt.op1(OpTrunc, 8, x))
	}
	if e.decide(tt.op2(OpUlt, t, k(0x80))) {
		return []Val{fromTerm(tt.op1(OpTrunc, 8, t))}
	}
	if e.decide(tt.op2(OpUlt, t, k(0x800))) {
		return []Val{byteOf(6, 0x1f, 0xc0), byteOf(0, 0x3f, 0x80)}
	}
	bad := tt.or(tt.op2(OpUlt, k(utf8.MaxRune), t), tt.and(tt.op2(OpUle, k(0xd800), t), tt.op2(OpUle, t, k(0xdfff))))
	if e.decide(bad) {
		return []Val{{c: 0xef}, {c: 0xbf}, {c: 0xbd}}
	}
	if e.decide(tt.op2(OpUlt, t, k(0x10000))) {
		return []Val{byteOf(12, 0xf, 0xe0), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)}
	}
	return []Val{byteOf(18, 7, 0xf0), byteOf(12, 0x3f, 0x80), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80)}
}

// decodeRune decodes the rune at position i of the string
func (e *Exec) decodeRune(s Val, i int) (Val, int) {
	if str, ok := s.p.(string); ok {
		r, n := utf8.DecodeRuneInString(str[i:])
		return Val{c: uint64(uint32(r))}, n
	}
	b := strBytes(s)[i:]
	conc := true
	for j := 0; j < len(b) && j < 4; j++ {
		if b[j].p != nil {
			conc = false
			break
		}
		if b[j].c < 0x80 {
			break
		}
	}
	if conc {
		var buf []byte
		for j := 0; j < len(b) && j < 4; j++ {
			if b[j].p != nil {
				break
			}
			buf = append(buf, byte(b[j].c))
		}
		r, n := utf8.DecodeRune(buf)
		return Val{c: uint64(uint32(r))}, n
	}
	tt := e.tt
	z := func(x Val) *Term { return tt.op1(OpZext, 32, e.toTerm(x, 8)) }
	k := func(x uint64) *Term { return tt.constant(32, x) }
	c0 := z(b[0])
	if e.decide(tt.op2(OpUlt, c0, k(0x80))) {
		return fromTerm(c0), 1
	}
	errv := Val{c: utf8.RuneError}
	in := func(t *Term, lo, hi uint64) *Term { return tt.and(tt.op2(OpUle, k(lo), t), tt.op2(OpUle, t, k(hi))) }
	cont := func(t *Term) *Term { return tt.op2(OpAnd, t, k(0x3f)) }
	shl := func(t *Term, n uint64) *Term { return tt.op2(OpShl, t, k(n)) }
	or := func(a, b *Term) *Term { return tt.op2(OpOr, a, b) }
	if len(b) < 2 || e.decide(tt.not(in(c0, 0xc2, 0xf4))) {
		return errv, 1
	}
	c1 := z(b[1])
	if e.decide(tt.op2(OpUle, c0, k(0xdf))) {
		if e.decide(in(c1, 0x80, 0xbf)) {
			return fromTerm(or(shl(tt.op2(OpAnd, c0, k(0x1f)), 6), cont(c1))), 2
		}
		return errv, 1
	}
	if e.decide(tt.op2(OpUle, c0, k(0xef))) {
		lo := tt.ite(tt.op2(OpEq, c0, k(0xe0)), k(0xa0), k(0x80))
		hi := tt.ite(tt.op2(OpEq, c0, k(0xed)), k(0x9f), k(0xbf))
		if len(b) < 3 || !e.decide(tt.and(tt.op2(OpUle, lo, c1), tt.op2(OpUle, c1, hi))) || !e.decide(in(z(b[2]), 0x80, 0xbf)) {
			return errv, 1
		}
		return fromTerm(or(or(shl(tt.op2(OpAnd, c0, k(0xf)), 12), shl(cont(c1), 6)), cont(z(b[2])))), 3
	}
	lo := tt.ite(tt.op2(OpEq, c0, k(0xf0)), k(0x90), k(0x80))
	hi := tt.ite(tt.op2(OpEq, c0, k(0xf4)), k(0x8f), k(0xbf))
	if len(b) < 4 || !e.decide(tt.and(tt.op2(OpUle, lo, c1), tt.op2(OpUle, c1, hi))) || !e.decide(in(z(b[2]), 0x80, 0xbf)) || !e.decide(in(z(b[3]), 0x80, 0xbf)) {
		return errv, 1
	}
	return fromTerm(or(or(or(shl(tt.op2(OpAnd, c0, k(7)), 18), shl(cont(c1), 12)), shl(cont(z(b[2])), 6)), cont(z(b[3])))), 4
}

func (e *Exec) slice(fr *Frame, in *Instr) Val {
	x := e.opd(fr, &in.a)
	get := func(o *Opd, bit int, def int) int {
		if in.n&bit == 0 {
			return def
		}
		v := e.opd(fr, o)
		c := e.concretize(v)
		if o.ti != nil && o.ti.w < 64 && o.ti.signed {
			return int(sext64(c, o.ti.w))
		}
		return int(int64(c))
	}
	if in.m == 2 { // string
		n := strLen(x)
		i, j := get(&in.b, 1, 0), get(&in.c, 2, n)
		if j < 0 || j > n {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", j, n))
		}
		if i < 0 || i > j {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", i, j))
		}
		return strSub(x, i, j)
	}
	var o *Obj
	off, ln, cp := 0, 0, 0
	esz := in.ti2.cells
	if in.m == 1 {
		x = e.resolvePtr(x)
		o, _ = x.p.(*Obj)
		if o == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		off = int(x.c)
		ln, cp = in.site, in.site
	} else {
		s, _ := x.p.(*SliceV)
		if s != nil {
			o, off, ln, cp = s.o, s.off, s.len, s.cap
		}
	}
	i, j, k := get(&in.b, 1, 0), get(&in.c, 2, ln), get(&in.d, 4, cp)
	if k < 0 || k > cp {
		e.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cp))
	}
	if j < 0 || j > k {
		e.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", j, k))
	}
	if i < 0 || i > j {
		e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", i, j))
	}
	if o == nil {
		return Val{}
	}
	return Val{p: &SliceV{o: o, off: off + i*esz, len: j - i, cap: k - i, esz: esz}}
}

// --- maps

func (e *Exec) mapKey(v Val, ti *TI) (any, bool) {
	switch {
	case ti.isStr:
		switch s := v.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case ti.isIfc:
		i, _ := v.p.(*Iface)
		if i == nil {
			return ifaceKey{}, true
		}
		k, ok := e.mapKey(i.v, i.ti)
		return ifaceKey{i.ti.id, k}, ok
	case ti.w != wNone:
		if v.p != nil {
			return nil, false
		}
		if ti.float {
			f := bits2f(v.c, ti.w)
			return f, true
		}
		return v.c, true
	case ti.agg:
		a, _ := v.p.(Agg)
		key := ""
		n := len(ti.fields)
		if ti.elem != nil {
			n = ti.n
		}
		for i := 0; i < n; i++ {
			f, off := ti.elem, 0
			if f != nil {
				off = i * f.cells
			} else {
				f, off = ti.fields[i], ti.offs[i]
			}
			var x Val
			if a != nil {
				if f.agg {
					x = Val{p: a[off : off+f.cells]}
				} else {
					x = a[off]
				}
			}
			k, ok := e.mapKey(x, f)
			if !ok {
				return nil, false
			}
			if pk, isP := k.(ptrKey); isP {
				key += fmt.Sprintf("p%d+%d/%p|", pk.o.birth, pk.off, pk.o)
			} else {
				key += fmt.Sprintf("%T:%v|", k, k)
			}
		}
		return "agg" + key, true
	}
	switch p := v.p.(type) {
	case nil:
		return ptrKey{}, true
	case *Obj:
		return ptrKey{p, v.c}, true
	}
	e.fail("map key of type %s (%T)", ti.t, v.p)
	return nil, false
}

func (e *Exec) mapData(m *MapObj) *mapData { return m.d }

func (e *Exec) mapLookup(m Val, key Val, kti, vti *TI) (Val, Val) {
	if m.p == nil {
		return Val{}, Val{}
	}
	d := m.p.(*MapObj).d
	k, ok := e.mapKey(key, kti)
	if ok {
		if i, has := d.idx[k]; has {
			return d.ents[i].v, vBoolean(true)
		}
		if d.nsym == 0 {
			return Val{}, vBoolean(false)
		}
	}
	// small domain key: pointwise
	if t := key.term(); t != nil && t.op == OpTab && d.nsym == 0 && vti.w != wNone {
		dm := e.dom[t.v.idx]
		tab, tabOK := make([]uint64, len(t.tab)), make([]uint64, len(t.tab))
		good := true
		for i, x := range t.tab {
			if !dm.has(i) {
				continue
			}
			kk, _ := e.mapKey(Val{c: x}, kti)
			if j, has := d.idx[kk]; has {
				v := d.ents[j].v
				if v.p != nil {
					good = false
					break
				}
				tab[i], tabOK[i] = v.c, 1
			}
		}
		if good {
			return fromTerm(e.tt.mkTab(vti.w, t.v, tab)), fromTerm(e.tt.mkTab(0, t.v, tabOK))
		}
	}
	// association list
	live := 0
	for i := range d.ents {
		if !d.ents[i].dead {
			live++
		}
	}
	if t := key.term(); t != nil && live > 64 {
		return e.mapLookup(m, Val{c: e.concretize(key)}, kti, vti)
	}
	if vti.w != wNone {
		res, found := e.tt.constant(vti.w, 0), e.tt.false_
		good := true
		for i := range d.ents {
			en := &d.ents[i]
			if en.dead {
				continue
			}
			if _, is := en.v.p.(*Term); en.v.p != nil && !is {
				good = false
				break
			}
			eq := e.equal(kti, key, en.k)
			if eq.p == nil {
				if eq.c == 0 {
					continue
				}
				res, found = e.toTerm(en.v, vti.w), e.tt.true_
				continue
			}
			c := eq.p.(*Term)
			res = e.tt.ite(c, e.toTerm(en.v, vti.w), res)
			found = e.tt.or(c, found)
		}
		if good {
			return fromTerm(res), fromTerm(found)
		}
	}
	for i := range d.ents {
		en := &d.ents[i]
		if en.dead {
			continue
		}
		if e.decideVal(e.equal(kti, key, en.k)) {
			return d.ents[i].v, vBoolean(true)
		}
	}
	return Val{}, vBoolean(false)
}

func (e *Exec) mapMut(m *MapObj) *mapData {
	d := m.d
	if m.birth < e.floor && d.epoch != e.epoch {
		nd := &mapData{ents: append([]mapEnt(nil), d.ents...), idx: make(map[any]int, len(d.idx)), n: d.n, nsym: d.nsym, epoch: e.epoch}
		for k, v := range d.idx {
			nd.idx[k] = v
		}
		e.ulog = append(e.ulog, undoRec{m: m, md: d})
		m.d = nd
		return nd
	}
	return d
}

func (e *Exec) mapUpdate(mv Val, key, val Val, kti *TI) {
	if mv.p == nil {
		e.rtPanic("assignment to entry in nil map")
	}
	m := mv.p.(*MapObj)
	k, ok := e.mapKey(key, kti)
	if ok && m.d.nsym == 0 {
		d := e.mapMut(m)
		if i, has := d.idx[k]; has {
			d.ents[i].v = val
			return
		}
		d.idx[k] = len(d.ents)
		d.ents = append(d.ents, mapEnt{k: key, v: val})
		d.n++
		return
	}
	// symbolic
	for i := range m.d.ents {
		if m.d.ents[i].dead {
			continue
		}
		if e.decideVal(e.equal(kti, key, m.d.ents[i].k)) {
			d := e.mapMut(m)
			d.ents[i].v = val
			return
		}
	}
	d := e.mapMut(m)
	en := mapEnt{k: key, v: val, sym: !ok}
	if ok {
		d.idx[k] = len(d.ents)
	} else {
		d.nsym++
	}
	d.ents = append(d.ents, en)
	d.n++
}

func (e *Exec) mapDelete(mv Val, key Val, kti *TI) {
	if mv.p == nil {
		return
	}
	m := mv.p.(*MapObj)
	del := func(i int) {
		d := e.mapMut(m)
		en := &d.ents[i]
		if !en.sym {
			kk, _ := e.mapKey(en.k, kti)
			delete(d.idx, kk)
		} else {
			d.nsym--
		}
		en.dead = true
		en.v = Val{}
		d.n--
	}
	k, ok := e.mapKey(key, kti)
	if ok {
		if i, has := m.d.idx[k]; has {
			del(i)
			return
		}
		if m.d.nsym == 0 {
			return
		}
	}
	for i := range m.d.ents {
		if m.d.ents[i].dead {
			continue
		}
		if e.decideVal(e.equal(kti, key, m.d.ents[i].k)) {
			del(i)
			return
		}
	}
}

// --- iterators

func (e *Exec) rangeOver(x Val, isStr bool) Val {
	it := &Iter{pos: e.newObj(1), isStr: isStr}
	if isStr {
		it.str = x
		return Val{p: it}
	}
	if x.p == nil {
		it.m = &mapData{}
		return Val{p: it}
	}
	m := x.p.(*MapObj)
	it.m = m.d
	var live []int
	for i := range m.d.ents {
		if !m.d.ents[i].dead {
			live = append(live, i)
		}
	}
	// the iteration order is not specified: explore all of them for small maps
	if e.mapPerm && len(live) > 1 && len(live) <= 4 && !e.inInit {
		for i := 0; i < len(live)-1; i++ {
			v := e.newVar(0, int64(len(live)-1-i))
			e.internal[len(e.internal)-1] = true
			j := i + int(e.concretize(v))
			live[i], live[j] = live[j], live[i]
		}
	}
	it.order = live
	// keep a reference to the map to see the deletions
	it.str = x
	return Val{p: it}
}

func (e *Exec) next(v Val, isStr bool) Val {
	it := v.p.(*Iter)
	pos := int(e.concretize(it.pos.cells[0]))
	if isStr {
		if pos >= strLen(it.str) {
			return Val{p: Tuple{vBoolean(false), Val{}, Val{}}}
		}
		r, n := e.decodeRune(it.str, pos)
		e.setCell(it.pos, 0, vInt64(int64(pos+n)), 64)
		return Val{p: Tuple{vBoolean(true), vInt64(int64(pos)), r}}
	}
	for pos < len(it.order) {
		i := it.order[pos]
		pos++
		d := it.m
		if m, ok := it.str.p.(*MapObj); ok {
			d = m.d
		}
		if i >= len(d.ents) || d.ents[i].dead {
			continue
		}
		e.setCell(it.pos, 0, vInt64(int64(pos)), 64)
		return Val{p: Tuple{vBoolean(true), d.ents[i].k, d.ents[i].v}}
	}
	e.setCell(it.pos, 0, vInt64(int64(pos)), 64)
	return Val{p: Tuple{vBoolean(false), Val{}, Val{}}}
}

// --- builtins

var growCache sync.Map

type growKey struct {
	size    int64
	ptrs    bool
	cap, ln int
}

// growCap returns the capacity after append reallocates, using the runtime itself
func growCap(size int64, ptrs bool, oldCap, newLen int) int {
	if size == 0 {
		return newLen
	}
	if oldCap > 1<<16 || size > 1024 {
		if oldCap*2 > newLen {
			return oldCap * 2
		}
		return newLen
	}
	k := growKey{size, ptrs, oldCap, newLen}
	if c, ok := growCache.Load(k); ok {
		return c.(int)
	}
	var et reflect.Type
	if ptrs && size%8 == 0 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf((*int)(nil)))
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), oldCap, oldCap)
	p := reflect.New(s.Type()).Elem()
	p.Set(s)
	p.Grow(newLen - oldCap)
	c := p.Cap()
	growCache.Store(k, c)
	return c
}

var sizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

func (e *Exec) appendVals(s Val, vals []Val, n int, elem *TI) Val {
	// vals: cells of the n new elements
	sl, _ := s.p.(*SliceV)
	if sl == nil {
		if n == 0 {
			return Val{}
		}
		sl = &SliceV{esz: elem.cells}
	}
	if n == 0 {
		return s
	}
	nl := sl.len + n
	if nl <= sl.cap {
		for k, v := range vals {
			w := elem.w
			if elem.agg {
				w = elem.ws[k%elem.cells]
			}
			e.setCell(sl.o, sl.off+sl.len*elem.cells+k, v, w)
		}
		return Val{p: &SliceV{o: sl.o, off: sl.off, len: nl, cap: sl.cap, esz: elem.cells}}
	}
	nc := growCap(sizes.Sizeof(elem.t), hasPointers(elem.t), sl.cap, nl)
	o := e.newObj(nc * elem.cells)
	if sl.o != nil {
		copy(o.cells, sl.o.cells[sl.off:sl.off+sl.len*elem.cells])
	}
	copy(o.cells[sl.len*elem.cells:], vals)
	return Val{p: &SliceV{o: o, len: nl, cap: nc, esz: elem.cells}}
}

func (e *Exec) builtin(ci *callInfo, args []Val) Val {
	switch ci.builtin {
	case "len":
		return vInt64(int64(e.lenOf(args[0], ci.ti)))
	case "cap":
		switch s := args[0].p.(type) {
		case nil:
			return Val{}
		case *SliceV:
			return vInt64(int64(s.cap))
		}
		if p, ok := ci.ti.under.(*types.Pointer); ok {
			return vInt64(int64(e.pr.ti(p.Elem()).n))
		}
		return vInt64(int64(ci.ti.n))
	case "append":
		elem := e.pr.ti(ci.ti.under.(*types.Slice).Elem())
		if ci.argTIs[1].isStr {
			b := strBytes(args[1])
			return e.appendVals(args[0], b, len(b), elem)
		}
		s, _ := args[1].p.(*SliceV)
		if s == nil {
			return e.appendVals(args[0], nil, 0, elem)
		}
		vals := append([]Val(nil), s.o.cells[s.off:s.off+s.len*elem.cells]...)
		return e.appendVals(args[0], vals, s.len, elem)
	case "copy":
		dst, _ := args[0].p.(*SliceV)
		var src []Val
		n := 0
		elem := e.pr.ti(ci.ti.under.(*types.Slice).Elem())
		if ci.argTIs[1].isStr {
			src = strBytes(args[1])
			n = len(src)
		} else if s, _ := args[1].p.(*SliceV); s != nil {
			n = s.len
			src = append([]Val(nil), s.o.cells[s.off:s.off+s.len*elem.cells]...)
		}
		if dst == nil {
			return Val{}
		}
		if dst.len < n {
			n = dst.len
		}
		for k := 0; k < n*elem.cells; k++ {
			w := elem.w
			if elem.agg {
				w = elem.ws[k%elem.cells]
			}
			e.setCell(dst.o, dst.off+k, src[k], w)
		}
		return vInt64(int64(n))
	case "delete":
		e.mapDelete(args[0], args[1], e.pr.ti(ci.ti.under.(*types.Map).Key()))
		return Val{}
	case "clear":
		if m, ok := args[0].p.(*MapObj); ok {
			d := e.mapMut(m)
			d.ents = nil
			d.idx = map[any]int{}
			d.n, d.nsym = 0, 0
			return Val{}
		}
		if s, ok := args[0].p.(*SliceV); ok {
			elem := e.pr.ti(ci.ti.under.(*types.Slice).Elem())
			for k := 0; k < s.len*elem.cells; k++ {
				w := elem.w
				if elem.agg {
					w = elem.ws[k%elem.cells]
				}
				e.setCell(s.o, s.off+k, Val{}, w)
			}
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "recover":
		if len(e.panicFrames) == 0 {
			return Val{}
		}
		f := e.panicFrames[len(e.panicFrames)-1]
		if f.panicking == nil {
			return Val{}
		}
		v := f.panicking.val
		f.panicking = nil
		return v
	case "panic":
		panic(&targetPanic{val: args[0], msg: e.panicMsg(args[0])})
	case "min", "max":
		acc := args[0]
		ti := ci.argTIs[0]
		for _, b := range args[1:] {
			var less Val
			if ti.isStr {
				less = e.strLess(b, acc, false)
			} else if ti.float {
				less = e.floatOp(token.LSS, ti.w, b, acc)
			} else {
				op := OpUlt
				if ti.signed {
					op = OpSlt
				}
				less = fromTerm(e.tt.op2(op, e.toTerm(b, ti.w), e.toTerm(acc, ti.w)))
			}
			if ci.builtin == "max" {
				if t := less.term(); t != nil {
					less = fromTerm(e.tt.not(t))
				} else {
					less.c ^= 1
				}
			}
			if t := less.term(); t != nil {
				v, ok := e.mergeVals(t, b, acc, ti.w)
				if !ok {
					e.fail("min/max")
				}
				acc = v
			} else if less.c != 0 {
				acc = b
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := e.concInt(args[1])
		if n == 0 {
			return Val{}
		}
		p := e.resolvePtr(args[0])
		o := p.p.(*Obj)
		return mkStr(o.cells[int(p.c) : int(p.c)+n])
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Val{}
		}
		o := e.newObj(len(b))
		copy(o.cells, b)
		return Val{p: o}
	case "SliceData":
		s, _ := args[0].p.(*SliceV)
		if s == nil {
			return Val{}
		}
		return Val{p: s.o, c: uint64(s.off)}
	case "Slice":
		n := e.concInt(args[1])
		if args[0].p == nil {
			return Val{}
		}
		p := e.resolvePtr(args[0])
		return Val{p: &SliceV{o: p.p.(*Obj), off: int(p.c), len: n, cap: n, esz: 1}}
	}
	e.fail("builtin %s", ci.builtin)
	return Val{}
}

func (e *Exec) lenOf(v Val, ti *TI) int {
	if ti.isStr {
		return strLen(v)
	}
	switch s := v.p.(type) {
	case *SliceV:
		return s.len
	case *MapObj:
		return s.d.n
	}
	if ti.isSlc || ti.isMap {
		return 0
	}
	if ti.agg {
		return ti.n
	}
	if p, ok := ti.under.(*types.Pointer); ok {
		return e.pr.ti(p.Elem()).n
	}
	e.fail("len of %s", ti.t)
	return 0
}

func (e *Exec) panicMsg(v Val) string {
	i, _ := v.p.(*Iface)
	if i == nil {
		return "panic(nil)"
	}
	if s, ok := i.v.p.(string); ok {
		return s
	}
	return "panic of type " + i.ti.t.String()
}

// allowZero: the globals of packages whose initializer is not executed, for
// which the zero value is fine
func allowZero(g *ssa.Global) bool { return g.Pkg.Pkg.Path() == "internal/cpu" }
