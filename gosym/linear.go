package main

// Simplifications of bit-vector arithmetic: canonical linear forms (exact in
// modular arithmetic) and intervals (of the signed value of a term, valid for all
// the values of the variables).

import (
	"math"
	"math/bits"
	"sort"
)

type ival struct{ lo, hi int64 }

func fullIval(w uint8) ival {
	if w >= 64 {
		return ival{math.MinInt64, math.MaxInt64}
	}
	return ival{-(1 << (w - 1)), 1<<(w-1) - 1}
}

func (i ival) fits(w uint8) bool {
	f := fullIval(w)
	return f.lo <= i.lo && i.hi <= f.hi
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0) || b == 0
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(absU(a), absU(b))
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	return a * b, true
}

func absU(a int64) uint64 {
	if a < 0 {
		return -uint64(a)
	}
	return uint64(a)
}

// the interval of the signed value of t (t.w > 0)
func (t *Term) ival() ival {
	if t.ivDone {
		return t.iv
	}
	t.iv = t.ival0()
	t.ivDone = true
	return t.iv
}

func (t *Term) ival0() ival {
	full := fullIval(t.w)
	clip := func(r ival, ok bool) ival {
		if ok && r.fits(t.w) {
			return r
		}
		return full
	}
	switch t.op {
	case OpConst:
		v := sext64(t.k, t.w)
		return ival{v, v}
	case OpTab:
		r := ival{math.MaxInt64, math.MinInt64}
		for _, x := range t.tab {
			v := sext64(x, t.w)
			if v < r.lo {
				r.lo = v
			}
			if v > r.hi {
				r.hi = v
			}
		}
		return r
	case OpAdd, OpSub:
		a, b := t.a.ival(), t.b.ival()
		if t.op == OpSub {
			if b.lo == math.MinInt64 {
				return full
			}
			b = ival{-b.hi, -b.lo}
		}
		l, ok1 := addOv(a.lo, b.lo)
		h, ok2 := addOv(a.hi, b.hi)
		return clip(ival{l, h}, ok1 && ok2)
	case OpMul:
		a, b := t.a.ival(), t.b.ival()
		r, ok := ival{math.MaxInt64, math.MinInt64}, true
		for _, p := range [4][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			v, o := mulOv(p[0], p[1])
			ok = ok && o
			if v < r.lo {
				r.lo = v
			}
			if v > r.hi {
				r.hi = v
			}
		}
		return clip(r, ok)
	case OpSDiv:
		if t.b.op == OpConst {
			if k := sext64(t.b.k, t.w); k > 0 {
				a := t.a.ival()
				return ival{a.lo / k, a.hi / k}
			}
		}
	case OpSRem:
		if t.b.op == OpConst {
			if k := sext64(t.b.k, t.w); k > 0 {
				a := t.a.ival()
				r := ival{-(k - 1), k - 1}
				if a.lo >= 0 {
					r.lo = 0
				}
				if a.hi <= 0 {
					r.hi = 0
				}
				return r
			}
		}
	case OpUDiv:
		if a := t.a.ival(); a.lo >= 0 && t.b.op == OpConst {
			if k := sext64(t.b.k, t.w); k > 0 {
				return ival{a.lo / k, a.hi / k}
			}
		}
	case OpURem:
		if t.b.op == OpConst {
			if k := sext64(t.b.k, t.w); k > 0 {
				return ival{0, k - 1}
			}
		}
	case OpAnd:
		a, b := t.a.ival(), t.b.ival()
		if a.lo >= 0 && b.lo >= 0 {
			return ival{0, minI(a.hi, b.hi)}
		}
		if b.lo >= 0 {
			return ival{0, b.hi}
		}
		if a.lo >= 0 {
			return ival{0, a.hi}
		}
	case OpAshr:
		if t.b.op == OpConst && t.b.k < 64 {
			a := t.a.ival()
			return ival{a.lo >> t.b.k, a.hi >> t.b.k}
		}
	case OpLshr:
		if a := t.a.ival(); a.lo >= 0 && t.b.op == OpConst && t.b.k < 64 {
			return ival{a.lo >> t.b.k, a.hi >> t.b.k}
		}
	case OpSext:
		return t.a.ival()
	case OpZext:
		if t.a.w == 0 {
			return ival{0, 1}
		}
		if t.a.op == OpVar {
			return ival{0, int64(uint64(t.a.v.hi) - uint64(t.a.v.lo))}
		}
		a := t.a.ival()
		if a.lo >= 0 {
			return a
		}
		if t.a.w < 63 {
			return ival{0, 1<<t.a.w - 1}
		}
	case OpTrunc:
		if a := t.a.ival(); a.fits(t.w) {
			return a
		}
	case OpIte:
		a, b := t.b.ival(), t.c.ival()
		return ival{minI(a.lo, b.lo), maxI(a.hi, b.hi)}
	}
	return full
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// linear form: sum of coef*atom + k, modulo 2^w
type linAtom struct {
	t *Term
	c uint64
}

const maxAtoms = 20

type linForm struct {
	atoms []linAtom
	k     uint64
}

func (l *linForm) add(t *Term, c uint64) {
	for i := range l.atoms {
		if l.atoms[i].t == t {
			l.atoms[i].c += c
			return
		}
	}
	l.atoms = append(l.atoms, linAtom{t, c})
}

// false if there are too many atoms
func (l *linForm) collect(t *Term, c uint64, fuel *int) bool {
	for {
		if *fuel--; *fuel < 0 {
			return false
		}
		switch {
		case t.op == OpConst:
			l.k += c * t.k
			return true
		case t.op == OpAdd || t.op == OpSub:
			c2 := c
			if t.op == OpSub {
				c2 = -c
			}
			if !l.collect(t.b, c2, fuel) {
				return false
			}
			t = t.a
			continue
		case t.op == OpMul && t.b.op == OpConst:
			c *= t.b.k
			t = t.a
			continue
		}
		l.add(t, c)
		return len(l.atoms) <= maxAtoms
	}
}

// merges the tables of the same variable, removes null atoms, sorts
func (tt *TermTable) normLin(l *linForm, w uint8) {
	m := mask(w)
	out := l.atoms[:0]
	var tabs []linAtom
	for _, a := range l.atoms {
		if a.c&m == 0 {
			continue
		}
		if a.t.op == OpTab {
			tabs = append(tabs, a)
			continue
		}
		a.c &= m
		out = append(out, a)
	}
	for i := 0; i < len(tabs); i++ {
		if tabs[i].t == nil {
			continue
		}
		v := tabs[i].t.v
		tab := make([]uint64, len(tabs[i].t.tab))
		for j := i; j < len(tabs); j++ {
			if tabs[j].t == nil || tabs[j].t.v != v {
				continue
			}
			for x, y := range tabs[j].t.tab {
				tab[x] += y * tabs[j].c
			}
			tabs[j].t = nil
		}
		k := tab[0]
		for x := range tab {
			tab[x] -= k
		}
		l.k += k
		t := tt.mkTab(w, v, tab)
		if t.op != OpConst {
			out = append(out, linAtom{t, 1})
		}
	}
	l.k &= m
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	l.atoms = out
}

func (tt *TermTable) fromLin(l *linForm, w uint8) *Term {
	m := mask(w)
	if len(l.atoms) == 0 {
		return tt.constant(w, l.k)
	}
	if len(l.atoms) == 1 && l.atoms[0].t.op == OpTab {
		return tt.op2(OpAdd, l.atoms[0].t, tt.constant(w, l.k))
	}
	neg := func(c uint64) bool { return sext64(c, w) < 0 && c&m != 1<<(w-1) }
	term := func(a linAtom) *Term {
		switch {
		case a.c == 1:
			return a.t
		case a.t.op == OpTab:
			return tt.op2(OpMul, a.t, tt.constant(w, a.c))
		}
		return tt.mk(OpMul, w, a.t, tt.constant(w, a.c), nil, 0)
	}
	first := 0
	for i, a := range l.atoms {
		if !neg(a.c) {
			first = i
			break
		}
	}
	acc := term(l.atoms[first])
	for i, a := range l.atoms {
		if i == first {
			continue
		}
		if neg(a.c) {
			a.c = -a.c & m
			acc = tt.mk(OpSub, w, acc, term(a), nil, 0)
		} else {
			acc = tt.mk(OpAdd, w, acc, term(a), nil, 0)
		}
	}
	if l.k != 0 {
		acc = tt.mk(OpAdd, w, acc, tt.constant(w, l.k), nil, 0)
	}
	return acc
}

// a + cb*b in canonical form
func (tt *TermTable) linear(w uint8, a *Term, ca uint64, b *Term, cb uint64) (*linForm, bool) {
	l := &linForm{}
	fuel := 60
	if !l.collect(a, ca, &fuel) || b != nil && !l.collect(b, cb, &fuel) {
		return nil, false
	}
	tt.normLin(l, w)
	return l, true
}

func (tt *TermTable) linOp(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpAdd, OpSub:
		cb := uint64(1)
		if op == OpSub {
			cb = mask(w)
		}
		if l, ok := tt.linear(w, a, 1, b, cb); ok {
			return tt.fromLin(l, w)
		}
	case OpMul:
		if b.op == OpConst {
			if l, ok := tt.linear(w, a, b.k, nil, 0); ok {
				return tt.fromLin(l, w)
			}
		}
	case OpAnd:
		if b.op == OpConst {
			if k := b.k + 1; k&b.k == 0 && k > 1 {
				return tt.lowBits(a, b.k)
			}
			if low := ^b.k & mask(w); (low+1)&low == 0 && low != 0 {
				if a.op == OpAdd || a.op == OpSub || a.op == OpMul {
					return tt.op2(OpSub, a, tt.op2(OpAnd, a, tt.constant(w, low)))
				}
			}
		}
	case OpEq:
		if a.op == OpIte || b.op == OpIte {
			return nil
		}
		ia, ib := a.ival(), b.ival()
		if ia.hi < ib.lo || ib.hi < ia.lo {
			return tt.false_
		}
		if l, ok := tt.linear(w, a, 1, b, mask(w)); ok && len(l.atoms) == 0 {
			return tt.boolean(l.k == 0)
		}
	case OpSlt, OpSle:
		ia, ib := a.ival(), b.ival()
		if ia.hi < ib.lo || op == OpSle && ia.hi == ib.lo {
			return tt.true_
		}
		if ib.hi < ia.lo || op == OpSlt && ib.hi == ia.lo {
			return tt.false_
		}
		// sign of the difference, without overflow
		if a.op == OpAdd || a.op == OpSub || a.op == OpMul || b.op == OpAdd || b.op == OpSub || b.op == OpMul {
			lo, ok1 := addOv(ia.lo, -ib.hi)
			hi, ok2 := addOv(ia.hi, -ib.lo)
			if ib.lo == math.MinInt64 || !ok1 || !ok2 || !(ival{lo, hi}).fits(w) {
				return nil
			}
			l, ok := tt.linear(w, a, 1, b, mask(w))
			if !ok {
				return nil
			}
			if r, ok := linIval(l, w); ok {
				switch {
				case r.hi < 0 || op == OpSle && r.hi == 0:
					return tt.true_
				case r.lo > 0 || op == OpSlt && r.lo == 0:
					return tt.false_
				}
			}
		}
	case OpUlt, OpUle:
		ia, ib := a.ival(), b.ival()
		if ia.lo >= 0 && ib.lo >= 0 {
			if ia.hi < ib.lo || op == OpUle && ia.hi == ib.lo {
				return tt.true_
			}
			if ib.hi < ia.lo || op == OpUlt && ib.hi == ia.lo {
				return tt.false_
			}
		}
	case OpSDiv, OpSRem, OpUDiv, OpURem:
		if b.op != OpConst {
			return nil
		}
		k := sext64(b.k, w)
		ia := a.ival()
		if k <= 0 || (op == OpUDiv || op == OpURem) && ia.lo < 0 {
			return nil
		}
		if op == OpSDiv || op == OpUDiv || op == OpSRem || op == OpURem {
			if q := tt.exactDiv(a, k); q != nil {
				if op == OpSRem || op == OpURem {
					return tt.constant(w, 0)
				}
				return q
			}
		}
		// narrow the operation
		nw := uint8(maxI(int64(bits.Len64(uint64(maxI(ia.hi, 0)))), int64(bits.Len64(absU(minI(ia.lo, 0))))))
		if l := uint8(bits.Len64(uint64(k))); l > nw {
			nw = l
		}
		nw += 2
		if nw+8 <= w {
			r := tt.op2(op, tt.op1(OpTrunc, nw, a), tt.constant(nw, b.k))
			return tt.op1(OpSext, w, r)
		}
		if ia.lo >= 0 && op == OpSDiv {
			return tt.mk(OpUDiv, w, a, b, nil, 0)
		}
		if ia.lo >= 0 && op == OpSRem {
			return tt.mk(OpURem, w, a, b, nil, 0)
		}
	}
	return nil
}

// a & low, where low+1 is a power of two: the coefficients count modulo low+1
func (tt *TermTable) lowBits(a *Term, low uint64) *Term {
	if iv := a.ival(); iv.lo >= 0 && uint64(iv.hi) <= low {
		return a
	}
	l, ok := tt.linear(a.w, a, 1, nil, 0)
	if !ok {
		return nil
	}
	changed := false
	for i := 0; i < len(l.atoms); i++ {
		// (.. + (y & low) ..) & low
		if x := l.atoms[i]; x.t.op == OpAnd && x.t.b.op == OpConst && x.t.b.k&low == low {
			l.atoms[i].c = 0
			fuel := 60
			if !l.collect(x.t.a, x.c, &fuel) {
				return nil
			}
			changed = true
		}
	}
	if changed {
		tt.normLin(l, a.w)
	}
	l2 := &linForm{k: l.k & low}
	changed = changed || l2.k != l.k
	for _, x := range l.atoms {
		if x.t.op == OpTab {
			tab := make([]uint64, len(x.t.tab))
			for i, y := range x.t.tab {
				tab[i] = y & low
				changed = changed || tab[i] != y
			}
			if t := tt.mkTab(a.w, x.t.v, tab); t.op == OpConst {
				l2.k += t.k
			} else {
				l2.add(t, 1)
			}
			continue
		}
		c := x.c & low
		changed = changed || c != x.c
		if c != 0 {
			l2.add(x.t, c)
		}
	}
	tt.normLin(l2, a.w)
	r := tt.fromLin(l2, a.w)
	if iv := r.ival(); iv.lo >= 0 && uint64(iv.hi) <= low {
		return r
	}
	if !changed {
		return nil
	}
	return tt.op2(OpAnd, r, tt.constant(a.w, low))
}

// interval of the linear form, if it does not wrap
func linIval(l *linForm, w uint8) (ival, bool) {
	c := sext64(l.k, w)
	r, ok := ival{c, c}, true
	for _, x := range l.atoms {
		c := sext64(x.c, w)
		iv := x.t.ival()
		lo, o1 := mulOv(iv.lo, c)
		hi, o2 := mulOv(iv.hi, c)
		if lo > hi {
			lo, hi = hi, lo
		}
		var o3, o4 bool
		r.lo, o3 = addOv(r.lo, lo)
		r.hi, o4 = addOv(r.hi, hi)
		ok = ok && o1 && o2 && o3 && o4
	}
	return r, ok && r.fits(w)
}

// a/k when every coefficient is divisible by k and the sum does not wrap
func (tt *TermTable) exactDiv(a *Term, k int64) *Term {
	if k == 1 || a.op != OpAdd && a.op != OpSub && a.op != OpMul {
		return nil
	}
	w := a.w
	l, ok := tt.linear(w, a, 1, nil, 0)
	if !ok {
		return nil
	}
	c := sext64(l.k, w)
	if c%k != 0 {
		return nil
	}
	q := &linForm{k: uint64(c/k) & mask(w)}
	for _, x := range l.atoms {
		c := sext64(x.c, w)
		if x.t.op == OpTab { // coefficient 1
			tab := make([]uint64, len(x.t.tab))
			for i, y := range x.t.tab {
				y := sext64(y, w)
				if y%k != 0 {
					return nil
				}
				tab[i] = uint64(y / k)
			}
			q.atoms = append(q.atoms, linAtom{tt.mkTab(w, x.t.v, tab), 1})
		} else {
			if c%k != 0 {
				return nil
			}
			q.atoms = append(q.atoms, linAtom{x.t, uint64(c/k) & mask(w)})
		}
	}
	_, ok1 := linIval(l, w)
	if !ok1 {
		return nil
	}
	tt.normLin(q, w)
	return tt.fromLin(q, w)
}

// truncation of a sum
func (tt *TermTable) truncLin(w uint8, a *Term) *Term {
	if a.op != OpAdd && a.op != OpSub && !(a.op == OpMul && a.b.op == OpConst) {
		return nil
	}
	l := &linForm{}
	fuel := 60
	if !l.collect(a, 1, &fuel) {
		return nil
	}
	l2 := &linForm{k: l.k}
	for _, x := range l.atoms {
		l2.add(tt.op1(OpTrunc, w, x.t), x.c)
	}
	tt.normLin(l2, w)
	return tt.fromLin(l2, w)
}
