package main

import (
	"math/rand"
	"testing"
)

// random terms: the simplified term has the value of the plain evaluation, and
// lies in its interval
func TestSimplify(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for round := 0; round < 30000; round++ {
		tt := newTermTable()
		type node struct {
			t *Term
			f func(m *Model) uint64
		}
		var nodes []node
		ranges := [][2]int64{{-5, 5}, {0, 3}, {-1 << 40, 1 << 41}, {0, 1000000}, {-300, 5000}, {-1 << 63, 1<<63 - 1}}
		n := 3
		var vars []*Var
		for i := 0; i < n; i++ {
			r := ranges[rng.Intn(len(ranges))]
			v := tt.variable(i, r[0], r[1])
			vars = append(vars, v)
			nodes = append(nodes, node{v.ident, func(m *Model) uint64 { return uint64(m.valueOf(v)) }})
		}
		for i := 0; i < 25; i++ {
			a := nodes[rng.Intn(len(nodes))]
			w := a.t.w
			if w == 0 {
				continue
			}
			switch rng.Intn(8) {
			case 0:
				w2 := []uint8{8, 16, 32, 64}[rng.Intn(4)]
				op := OpTrunc
				if w2 > w {
					op = []Op{OpZext, OpSext}[rng.Intn(2)]
				} else if w2 == w {
					continue
				}
				nodes = append(nodes, node{tt.op1(op, w2, a.t), func(m *Model) uint64 { return evalOp(op, w2, w, a.f(m), 0, 0) }})
			default:
				op := []Op{OpAdd, OpSub, OpAdd, OpSub, OpMul, OpSDiv, OpSRem, OpUDiv, OpURem, OpEq, OpSlt, OpSle, OpUlt, OpUle, OpAnd, OpAshr, OpLshr}[rng.Intn(17)]
				var b node
				mk := uint64(1)<<uint(rng.Intn(5)) - 1
				if rng.Intn(2) == 0 {
					mk = ^mk
				}
				if rng.Intn(2) == 0 || op == OpSDiv || op == OpSRem || op == OpUDiv || op == OpURem || op == OpAshr || op == OpLshr {
					k := uint64(rng.Intn(4)) * uint64(1+rng.Intn(3))
					if op != OpAshr && op != OpLshr && rng.Intn(4) == 0 {
						k = -k
					}
					if (op == OpSDiv || op == OpSRem || op == OpUDiv || op == OpURem) && k == 0 {
						continue
					}
					if op == OpAnd {
						k = mk
					}
					k &= mask(w)
					b = node{tt.constant(w, k), func(*Model) uint64 { return k }}
				} else {
					b = nodes[rng.Intn(len(nodes))]
					if b.t.w != w {
						continue
					}
				}
				rw := w
				if isCmp(op) {
					rw = 0
				}
				nodes = append(nodes, node{tt.op2(op, a.t, b.t), func(m *Model) uint64 { return evalOp(op, rw, w, a.f(m), b.f(m), 0) }})
			}
		}
		for k := 0; k < 20; k++ {
			m := &Model{}
			for _, v := range vars {
				span := uint64(v.hi) - uint64(v.lo)
				x := rng.Uint64()
				if span+1 != 0 {
					x %= span + 1
				}
				if rng.Intn(3) == 0 {
					x = 0
				} else if rng.Intn(3) == 0 {
					x = span
				}
				m.vals = append(m.vals, int64(uint64(v.lo)+x))
			}
			tt.newEval()
			for i, nd := range nodes {
				want := nd.f(m) & mask(nd.t.w)
				if got := tt.eval(nd.t, m); got != want {
					t.Fatalf("round %d node %d: got %x want %x (op %s w %d)", round, i, got, want, opNames[nd.t.op], nd.t.w)
				}
				if nd.t.w > 0 {
					iv := nd.t.ival()
					if s := sext64(want, nd.t.w); s < iv.lo || s > iv.hi {
						t.Fatalf("round %d node %d: %d not in [%d,%d]", round, i, s, iv.lo, iv.hi)
					}
				}
			}
		}
	}
}
