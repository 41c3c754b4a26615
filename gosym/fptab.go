package main

import (
	"fmt"
	"strings"
)

// floatTable writes a comparison or conversion of floats as nested tests of the
// values of its variables when they are few and small: the result of each
// combination is computed with the same arithmetic as the real code, and the
// solver does not need its theory of floating point numbers. It returns ""
// when the term is not of that kind.
func (s *Solver) floatTable(t *Term) string {
	switch t.op {
	case OpFLt, OpFLe, OpFEq, OpFToSI, OpFToUI:
	default:
		return ""
	}
	if t.vs&(1<<63) != 0 {
		return ""
	}
	var vars []*Var
	seen := map[*Term]bool{}
	product := 1
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] || t.op == OpConst {
			return true
		}
		seen[t] = true
		if t.v != nil {
			for _, v := range vars {
				if v == t.v {
					return true
				}
			}
			if t.v.n == 0 || len(vars) == 8 || product*t.v.n > 3000 {
				return false
			}
			product *= t.v.n
			vars = append(vars, t.v)
			return true
		}
		return walk(t.a) && walk(t.b) && walk(t.c)
	}
	if !walk(t) {
		return ""
	}
	m := &Model{}
	for _, v := range vars {
		for len(m.vals) <= v.idx {
			m.vals = append(m.vals, 0)
		}
	}
	var rec func(i int) string
	rec = func(i int) string {
		if i == len(vars) {
			s.tt.newEval()
			x := s.tt.eval(t, m)
			if t.w == 0 {
				return fmt.Sprint(x != 0)
			}
			return fmt.Sprintf("(_ bv%d %d)", x, t.w)
		}
		v := vars[i]
		sub := make([]string, v.n)
		for x := range sub {
			m.vals[v.idx] = v.lo + int64(x)
			sub[x] = rec(i + 1)
		}
		last := sub[v.n-1]
		var b strings.Builder
		n := 0
		for x, r := range sub[:v.n-1] {
			if r != last {
				fmt.Fprintf(&b, "(ite (= %s (_ bv%d %d)) %s ", v.name, x, v.bits, r)
				n++
			}
		}
		return b.String() + last + strings.Repeat(")", n)
	}
	r := rec(0)
	s.tt.newEval()
	for _, v := range vars {
		s.declare(v)
	}
	return r
}
