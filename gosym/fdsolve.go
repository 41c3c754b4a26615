package main

import "math/bits"

// smallSolve decides pc && c when the connected component of c (through the
// constraints over several variables) has few variables of small domain: a
// backtracking search over the filtered domains. ok is false when the budget
// is exceeded or a variable is not small.
func (e *Exec) smallSolve(c *Term) (res int, m *Model, ok bool) {
	comp := c.vs
	fp := c.fp // slow in the solver
	for _, p := range e.pc {
		fp = fp || p.fp
	}
	maxVars, budget := 8, 4000
	if fp {
		maxVars, budget = 12, 4000000
	} else if bits.OnesCount64(comp) > 6 {
		return 0, nil, false
	}
	cons := e.fdCons[:0]
	cons = append(cons, c)
	if e.fdUsed == nil || len(e.fdUsed) < len(e.pc) {
		e.fdUsed = make([]bool, 2*len(e.pc)+64)
	}
	used := e.fdUsed[:len(e.pc)]
	for i := range used {
		used[i] = false
	}
	for changed := true; changed; {
		changed = false
		for i, p := range e.pc {
			if used[i] || p.op == OpTab || p.vs&comp == 0 {
				continue
			}
			used[i] = true
			cons = append(cons, p)
			if p.vs&^comp != 0 {
				comp |= p.vs
				changed = true
			}
		}
	}
	e.fdCons = cons
	nv := bits.OnesCount64(comp)
	if comp&(1<<63) != 0 || nv > maxVars {
		return 0, nil, false
	}
	// variables, smallest domain first; c's variables are favoured by the domains
	var order [12]int
	var size [12]int
	n := 0
	for b := comp; b != 0; b &= b - 1 {
		idx := bits.TrailingZeros64(b)
		if idx >= len(e.vars) || e.vars[idx].n == 0 {
			return 0, nil, false
		}
		d := e.dom[idx].count()
		if c.vs&(1<<idx) == 0 {
			d += 1 << 20
		}
		p := n
		for p > 0 && size[p-1] > d {
			order[p], size[p] = order[p-1], size[p-1]
			p--
		}
		order[p], size[p] = idx, d
		n++
	}
	if n == 0 {
		return 0, nil, false
	}
	// level of each constraint
	var lists [12][]*Term
	for _, t := range cons {
		l := 0
		for i := 0; i < n; i++ {
			if t.vs&(1<<order[i]) != 0 {
				l = i
			}
		}
		lists[l] = append(lists[l], t)
	}
	m = e.model.clone()
	for len(m.vals) < len(e.vars) {
		m.vals = append(m.vals, e.vars[len(m.vals)].lo)
	}
	var rec func(i int) int
	rec = func(i int) int {
		if i == n {
			return 1
		}
		v := e.vars[order[i]]
		d := e.dom[order[i]]
		for x := 0; x < v.n; x++ {
			if !d.has(x) {
				continue
			}
			m.vals[order[i]] = v.lo + int64(x)
			good := true
			e.tt.newEval()
			for _, t := range lists[i] {
				cost := int(t.size)/8 + 1
				if fp && cost > 100 {
					cost = 100
				}
				budget -= cost
				if e.tt.eval(t, m) == 0 {
					good = false
					break
				}
			}
			if budget < 0 {
				return -1
			}
			if !good {
				continue
			}
			if r := rec(i + 1); r != 0 {
				return r
			}
		}
		return 0
	}
	switch rec(0) {
	case 1:
		return 1, m, true
	case 0:
		return 0, nil, true
	}
	return 0, nil, false
}
