package fontconfig

// Character sets: membership after any history, algebra of two sets.

// a set built by a history of insertions and deletions of symbolic runes,
// with its model
type verifSet struct {
	cs  Charset
	add []bool
	r   []rune
}

var (
	verifPages = [...]rune{0, 1, 0x10ff}
	verifLows  = [...]rune{0, 1, 31, 32, 255, 160}
)

// any rune (full = 1), or one of P pages and L positions in the page
func verifRune() rune {
	if vParam("full") == 1 {
		return rune(vInt(0, 0x10ffff))
	}
	l := vParam("L")
	v := vInt(0, vParam("P")*l-1)
	return verifPages[v/l]<<8 | verifLows[v%l]
}

func verifCharset(n, dels int) verifSet {
	var out verifSet
	for i := 0; i < n; i++ {
		r := verifRune()
		out.cs.AddChar(r)
		out.add, out.r = append(out.add, true), append(out.r, r)
	}
	for i := 0; i < dels; i++ {
		r := verifRune()
		out.cs.DelChar(r)
		out.add, out.r = append(out.add, false), append(out.r, r)
	}
	return out
}

func (s verifSet) has(q rune) bool {
	in := false
	for i, r := range s.r {
		in = vOr(vAnd(r == q, s.add[i]), vAnd(r != q, in))
	}
	return in
}

// number of elements not in o
func (s verifSet) countNotIn(o verifSet) int {
	c := 0
	for i, r := range s.r {
		if !s.add[i] {
			continue
		}
		first := true
		for _, r2 := range s.r[:i] {
			first = vAnd(first, r != r2)
		}
		c = vIte(vAnd(vAnd(first, s.has(r)), vNot(o.has(r))), c+1, c)
	}
	return c
}

// any history of AddChar and DelChar
func VerifC11History() {
	n := vParam("N")
	var s verifSet
	for i := 0; i < n; i++ {
		r, add := verifRune(), vBool()
		if add {
			s.cs.AddChar(r)
		} else {
			s.cs.DelChar(r)
		}
		s.add, s.r = append(s.add, add), append(s.r, r)
		if i == n-2 && vParam("full") == 0 {
			cp := s.cs.Copy()
			q := verifRune()
			had := s.has(q)
			vAssert(cp.HasChar(q) == had, "a copy has the same characters")
			cp.AddChar(r + 1)
			cp.DelChar(s.r[0])
			vAssert(s.cs.HasChar(q) == had, "changing a copy changed the set")
		}
	}
	q := verifRune()
	vAssert(s.cs.HasChar(q) == s.has(q), "HasChar disagrees with the history")
	if vParam("full") == 1 {
		return
	}
	c := 0
	for i, r := range s.r {
		last := true
		for _, r2 := range s.r[i+1:] {
			last = vAnd(last, r != r2)
		}
		c = vIte(vAnd(last, s.add[i]), c+1, c)
	}
	vAssert(s.cs.Len() == c, "Len is the number of characters")
	vCoverIf(c == n, "all distinct")
	vCoverIf(c == 0, "empty")
}

// union, difference, inclusion, equality, size of the difference, merge
func VerifC11Algebra() {
	a := verifCharset(vParam("NA"), vParam("DA"))
	b := verifCharset(vParam("NB"), vParam("DB"))
	q := verifRune()
	inA, inB := a.has(q), b.has(q)
	op := vConc(vInt(0, 5))
	switch op {
	case 0:
		u := charsetUnion(a.cs, b.cs)
		vAssert(u.HasChar(q) == vOr(inA, inB), "union")
		vAssert(u.Len() == a.countNotIn(verifSet{})+b.countNotIn(a), "size of the union")
		u.AddChar(q)
	case 1:
		d := charsetSubtract(a.cs, b.cs)
		vAssert(d.HasChar(q) == vAnd(inA, vNot(inB)), "difference")
		d.AddChar(q)
	case 2:
		vAssert(int(charsetSubtractCount(a.cs, b.cs)) == a.countNotIn(b), "size of the difference")
	case 3:
		vAssert(a.cs.isSubset(b.cs) == (a.countNotIn(b) == 0), "inclusion")
	case 4:
		vAssert(charsetEqual(a.cs, b.cs) == vAnd(a.countNotIn(b) == 0, b.countNotIn(a) == 0), "equality")
	case 5:
		m := a.cs.Copy()
		changed := m.merge(b.cs)
		vAssert(changed == (b.countNotIn(a) != 0), "merge reports if characters were added")
		vAssert(m.HasChar(q) == vOr(inA, inB), "merge")
		vAssert(m.isSubset(charsetUnion(b.cs, a.cs)) && charsetUnion(b.cs, a.cs).isSubset(m), "merge is the union")
		m.AddChar(q)
		m.DelChar(q)
	}
	vAssert(a.cs.HasChar(q) == inA, "first operand changed")
	vAssert(b.cs.HasChar(q) == inB, "second operand changed")
	vCoverIf(vAnd(inA, inB), "common")
}

// parsing a list of characters and ranges of characters
func VerifC11Parse() {
	const hexa = "01fA"
	digits := func() (string, int) {
		n := vConc(vInt(1, vParam("D")))
		s, v := "", 0
		for i := 0; i < n; i++ {
			d := vInt(0, len(hexa)-1)
			s += hexa[d : d+1]
			v = 16*v + [...]int{0, 1, 15, 10}[d]
		}
		return s, v
	}
	k := vConc(vInt(0, vParam("K")))
	str, valid := "", true
	var lo, hi []int
	for i := 0; i < k; i++ {
		s, v := digits()
		str += [...]string{"", " ", "\t "}[vConc(vInt(0, 2))]
		if i != 0 {
			str += " "
		}
		str += s
		e := v
		if vFork(vBool()) {
			s, e = digits()
			str += [...]string{"-", " - ", "- ", " -"}[vConc(vInt(0, 3))] + s
			valid = vAnd(valid, v <= e)
		}
		lo, hi = append(lo, v), append(hi, e)
	}
	if vFork(vBool()) {
		str += " "
	}
	cs, err := parseCharSet(str)
	vAssert((err == nil) == valid, "only decreasing ranges are refused")
	if err != nil {
		return
	}
	q := rune(vInt(0, 0x101))
	want := false
	for i := range lo {
		want = vOr(want, vAnd(int(q) >= lo[i], int(q) <= hi[i]))
	}
	vAssert(cs.HasChar(q) == want, "the parsed set has the characters of the ranges")
}

// no string makes the parser fail or loop
func VerifC11ParseAny() {
	const alphabet = "1f- \tg+"
	n := vParam("N")
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		b = append(b, alphabet[vInt(0, len(alphabet)-1)])
	}
	n = vConc(vInt(0, n))
	cs, err := parseCharSet(string(b[:n]))
	vCoverIf(err != nil, "refused")
	vCoverIf(err == nil, "accepted")
	vAssert(err != nil || cs.Len() <= n*0x10000, "size of the parsed set")
}
