package pango

// Attribute lists: insertion, change, filter, equality.

var verifAttrKinds = [...]AttrKind{ATTR_WEIGHT, ATTR_STYLE, ATTR_FONT_SCALE}

// successive changes: at every position, the last change covering it applies.
// The bounds of the ranges and the position are symbolic.
func VerifC06Change() {
	m, k, kinds := vParam("M"), vParam("K"), vParam("kinds")
	var list AttrList
	starts, ends := make([]int, k), make([]int, k)
	ks, vals := make([]int, k), make([]int, k)
	for i := 0; i < k; i++ {
		s, e := vInt(0, m), vInt(0, m)
		if vParam("conc") == 1 {
			s, e = vConc(s), vConc(e)
		}
		vAssume(s <= e)
		kind, val := vInt(0, kinds-1), vInt(1, 2)
		starts[i], ends[i], ks[i], vals[i] = s, e, kind, val
		list.Change(&Attribute{Kind: verifAttrKinds[kind], Data: AttrInt(val), StartIndex: s, EndIndex: e})
	}
	for i := 1; i < len(list); i++ {
		vAssert(list[i-1].StartIndex <= list[i].StartIndex, "the list is sorted by start index")
	}
	p := vInt(0, m)
	for kind := 0; kind < kinds; kind++ {
		want := 0
		for i := range starts {
			in := vAnd(vAnd(ks[i] == kind, starts[i] <= p), p < ends[i])
			want = vIte(in, vals[i], want)
		}
		n, v := 0, 0
		for _, a := range list {
			in := vAnd(vAnd(a.Kind == verifAttrKinds[kind], a.StartIndex <= p), p < a.EndIndex)
			n = vIte(in, n+1, n)
			v = vIte(in, int(a.Data.(AttrInt)), v)
		}
		vAssert(n <= 1, "at most one attribute of a kind applies")
		vAssert(v == want, "the last changed value applies")
	}
	for i, a := range list {
		vAssert(a.StartIndex < a.EndIndex, "no empty attribute")
		for _, b := range list[i+1:] {
			same := vAnd(a.Kind == b.Kind, a.Data.(AttrInt) == b.Data.(AttrInt))
			adjoin := vOr(a.EndIndex == b.StartIndex, b.EndIndex == a.StartIndex)
			vAssert(vNot(vAnd(same, adjoin)), "adjoining identical attributes are merged")
		}
	}
}

// insertion keeps the list sorted by start; for equal starts the order of insertion
// is kept (Insert) or reversed (insertion before)
func VerifC06Insert() {
	m, k := vParam("M"), vParam("K")
	var list AttrList
	var all, order []*Attribute
	for i := 0; i < k; i++ {
		s := vInt(0, m)
		a := &Attribute{Kind: ATTR_WEIGHT, Data: AttrInt(i), StartIndex: s, EndIndex: vInt(0, m)}
		before := vFork(vBool())
		if before {
			list.pango_attr_list_insert_before(a)
		} else {
			list.Insert(a)
		}
		// reference: the position after (or before) the elements with the same start
		pos := 0
		for pos < len(order) && (order[pos].StartIndex < s || (!before && order[pos].StartIndex == s)) {
			pos++
		}
		var next []*Attribute
		next = append(next, order[:pos]...)
		next = append(next, a)
		next = append(next, order[pos:]...)
		order = next
		all = append(all, a)
	}
	vAssert(len(list) == k, "every inserted attribute is in the list")
	for i := range list {
		vAssert(list[i] == order[i], "insertion position")
	}
	// a copy is deep, and equal
	c := list.copy()
	vAssert(c.pango_attr_list_equal(list), "a copy is equal")
	for i := range c {
		vAssert(c[i] != list[i] && *c[i] == *list[i], "a copy is deep")
	}
	// filter partitions the list, keeping the order
	var keep [8]bool
	for i := range all {
		keep[i] = vFork(vBool())
	}
	out := list.Filter(func(a *Attribute) bool { return !keep[int(a.Data.(AttrInt))] })
	i, j := 0, 0
	for _, a := range order {
		if keep[int(a.Data.(AttrInt))] {
			vAssert(i < len(list) && list[i] == a, "kept attributes")
			i++
		} else {
			vAssert(j < len(out) && out[j] == a, "filtered attributes")
			j++
		}
	}
	vAssert(i == len(list) && j == len(out), "filter is a partition")
}

// equality of two lists without duplicates: same attributes on the same ranges
func VerifC06Equal() {
	k := vParam("K")
	mk := func() AttrList {
		var l AttrList
		n := vConc(vInt(0, k))
		for i := 0; i < n; i++ {
			l.Insert(&Attribute{Kind: verifAttrKinds[vInt(0, 1)], Data: AttrInt(vInt(0, 1)), StartIndex: vInt(0, 1), EndIndex: 2 + vInt(0, 1)})
		}
		for i := range l {
			for j := 0; j < i; j++ {
				vAssume(*l[i] != *l[j])
			}
		}
		return l
	}
	a, b := mk(), mk()
	sub := func(a, b AttrList) bool {
		for _, x := range a {
			found := false
			for _, y := range b {
				if *x == *y {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	want := sub(a, b) && sub(b, a)
	vAssert(a.pango_attr_list_equal(b) == want, "lists are equal when they hold the same attributes")
	vAssert(b.pango_attr_list_equal(a) == want, "equality is symmetric")
}
