package fontconfig

// Substitutions: tests and edits of the rules.

type verifItem struct {
	x       int
	binding int
}

// lists of values of one object, with the position of the matched value
type verifList struct {
	items  []verifItem
	anchor int // -1 for none
}

func (l *verifList) insert(at int, items []verifItem) {
	out := append([]verifItem(nil), l.items[:at]...)
	out = append(out, items...)
	l.items = append(out, l.items[at:]...)
}

// the documented effect of one edit
func (l *verifList) edit(op opKind, items []verifItem) {
	same := int(vbWeak)
	anchored := l.anchor >= 0 && (op == opAssign || op == opPrepend || op == opAppend)
	if anchored {
		same = l.items[l.anchor].binding
	}
	items = append([]verifItem(nil), items...)
	for i := range items {
		items[i].binding = vIte(items[i].binding == int(vbSame), same, items[i].binding)
	}
	switch op {
	case opAssign:
		if l.anchor >= 0 {
			at := l.anchor
			l.insert(at+1, items)
			l.items = append(append([]verifItem(nil), l.items[:at]...), l.items[at+1:]...)
			if len(items) == 0 {
				l.anchor = -1
			}
			return
		}
		l.items = items
	case opAssignReplace:
		l.items, l.anchor = items, -1
	case opPrepend:
		if l.anchor >= 0 {
			l.insert(l.anchor, items)
			l.anchor += len(items)
			return
		}
		l.insert(0, items)
	case opPrependFirst:
		l.insert(0, items)
		if l.anchor >= 0 {
			l.anchor += len(items)
		}
	case opAppend:
		if l.anchor >= 0 {
			l.insert(l.anchor+1, items)
			return
		}
		l.insert(len(l.items), items)
	case opAppendLast:
		l.insert(len(l.items), items)
	case opDelete:
		if l.anchor >= 0 {
			at := l.anchor
			l.items = append(append([]verifItem(nil), l.items[:at]...), l.items[at+1:]...)
			l.anchor = -1
			return
		}
		l.items = nil
	case opDeleteAll:
		l.items, l.anchor = nil, -1
	}
}

var verifEditOps = [...]opKind{opAssign, opAssignReplace, opPrepend, opPrependFirst, opAppend, opAppendLast, opDelete, opDeleteAll}

// the values of the families: two of them are the same ignoring case
var verifFamilies = [...]string{"a", "A", "b b", "BB", "c"}

func verifFamilyVal(x int) String { return String(verifFamilies[vConc(x)]) }

// same, for the comparison with or without blanks
func verifFamilyEq(x, y int, blanks bool) bool {
	cx, cy := vIte(x == 1, 0, x), vIte(y == 1, 0, y)
	if blanks {
		cx, cy = vIte(cx == 3, 2, cx), vIte(cy == 3, 2, cy)
	}
	return cx == cy
}

func verifObjValue(o Object, x int) Value {
	if o == FAMILY {
		return verifFamilyVal(x)
	}
	return Int(x)
}

func verifObjLeaf(o Object, x int) *expression {
	if o == FAMILY {
		return &expression{op: opString, u: verifFamilyVal(x)}
	}
	return &expression{op: opInt, u: Int(x)}
}

func verifObjMax(o Object) int {
	if o == FAMILY {
		return vParam("K") - 1
	}
	return 3
}

func verifSymbolicList(o Object, max int, bindings int) []verifItem {
	n := vConc(vInt(0, max))
	var out []verifItem
	for i := 0; i < n; i++ {
		out = append(out, verifItem{vInt(0, verifObjMax(o)), vInt(0, bindings)})
	}
	return out
}

func verifToPattern(p Pattern, o Object, items []verifItem) {
	for _, it := range items {
		p.addWithBinding(o, verifObjValue(o, it.x), valueBinding(it.binding), true)
	}
}

// test of a list: is it passed, and the index of the matched value
func verifTest(o Object, items []verifItem, qual uint8, op opKind, t int) (bool, int) {
	if len(items) == 0 {
		return qual == qualAll, -1
	}
	idx := -1
	all := true
	for i := len(items) - 1; i >= 0; i-- {
		var ok bool
		x := items[i].x
		eq := x == t
		if o == FAMILY {
			eq = verifFamilyEq(x, t, op.getFlags() != 0)
		}
		switch op.getOp() {
		case opEqual:
			ok = eq
		case opNotEqual:
			ok = vNot(eq)
		case opLess:
			ok = x < t
		}
		idx = vIte(ok, i, idx)
		all = vAnd(all, ok)
	}
	if qual == qualAll {
		idx = vIte(all, 0, -1)
	}
	idx = vConc(idx)
	if idx == -1 || (qual == qualFirst && idx != 0) || (qual == qualNotFirst && idx == 0) {
		return false, -1
	}
	return true, idx
}

func verifExprList(o Object, items []verifItem) *expression {
	var e *expression
	for i := len(items) - 1; i >= 0; i-- {
		leaf := verifObjLeaf(o, items[i].x)
		if e == nil {
			e = leaf
		} else {
			e = newExprOp(leaf, e, opComma)
		}
	}
	return e
}

func verifCheckList(p Pattern, o Object, want []verifItem) {
	list := p.getVals(o)
	vAssert(len(list) == len(want), "number of values after the substitution")
	_, has := p[o]
	vAssert(has == (len(want) != 0), "an object without values is removed")
	for i, it := range want {
		vAssert(list[i].Value == verifObjValue(o, it.x), "value after the substitution")
		vAssert(int(list[i].Binding) == it.binding, "binding after the substitution")
	}
}

var verifTargets = [...]Object{SPACING, FAMILY, FirstCustomObject + 21}

func verifTestOp(o Object) opKind {
	switch vConc(vInt(0, 2)) {
	case 0:
		return opEqual
	case 1:
		return opNotEqual
	}
	if o == FAMILY {
		return opWithFlags(opEqual, opFlagIgnoreBlanks)
	}
	return opLess
}

func verifConfig(o Object, kind matchKind, rules ...directive) *Config {
	c := NewConfig()
	rs := ruleSet{name: "verif"}
	for _, r := range rules {
		if m := rs.add(r, kind); c.maxObjects < m {
			c.maxObjects = m
		}
	}
	c.subst = append(c.subst, rs)
	return c
}

// one rule, with a test on the edited object, and several edits
func VerifC18Rule() {
	o := verifTargets[vParam("obj")]
	kind := MatchQuery
	if o != FAMILY {
		kind = matchKind(vConc(vInt(int(MatchQuery), int(MatchScan))))
	}
	items := verifSymbolicList(o, vParam("N"), 1)
	list := verifList{items: items, anchor: -1}
	p := NewPattern()
	verifToPattern(p, o, items)
	var d directive
	pass := true
	other := vParam("other") == 1
	tested := vFork(vBool())
	testPattern := NewPattern()
	if tested {
		qual := uint8(vConc(vInt(0, vParam("Q"))))
		op := verifTestOp(o)
		t := vInt(0, verifObjMax(o))
		d.tests = []ruleTest{{expr: verifObjLeaf(o, t), kind: matchDefault, qual: qual, object: o, op: op}}
		if other { // the test is on the query, when substituting the result
			kind = MatchResult
			d.tests[0].kind = MatchQuery
			target := verifSymbolicList(o, 1, 0)
			verifToPattern(testPattern, o, target)
			pass, _ = verifTest(o, target, qual, op, t)
		} else {
			pass, list.anchor = verifTest(o, items, qual, op, t)
		}
	}
	for i := 0; i < vParam("E"); i++ {
		op := verifEditOps[vConc(vInt(0, len(verifEditOps)-1))]
		var l []verifItem
		b := 0
		if op != opDelete && op != opDeleteAll {
			b = vInt(0, 2)
			n := vConc(vInt(0, vParam("L")))
			for j := 0; j < n; j++ {
				x := 10 + 2*i + j // recognisable
				if o == FAMILY {
					x = (i + j + 1) % vParam("K")
				}
				l = append(l, verifItem{x, b})
			}
		}
		d.edits = append(d.edits, ruleEdit{expr: verifExprList(o, l), binding: valueBinding(b), object: o, op: op})
		if pass {
			list.edit(op, l)
		}
	}
	rules := []directive{d}
	// another rule sees the result
	second := vParam("two") == 1
	passed2 := false
	if second {
		t := vInt(0, verifObjMax(o))
		op := verifTestOp(o)
		qual := uint8(vConc(vInt(0, vParam("Q2"))))
		rules = append(rules, directive{
			tests: []ruleTest{{expr: verifObjLeaf(o, t), kind: matchDefault, qual: qual, object: o, op: op}},
			edits: []ruleEdit{{expr: verifObjLeaf(SPACING, 3), binding: vbStrong, object: CHARWIDTH, op: opAppend}},
		})
		passed2, _ = verifTest(o, list.items, qual, op, t)
	}
	c := verifConfig(o, kind, rules...)
	if vParam("copy") == 1 {
		c = c.Copy()
	}
	c.Substitute(p, testPattern, kind)
	verifCheckList(p, o, list.items)
	if second {
		n := 0
		if passed2 {
			n = 1
			vCover("second")
		}
		vAssert(len(p.getVals(CHARWIDTH)) == n, "a rule is applied when its tests pass on the result of the previous rules")
	}
	if pass && tested {
		vCover("pass")
	}
}

// rules of other kinds are not applied, tests are all required, and
// values of the rule may come from the pattern
func VerifC18Tests() {
	kind := matchKind(vConc(vInt(int(MatchQuery), int(MatchScan))))
	rkind := matchKind(vConc(vInt(int(MatchQuery), int(MatchScan))))
	p, q := NewPattern(), NewPattern()
	a := verifSymbolicList(SPACING, 2, 0)
	b := verifSymbolicList(RGBA, 1, 0)
	qa := verifSymbolicList(SPACING, 1, 0)
	verifToPattern(p, SPACING, a)
	verifToPattern(p, RGBA, b)
	verifToPattern(q, SPACING, qa)
	var d directive
	pass := kind == rkind
	anchor := -1
	for i := 0; i < vParam("T"); i++ {
		o := [...]Object{SPACING, RGBA}[vConc(vInt(0, 1))]
		qual := uint8(vConc(vInt(0, 1+2*i)))
		t := vInt(0, 3)
		tk := matchKind(vConc(vInt(int(matchDefault), int(MatchResult))))
		if tk == MatchResult && rkind != MatchResult {
			tk = matchDefault
		}
		d.tests = append(d.tests, ruleTest{expr: verifObjLeaf(o, t), kind: tk, qual: qual, object: o, op: opEqual})
		if tk == MatchQuery && rkind == MatchScan {
			return // no such rule
		}
		list := a
		onQuery := tk == MatchQuery && rkind == MatchResult
		if o == RGBA {
			list = b
			if onQuery {
				list = nil
			}
		} else if onQuery {
			list = qa
		}
		ok, at := verifTest(o, list, qual, opEqual, t)
		pass = pass && ok
		if o == SPACING && len(list) == 0 && qual == qualAll { // as in the original library
			anchor = -1
		}
		if o == SPACING && !onQuery && anchor == -1 {
			anchor = at
		}
	}
	// the new value is a field, of the query or of the result
	fk := matchKind(vConc(vInt(int(matchDefault), int(MatchResult))))
	field := [...]Object{SPACING, RGBA}[vConc(vInt(0, 1))]
	d.edits = []ruleEdit{{expr: &expression{op: opField, u: exprName{object: field, kind: fk}}, binding: vbStrong, object: SPACING, op: opAssign}}
	want := verifList{items: a, anchor: anchor}
	if pass {
		var src []verifItem
		switch {
		case kind == MatchResult && fk == MatchQuery:
			if field == SPACING {
				src = qa
			}
		case kind == MatchQuery && fk == MatchResult:
		case field == SPACING:
			src = a
		default:
			src = b
		}
		var l []verifItem
		if len(src) > 0 {
			l = []verifItem{{src[0].x, int(vbStrong)}}
		}
		want.edit(opAssign, l)
		vCover("pass")
	}
	verifConfig(SPACING, rkind, d).Substitute(p, q, kind)
	verifCheckList(p, SPACING, want.items)
	verifCheckList(p, RGBA, b)
	verifCheckList(q, SPACING, qa)
}

func verifFixed(kind int) verifOp {
	o := verifOp{kind: kind}
	switch kind {
	case tInt:
		o.v = Int(1)
	case tFloat:
		o.v = Float(1)
	case tString:
		o.v = String("fr")
	case tBool:
		o.v = True
	case tCharset:
		o.v = verifBitCharset(1)
	case tLangset:
		o.v = verifBitLangset(1)
	case tMatrix:
		o.v = Identity
	case tRange:
		o.v = Range{1, 2}
	}
	return o
}

// no expression makes the tests fail, whatever its type; a value of a wrong
// type is not stored
func VerifC18Types() {
	o := [...]Object{FAMILY, SPACING, LANG, CHARSET, WEIGHT, MATRIX}[vConc(vInt(0, 5))]
	p := NewPattern()
	kinds := map[Object][]int{FAMILY: {tString}, SPACING: {tInt}, LANG: {tLangset, tString}, CHARSET: {tCharset}, WEIGHT: {tInt, tFloat, tRange}, MATRIX: {tMatrix}}[o]
	n := vConc(vInt(0, 1))
	for i := 0; i < n; i++ {
		p.Add(o, verifFixed(kinds[vConc(vInt(0, len(kinds)-1))]).v, true)
	}
	test, val := verifFixed(vConc(vInt(0, tRange))), verifFixed(vConc(vInt(0, tRange)))
	op := [...]opKind{opEqual, opNotEqual, opContains, opListing, opLess}[vConc(vInt(0, 4))]
	qual := uint8(vConc(vInt(0, 1)))
	d := directive{
		tests: []ruleTest{{expr: verifLeaf(test), kind: matchDefault, qual: qual, object: o, op: op}},
		edits: []ruleEdit{
			{expr: verifLeaf(val), binding: vbSame, object: o, op: verifEditOps[vConc(vInt(0, len(verifEditOps)-1))]},
			{expr: verifLeaf(val), binding: vbSame, object: o, op: verifEditOps[vConc(vInt(0, len(verifEditOps)-1))]},
		},
	}
	verifConfig(o, MatchResult, d).Substitute(p, NewPattern(), MatchResult)
	for _, v := range p.getVals(o) {
		vAssert(v.Value != nil && o.hasValidType(v.Value), "type of the values")
	}
	vCover("done")
}

// the default language is added unless given, and the name of the program
func VerifC18Lang() {
	p := NewPattern()
	n := vConc(vInt(0, 2))
	has := false
	for i := 0; i < n; i++ {
		l := vConc(vInt(0, 3))
		tag := [...]string{"en", "und", "fr", "EN"}[l]
		if vFork(vBool()) {
			p.Add(LANG, NewLangset(tag), true)
		} else {
			p.Add(LANG, String(tag), true)
		}
		has = has || l != 2
	}
	NewConfig().Substitute(p, nil, MatchQuery)
	got := p.getVals(LANG)
	if has {
		vAssert(len(got) == n, "language already given")
		return
	}
	vAssert(len(got) == n+1 && got[n].Value == Value(String("en")) && got[n].Binding == vbWeak, "default language")
	vCover("added")
}
