package fontconfig

import "math"

// Expressions of the rules: comparisons, operators, fields, conditionals.

// an operand of any type; the content is summarised by x (number or set of bits), y
type verifOp struct {
	v    Value
	kind int // 0: nil, or t*
	x, y int
	s    string
}

const (
	verifInt32Min = -1 << 31
	verifInt32Max = 1<<31 - 1
)

var verifBitLangs = [...]string{"fr", "aa", "xx"}

func verifBitLangset(m int) Langset {
	var ls Langset
	for i, l := range verifBitLangs {
		if m>>uint(i)&1 == 1 {
			ls.add(l)
		}
	}
	return ls
}

func verifBitCharset(m int) Charset {
	var cs Charset
	for i := 0; i < 3; i++ {
		if m>>uint(i)&1 == 1 {
			cs.AddChar(rune([...]int{'a', 'b', 0x3042}[i]))
		}
	}
	return cs
}

// wide: any integer, instead of a small one
func verifOperand(kind int, wide bool) verifOp {
	o := verifOp{kind: kind}
	switch kind {
	case tInt:
		if wide {
			o.x = vInt(verifInt32Min, verifInt32Max)
		} else {
			o.x = vInt(-3, 3)
		}
		o.v = Int(o.x)
		o.x *= 2
	case tFloat: // x counts the halves
		o.x = vInt(-5, 5)
		o.v = Float(o.x) / 2
	case tString:
		o.s = verifText("aAb ", vParam("S"))
		o.v = String(o.s)
	case tBool:
		o.x = vInt(0, 2)
		o.v = Bool(o.x)
	case tCharset:
		o.x = vConc(vInt(0, 7))
		o.v = verifBitCharset(o.x)
	case tLangset:
		o.x = vConc(vInt(0, 7))
		o.v = verifBitLangset(o.x)
	case tMatrix:
		o.x, o.y = vInt(-2, 2), vInt(-2, 2)
		o.v = Matrix{Xx: float32(o.x), Xy: 1, Yx: float32(o.y), Yy: 2}
	case tRange:
		o.x, o.y = vInt(-3, 3), vInt(-3, 3)
		vAssume(o.x <= o.y)
		o.v = Range{Begin: float32(o.x) / 2, End: float32(o.y) / 2}
	}
	return o
}

func verifNum(k int) bool { return k == tInt || k == tFloat }

// find the substring, ignoring case
func verifHasSub(s, sub string) bool {
	found := false
	for i := 0; i+len(sub) <= len(s); i++ {
		found = vOr(found, verifSame(s[i:i+len(sub)], sub))
	}
	return found
}

func verifCompare(l verifOp, op opKind, blanks bool, r verifOp) bool {
	neg := op == opNotEqual || op == opNotContains
	order := func(lt, eq, gt bool) bool {
		switch op {
		case opLess:
			return lt
		case opLessEqual:
			return vOr(lt, eq)
		case opMore:
			return gt
		case opMoreEqual:
			return vOr(gt, eq)
		case opNotEqual, opNotContains:
			return vNot(eq)
		}
		return eq
	}
	// promotions
	if l.kind == 0 {
		switch r.kind {
		case tCharset, tLangset:
			l.kind = r.kind // empty
		case tMatrix:
			l = verifOp{kind: tMatrix, x: 99}
		}
	}
	if r.kind == 0 {
		switch l.kind {
		case tCharset, tLangset:
			r.kind = l.kind
		case tMatrix:
			r = verifOp{kind: tMatrix, x: 99}
		}
	}
	lang := func(s string) (int, bool) {
		for i, l := range verifBitLangs {
			if verifSame(s, l) {
				return 1 << uint(i), true
			}
		}
		return 0, s == ""
	}
	if l.kind == tString && r.kind == tLangset {
		m, known := lang(l.s)
		vAssume(known)
		l = verifOp{kind: tLangset, x: m}
	}
	if r.kind == tString && l.kind == tLangset {
		m, known := lang(r.s)
		vAssume(known)
		r = verifOp{kind: tLangset, x: m}
	}
	if verifNum(l.kind) && r.kind == tRange {
		l = verifOp{kind: tRange, x: l.x, y: l.x}
	}
	if verifNum(r.kind) && l.kind == tRange {
		r = verifOp{kind: tRange, x: r.x, y: r.x}
	}
	if l.kind != r.kind && !(verifNum(l.kind) && verifNum(r.kind)) {
		return neg
	}
	sets := op == opContains || op == opListing || op == opNotContains
	switch l.kind {
	case 0:
		return op == opEqual || op == opContains || op == opListing
	case tInt, tFloat:
		return order(l.x < r.x, l.x == r.x, l.x > r.x)
	case tBool:
		dl, dr := l.x == 2, r.x == 2
		eq := l.x == r.x
		if sets {
			eq = vOr(eq, dl)
		}
		return order(vAnd(dr, vNot(dl)), eq, vAnd(dl, vNot(dr)))
	case tString:
		var res bool
		switch op {
		case opContains, opNotContains:
			res = verifHasSub(l.s, r.s)
		case opEqual, opListing, opNotEqual:
			a, b := l.s, r.s
			if blanks {
				a, b = string(verifStrip(a, " \t")), string(verifStrip(b, " \t"))
			}
			res = verifSame(a, b)
		default:
			return false
		}
		if neg {
			return vNot(res)
		}
		return res
	case tMatrix:
		eq := vAnd(l.x == r.x, l.y == r.y)
		switch op {
		case opEqual, opContains, opListing:
			return eq
		case opNotEqual, opNotContains:
			return vNot(eq)
		}
		return false
	case tCharset, tLangset:
		res := l.x == r.x
		if sets {
			res = r.x&^l.x == 0
		}
		switch op {
		case opEqual, opContains, opListing:
			return res
		case opNotEqual, opNotContains:
			return !res
		}
		return false
	case tRange:
		eq := vAnd(l.x == r.x, l.y == r.y)
		if sets { // l inside r
			eq = vAnd(l.x >= r.x, l.y <= r.y)
		}
		switch op {
		case opLess:
			return l.y < r.x
		case opLessEqual:
			return l.y <= r.x
		case opMore:
			return l.x > r.y
		case opMoreEqual:
			return l.x >= r.y
		}
		return order(false, eq, false)
	}
	return false
}

var verifCompareOps = [...]opKind{opEqual, opNotEqual, opContains, opNotContains, opListing, opLess, opLessEqual, opMore, opMoreEqual}

func verifLeaf(o verifOp) *expression {
	op := opNil
	switch o.kind {
	case tInt:
		op = opInt
	case tFloat:
		op = opDouble
	case tString:
		op = opString
	case tBool:
		op = opBool
	case tCharset:
		op = opCharSet
	case tLangset:
		op = opLangSet
	case tRange:
		op = opRange
	case tMatrix:
		m := o.v.(Matrix)
		f := func(x float32) *expression { return &expression{op: opDouble, u: Float(x)} }
		return &expression{op: opMatrix, u: exprMatrix{xx: f(m.Xx), xy: f(m.Xy), yx: f(m.Yx), yy: f(m.Yy)}}
	case 0:
		// a field without value
		return &expression{op: opField, u: exprName{object: FOUNDRY, kind: matchDefault}}
	}
	return &expression{op: op, u: o.v}
}

// all comparisons
func VerifC17Compare() {
	k1 := vConc(vInt(0, tRange))
	k2 := vConc(vInt(0, tRange))
	wide := k1 == tInt && k2 == tInt
	l, r := verifOperand(k1, wide), verifOperand(k2, wide)
	op := verifCompareOps[vConc(vInt(0, len(verifCompareOps)-1))]
	blanks := false
	opf := op
	if k1 == tString && k2 == tString && (op == opEqual || op == opNotEqual || op == opListing) {
		blanks = vFork(vBool())
		if blanks {
			opf = opWithFlags(op, opFlagIgnoreBlanks)
		}
	}
	want := verifCompare(l, op, blanks, r)
	e := newExprOp(verifLeaf(l), verifLeaf(r), opf)
	got := e.evaluate(Pattern{}, Pattern{}, MatchQuery)
	b, isBool := got.(Bool)
	vAssert(isBool, "a comparison gives a boolean")
	vAssert((b == True) == want && b <= True, "comparison of two values")
	vCover("done")
}

func verifIsNum(v Value, halves int) bool {
	switch v := v.(type) {
	case Int:
		return halves%2 == 0 && int(v) == halves/2
	case Float:
		return halves%2 != 0 && v == Float(halves)/2
	}
	return false
}

// binary operators
func VerifC17Binary() {
	k1 := vConc(vInt(0, tRange))
	k2 := vConc(vInt(0, tRange))
	l, r := verifOperand(k1, false), verifOperand(k2, false)
	op := opKind(vConc(vInt(0, 5)))
	op = [...]opKind{opOr, opAnd, opPlus, opMinus, opTimes, opDivide}[op]
	e := newExprOp(verifLeaf(l), verifLeaf(r), op)
	if vParam("copy") == 1 {
		e = e.copyT()
	}
	got := e.evaluate(Pattern{}, Pattern{}, MatchQuery)
	num := verifNum(k1) && verifNum(k2)
	switch {
	case num && (op == opPlus || op == opMinus):
		x := l.x + r.x
		if op == opMinus {
			x = l.x - r.x
		}
		vAssert(verifIsNum(got, x), "sum or difference of numbers, integral when it can be")
	case num && op == opTimes:
		f, isF := got.(Float)
		i, isI := got.(Int)
		x := l.x * r.x // quarters
		if x%4 == 0 {
			vAssert(isI && int(i) == x/4, "integral product")
		} else {
			vAssert(isF && f == Float(x)/4, "product")
		}
	case num && op == opDivide:
		f, isF := got.(Float)
		i, isI := got.(Int)
		if r.x == 0 {
			vAssert(isF, "division by zero")
		} else if l.x%r.x == 0 {
			vAssert(isI && int(i) == l.x/r.x, "integral quotient")
		} else {
			vAssert(isF && f == Float(l.x)/Float(r.x), "quotient")
		}
	case k1 == tBool && k2 == tBool && op == opOr:
		b, ok := got.(Bool)
		vAssert(ok && b == verifBoolOf(l.x != 0 || r.x != 0), "or")
	case k1 == tBool && k2 == tBool && op == opAnd:
		b, ok := got.(Bool)
		vAssert(ok && b == verifBoolOf(l.x != 0 && r.x != 0), "and")
	case k1 == tString && k2 == tString && op == opPlus:
		vAssert(got == Value(String(l.s+r.s)), "concatenation")
	case k1 == tMatrix && k2 == tMatrix && op == opTimes:
		m, ok := got.(Matrix)
		vAssert(ok, "product of matrices")
		vAssert(m.Xx == float32(l.x*r.x+r.y) && m.Xy == float32(l.x+2), "first row of the product")
		vAssert(m.Yx == float32(l.y*r.x+2*r.y) && m.Yy == float32(l.y+4), "second row of the product")
	case (k1 == tMatrix && k2 == 0 || k1 == 0 && k2 == tMatrix) && op == opTimes:
		m := l
		if k1 == 0 {
			m = r
		}
		vAssert(got == m.v, "the missing matrix is the identity")
	case (k1 == tCharset || k1 == 0) && (k2 == tCharset || k2 == 0) && k1+k2 != 0 && (op == opPlus || op == opMinus):
		x := l.x | r.x
		if op == opMinus {
			x = l.x &^ r.x
		}
		cs, ok := got.(Charset)
		vAssert(ok && charsetEqual(cs, verifBitCharset(x)), "union or difference of charsets")
	case (k1 == tLangset || k1 == 0) && (k2 == tLangset || k2 == 0) && k1+k2 != 0 && (op == opPlus || op == opMinus):
		x := l.x | r.x
		if op == opMinus {
			x = l.x &^ r.x
		}
		ls, ok := got.(Langset)
		vAssert(ok && langsetEqual(ls, verifBitLangset(x)), "union or difference of langsets")
	case k1 == tString && k2 == tLangset || k1 == tLangset && k2 == tString:
		return
	default:
		vAssert(got == nil, "no value for other operands")
		return
	}
	// the operands are not modified
	if k1 == tCharset {
		vAssert(charsetEqual(l.v.(Charset), verifBitCharset(l.x)), "charset modified")
	}
	if k1 == tLangset {
		vAssert(langsetEqual(l.v.(Langset), verifBitLangset(l.x)), "langset modified")
	}
	vCover("value")
}

// integers are combined exactly
func VerifC17Ints() {
	m := vParam("M")
	a, b := vInt(-m, m), vInt(-m, m)
	op := [...]opKind{opPlus, opMinus, opTimes, opDivide}[vParam("op")+vConc(vInt(0, 1))]
	e := newExprOp(&expression{op: opInt, u: Int(a)}, &expression{op: opInt, u: Int(b)}, op)
	got := e.evaluate(nil, nil, MatchQuery)
	i, isI := got.(Int)
	_, isF := got.(Float)
	var x int
	switch op {
	case opPlus:
		x = a + b
	case opMinus:
		x = a - b
	case opTimes:
		x = a * b
	case opDivide:
		if b == 0 || a%b != 0 {
			vAssert(isF, "non integral quotient")
			return
		}
		x = a / b
	}
	if x < verifInt32Min || x > verifInt32Max {
		vAssert(isF, "result out of range of the integers")
		vCover("overflow")
		return
	}
	vAssert(isI && int(i) == x, "exact integer")
}

// products at the limits of the range
func VerifC17Mul() {
	bases := [...]int{1 << 16, 46340, 46341, 1 << 24, -1 << 31, 1<<31 - 1, 65537}
	a := bases[vConc(vInt(0, len(bases)-1))]
	b := (1<<31)/a + vInt(-4, 4)
	b *= 1 - 2*vInt(0, 1)
	e := newExprOp(&expression{op: opInt, u: Int(a)}, &expression{op: opInt, u: Int(b)}, opTimes)
	got := e.evaluate(nil, nil, MatchQuery)
	i, isI := got.(Int)
	_, isF := got.(Float)
	if x := a * b; x < verifInt32Min || x > verifInt32Max {
		vAssert(isF, "product out of range of the integers")
		vCover("overflow")
	} else {
		vAssert(isI && int(i) == x, "exact product")
	}
}

// unary operators
func VerifC17Unary() {
	k := vConc(vInt(0, tRange))
	l := verifOperand(k, k == tInt)
	op := [...]opKind{opNot, opFloor, opCeil, opRound, opTrunc}[vConc(vInt(0, 4))]
	e := newExprOp(verifLeaf(l), nil, op)
	if vParam("copy") == 1 {
		e = e.copyT()
	}
	got := e.evaluate(nil, nil, MatchQuery)
	switch {
	case k == tBool && op == opNot:
		b, ok := got.(Bool)
		vAssert(ok && b == verifBoolOf(l.x == 0), "not")
	case k == tInt && op != opNot:
		i, ok := got.(Int)
		vAssert(ok && int(i)*2 == l.x, "rounding an integer")
	case k == tFloat && op != opNot:
		i, ok := got.(Int)
		vAssert(ok, "rounding gives an integer")
		lo := (l.x+100)/2 - 50 // floor of x/2
		hi := (l.x+101)/2 - 50
		switch op {
		case opFloor:
			vAssert(int(i) == lo, "floor")
		case opCeil:
			vAssert(int(i) == hi, "ceil")
		case opTrunc:
			vAssert(int(i) == l.x/2, "trunc")
		case opRound: // halves are rounded away from zero
			vAssert(int(i) == vIte(l.x >= 0, hi, lo), "round")
		}
	default:
		vAssert(got == nil, "no value for other operands")
		return
	}
	vCover("value")
}

// rounding any float of 24 bits of precision
func VerifC17Round() {
	e := vConc(vInt(-vParam("E"), 7)) // f = m * 2^e
	m := vInt(1<<23, 1<<24-1)
	bits := uint32(m)&(1<<23-1) | uint32(e+23+127)<<23
	neg := vFork(vBool())
	if neg {
		bits |= 1 << 31
	}
	f := math.Float32frombits(bits)
	op := [...]opKind{opFloor, opCeil, opTrunc, opRound}[vConc(vInt(0, 3))]
	exp := newExprOp(&expression{op: opDouble, u: Float(f)}, nil, op)
	got, ok := exp.evaluate(nil, nil, MatchQuery).(Int)
	vAssert(ok, "rounding gives an integer")
	var down, up, near int // of the absolute value
	if e >= 0 {
		down = m << uint(e)
		up, near = down, down
	} else {
		k := uint(-e)
		down = m >> k
		up = (m + 1<<k - 1) >> k
		near = (m + 1<<(k-1)) >> k
	}
	var want int
	switch op {
	case opTrunc:
		want = down
	case opRound:
		want = near
	case opFloor:
		want = down
		if neg {
			want = up
		}
	case opCeil:
		want = up
		if neg {
			want = down
		}
	}
	if neg {
		want = -want
	}
	vAssert(int(got) == want, "rounded value")
}

// a float plus zero is itself, and an Int exactly when it is integral and in range
func VerifC17Integral() {
	e := vConc(vInt(-vParam("E"), 16)) // f = m * 2^e
	m := vInt(1<<23, 1<<24-1)
	bits := uint32(m)&(1<<23-1) | uint32(e+23+127)<<23
	neg := vFork(vBool())
	if neg {
		bits |= 1 << 31
	}
	f := math.Float32frombits(bits)
	exp := newExprOp(&expression{op: opDouble, u: Float(f)}, &expression{op: opInt, u: Int(0)}, opPlus)
	got := exp.evaluate(nil, nil, MatchQuery)
	integral := true
	x := m
	if e < 0 {
		integral = m&(1<<uint(-e)-1) == 0
		x = m >> uint(-e)
	} else {
		x <<= uint(e)
	}
	if neg {
		x = -x
	}
	switch v := got.(type) {
	case Int:
		vAssert(integral && int(v) == x, "the integer is the value")
		vCover("int")
	case Float:
		vAssert(math.Float32bits(float32(v)) == bits, "the float is the value")
		vAssert(!integral || x < verifInt32Min || x > verifInt32Max, "an integral value in range is an integer")
		vCover("float")
	default:
		vAssert(false, "a number")
	}
}

// fields, constants, conditionals
func VerifC17Field() {
	var pats [2]Pattern
	var n, first [2]int
	for i := range pats {
		pats[i] = NewPattern()
		n[i] = vConc(vInt(0, 2))
		for j := 0; j < n[i]; j++ {
			x := vInt(0, 100)
			if j == 0 {
				first[i] = x
			}
			pats[i].Add(SPACING, Int(x), true)
		}
	}
	kind := matchKind(vConc(vInt(int(MatchQuery), int(MatchScan))))
	nameKind := matchKind(vConc(vInt(int(matchDefault), int(MatchScan))))
	e := &expression{op: opField, u: exprName{object: SPACING, kind: nameKind}}
	got := e.evaluate(pats[0], pats[1], kind)
	src := 0
	if kind == MatchResult && nameKind == MatchQuery {
		src = 1
	}
	if (kind == MatchQuery && nameKind == MatchResult) || n[src] == 0 {
		vAssert(got == nil, "no value for the field")
		return
	}
	i, ok := got.(Int)
	vAssert(ok && int(i) == first[src], "first value of the field in the targeted pattern")
	vCover("value")
}

func VerifC17Quest() {
	k := vConc(vInt(0, tRange))
	cond := verifOperand(k, false)
	a, b := vInt(0, 1000), vInt(0, 1000)
	e := newExprOp(verifLeaf(cond), newExprOp(&expression{op: opInt, u: Int(a)}, &expression{op: opInt, u: Int(b)}, opQuest), opQuest)
	if vParam("copy") == 1 {
		e = e.copyT()
	}
	got := e.evaluate(nil, nil, MatchQuery)
	if k != tBool {
		vAssert(got == nil, "the condition is not a boolean")
		return
	}
	i, ok := got.(Int)
	vAssert(ok && int(i) == vIte(cond.x != 0, a, b), "branch of the conditional")
	vCover("value")
}

// names of constants are looked for ignoring case
func VerifC17Const() {
	c := baseConstants[vConc(vInt(0, len(baseConstants)-1))]
	name := []byte(c.name)
	up := vConc(vInt(0, len(name)-1))
	name[up] -= 32
	bad := vInt(-1, len(name)-1)
	for i := range name {
		name[i] = byte(vIte(i == bad, '.', int(name[i])))
	}
	e := &expression{op: opConst, u: String(name)}
	got := e.evaluate(nil, nil, MatchQuery)
	if bad >= 0 {
		vAssert(got == nil, "unknown constant")
		return
	}
	i, ok := got.(Int)
	vAssert(ok && int(i) == c.value, "value of the constant")
}

// list of values: absent values are dropped, the binding is kept
func VerifC17List() {
	n := vParam("N")
	var e *expression
	var kinds []int
	var xs []int
	for i := 0; i < n; i++ {
		k := [...]int{0, tInt, tBool}[vConc(vInt(0, 2))]
		o := verifOperand(k, false)
		kinds, xs = append(kinds, k), append(xs, o.x)
	}
	for i := n - 1; i >= 0; i-- {
		o := verifOp{kind: kinds[i], x: xs[i]}
		switch kinds[i] {
		case tInt:
			o.v = Int(xs[i] / 2)
		case tBool:
			o.v = Bool(xs[i])
		}
		if e == nil {
			e = verifLeaf(o)
		} else {
			e = newExprOp(verifLeaf(o), e, opComma)
		}
	}
	binding := valueBinding(vInt(int(vbWeak), int(vbSame)))
	l := e.toValues(nil, nil, MatchQuery, binding)
	j := 0
	for i, k := range kinds {
		if k == 0 {
			continue
		}
		vAssert(j < len(l), "a value is missing")
		vAssert(l[j].Binding == binding, "binding of the value")
		switch v := l[j].Value.(type) {
		case Int:
			vAssert(k == tInt && int(v)*2 == xs[i], "integer of the list")
		case Bool:
			vAssert(k == tBool && int(v) == xs[i], "boolean of the list")
		default:
			vAssert(false, "type of the value")
		}
		j++
	}
	vAssert(j == len(l), "number of values")
	vCover("done")
}

func verifBoolOf(b bool) Bool {
	if b {
		return True
	}
	return False
}
