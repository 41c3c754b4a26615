package fontconfig

import "math"

// Patterns: lists of values per object.

// a value of symbolic content and chosen type; code identifies it
type verifVal struct {
	v    Value
	kind int // t* constant
	x    int // content
}

func verifSmallValue(kind int) verifVal {
	x := vInt(0, 2)
	out := verifVal{kind: kind, x: x}
	switch kind {
	case tInt:
		out.v = Int(x)
	case tFloat:
		out.v = Float(x)
	case tString:
		// "", "0", "00" and "1", "10"...
		s := [...]string{"1", "11", ""}[vConc(x)]
		out.v = String(s)
	case tBool:
		out.v = Bool(x)
	case tCharset:
		var cs Charset
		for i := 0; i < vConc(x); i++ {
			cs.AddChar(rune('a' + i))
		}
		out.v = cs
	case tLangset:
		out.v = NewLangset([...]string{"fr", "aa", "fr|xx"}[vConc(x)])
	case tMatrix:
		out.v = Matrix{1, float32(x), 0, 1}
	case tRange:
		out.v = Range{1, float32(x)}
	}
	return out
}

// same type and content
func verifSameElt(v, w Value) bool {
	if v, ok := v.(Langset); ok {
		w, ok := w.(Langset)
		return ok && langsetEqual(v, w)
	}
	return verifSameValue(v, w)
}

var verifKinds = [...]int{tString, tInt, tFloat, tLangset, tBool, tCharset, tMatrix, tRange}

func verifSameNum(kind int) bool { return kind == tInt || kind == tFloat }

func (a verifVal) same(b verifVal) bool {
	if a.kind != b.kind && !(verifSameNum(a.kind) && verifSameNum(b.kind)) {
		return false
	}
	return a.x == b.x
}

// the documented types of the objects
func verifAccepts(o Object, kind int) bool {
	switch o {
	case FAMILY:
		return kind == tString
	case SIZE:
		return kind == tInt || kind == tFloat || kind == tRange
	case DPI:
		return kind == tInt || kind == tFloat
	case INDEX:
		return kind == tInt
	case HINTING:
		return kind == tBool
	case MATRIX:
		return kind == tMatrix
	case CHARSET:
		return kind == tCharset
	case LANG:
		return kind == tLangset || kind == tString
	}
	return true
}

var verifObjects = [...]Object{FirstCustomObject, SIZE, LANG, FAMILY, DPI, INDEX, HINTING, MATRIX, CHARSET}

// any history of operations
func VerifC14History() {
	vMapOrder(true)
	p := NewPattern()
	objs := [2]Object{FirstCustomObject, verifObjects[vConc(vInt(1, len(verifObjects)-1))]}
	var model [2][]verifVal
	var saved Pattern
	var savedModel [2][]verifVal
	copyAt := vConc(vInt(-1, vParam("N")-1))
	for i := 0; i < vParam("N"); i++ {
		if i == copyAt {
			saved, savedModel = p, model
			p = p.Duplicate()
		}
		o := vConc(vInt(0, 1))
		switch op := vConc(vInt(0, 2)); op {
		case 2:
			p.Del(objs[o])
			model[o] = nil
		default:
			v := verifSmallValue(vConc(vInt(tInt, tRange)))
			p.Add(objs[o], v.v, op == 0)
			if !verifAccepts(objs[o], v.kind) {
				break
			}
			if op == 0 {
				model[o] = append(append([]verifVal(nil), model[o]...), v)
			} else {
				model[o] = append([]verifVal{v}, model[o]...)
			}
		}
	}
	verifCheckPattern(p, objs, model)
	if saved != nil {
		verifCheckPattern(saved, objs, savedModel)
		vCover("copy")
	}
}

func verifCheckPattern(p Pattern, objs [2]Object, model [2][]verifVal) {
	for o, obj := range objs {
		list := model[o]
		for i := 0; i <= len(list); i++ {
			v, res := p.GetAt(obj, i)
			switch {
			case i < len(list):
				vAssert(res == ResultMatch && verifSameElt(v, list[i].v), "value at a position")
			case i == 0:
				vAssert(res == ResultNoMatch || res == ResultNoId, "no value")
			default:
				vAssert(res == ResultNoId, "past the last value")
			}
		}
		first := verifVal{kind: -1}
		if len(list) != 0 {
			first = list[0]
		}
		n, ok := p.GetInt(obj)
		vAssert(ok == (first.kind == tInt) && (!ok || int(n) == first.x), "first value as an integer")
		f, ok := p.GetFloat(obj)
		vAssert(ok == verifSameNum(first.kind) && (!ok || f == float32(first.x)), "first value as a number")
		s, ok := p.GetString(obj)
		vAssert(ok == (first.kind == tString) && (!ok || String(s) == first.v), "first value as a string")
		b, ok := p.GetBool(obj)
		vAssert(ok == (first.kind == tBool) && (!ok || int(b) == first.x), "first value as a boolean")
		_, ok = p.GetCharset(obj)
		vAssert(ok == (first.kind == tCharset), "first value as a charset")
		m, ok := p.GetMatrix(obj)
		vAssert(ok == (first.kind == tMatrix) && (!ok || m.Xy == float32(first.x)), "first value as a matrix")
		ints, floats, strs, mats := p.GetInts(obj), p.GetFloats(obj), p.GetStrings(obj), p.GetMatrices(obj)
		var ni, nf, ns, nm int
		for _, v := range list {
			switch v.kind {
			case tInt:
				vAssert(ni < len(ints) && int(ints[ni]) == v.x, "integers")
				ni++
			case tFloat:
				vAssert(nf < len(floats) && floats[nf] == float32(v.x), "floats")
				nf++
			case tString:
				vAssert(ns < len(strs) && String(strs[ns]) == v.v, "strings")
				ns++
			case tMatrix:
				vAssert(nm < len(mats) && mats[nm].Xy == float32(v.x), "matrices")
				nm++
			}
		}
		vAssert(ni == len(ints) && nf == len(floats) && ns == len(strs) && nm == len(mats), "values of one type")
	}
}

// two lists of values with the same hash are equal
func VerifC14Hash() {
	list := func(p Pattern, o Object) []verifVal {
		var out []verifVal
		for i, n := 0, vConc(vInt(0, vParam("V"))); i < n; i++ {
			v := verifSmallValue(verifKinds[vConc(vInt(0, vParam("K")-1))])
			p.Add(o, v.v, true)
			out = append(out, v)
		}
		return out
	}
	same := func(a, b []verifVal) bool {
		if len(a) != len(b) {
			return false
		}
		out := true
		for i := range a {
			out = vAnd(out, a[i].same(b[i]))
		}
		return out
	}
	p, q := NewPattern(), NewPattern()
	a, b := list(p, FirstCustomObject), list(q, FirstCustomObject)
	equal := same(a, b)
	if vParam("two") == 1 {
		equal = vAnd(equal, same(list(p, FirstCustomObject+1), list(q, FirstCustomObject+1)))
	}
	vAssert(vOr(equal, p.Hash() != q.Hash()), "patterns with the same hash have the same values")
	vAssert(p.Hash() == p.Duplicate().Hash(), "a copy has the same hash")
	vCoverIf(vAnd(equal, len(a) == vParam("V")), "equal")
}

// two strings (any bytes) at one object, against two others
func VerifC14HashStrings() {
	str := func() string {
		b := make([]byte, vParam("S"))
		for i := range b {
			b[i] = byte(vInt(0, 255))
		}
		return string(b[:vConc(vInt(0, len(b)))])
	}
	p, q := NewPattern(), NewPattern()
	a, b, c, d := str(), str(), str(), str()
	p.AddString(FAMILY, a)
	p.AddString(FAMILY, b)
	q.AddString(FAMILY, c)
	q.AddString(FAMILY, d)
	equal := len(a) == len(c) && len(b) == len(d)
	if equal {
		equal = vAnd(a == c, b == d)
	}
	vAssert(vOr(equal, p.Hash() != q.Hash()), "patterns with the same hash have the same strings")
	vCoverIf(equal, "equal")
}

var verifDefaulted = [...]Object{
	WEIGHT, SLANT, WIDTH, HINTING, VERTICAL_LAYOUT, AUTOHINT, GLOBAL_ADVANCE, EMBEDDED_BITMAP, DECORATIVE,
	SYMBOL, VARIABLE, FONTVERSION, HINT_STYLE, NAMELANG, FAMILYLANG, STYLELANG, FULLNAMELANG, ORDER,
}

// default values
func VerifC14Defaults() {
	p := NewPattern()
	which := vConc(vInt(-1, len(verifDefaulted)-1))
	x := vInt(0, 100)
	if which >= 0 {
		switch o := verifDefaulted[which]; o {
		case NAMELANG, FAMILYLANG, STYLELANG, FULLNAMELANG:
			p.AddString(o, "xx")
		case WEIGHT, SLANT, WIDTH, FONTVERSION, HINT_STYLE, ORDER:
			p.AddInt(o, int32(x))
		default:
			p.Add(o, Bool(x%3), true)
		}
	}
	num := func(o Object, on bool) (float32, bool) {
		if !on {
			return 0, false
		}
		v := vInt(1, vParam("M"))
		if o == SCALE || o == DPI {
			v = 1 + 31*vConc(vInt(0, 2))
		}
		if vFork(vBool()) {
			p.AddInt(o, int32(v))
			return float32(v), true
		}
		p.AddFloat(o, float32(v)/4)
		return float32(v) / 4, true
	}
	conf := vConc(vInt(0, 15))
	size, hasSize := num(SIZE, conf&1 != 0)
	px, hasPx := num(PIXEL_SIZE, conf&2 != 0)
	scale, hasScale := num(SCALE, conf&4 != 0)
	dpi, hasDpi := num(DPI, conf&8 != 0)
	p.SubstituteDefault()
	for i, o := range verifDefaulted {
		list := p.getVals(o)
		vAssert(len(list) != 0, "a default value")
		if i == which {
			vAssert(len(list) == 1, "a value which was given is kept")
			switch v := list[0].Value.(type) {
			case Int:
				vAssert(int(v) == x, "a value which was given is kept")
			case Bool:
				vAssert(int(v) == x%3, "a value which was given is kept")
			case String:
				vAssert(v == "xx", "a value which was given is kept")
			default:
				vAssert(false, "a value which was given is kept")
			}
			continue
		}
		switch v := list[0].Value.(type) {
		case Int:
			want := map[Object]int{WEIGHT: WEIGHT_NORMAL, SLANT: SLANT_ROMAN, WIDTH: WIDTH_NORMAL, FONTVERSION: 0x7fffffff, HINT_STYLE: HINT_FULL, ORDER: 0}
			vAssert(int(v) == want[o], "default value")
		case Bool:
			on := o == HINTING || o == GLOBAL_ADVANCE || o == EMBEDDED_BITMAP
			vAssert(v == True && on || v == False && !on, "default value")
		}
	}
	if !hasScale {
		scale = 1
	}
	if !hasDpi {
		dpi = 75
	}
	gotPx, ok := p.GetFloat(PIXEL_SIZE)
	vAssert(ok, "a pixel size")
	gotSize, ok := p.GetFloat(SIZE)
	vAssert(ok && len(p.getVals(SIZE)) == 1, "a size")
	if hasPx {
		vAssert(gotPx == px, "the pixel size is kept")
	} else {
		if !hasSize {
			size = 12
		}
		vAssert(gotSize == size, "the size is kept")
		s, _ := p.GetFloat(SCALE)
		d, _ := p.GetFloat(DPI)
		vAssert(s == scale && d == dpi, "scale and resolution")
	}
	err := float64(gotPx)*72 - float64(gotSize)*float64(scale)*float64(dpi)
	vAssert(vAnd(err < 0.001*float64(gotPx), err > -0.001*float64(gotPx)), "pixel size and size agree")
	vAssert(!math.IsNaN(err), "pixel size and size agree")
	vCover("done")
}

// the full name is made of the english family and style
func VerifC14Fullname() {
	langs := [...]string{"fr", "en", "ja"}
	p := NewPattern()
	n := vConc(vInt(1, 3))
	family, style := "A0", "B0"
	got := false
	for i := 0; i < n; i++ {
		l := vConc(vInt(0, 2))
		f, s := string([]byte{'A', byte('0' + i)}), string([]byte{'B', byte('0' + i)})
		if vFork(vBool()) {
			s = "Regular"
		}
		p.AddString(FAMILY, f+" ")
		p.AddString(FAMILYLANG, langs[l])
		p.AddString(STYLE, " "+s)
		p.AddString(STYLELANG, langs[l])
		if i == 0 || langs[l] == "en" && !got {
			family, style = f, s
			got = langs[l] == "en"
		}
	}
	if vFork(vBool()) {
		p.AddString(FULLNAME, "old")
	}
	variable := vConc(vInt(-1, 2))
	if variable >= 0 {
		p.Add(VARIABLE, Bool(variable), true)
	}
	before := p.Hash()
	ok := p.addFullname()
	vAssert(ok, "family and style give a name")
	if variable > 0 {
		vAssert(p.Hash() == before, "variable fonts have no full name")
		return
	}
	want := family
	if style != "Regular" {
		want += " " + style
	}
	name := p.GetStrings(FULLNAME)
	vAssert(len(name) == 1 && name[0] == want, "full name")
}
