package fontconfig

// Matching: distances between values, best font, sorted list.

func verifText(alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[vInt(0, len(alphabet)-1)]
	}
	return string(b[:vConc(vInt(0, n))])
}

// does the glob accept the string (reference)
func verifGlob(glob, st string) bool {
	// ok[j]: glob[:i] accepts st[:j]
	ok := make([]bool, len(st)+1)
	ok[0] = true
	for i := 0; i < len(glob); i++ {
		next := make([]bool, len(st)+1)
		star, any := glob[i] == '*', glob[i] == '?'
		for j := range next {
			// as a star
			asStar := ok[j]
			if j > 0 {
				asStar = vOr(asStar, vAnd(star, next[j-1]))
			}
			asChar := false
			if j > 0 {
				asChar = vAnd(ok[j-1], vOr(any, glob[i] == st[j-1]))
			}
			next[j] = vOr(vAnd(star, asStar), vAnd(vNot(star), asChar))
		}
		ok = next
	}
	return ok[len(st)]
}

func VerifC15Filename() {
	glob, st := verifText("ab*?", vParam("G")), verifText("abA", vParam("S"))
	v, d := compareFilename(String(glob), String(st))
	vAssert(v == Value(String(st)), "the value is the one of the font")
	want := 3
	if verifGlob(glob, st) {
		want = 2
	}
	if len(glob) == len(st) && verifSame(glob, st) {
		want = 1
	}
	if len(glob) == len(st) && glob == st {
		want = 0
	}
	vAssert(d == float32(want), "distance between a file name or glob and a file name")
	vCoverIf(want == 2, "glob")
}

func verifStrip(s string, drop string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		skip := false
		for k := 0; k < len(drop); k++ {
			if s[i] == drop[k] {
				skip = true
			}
		}
		if !skip {
			out = append(out, verifLow(s[i]))
		}
	}
	return out
}

func VerifC15Strings() {
	s, t := verifText("aAb -", vParam("N")), verifText("aAb -", vParam("N"))
	a, b := verifStrip(s, " "), verifStrip(t, " ")
	same := len(a) == len(b) && string(a) == string(b)
	switch vConc(vInt(0, 2)) {
	case 0:
		v, d := compareFamily(String(s), String(t))
		vAssert(v == Value(String(t)), "the value is the one of the font")
		vAssert(d == 0 && same || d == 1 && !same, "families are compared ignoring case and spaces")
		data := BuildPattern(PatternElement{Object: FAMILY, Value: String(s)}).newCompareData()
		var score [priorityEnd]float32
		data.compareFamilies(valueList{{Value: String(t)}}, score[:])
		vAssert((score[priFAMILY_STRONG] == 0) == same, "families are compared ignoring case and spaces")
	case 1:
		_, d := compareString(String(s), String(t))
		same := verifSame(s, t)
		vAssert(d == 0 && same || d == 1 && !same, "strings are compared ignoring case")
	case 2:
		a, b := verifStrip(s, " -"), verifStrip(t, " -")
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		_, d := comparePostScript(String(s), String(t))
		vAssert(d >= 0 && d <= 1, "distance of PostScript names")
		switch {
		case s == "" || t == "":
			vAssert(s != t || d == 0, "distance of PostScript names")
		case len(a) == 0:
		case n == len(a):
			vAssert(d == 0, "PostScript names are compared ignoring case, spaces and dashes")
		case n == 0:
			vAssert(d > 0, "PostScript names are compared ignoring case, spaces and dashes")
		default:
			vAssert(d > 0 && d < 1, "PostScript names are compared ignoring case, spaces and dashes")
		}
	}
}

// a number (Int or Float) or range, as an interval
func verifInterval(m int) (Value, int, int) {
	b := vInt(0, m)
	switch vConc(vInt(0, 2)) {
	case 0:
		return Int(b), b, b
	case 1:
		return Float(b), b, b
	}
	e := vInt(0, m)
	vAssume(b <= e)
	return Range{float32(b), float32(e)}, b, e
}

func VerifC15Numbers() {
	m := vParam("M")
	switch vConc(vInt(0, 2)) {
	case 0:
		x, y := vInt(-m, m), vInt(-m, m)
		v1, v2 := Value(Int(x)), Value(Int(y))
		if vFork(vBool()) {
			v1 = Float(x)
		}
		if vFork(vBool()) {
			v2 = Float(y)
		}
		_, d := compareNumber(v1, v2)
		vAssert(int(d) == vIte(x < y, y-x, x-y), "distance of numbers")
	case 1:
		v1, b1, e1 := verifInterval(m)
		v2, b2, e2 := verifInterval(m)
		v, d := compareRange(v1, v2)
		gap := vIte(e1 < b2, b2-e1, vIte(e2 < b1, b1-e2, 0))
		vAssert(int(d) == gap, "distance of ranges")
		best := float32(v.(Float))
		vAssert(best >= float32(b2) && best <= float32(e2), "the value is supported by the font")
		vAssert(vOr(gap != 0, vAnd(best >= float32(b1), best <= float32(e1))), "the value was asked")
	case 2:
		v1, b1, e1 := verifInterval(m)
		v2, b2, e2 := verifInterval(m)
		v, d := compareSize(v1, v2)
		gap := vIte(e1 < b2, b2-e1, vIte(e2 < b1, b1-e2, 0))
		vAssert(d >= float32(gap) && d < float32(gap)+0.001, "distance of sizes")
		// the end of the sizes of a font is for the next one
		end := vAnd(gap == 0, vAnd(b2 < e2, b1 == e2))
		vAssert((d > float32(gap)) == end, "a font at the end of its sizes is not as close as the others")
		vAssert(float32(v.(Float))*2 == float32(b1+e1), "the size is the one asked")
	}
}

// the objects of the score, in decreasing order of priority
var verifPriorities = [...]struct {
	o    Object
	weak bool
}{
	{FILE, false}, {FONTFORMAT, false}, {VARIABLE, false}, {SCALABLE, false}, {COLOR, false}, {FOUNDRY, false},
	{CHARSET, false}, {FAMILY, false}, {POSTSCRIPT_NAME, false}, {LANG, false}, {FAMILY, true}, {POSTSCRIPT_NAME, true},
	{SYMBOL, false}, {SPACING, false}, {SIZE, false}, {PIXEL_SIZE, false}, {STYLE, false}, {SLANT, false}, {WEIGHT, false},
	{WIDTH, false}, {FONT_HAS_HINT, false}, {DECORATIVE, false}, {ANTIALIAS, false}, {RASTERIZER, false},
	{OUTLINE, false}, {ORDER, false}, {FONTVERSION, false},
}

func verifSample(o Object, good bool) Value {
	x := 0
	if good {
		x = 1
	}
	switch o {
	case VARIABLE, SCALABLE, COLOR, SYMBOL, FONT_HAS_HINT, DECORATIVE, ANTIALIAS, OUTLINE:
		return Bool(x)
	case CHARSET:
		var cs Charset
		cs.AddChar('b')
		if good {
			cs.AddChar('a')
		}
		return cs
	case LANG:
		if good {
			return NewLangset("fr")
		}
		return NewLangset("en")
	case SPACING, SLANT, ORDER, FONTVERSION:
		return Int(x)
	case SIZE, WEIGHT, WIDTH:
		return Range{float32(x), float32(x)}
	case PIXEL_SIZE:
		return Float(x)
	}
	return String([2]string{"b", "a"}[x])
}

// the priorities of the properties
func VerifC15Priority() {
	i, j := vConc(vInt(0, len(verifPriorities)-1)), vConc(vInt(0, len(verifPriorities)-1))
	x, y := verifPriorities[i], verifPriorities[j]
	vAssume(x.o != y.o)
	binding := func(weak bool) valueBinding {
		if weak {
			return vbWeak
		}
		return vbStrong
	}
	p, a, b := NewPattern(), NewPattern(), NewPattern()
	p.addWithBinding(x.o, verifSample(x.o, true), binding(x.weak), true)
	p.addWithBinding(y.o, verifSample(y.o, true), binding(y.weak), true)
	a.Add(x.o, verifSample(x.o, true), true)
	a.Add(y.o, verifSample(y.o, false), true)
	b.Add(x.o, verifSample(x.o, false), true)
	b.Add(y.o, verifSample(y.o, true), true)
	best := Fontset{a, b}.matchInternal(p)
	want := a
	if j < i {
		want = b
	}
	vAssert(best != nil && best.Hash() == want.Hash(), "the property with the highest priority decides")
	vCover("done")
}

// a query and fonts with a few properties, and the distances
type verifFonts struct {
	p     Pattern
	set   Fontset
	score [][]int // per font and priority
}

const verifFar = 1 << 30

// families: names indexed by small numbers; spacing: one number; weight: a number against a number
func verifFontset(n int) verifFonts {
	out := verifFonts{p: NewPattern()}
	names := [...]string{"A", "B", "C"}
	nf := vConc(vInt(0, vParam("fam")))
	fams, weak := make([]int, nf), make([]bool, nf)
	for i := range fams {
		fams[i], weak[i] = vConc(vInt(0, 1)), vFork(vBool())
		b := vbStrong
		if weak[i] {
			b = vbWeak
		}
		out.p.addWithBinding(FAMILY, String(names[fams[i]]), b, true)
	}
	ns := vConc(vInt(0, vParam("sp")))
	sp := make([]int, ns)
	for i := range sp {
		sp[i] = vInt(0, 2)
		out.p.AddInt(SPACING, int32(sp[i]))
	}
	w, hasW := vInt(0, 2), vParam("cover") == 1 || vFork(vBool())
	if hasW {
		out.p.AddInt(WEIGHT, int32(w))
	}
	for f := 0; f < n; f++ {
		font := NewPattern()
		font.AddInt(INDEX, int32(f))
		strong, weakS := 0, 0
		if vParam("fam") > 0 {
			var has [3]bool
			for k := vConc(vInt(1, vParam("FF"))); k > 0; k-- {
				name := vConc(vInt(0, 2))
				font.AddString(FAMILY, names[name])
				has[name] = true
			}
			if nf != 0 {
				strong, weakS = verifFar, verifFar
				for i := nf - 1; i >= 0; i-- {
					if !has[fams[i]] {
						continue
					}
					if weak[i] {
						weakS = i
					} else {
						strong = i
					}
				}
			}
		}
		spacing := 0
		if vParam("sp") > 0 && vFork(vBool()) {
			if ns != 0 {
				spacing = verifFar
			}
			for k := vConc(vInt(1, vParam("FS"))); k > 0; k-- {
				x := vInt(0, 2)
				font.AddInt(SPACING, int32(x))
				for i := range sp {
					d := vIte(x < sp[i], sp[i]-x, x-sp[i])*1000 + i
					spacing = vIte(d < spacing, d, spacing)
				}
			}
		}
		x := vInt(0, 2)
		font.AddInt(WEIGHT, int32(x))
		weight := 0
		if hasW {
			weight = vIte(x < w, w-x, x-w) * 1000
		}
		out.set = append(out.set, font)
		out.score = append(out.score, []int{strong, weakS, spacing, weight})
	}
	return out
}

// a is strictly closer than b
func verifCloser(a, b []int) bool {
	less := false
	for i := len(a) - 1; i >= 0; i-- {
		less = vOr(a[i] < b[i], vAnd(a[i] == b[i], less))
	}
	return less
}

// the best font
func VerifC15Match() {
	m := verifFontset(vParam("F"))
	best := m.set.matchInternal(m.p)
	vAssert(best != nil, "a font is found")
	id, _ := best.GetInt(INDEX)
	for f := range m.set {
		vAssert(vNot(verifCloser(m.score[f], m.score[id])), "no font is closer than the match")
		vAssert(f >= int(id) || verifCloser(m.score[id], m.score[f]), "the first of the closest fonts is returned")
	}
	vCover("match")
}

// the sorted list, without language
func VerifC15Sort() {
	n := vParam("F")
	m := verifFontset(n)
	trim := false
	if vParam("cover") == 1 {
		trim = vFork(vBool())
		for _, font := range m.set {
			cover := vConc(vInt(-1, 3))
			if cover < 0 {
				continue
			}
			var cs Charset
			for c := 0; c < 2; c++ {
				if cover&(1<<uint(c)) != 0 {
					cs.AddChar(rune('a' + c))
				}
			}
			font.Add(CHARSET, cs, true)
		}
	}
	sorted, cover := m.set.Sort(m.p, trim)
	at := make([]int, n) // position of each font
	for f := range at {
		at[f] = -1
	}
	for i, font := range sorted {
		f, _ := font.GetInt(INDEX)
		vAssert(at[f] == -1, "a font is listed once")
		at[f] = i
	}
	for f := range at {
		if !trim {
			vAssert(at[f] != -1, "every font is listed")
		}
		for g := range at {
			if at[f] != -1 && at[g] != -1 && at[f] < at[g] {
				vAssert(vNot(verifCloser(m.score[g], m.score[f])), "closer fonts come first")
				vAssert(f < g || verifCloser(m.score[f], m.score[g]), "fonts at the same distance keep their order")
			}
		}
	}
	// coverage
	for _, c := range []rune{'a', 'b', 'c'} {
		has := false
		for _, font := range m.set {
			cs, ok := font.GetCharset(CHARSET)
			has = has || ok && cs.HasChar(c)
		}
		vAssert(cover.HasChar(c) == has, "the coverage is the union of the ones of the fonts")
	}
	if trim {
		var seen Charset
		for i, font := range sorted {
			cs, _ := font.GetCharset(CHARSET)
			if i > 0 {
				vAssert(!cs.isSubset(seen), "a font which adds nothing is elided")
			}
			seen.merge(cs)
		}
		for _, font := range m.set {
			cs, ok := font.GetCharset(CHARSET)
			vAssert(!ok || cs.isSubset(seen), "a font is elided only if it adds nothing")
		}
	}
	vCover("sorted")
}

// the languages: a font which satisfies a language of the query comes before
// fonts which do not satisfy one more
func VerifC15SortLang() {
	n := vParam("F")
	langs := [...]string{"fr", "de", "xx"}
	p := NewPattern()
	np := vConc(vInt(1, 2))
	asked := make([]int, np)
	for i := range asked {
		asked[i] = vConc(vInt(0, 1))
		p.AddString(LANG, langs[asked[i]])
	}
	w := vInt(0, 2)
	p.AddInt(WEIGHT, int32(w))
	var set Fontset
	support, weight := make([]int, n), make([]int, n)
	for f := 0; f < n; f++ {
		font := NewPattern()
		font.AddInt(INDEX, int32(f))
		support[f] = vConc(vInt(0, 7))
		var ls Langset
		for l := range langs {
			if support[f]&(1<<uint(l)) != 0 {
				ls.add(langs[l])
			}
		}
		font.Add(LANG, ls, true)
		x := vInt(0, 2)
		font.AddInt(WEIGHT, int32(x))
		weight[f] = vIte(x < w, w-x, x-w)
		set = append(set, font)
	}
	// reference: order by the best language (index of the first one which is supported), then weight
	first := func(f int) int {
		for i, l := range asked {
			if support[f]&(1<<uint(l)) != 0 {
				return i
			}
		}
		return 9
	}
	less := func(a, b []int) bool { return vFork(verifCloser(a, b)) }
	order := make([]int, 0, n)
	key := make([][]int, n)
	for f := range key {
		key[f] = []int{first(f), weight[f]}
	}
	insert := func() {
		order = order[:0]
		for f := 0; f < n; f++ {
			i := len(order)
			order = append(order, f)
			for ; i > 0 && less(key[f], key[order[i-1]]); i-- {
				order[i] = order[i-1]
			}
			order[i] = f
		}
	}
	insert()
	// each asked language is satisfied by the first font which supports it
	sat := make([]bool, np)
	before := append([]int(nil), order...)
	for _, f := range before {
		ok := false
		for i, l := range asked {
			if !sat[i] && support[f]&(1<<uint(l)) != 0 {
				sat[i], ok = true, true
				break
			}
		}
		if !ok {
			key[f] = []int{99, weight[f]}
		}
	}
	// second sort, from the first order
	out := make([]int, 0, n)
	for _, f := range before {
		i := len(out)
		out = append(out, f)
		for ; i > 0 && less(key[f], key[out[i-1]]); i-- {
			out[i] = out[i-1]
		}
		out[i] = f
	}
	sorted, _ := set.Sort(p, false)
	vAssert(len(sorted) == n, "every font is listed")
	for i, font := range sorted {
		f, _ := font.GetInt(INDEX)
		vAssert(int(f) == out[i], "each language is first served by the closest font which supports it")
	}
	vCover("sorted")
}

// the resulting pattern
func VerifC15Prepare() {
	pat, font := NewPattern(), NewPattern()
	objs := [...]Object{SPACING, DPI, FOUNDRY, FirstCustomObject}
	val := func(o Object, x int) Value {
		switch o {
		case SPACING:
			return Int(x)
		case DPI:
			return Float(x)
		case FOUNDRY:
			return String([...]string{"a", "b", "c"}[x])
		}
		return Bool(x)
	}
	o := objs[vConc(vInt(0, len(objs)-1))]
	np, nf := vConc(vInt(0, 2)), vConc(vInt(0, 2))
	pv, fv := make([]int, np), make([]int, nf)
	for i := range pv {
		pv[i] = vConc(vInt(0, 2))
		pat.Add(o, val(o, pv[i]), true)
	}
	for i := range fv {
		fv[i] = vConc(vInt(0, 2))
		font.Add(o, val(o, fv[i]), true)
	}
	patH, fontH := pat.Hash(), font.Hash()
	out := NewConfig().PrepareRender(pat, font)
	vAssert(pat.Hash() == patH && font.Hash() == fontH, "the inputs are not modified")
	vAssert(out != nil, "a result")
	list := out.getVals(o)
	switch {
	case nf == 0 || np == 0:
		want := pv
		if np == 0 {
			want = fv
		}
		vAssert(len(list) == len(want), "values of one side are copied")
		for i, x := range want {
			vAssert(list[i].Value == val(o, x), "values of one side are copied")
		}
	default:
		vAssert(len(list) == 1, "one value is chosen")
		best := fv[0]
		if o == SPACING || o == FOUNDRY {
			bd := verifFar
			for j, x := range pv {
				for _, y := range fv {
					d := x - y
					if d < 0 {
						d = -d
					}
					if o == FOUNDRY && d > 1 {
						d = 1
					}
					d = d*1000 + j
					if d < bd {
						best, bd = y, d
					}
				}
			}
		}
		vAssert(list[0].Value == val(o, best), "the value of the font closest to the query is chosen")
		vCover("both")
	}
}

// names and their languages
func VerifC15PrepareNames() {
	objs := [...]Object{FAMILY, STYLE, FULLNAME}
	langs := [...]string{"en", "fr", "de"}
	o := objs[vConc(vInt(0, 2))]
	pat, font := NewPattern(), NewPattern()
	n := vConc(vInt(1, 3))
	nl := n
	if vParam("UNEVEN") == 1 {
		nl = vConc(vInt(1, 3))
	}
	for i := 0; i < n; i++ {
		font.AddString(o, string([]byte{byte('A' + i)}))
	}
	for i := 0; i < nl; i++ {
		font.AddString(o+1, langs[vConc(vInt(0, 2))])
	}
	ask := vConc(vInt(-1, 2))
	if ask >= 0 {
		pat.AddString(o+1, langs[ask])
	}
	if vFork(vBool()) {
		pat.AddString(o, "B")
	}
	out := NewConfig().PrepareRender(pat, font)
	vAssert(out != nil, "a result")
	names, ls := out.GetStrings(o), out.GetStrings(o+1)
	vAssert(len(names) == n && len(ls) == nl, "all the names are kept")
	seen := make([]bool, n)
	var first int
	fls := font.GetStrings(o + 1)
	for i, name := range names {
		k := int(name[0] - 'A')
		if i == 0 {
			first = k
		}
		vAssert(!seen[k], "each name is kept")
		if n == nl {
			vAssert(ls[i] == fls[k], "each name keeps its language")
		}
		seen[k] = true
	}
	if ask >= 0 {
		for k, l := range fls {
			if l == langs[ask] {
				vAssert(ls[0] == l, "the language which is asked comes first")
				if k >= n { // a language without name
					break
				}
				vAssert(first == k, "the first name in the language which is asked comes first")
				vCover("asked")
				break
			}
		}
	} else {
		vAssert(first == 0, "the order of the names is kept")
	}
}

// variable fonts
func VerifC15PrepareVariable() {
	objs := [...]Object{WEIGHT, WIDTH, SIZE, SPACING}
	o := objs[vConc(vInt(0, len(objs)-1))]
	variable := vConc(vInt(-1, 2))
	pat, font := NewPattern(), NewPattern()
	if variable >= 0 {
		font.Add(VARIABLE, Bool(variable), true)
	}
	b, e := vConc(vInt(0, 2)), vConc(vInt(0, 2))
	vAssume(b <= e)
	isRange := o != SPACING && vFork(vBool())
	if isRange {
		font.Add(o, Range{float32(b * 40), float32(e * 40)}, true)
	} else {
		font.Add(o, Int(b*40), true)
	}
	ask := vConc(vInt(0, 2))
	pat.Add(o, Int(ask*40), true)
	old := vFork(vBool())
	if old {
		font.AddString(FONT_VARIATIONS, "abcd=1")
	}
	out := NewConfig().PrepareRender(pat, font)
	vars, ok := out.GetString(FONT_VARIATIONS)
	if !(isRange && variable > 0) {
		vAssert(ok == old && (!ok || vars == "abcd=1"), "the variations are left")
		return
	}
	x := ask
	if ask < b && o != SIZE {
		x = b
	} else if ask > e && o != SIZE {
		x = e
	}
	f, _ := out.GetFloat(o)
	vAssert(f == float32(x*40), "the value of the axis is in the range of the font")
	tag := map[Object]string{WEIGHT: "wght=", WIDTH: "wdth=", SIZE: "opsz="}[o]
	num := []string{"0", "40", "80"}[x]
	if o == WEIGHT {
		num = []string{"100", "300", "400"}[x]
		vAssume(x != 1)
	}
	want := tag + num
	if old {
		want += ",abcd=1"
	}
	vAssert(ok && vars == want, "the axis is set")
	vCover("axis")
}

// many fonts at the same distance
func VerifC15Ties() {
	n := vParam("F")
	p := NewPattern()
	p.AddInt(SPACING, 0)
	far := vConc(vInt(0, n))
	var set Fontset
	for f := 0; f < n; f++ {
		font := NewPattern()
		font.AddInt(INDEX, int32(f))
		x := 0
		if f == far {
			x = 1
		}
		font.AddInt(SPACING, int32(x))
		set = append(set, font)
	}
	sorted, _ := set.Sort(p, false)
	vAssert(len(sorted) == n, "every font is listed")
	next := 0
	for _, font := range sorted {
		if next == far && next < n-1 {
			next++
		}
		f, _ := font.GetInt(INDEX)
		last := font.getVals(SPACING)[0].Value == Value(Int(1))
		vAssert(last && int(f) == far || !last && int(f) == next, "fonts at the same distance keep their order")
		if !last {
			next++
		}
	}
}
