package fontconfig

// Listing of fonts, and selection by files and patterns.

// one font: families (text, blanks and case), a spacing and languages, or their absence
type verifListed struct {
	p       Pattern
	fam     []int // of verifFamilies
	spacing int   // -1 for none
	langs   int   // set, -1 for none
}

func verifListFont(query bool) verifListed {
	f := verifListed{p: NewPattern()}
	max := 2
	if query || vParam("N") > 2 || vParam("lang") != 0 {
		max = 1
	}
	n := vConc(vInt(0, max))
	for i := 0; i < n; i++ {
		x := vInt(0, vParam("K")-1)
		f.fam = append(f.fam, x)
		f.p.Add(FAMILY, verifFamilyVal(x), true)
	}
	f.spacing = vInt(-1, 1)
	if f.spacing >= 0 {
		f.p.Add(SPACING, Int(f.spacing), true)
	}
	f.langs = -1
	if vParam("lang") > 0 && vFork(vBool()) {
		f.langs = [...]int{1, 3, 2, 0}[vConc(vInt(0, vParam("lang")))]
		f.p.Add(LANG, verifBitLangset(f.langs), true)
	}
	return f
}

// does the font have all the values of the query
func verifListMatch(q, f verifListed) bool {
	ok := true
	for _, x := range q.fam {
		found := false
		for _, y := range f.fam {
			found = vOr(found, verifFamilyEq(x, y, true))
		}
		ok = vAnd(ok, found)
	}
	if q.spacing >= 0 {
		ok = vAnd(ok, q.spacing == f.spacing)
	}
	if q.langs >= 0 {
		ok = vAnd(ok, f.langs >= 0 && q.langs&^f.langs == 0)
	}
	return ok
}

// is the result of the listing the one of this font, for the requested objects
func verifListResult(r Pattern, f verifListed, objs []Object) bool {
	n := 0
	for _, o := range objs {
		vals := r.getVals(o)
		if len(vals) != 0 {
			n++
		}
		switch o {
		case FAMILY:
			if len(vals) != len(f.fam) {
				return false
			}
			for i, x := range f.fam {
				if vals[i].Value != Value(verifFamilyVal(x)) {
					return false
				}
			}
		case SPACING:
			want := 1
			if f.spacing < 0 {
				want = 0
			}
			if len(vals) != want || want == 1 && vals[0].Value != Value(Int(f.spacing)) {
				return false
			}
		case LANG:
			want := 1
			if f.langs < 0 {
				want = 0
			}
			if len(vals) != want {
				return false
			}
			if want == 1 {
				if ls, ok := vals[0].Value.(Langset); !ok || !langsetEqual(ls, verifBitLangset(f.langs)) {
					return false
				}
			}
		}
	}
	return len(r) == n
}

func verifSameListed(a, b verifListed, objs []Object) bool {
	for _, o := range objs {
		switch o {
		case FAMILY:
			if len(a.fam) != len(b.fam) {
				return false
			}
			for i := range a.fam {
				if a.fam[i] != b.fam[i] {
					return false
				}
			}
		case SPACING:
			if a.spacing != b.spacing {
				return false
			}
		case LANG:
			if a.langs != b.langs {
				return false
			}
		}
	}
	return true
}

func VerifC16List() {
	vMapOrder(true)
	n := vParam("N")
	var fonts []verifListed
	var set Fontset
	for i := 0; i < n; i++ {
		f := verifListFont(false)
		fonts = append(fonts, f)
		set = append(set, f.p)
	}
	q := verifListFont(true)
	objs := [...][]Object{{FAMILY}, {SPACING, FAMILY}, {LANG}, {LANG, SPACING}, nil}[vParam("objs")]
	check := objs
	if objs == nil {
		check = []Object{FAMILY, SPACING, LANG}
	}
	out := set.List(q.p, objs...)
	want := 0
	for i, f := range fonts {
		if !verifListMatch(q, f) {
			continue
		}
		first := true
		for _, g := range fonts[:i] {
			if verifListMatch(q, g) && verifSameListed(f, g, check) {
				first = false
			}
		}
		if !first {
			vCover("same")
			continue
		}
		want++
		found := 0
		for _, r := range out {
			if verifListResult(r, f, check) {
				found++
			}
		}
		vAssert(found == 1, "each distinct matching font is listed once")
	}
	vAssert(len(out) == want, "only matching fonts are listed")
	if want > 0 {
		vCover("listed")
	}
}

// the name in the language of the user comes first, the others in order
func VerifC16Names() {
	langs := [...]string{"fr", "en", "fr-ca", "de"}
	n := vConc(vInt(1, vParam("N")))
	f := NewPattern()
	var xs []int
	for i := 0; i < n; i++ {
		x := vConc(vInt(0, len(langs)-1))
		xs = append(xs, x)
		f.Add(FAMILY, String(string(rune('a'+i))), true)
		f.Add(FAMILYLANG, String(langs[x]), true)
		f.Add(STYLE, String(string(rune('k'+i))), true)
		f.Add(STYLELANG, String("xx"), true)
	}
	q := NewPattern()
	user := "en"
	if vFork(vBool()) {
		user = "fr"
		q.Add(NAMELANG, String("fr"), true)
	}
	best := func(lang string) int {
		for i, x := range xs {
			if langs[x] == lang {
				return i
			}
		}
		return -1
	}
	first := best(user)
	if user == "fr" && first < 0 {
		first = best("fr-ca")
	}
	if first < 0 {
		first = best("en")
	}
	if first < 0 {
		first = 0
	}
	out := Fontset{f}.List(q, STYLE, FAMILYLANG, FAMILY)
	vAssert(len(out) == 1, "one font")
	fam, fl, st := out[0].getVals(FAMILY), out[0].getVals(FAMILYLANG), out[0].getVals(STYLE)
	vAssert(len(fam) == n && len(fl) == n && len(st) == n && len(out[0]) == 3, "all the names")
	j := 1
	for i, x := range xs {
		at := 0
		if i != first {
			at = j
			j++
		}
		vAssert(fam[at].Value == Value(String(string(rune('a'+i)))), "order of the families")
		vAssert(fl[at].Value == Value(String(langs[x])), "order of the languages")
		vAssert(st[i].Value == Value(String(string(rune('k'+i)))), "order of the styles")
	}
	vCover("done")
}

// accepted patterns win over the rejected ones, and a font with neither is accepted
func VerifC16Select() {
	c := NewConfig()
	f := verifListFont(false)
	accept, reject := false, false
	n := vConc(vInt(0, vParam("P")))
	for i := 0; i < n; i++ {
		q := verifListFont(true)
		m := verifListMatch(q, f)
		if vFork(vBool()) {
			c.patternsAdd(q.p, true)
			accept = vOr(accept, m)
		} else {
			c.patternsAdd(q.p, false)
			reject = vOr(reject, m)
		}
	}
	if vParam("copy") == 1 {
		c = c.Copy()
	}
	vAssert(c.acceptFont(f.p) == vOr(accept, vNot(reject)), "selection by patterns")
	vCoverIf(vAnd(accept, reject), "both")
}

// same for the globs on file names
func VerifC16Globs() {
	c := NewConfig()
	vMapOrder(true)
	st := verifText("ab", vParam("S"))
	accept, reject := false, false
	n := vConc(vInt(0, vParam("P")))
	for i := 0; i < n; i++ {
		g := verifText("ab*?", vParam("G"))
		m := verifGlob(g, st)
		if vFork(vBool()) {
			c.globAdd(g, true)
			accept = vOr(accept, m)
		} else {
			c.globAdd(g, false)
			reject = vOr(reject, m)
		}
	}
	if vParam("copy") == 1 {
		c = c.Copy()
	}
	vAssert(c.acceptFilename(st) == vOr(accept, vNot(reject)), "selection by file names")
	vCoverIf(vAnd(accept, reject), "both")
}
