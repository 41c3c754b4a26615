package fontconfig

// Languages: comparison of tags, sets of languages.

func verifTag(n int) string {
	const alphabet = "und-eE"
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		b = append(b, alphabet[vInt(0, len(alphabet)-1)])
	}
	return string(b[:vConc(vInt(1, n))])
}

func verifLow(c byte) byte {
	up := vAnd(c >= 'A', c <= 'Z')
	return byte(vIte(up, int(c)+32, int(c)))
}

// length of the primary language
func verifPrimary(s string) int { return verifPrimaryOf(s, '-') }

func verifPrimaryOf(s string, sep byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			return i
		}
	}
	return len(s)
}

func verifSame(s, t string) bool {
	same := len(s) == len(t)
	for i := 0; i < len(s) && i < len(t); i++ {
		same = vAnd(same, verifLow(s[i]) == verifLow(t[i]))
	}
	return same
}

func verifIsUnd(s string) bool {
	return len(s) == 3 && vAnd(vAnd(s[0] == 'u', s[1] == 'n'), s[2] == 'd')
}

func verifLangCompare(s, t string) langResult {
	ps, pt := verifPrimary(s), verifPrimary(t)
	switch {
	case ps != pt || !verifSame(s[:ps], t[:pt]):
		return langDifferentLang
	case verifSame(s, t) && !verifIsUnd(s):
		return langEqual
	case verifIsUnd(s[:ps]):
		return langDifferentLang
	}
	return langDifferentTerritory
}

func verifLangContains(s, t string) bool {
	n := len(s)
	if len(t) < n {
		n = len(t)
	}
	if !verifSame(s[:n], t[:n]) {
		return false
	}
	return len(s) == len(t) || len(s) > n && s[n] == '-' || len(t) > n && t[n] == '-'
}

// two tags
func VerifC12Compare() {
	s, t := verifTag(vParam("N")), verifTag(vParam("N"))
	want := verifLangCompare(s, t)
	vAssert(langCompare(s, t) == want, "comparison of two tags")
	vAssert(langCompare(t, s) == want, "the comparison is symmetric")
	vAssert(langContains(s, t) == verifLangContains(s, t), "a language includes its countries, and is included in them")
	vCoverIf(want == langEqual, "equal")
	vCoverIf(want == langDifferentTerritory, "territory")
}

// position of any tag in the table of languages
func VerifC12Index() {
	form := vConc(vInt(0, 4))
	letter := func() byte { return byte(vInt('a', 'z')) }
	var b []byte
	switch form {
	case 0:
		b = []byte{letter()}
	case 1:
		b = []byte{letter(), letter()}
	case 2:
		b = []byte{letter(), letter(), letter()}
	case 3:
		b = []byte{byte(vConc(vInt(vParam("lo"), vParam("hi")))), letter(), '-', letter(), letter()}
	case 4:
		b = []byte{byte(vInt('A', 'Z')), letter()}
	}
	tag := string(b)
	id := findLangIndex(tag)
	if id >= 0 {
		vAssert(id < len(fcLangCharSets) && cmpIgnoreCase(fcLangCharSets[id].lang, tag) == 0, "index of another language")
		vCover("found")
		return
	}
	pos := -id - 1
	vAssert(pos == 0 || cmpIgnoreCase(fcLangCharSets[pos-1].lang, tag) < 0, "the previous language is before")
	vAssert(pos >= len(fcLangCharSets) || cmpIgnoreCase(fcLangCharSets[pos].lang, tag) > 0, "the next language is after")
	vCover("not found")
}

var verifLangs = [...]string{"en", "zh-cn", "zh-tw", "EN", "fr", "xx", "xx-yy", "xxy", "zh"}

// a set of languages built by insertions and deletions, with its model
type verifLS struct {
	ls Langset
	in []bool // per canonical language of verifLangs
}

// "EN" is the same element as "en"
func verifCanon(l int) int {
	if l == 3 {
		return 0
	}
	return l
}

// only insertions, then maybe deletions
func verifLangset(dels int) verifLS {
	out := verifLS{in: make([]bool, len(verifLangs))}
	for round := 0; round <= dels; round++ {
		for l := 0; l < vParam("L"); l++ {
			c := verifCanon(l)
			if do := vBool(); round == 0 {
				if do {
					out.ls.add(verifLangs[l])
				}
				out.in[c] = vOr(out.in[c], do)
			} else {
				if do {
					out.ls.del(verifLangs[l])
				}
				out.in[c] = vAnd(out.in[c], vNot(do))
			}
		}
	}
	return out
}

func (m verifLS) contains(q string) bool {
	has := false
	for i, in := range m.in {
		if verifLangContains(verifLangs[i], q) {
			has = vOr(has, in)
		}
	}
	return has
}

func (m verifLS) has(q string) int {
	best := int(langDifferentLang)
	for i, in := range m.in {
		r := int(langCompare(verifLangs[i], q))
		best = vIte(vAnd(in, r < best), r, best)
	}
	return best
}

// any set of languages, any query
func VerifC12Set() {
	a := verifLangset(vParam("D"))
	q := verifLangs[vConc(vInt(0, len(verifLangs)-1))]
	vAssert(int(a.ls.hasLang(q)) == a.has(q), "best comparison with a language")
	vAssert(a.ls.containsLang(q) == a.contains(q), "inclusion of a language")
}

// listing, text form and copy
func VerifC12List() {
	a := verifLangset(vParam("D"))
	langs := a.ls.getLangs()
	n := 0
	for i, in := range a.in {
		if i != verifCanon(i) {
			continue
		}
		n = vIte(in, n+1, n)
		vAssert(langs[verifLangs[i]] == in, "the languages of the set are listed")
	}
	vAssert(len(langs) == n, "only the languages of the set are listed")
	vAssert(langsetEqual(NewLangset(a.ls.String()), a.ls), "the text form denotes the same set")
	cp := a.ls.Copy()
	vAssert(langsetEqual(cp, a.ls), "a copy is equal")
	cp.add("fr")
	cp.add("xx")
	vAssert(len(a.ls.getLangs()) == n, "changing a copy changed the set")
}

// operations on two sets
func VerifC12Pair() {
	a, b := verifLangset(0), verifLangset(vParam("D"))
	includes, equal, best := true, true, int(langDifferentLang)
	for i, in := range b.in {
		includes = vAnd(includes, vOr(vNot(in), a.contains(verifLangs[i])))
		r := a.has(verifLangs[i])
		best = vIte(vAnd(in, r < best), r, best)
		equal = vAnd(equal, in == a.in[i])
	}
	switch vConc(vInt(0, 4)) {
	case 0:
		vAssert(a.ls.includes(b.ls) == includes, "inclusion of sets")
	case 1:
		vAssert(langsetEqual(a.ls, b.ls) == equal, "equality of sets")
	case 2:
		vAssert(int(langSetCompare(a.ls, b.ls)) == best, "best comparison of two sets")
	case 3:
		vAssert(vOr(vNot(string(a.ls.hash()) == string(b.ls.hash())), equal), "sets with the same hash are equal")
	case 4:
		q := vConc(vInt(0, vParam("L")-1))
		c := verifCanon(q)
		u, s := langSetUnion(a.ls, b.ls), langSetSubtract(a.ls, b.ls)
		vAssert(u.getLangs()[verifLangs[c]] == vOr(a.in[c], b.in[c]), "union")
		vAssert(s.getLangs()[verifLangs[c]] == vAnd(a.in[c], vNot(b.in[c])), "difference")
	}
	vCoverIf(equal, "equal sets")
}

// all pairs of known languages
func VerifC12Countries() {
	n := len(fcLangCharSets)
	i, j := vConc(vInt(0, n-1)), vInt(0, n-1)
	var a, b Langset
	a.bitSet(i)
	b.bitSet(j)
	vAssert(vNot(b.bitGet(i)) == (i != j), "each language has its own bit")
	// the comparison of a language with one of its countries, and of special languages,
	// is left open
	want, open := make([]int, n), make([]bool, n)
	for k := range want {
		s, t := fcLangCharSets[i].lang, fcLangCharSets[k].lang
		ps, pt := verifPrimary(s), verifPrimary(t)
		want[k] = int(langCompare(s, t))
		open[k] = s != t && s[:ps] == t[:pt] && (s[:ps] == "und" || ps == len(s) || pt == len(t))
	}
	vAssert(vOr(int(langSetCompare(a, b)) == want[j], open[j]), "the sets of the countries of a language")
}

// the locale of the environment
func VerifC12Normalize() {
	letter := func() byte { return byte(vIte(vBool(), vInt('a', 'z'), vInt('A', 'Z'))) }
	low := func(s string) string {
		b := make([]byte, len(s))
		for i := range b {
			b[i] = verifLow(s[i])
		}
		return string(b)
	}
	lang := string([]byte{byte(vConc(vInt(vParam("lo"), vParam("hi")))), letter()})
	if vFork(vBool()) {
		lang = []string{"zho", "ber", "pap", "xxx"}[vConc(vInt(0, 3))]
	}
	terr := ""
	if vFork(vBool()) {
		terr = string([]byte{letter(), letter()})
	}
	tag := lang
	if terr != "" {
		tag += string([]byte{"_-"[vConc(vInt(0, 1))]}) + terr
	}
	tag += []string{"", ".utf-8", ".UTF-8", "@euro", ".ISO-8859-1@euro"}[vConc(vInt(0, 4))]
	got := normalizeLang(tag)
	full, main := low(lang)+"-"+low(terr), low(lang)
	isFull, isMain := false, false
	for _, l := range fcLangCharSets {
		if len(l.lang) == len(full) {
			isFull = vOr(isFull, l.lang == full)
		}
		if len(l.lang) == len(main) {
			isMain = vOr(isMain, l.lang == main)
		}
	}
	mod := verifPrimaryOf(tag, '@') < len(tag)
	switch {
	case terr != "" && !mod && isFull:
		vAssert(got == full, "known language and territory")
		vCover("territory")
	case isMain:
		vAssert(got == main, "known language")
		vCover("language")
	default:
		vAssert(got == tag, "unknown languages are kept")
	}
}
