package pango

// Boundaries of a text: ComputeCharacterAttributes against a direct statement of the rules
// of UAX #29 (graphemes, words, sentences) and UAX #14 (lines).

// classes of the characters: graphemes, words, sentences, lines (after the rule LB1)
const (
	v19gXX = iota
	v19gCR
	v19gLF
	v19gCN
	v19gEX
	v19gZWJ
	v19gRI
	v19gPP
	v19gSM
	v19gL
	v19gV
	v19gT
	v19gLV
	v19gLVT
	v19gPict
)

const (
	v19wXX = iota
	v19wCR
	v19wLF
	v19wNL
	v19wEX
	v19wFO
	v19wZWJ
	v19wRI
	v19wKA
	v19wHL
	v19wLE
	v19wML
	v19wMN
	v19wMB
	v19wNU
	v19wEN
	v19wSQ
	v19wDQ
	v19wWS
)

const (
	v19sXX = iota
	v19sCR
	v19sLF
	v19sSE
	v19sEX
	v19sFO
	v19sSP
	v19sLO
	v19sUP
	v19sLE
	v19sNU
	v19sAT
	v19sSC
	v19sST
	v19sCL
)

const (
	v19lAL = iota
	v19lBK
	v19lCR
	v19lLF
	v19lNL
	v19lSP
	v19lZW
	v19lWJ
	v19lZWJ
	v19lCM
	v19lGL
	v19lCL
	v19lCP
	v19lEX
	v19lIS
	v19lSY
	v19lOP
	v19lQU
	v19lNS
	v19lB2
	v19lBA
	v19lHY
	v19lBB
	v19lCB
	v19lHL
	v19lID
	v19lEB
	v19lEM
	v19lIN
	v19lNU
	v19lPR
	v19lPO
	v19lRI
	v19lJL
	v19lJV
	v19lJT
	v19lH2
	v19lH3
)

const (
	v19kOther = iota
	v19kLetter
	v19kNumber
	v19kMark // and format
)

type v19char struct {
	r          rune
	g, w, s, l int
	pict       bool // extended pictograph
	kind       int
	white      bool
}

// the properties of the characters, from the Unicode Character Database. The scripts are
// Common, Inherited, Hebrew or Hangul, so that no language specific rule applies.
var v19chars = []v19char{
	{0x0023, v19gXX, v19wXX, v19sXX, v19lAL, false, 0, false},
	{0x0300, v19gEX, v19wEX, v19sEX, v19lCM, false, 3, false},
	{0x200D, v19gZWJ, v19wZWJ, v19sEX, v19lZWJ, false, 3, false},
	{0x200C, v19gEX, v19wEX, v19sEX, v19lCM, false, 3, false},
	{0x1F1E6, v19gRI, v19wRI, v19sXX, v19lRI, false, 0, false},
	{0x231A, v19gPict, v19wXX, v19sXX, v19lID, true, 0, false},
	{0x1F600, v19gPict, v19wXX, v19sXX, v19lID, true, 0, false},
	{0x261D, v19gPict, v19wXX, v19sXX, v19lEB, true, 0, false},
	{0x1F3FB, v19gEX, v19wEX, v19sXX, v19lEM, false, 0, false},
	{0x000D, v19gCR, v19wCR, v19sCR, v19lCR, false, 0, true},
	{0x000A, v19gLF, v19wLF, v19sLF, v19lLF, false, 0, true},
	{0x0085, v19gCN, v19wNL, v19sSE, v19lNL, false, 0, false},
	{0x2028, v19gCN, v19wNL, v19sSE, v19lBK, false, 0, true},
	{0x0009, v19gCN, v19wXX, v19sSP, v19lBA, false, 0, true},
	{0x0020, v19gXX, v19wWS, v19sSP, v19lSP, false, 0, true},
	{0x3000, v19gXX, v19wWS, v19sSP, v19lBA, false, 0, true},
	{0x00A0, v19gXX, v19wXX, v19sSP, v19lGL, false, 0, true},
	{0x00AD, v19gCN, v19wFO, v19sFO, v19lBA, false, 3, false},
	{0x00B5, v19gXX, v19wLE, v19sLO, v19lAL, false, 1, false},
	{0x2102, v19gXX, v19wLE, v19sUP, v19lAL, false, 1, false},
	{0x2135, v19gXX, v19wLE, v19sLE, v19lAL, false, 1, false},
	{0x05D0, v19gXX, v19wHL, v19sLE, v19lHL, false, 1, false},
	{0x05F3, v19gXX, v19wLE, v19sLE, v19lAL, false, 0, false},
	{0x05F4, v19gXX, v19wML, v19sXX, v19lAL, false, 0, false},
	{0x30FC, v19gXX, v19wKA, v19sLE, v19lNS, false, 1, false},
	{0x3031, v19gXX, v19wKA, v19sLE, v19lID, false, 1, false},
	{0x0030, v19gXX, v19wNU, v19sNU, v19lNU, false, 2, false},
	{0x0022, v19gXX, v19wDQ, v19sCL, v19lQU, false, 0, false},
	{0x0027, v19gXX, v19wSQ, v19sCL, v19lQU, false, 0, false},
	{0x002E, v19gXX, v19wMB, v19sAT, v19lIS, false, 0, false},
	{0x003A, v19gXX, v19wML, v19sSC, v19lIS, false, 0, false},
	{0x00B7, v19gXX, v19wML, v19sXX, v19lAL, false, 0, false},
	{0x002C, v19gXX, v19wMN, v19sSC, v19lIS, false, 0, false},
	{0x003B, v19gXX, v19wMN, v19sXX, v19lIS, false, 0, false},
	{0x2024, v19gXX, v19wMB, v19sAT, v19lIN, false, 0, false},
	{0x2019, v19gXX, v19wMB, v19sCL, v19lQU, false, 0, false},
	{0x005F, v19gXX, v19wEN, v19sXX, v19lAL, false, 0, false},
	{0x003F, v19gXX, v19wXX, v19sST, v19lEX, false, 0, false},
	{0x0028, v19gXX, v19wXX, v19sCL, v19lOP, false, 0, false},
	{0x005D, v19gXX, v19wXX, v19sCL, v19lCP, false, 0, false},
	{0x007D, v19gXX, v19wXX, v19sCL, v19lCL, false, 0, false},
	{0x00AB, v19gXX, v19wXX, v19sCL, v19lQU, false, 0, false},
	{0x2014, v19gXX, v19wXX, v19sSC, v19lB2, false, 0, false},
	{0x002D, v19gXX, v19wXX, v19sSC, v19lHY, false, 0, false},
	{0x3001, v19gXX, v19wXX, v19sSC, v19lCL, false, 0, false},
	{0x3002, v19gXX, v19wXX, v19sST, v19lCL, false, 0, false},
	{0x200B, v19gCN, v19wXX, v19sFO, v19lZW, false, 3, false},
	{0x2060, v19gCN, v19wFO, v19sFO, v19lWJ, false, 3, false},
	{0xFFFC, v19gXX, v19wXX, v19sXX, v19lCB, false, 0, false},
	{0x0024, v19gXX, v19wXX, v19sXX, v19lPR, false, 0, false},
	{0x0025, v19gXX, v19wXX, v19sXX, v19lPO, false, 0, false},
	{0x002F, v19gXX, v19wXX, v19sXX, v19lSY, false, 0, false},
	{0x2025, v19gXX, v19wXX, v19sXX, v19lIN, false, 0, false},
	{0x00B4, v19gXX, v19wXX, v19sXX, v19lBB, false, 0, false},
	{0x007C, v19gXX, v19wXX, v19sXX, v19lBA, false, 0, false},
	{0x05BE, v19gXX, v19wXX, v19sXX, v19lBA, false, 0, false},
	{0x1100, v19gL, v19wLE, v19sLE, v19lJL, false, 1, false},
	{0x1160, v19gV, v19wLE, v19sLE, v19lJV, false, 1, false},
	{0x11A8, v19gT, v19wLE, v19sLE, v19lJT, false, 1, false},
	{0xAC00, v19gLV, v19wLE, v19sLE, v19lH2, false, 1, false},
	{0xAC01, v19gLVT, v19wLE, v19sLE, v19lH3, false, 1, false},
	{0x06DD, v19gPP, v19wFO, v19sFO, v19lAL, false, 3, false},
	{0x1D165, v19gEX, v19wEX, v19sEX, v19lCM, false, 3, false},
	{0x1D166, v19gSM, v19wEX, v19sEX, v19lCM, false, 3, false},
	{0xE0020, v19gEX, v19wEX, v19sEX, v19lCM, false, 3, false},
	{0x0001, v19gCN, v19wXX, v19sXX, v19lCM, false, 0, false},
	{0x0021, v19gXX, v19wXX, v19sST, v19lEX, false, 0, false},
	{0xFF9E, v19gEX, v19wEX, v19sEX, v19lNS, false, 1, false},
}

// v19str is a text, with the classes of its characters
type v19str struct {
	text       []rune
	g, w, s, l []int
	kind       []int
	pict       []bool
	white      []bool
}

// v19text chooses a text of n characters over an alphabet
func v19text(alphabet []rune, n int) v19str {
	var cs []v19char
	for _, r := range alphabet {
		for _, c := range v19chars {
			if c.r == r {
				cs = append(cs, c)
			}
		}
	}
	if len(cs) != len(alphabet) {
		panic("alphabet")
	}
	t := v19str{
		text: make([]rune, n), g: make([]int, n), w: make([]int, n), s: make([]int, n), l: make([]int, n),
		kind: make([]int, n), pict: make([]bool, n), white: make([]bool, n),
	}
	for i := range t.text {
		c := cs[vInt(0, len(cs)-1)]
		t.text[i], t.g[i], t.w[i], t.s[i], t.l[i] = c.r, c.g, c.w, c.s, c.l
		t.kind[i], t.pict[i], t.white[i] = c.kind, c.pict, c.white
	}
	return t
}

func v19in(c int, set ...int) bool {
	out := false
	for _, s := range set {
		out = vOr(out, c == s)
	}
	return out
}

func v19all(bs ...bool) bool {
	out := true
	for _, b := range bs {
		out = vAnd(out, b)
	}
	return out
}

func v19any(bs ...bool) bool {
	out := false
	for _, b := range bs {
		out = vOr(out, b)
	}
	return out
}

// v19rules evaluates rules in order: the first whose condition holds gives the answer
type v19rules struct {
	done, res bool
}

func (r *v19rules) no(cond bool) {
	r.done = vOr(r.done, cond)
}

func (r *v19rules) yes(cond bool) {
	r.res = vOr(r.res, vAnd(vNot(r.done), cond))
	r.done = vOr(r.done, cond)
}

// ---- graphemes

// v19graphemeBreaks[i]: boundary in front of i
func v19graphemeBreaks(t v19str) []bool {
	cls := t.g
	n := len(cls)
	out := make([]bool, n+1)
	out[0], out[n] = true, true
	pict := make([]bool, n) // a pictograph and its extensions ends at i
	zwj := make([]bool, n)  // the same followed by a joiner
	odd := make([]bool, n)  // odd number of regional indicators
	for i := 0; i < n; i++ {
		c := cls[i]
		pict[i] = c == v19gPict
		odd[i] = c == v19gRI
		if i == 0 {
			continue
		}
		p := cls[i-1]
		pict[i] = vOr(pict[i], vAnd(c == v19gEX, pict[i-1]))
		zwj[i] = vAnd(c == v19gZWJ, pict[i-1])
		odd[i] = vAnd(odd[i], vNot(odd[i-1]))

		var r v19rules
		r.no(vAnd(p == v19gCR, c == v19gLF))                                           // GB3
		r.yes(vOr(v19in(p, v19gCR, v19gLF, v19gCN), v19in(c, v19gCR, v19gLF, v19gCN))) // GB4, GB5
		r.no(vAnd(p == v19gL, v19in(c, v19gL, v19gV, v19gLV, v19gLVT)))                // GB6
		r.no(vAnd(v19in(p, v19gLV, v19gV), v19in(c, v19gV, v19gT)))                    // GB7
		r.no(vAnd(v19in(p, v19gLVT, v19gT), c == v19gT))                               // GB8
		r.no(v19in(c, v19gEX, v19gZWJ, v19gSM))                                        // GB9, GB9a
		r.no(p == v19gPP)                                                              // GB9b
		r.no(vAnd(zwj[i-1], c == v19gPict))                                            // GB11
		r.no(vAnd(odd[i-1], c == v19gRI))                                              // GB12, GB13
		r.yes(true)
		out[i] = r.res
	}
	return out
}

func VerifC19Graphemes() {
	n := vParam("N")
	t := v19text([]rune{
		'#', 0x0300, 0x200D, 0x1F1E6, 0x231A, '\r', '\n', 0x0001, 0x06DD, 0x1D166,
		0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x200C, 0x1F3FB, 0xE0020, 0x2028, 0x00AD, 0x1F600, 0x1D165, 0xFF9E, ' ',
	}, n)
	want := v19graphemeBreaks(t)
	attrs := ComputeCharacterAttributes(t.text, -1)
	vAssert(len(attrs) == n+1, "one position per character, and the end")
	for i := range want {
		vAssert(attrs[i].IsCursorPosition() == want[i], "grapheme boundary")
		vObs("c", int(attrs[i]))
	}
	for i := range want {
		vCoverIf(vAnd(i > 0, vNot(want[i])), "joined")
	}
}

// ---- words

func v19wordBreaks(t v19str) []bool {
	cls := t.w
	n := len(cls)
	out := make([]bool, n+1)
	out[0], out[n] = true, true

	// next[i]: class of the first character from i which is not ignored
	next := make([]int, n+1)
	next[n] = v19wXX
	for i := n - 1; i >= 0; i-- {
		next[i] = vIte(v19in(cls[i], v19wEX, v19wFO, v19wZWJ), next[i+1], cls[i])
	}
	ahLetter := func(c int) bool { return v19in(c, v19wLE, v19wHL) }
	p, pp := v19wXX, v19wXX // the two previous classes, without the ignored ones
	odd := false
	for i := 0; i < n; i++ {
		c := cls[i]
		ign := v19in(c, v19wEX, v19wFO, v19wZWJ)
		start := true // nothing to extend
		if i > 0 {
			raw := cls[i-1]
			newline := v19in(raw, v19wCR, v19wLF, v19wNL)
			start = newline

			var r v19rules
			r.no(vAnd(raw == v19wCR, c == v19wLF))                // WB3
			r.yes(vOr(newline, v19in(c, v19wCR, v19wLF, v19wNL))) // WB3a, WB3b
			r.no(vAnd(raw == v19wZWJ, t.pict[i]))                 // WB3c
			r.no(vAnd(raw == v19wWS, c == v19wWS))                // WB3d
			r.no(ign)                                             // WB4
			r.no(vAnd(ahLetter(p), ahLetter(c)))                  // WB5
			nx := next[i+1]
			r.no(v19all(ahLetter(p), v19in(c, v19wML, v19wMB, v19wSQ), ahLetter(nx))) // WB6
			r.no(v19all(ahLetter(pp), v19in(p, v19wML, v19wMB, v19wSQ), ahLetter(c))) // WB7
			r.no(vAnd(p == v19wHL, c == v19wSQ))                                      // WB7a
			r.no(v19all(p == v19wHL, c == v19wDQ, nx == v19wHL))                      // WB7b
			r.no(v19all(pp == v19wHL, p == v19wDQ, c == v19wHL))                      // WB7c
			r.no(vAnd(vOr(ahLetter(p), p == v19wNU), c == v19wNU))                    // WB8, WB9
			r.no(vAnd(p == v19wNU, ahLetter(c)))                                      // WB10
			r.no(v19all(pp == v19wNU, v19in(p, v19wMN, v19wMB, v19wSQ), c == v19wNU)) // WB11
			r.no(v19all(p == v19wNU, v19in(c, v19wMN, v19wMB, v19wSQ), nx == v19wNU)) // WB12
			r.no(vAnd(p == v19wKA, c == v19wKA))                                      // WB13
			r.no(vAnd(v19in(p, v19wLE, v19wHL, v19wNU, v19wKA, v19wEN), c == v19wEN)) // WB13a
			r.no(vAnd(p == v19wEN, v19in(c, v19wLE, v19wHL, v19wNU, v19wKA)))         // WB13b
			r.no(vAnd(odd, c == v19wRI))                                              // WB15, WB16
			r.yes(true)
			out[i] = r.res
		}
		// an ignorable character with nothing in front of it counts as another character
		keep := vAnd(ign, vNot(start))
		eff := vIte(ign, v19wXX, c)
		pp = vIte(keep, pp, p)
		p = vIte(keep, p, eff)
		odd = vOr(vAnd(keep, odd), v19all(vNot(keep), c == v19wRI, vNot(odd)))
	}
	return out
}

func v19words(alphabet []rune) {
	t := v19text(alphabet, vParam("N"))
	want := v19wordBreaks(t)
	attrs := ComputeCharacterAttributes(t.text, -1)
	for i := range want {
		a := attrs[i]
		vAssert(vOr(vNot(a.IsWordBoundary()), a.IsCursorPosition()), "a word boundary is a grapheme boundary")
		vAssert(a.IsWordBoundary() == vAnd(want[i], a.IsCursorPosition()), "word boundary")
		vObs("c", int(a))
	}
	for i := range want {
		vCoverIf(vAnd(i > 0, vNot(want[i])), "joined")
	}
	v19structure(t, attrs)
}

func VerifC19Words() {
	v19words([]rune{
		'#', 0x0300, 0x200D, 0x1F1E6, 0x231A, '\r', '\n', 0x0085, ' ', 0x3000, 0x00AD, 0x00B5, 0x2135, 0x05D0, 0x05F4,
		0x30FC, '0', '"', '\'', '.', ':', ',', 0x2024, 0x2019, '_', 0x200B, 0x06DD, 0x1D166,
	})
}

// v19structure asserts the relations between the attributes of a text
func v19structure(t v19str, attrs []CharAttr) {
	n := len(t.text)
	inWord, inSentence := false, false
	wordOk, sentenceOk, startOk, white, space, mandatory, char := true, true, true, true, true, true, true
	for i, a := range attrs {
		// the words and the sentences alternate starts and ends
		end, start := a.IsWordEnd(), a.IsWordStart()
		wordOk = v19all(wordOk, vOr(vNot(end), inWord))
		inWord = vAnd(inWord, vNot(end))
		wordOk = v19all(wordOk, vNot(vAnd(start, inWord)))
		inWord = vOr(inWord, start)

		end, start = a.IsSentenceEnd(), a.IsSentenceStart()
		sentenceOk = v19all(sentenceOk, vOr(vNot(end), inSentence))
		inSentence = vAnd(inSentence, vNot(end))
		sentenceOk = v19all(sentenceOk, vNot(vAnd(start, inSentence)))
		inSentence = vOr(inSentence, start)

		if i < n {
			startOk = v19all(startOk, vOr(vNot(a.IsWordStart()), v19in(t.kind[i], v19kLetter, v19kNumber)),
				vOr(vNot(a.IsSentenceStart()), vNot(t.white[i])))
			white = vAnd(white, a.IsWhite() == t.white[i])
			space = vAnd(space, a.IsExpandableSpace() == vOr(t.text[i] == 0x20, t.text[i] == 0xA0))
		}
		if i > 0 {
			sentenceOk = vAnd(sentenceOk, vOr(vNot(a.IsSentenceEnd()), vNot(t.white[i-1])))
		}
		mandatory = vAnd(mandatory, vOr(vNot(a.IsMandatoryBreak()), a.IsLineBreak()))
		char = vAnd(char, vOr(vNot(a.IsCharBreak()), a.IsCursorPosition()))
	}
	vAssert(vAnd(wordOk, vNot(inWord)), "the starts and the ends of the words alternate")
	vAssert(vAnd(sentenceOk, vNot(inSentence)), "the starts and the ends of the sentences alternate")
	vAssert(startOk, "a word starts with a letter or a digit, and a sentence does not start with a space")
	vAssert(vAnd(white, space), "white spaces")
	vAssert(mandatory, "a mandatory break is a break")
	vAssert(char, "the characters are not split")
}

// ---- sentences

func v19sentenceBreaks(t v19str) []bool {
	cls := t.s
	n := len(cls)
	out := make([]bool, n+1)
	out[0], out[n] = true, true

	ignored := func(c int) bool { return v19in(c, v19sEX, v19sFO) }
	para := func(c int) bool { return v19in(c, v19sSE, v19sCR, v19sLF) }
	// lower[i]: ( not(OLetter | Upper | Lower | ParaSep | SATerm) )* Lower
	lower := make([]bool, n+1)
	for i := n - 1; i >= 0; i-- {
		stop := vOr(para(cls[i]), v19in(cls[i], v19sLE, v19sUP, v19sAT, v19sST))
		lower[i] = vOr(cls[i] == v19sLO, vAnd(vNot(stop), lower[i+1]))
	}
	p, pp := v19sXX, v19sXX
	// the text ends with: ATerm Close* and ATerm Close* Sp+, the same with SATerm
	at, atSp, st, stSp := false, false, false, false
	for i := 0; i < n; i++ {
		c := cls[i]
		start := true
		if i > 0 {
			raw := cls[i-1]
			start = para(raw)
			anyAT, any := vOr(at, atSp), v19any(at, atSp, st, stSp)

			var r v19rules
			r.no(vAnd(raw == v19sCR, c == v19sLF))                            // SB3
			r.yes(para(raw))                                                  // SB4
			r.no(ignored(c))                                                  // SB5
			r.no(vAnd(p == v19sAT, c == v19sNU))                              // SB6
			r.no(v19all(v19in(pp, v19sUP, v19sLO), p == v19sAT, c == v19sUP)) // SB7
			r.no(vAnd(anyAT, lower[i]))                                       // SB8
			r.no(vAnd(any, v19in(c, v19sSC, v19sAT, v19sST)))                 // SB8a
			r.no(vAnd(vOr(at, st), vOr(v19in(c, v19sCL, v19sSP), para(c))))   // SB9
			r.no(vAnd(any, vOr(c == v19sSP, para(c))))                        // SB10
			r.yes(any)                                                        // SB11
			out[i] = r.res
		}
		keep := vAnd(ignored(c), vNot(start))
		eff := vIte(ignored(c), v19sXX, c)
		at, atSp = vOr(vAnd(keep, at), vAnd(vNot(keep), vOr(eff == v19sAT, vAnd(at, eff == v19sCL)))),
			vOr(vAnd(keep, atSp), v19all(vNot(keep), vOr(at, atSp), eff == v19sSP))
		st, stSp = vOr(vAnd(keep, st), vAnd(vNot(keep), vOr(eff == v19sST, vAnd(st, eff == v19sCL)))),
			vOr(vAnd(keep, stSp), v19all(vNot(keep), vOr(st, stSp), eff == v19sSP))
		pp = vIte(keep, pp, p)
		p = vIte(keep, p, eff)
	}
	return out
}

func VerifC19Sentences() {
	t := v19text([]rune{
		'#', 0x0300, '\r', '\n', 0x0085, ' ', '\t', 0x00AD, 0x00B5, 0x2102, 0x2135, '0', '.', ',', '?', '(', ']', '"', '-',
	}, vParam("N"))
	want := v19sentenceBreaks(t)
	attrs := ComputeCharacterAttributes(t.text, -1)
	for i := range want {
		a := attrs[i]
		vAssert(vOr(vNot(a.IsSentenceBoundary()), a.IsWordBoundary()), "a sentence boundary is a word boundary")
		vAssert(a.IsSentenceBoundary() == vAnd(want[i], a.IsWordBoundary()), "sentence boundary")
		vObs("c", int(a))
	}
	for i := 1; i < len(want)-1; i++ {
		vCoverIf(want[i], "boundary")
	}
	v19structure(t, attrs)
}

// ---- lines

const (
	v19no = iota
	v19allowed
	v19must
)

// v19lineBreaks[i]: break in front of i, and whether it is mandatory
func v19lineBreaks(t v19str) (out, must []bool) {
	cls := t.l
	n := len(cls)
	out, must = make([]bool, n+1), make([]bool, n+1)
	out[n], must[n] = true, true

	p, pp := v19lBK, v19lBK       // the two previous classes (BK at the start)
	before := v19lBK              // the previous one which is not a space
	num, numClose := false, false // NU (NU | SY | IS)* and the same with (CL | CP)
	odd := false
	for i := 0; i < n; i++ {
		c := cls[i]
		mark := v19in(c, v19lCM, v19lZWJ)
		start := true
		eff := vIte(mark, v19lAL, c) // LB10
		al := func(c int) bool { return v19in(c, v19lAL, v19lHL) }
		if i > 0 {
			raw := cls[i-1]
			nx := v19lBK // the class of the next character
			if i+1 < n {
				nx = cls[i+1]
			}
			start = v19in(raw, v19lBK, v19lCR, v19lLF, v19lNL, v19lSP, v19lZW)

			var r v19rules
			must[i] = vOr(v19in(raw, v19lBK, v19lLF, v19lNL), vAnd(raw == v19lCR, c != v19lLF))
			r.yes(must[i])                                                  // LB4, LB5
			r.no(v19in(c, v19lBK, v19lCR, v19lLF, v19lNL))                  // LB6 (and LB5)
			r.no(v19in(c, v19lSP, v19lZW))                                  // LB7
			r.no(raw == v19lZWJ)                                            // LB8a
			r.yes(before == v19lZW)                                         // LB8
			r.no(vAnd(mark, vNot(start)))                                   // LB9
			c := eff                                                        // LB10
			r.no(vOr(c == v19lWJ, p == v19lWJ))                             // LB11
			r.no(p == v19lGL)                                               // LB12
			r.no(vAnd(c == v19lGL, vNot(v19in(p, v19lSP, v19lBA, v19lHY)))) // LB12a
			r.no(c == v19lEX)                                               // LB13
			r.no(vAnd(v19in(c, v19lCL, v19lCP, v19lIS, v19lSY), p != v19lNU))
			r.no(before == v19lOP)                                                                            // LB14
			r.no(vAnd(before == v19lQU, c == v19lOP))                                                         // LB15
			r.no(vAnd(v19in(before, v19lCL, v19lCP), c == v19lNS))                                            // LB16
			r.no(vAnd(before == v19lB2, c == v19lB2))                                                         // LB17
			r.yes(p == v19lSP)                                                                                // LB18
			r.no(vOr(c == v19lQU, p == v19lQU))                                                               // LB19
			r.yes(vOr(c == v19lCB, p == v19lCB))                                                              // LB20
			r.no(vOr(v19in(c, v19lBA, v19lHY, v19lNS), p == v19lBB))                                          // LB21
			r.no(vAnd(pp == v19lHL, v19in(p, v19lHY, v19lBA)))                                                // LB21a
			r.no(vAnd(p == v19lSY, c == v19lHL))                                                              // LB21b
			r.no(vAnd(c == v19lIN, v19in(p, v19lAL, v19lHL, v19lEX, v19lID, v19lEB, v19lEM, v19lIN, v19lNU))) // LB22
			r.no(vOr(vAnd(al(p), c == v19lNU), vAnd(p == v19lNU, al(c))))                                     // LB23
			r.no(vAnd(p == v19lPR, v19in(c, v19lID, v19lEB, v19lEM)))                                         // LB23a
			r.no(vAnd(v19in(p, v19lID, v19lEB, v19lEM), c == v19lPO))
			r.no(vAnd(v19in(p, v19lPR, v19lPO), al(c))) // LB24
			r.no(vAnd(al(p), v19in(c, v19lPR, v19lPO)))
			// LB25, with the regular expressions of the example 7 of the customization
			r.no(vAnd(v19in(p, v19lPR, v19lPO, v19lOP, v19lHY), c == v19lNU))
			r.no(v19all(v19in(p, v19lPR, v19lPO), v19in(c, v19lOP, v19lHY), nx == v19lNU))
			r.no(vAnd(num, v19in(c, v19lNU, v19lSY, v19lIS, v19lCL, v19lCP)))
			r.no(vAnd(vOr(num, numClose), v19in(c, v19lPO, v19lPR)))
			r.no(vAnd(p == v19lJL, v19in(c, v19lJL, v19lJV, v19lH2, v19lH3))) // LB26
			r.no(vAnd(v19in(p, v19lJV, v19lH2), v19in(c, v19lJV, v19lJT)))
			r.no(vAnd(v19in(p, v19lJT, v19lH3), c == v19lJT))
			hangul := func(c int) bool { return v19in(c, v19lJL, v19lJV, v19lJT, v19lH2, v19lH3) }
			r.no(vAnd(hangul(p), v19in(c, v19lPO, v19lIN))) // LB27
			r.no(vAnd(p == v19lPR, hangul(c)))
			r.no(vAnd(al(p), al(c)))                         // LB28
			r.no(vAnd(p == v19lIS, al(c)))                   // LB29
			r.no(vAnd(vOr(al(p), p == v19lNU), c == v19lOP)) // LB30
			r.no(vAnd(p == v19lCP, vOr(al(c), c == v19lNU)))
			r.no(vAnd(odd, c == v19lRI))         // LB30a
			r.no(vAnd(p == v19lEB, c == v19lEM)) // LB30b
			r.yes(true)                          // LB31
			out[i] = r.res
		}
		keep := vAnd(mark, vNot(start))
		wasNum := num
		num = vOr(vAnd(keep, num), vAnd(vNot(keep), vOr(eff == v19lNU, vAnd(num, v19in(eff, v19lSY, v19lIS)))))
		numClose = vOr(vAnd(keep, numClose), v19all(vNot(keep), wasNum, v19in(eff, v19lCL, v19lCP)))
		odd = vOr(vAnd(keep, odd), v19all(vNot(keep), eff == v19lRI, vNot(odd)))
		pp = vIte(keep, pp, p)
		p = vIte(keep, p, eff)
		before = vIte(vOr(keep, eff == v19lSP), before, eff)
	}
	return out, must
}

func v19lines(alphabet []rune) {
	t := v19text(alphabet, vParam("N"))
	want, must := v19lineBreaks(t)
	attrs := ComputeCharacterAttributes(t.text, -1)
	n := len(t.text)
	for i := range want {
		a := attrs[i]
		w := want[i]
		if i > 0 && i < n {
			// the graphemes are not split, except in front of some characters
			w = vAnd(w, vOr(a.IsCursorPosition(), v19in(t.l[i], v19lEM, v19lCM, v19lZWJ, v19lRI, v19lJL, v19lJV, v19lJT, v19lH2, v19lH3)))
		}
		vAssert(a.IsLineBreak() == w, "line break")
		vAssert(a.IsMandatoryBreak() == must[i], "mandatory line break")
		vObs("c", int(a))
	}
	for i := 1; i < n; i++ {
		vCoverIf(want[i], "break")
	}
	v19structure(t, attrs)
}

func VerifC19Lines() {
	v19lines([]rune{
		'#', 0x0300, 0x200D, 0x1F1E6, 0x231A, 0x261D, 0x1F3FB, '\r', '\n', 0x0085, 0x2028, '\t', ' ', 0x00A0, 0x05D0, 0x30FC, '0',
		'"', ',', 0x2024, '?', '(', ']', '}', 0x2014, '-', 0x200B, 0x2060, 0xFFFC, '$', '%', '/', 0x00B4, 0x05BE, 0x06DD,
	})
}

func VerifC19LinesHangul() {
	v19lines([]rune{
		'#', 0x0300, 0x200D, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, '\n', ' ', 0x2025, '%', '$', '(', '-', '0',
	})
}

// ---- paragraphs

func VerifC19Paragraphs() {
	n := vParam("N")
	alphabet := []rune{'a', '\r', '\n', 0x2029, 0x2028}
	text := make([]rune, n)
	for i := range text {
		text[i] = alphabet[vInt(0, len(alphabet)-1)]
	}
	delimiter, start := findParagraphBoundary(text)
	wantD, wantS := n, n
	for i := n - 1; i >= 0; i-- {
		sep := vOr(vOr(text[i] == '\r', text[i] == '\n'), text[i] == 0x2029)
		crlf := false
		if i+1 < n {
			crlf = vAnd(text[i] == '\r', text[i+1] == '\n')
		}
		wantD = vIte(sep, i, wantD)
		wantS = vIte(sep, i+1+vIte(crlf, 1, 0), wantS)
	}
	vAssert(delimiter == wantD, "the paragraph ends at its first separator")
	vAssert(start == wantS, "the next paragraph starts after the separator")
	vObs("d", delimiter)
	vObs("s", start)
	vCoverIf(start == delimiter+2, "CR LF")
}
