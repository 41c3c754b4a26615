package pango

// Emoji presentation: oracle by the grammar of emoji_presentation_scanner.rl (UTS 51)

type v31class int

const (
	v31other v31class = iota
	v31text           // emoji with text presentation
	v31emoji          // emoji with emoji presentation
	v31base           // modifier base
	v31modifier
	v31flag
	v31keycap
	v31enclosingKeycap
	v31enclosingNo
	v31zwj
	v31vs15
	v31vs16
	v31tagBase
	v31tag
	v31tagEnd
)

var v31alphabet = []struct {
	r rune
	c v31class
}{
	{'x', v31other},
	{0xA9, v31text},
	{0x1F600, v31emoji},
	{0x1F44D, v31base},
	{0x1F3FD, v31modifier},
	{0x1F1E8, v31flag},
	{'#', v31keycap},
	{0x20E3, v31enclosingKeycap},
	{0x20E0, v31enclosingNo},
	{0x200D, v31zwj},
	{0xFE0E, v31vs15},
	{0xFE0F, v31vs16},
	{0x1F3F4, v31tagBase},
	{0xE0067, v31tag},
	{0xE007F, v31tagEnd},
	{'Z', v31other}, {' ', v31other}, {0x301, v31other}, {0x5D0, v31other}, {'+', v31other}, {0x1F1E5, v31other}, {0xE007B, v31other}, {0xE002F, v31other},
	{0x2764, v31text}, {0x2194, v31text}, {0x1F5E3, v31text}, {0x3297, v31text},
	{0x231A, v31emoji}, {0x2B50, v31emoji}, {0x1F680, v31emoji}, {0x1F308, v31emoji},
	{0x261D, v31base}, {0x1F9D1, v31base}, {0x1F468, v31base},
	{0x1F3FB, v31modifier}, {0x1F3FF, v31modifier},
	{0x1F1E6, v31flag}, {0x1F1FF, v31flag},
	{'*', v31keycap}, {'0', v31keycap}, {'9', v31keycap},
	{0xE0030, v31tag}, {0xE0039, v31tag}, {0xE0061, v31tag}, {0xE007A, v31tag},
}

// v31kind returns true for the characters with emoji presentation
func v31kind(cl []v31class) []bool {
	n := len(cl)
	// tok[p][q] : an emoji token is text[p:q] ; el: an element of a zero width joiner sequence
	is := func(i int, c v31class) bool { return cl[i] == c }
	any := func(i int) bool {
		return vOr(vOr(vOr(is(i, v31text), is(i, v31emoji)), vOr(is(i, v31base), is(i, v31tagBase))), is(i, v31keycap))
	}
	tok, zwj := make([][]bool, n+1), make([][]bool, n+1)
	el := func(p, q int) bool {
		switch q - p {
		case 1:
			return any(p)
		case 2:
			return vOr(vAnd(any(p), is(p+1, v31vs16)), vAnd(is(p, v31base), is(p+1, v31modifier)))
		}
		return false
	}
	for p := 0; p < n; p++ {
		tok[p], zwj[p] = make([]bool, n+1), make([]bool, n+1)
		tags := is(p, v31tagBase)
		for q := p + 1; q <= n; q++ {
			t := false
			for k := p + 1; k+1 < q; k++ { // the last joiner
				t = vOr(t, vAnd(vAnd(is(k, v31zwj), el(k+1, q)), vOr(el(p, k), zwj[p][k])))
			}
			zwj[p][q] = t
			switch q - p {
			case 1:
				t = vOr(t, vOr(vOr(is(p, v31emoji), is(p, v31tagBase)), is(p, v31base)))
			case 2:
				t = vOr(t, el(p, q))
				t = vOr(t, vAnd(is(p, v31flag), is(p+1, v31flag)))
				t = vOr(t, vAnd(any(p), is(p+1, v31enclosingNo)))
			case 3:
				t = vOr(t, vAnd(vAnd(is(p, v31keycap), is(p+1, v31vs16)), is(p+2, v31enclosingKeycap)))
			}
			if q-p >= 3 {
				t = vOr(t, vAnd(tags, is(q-1, v31tagEnd)))
			}
			tok[p][q] = t
			if q-p >= 2 {
				tags = vAnd(tags, is(q-1, v31tag))
			}
		}
	}

	// start[p] : a token starts at p ; kind[p] : p is in an emoji token
	start, kind := make([]bool, n+1), make([]bool, n+1)
	start[0] = true
	for p := 0; p < n; p++ {
		longer := false
		for q := n; q > p; q-- {
			here := vAnd(tok[p][q], vNot(longer))
			txt := false
			if q == p+2 {
				txt = vAnd(vAnd(any(p), is(p+1, v31vs15)), vNot(longer))
				here = vAnd(here, vNot(txt))
			}
			longer = vOr(longer, vOr(here, txt))
			if q == p+1 {
				txt = vNot(longer)
			}
			here = vAnd(here, start[p])
			start[q] = vOr(start[q], vOr(here, vAnd(txt, start[p])))
			for k := p; k < q; k++ {
				kind[k] = vOr(kind[k], here)
			}
		}
	}
	return kind
}

// VerifC31Runs : the runs given by the iterator are those of the longest match tokens
func VerifC31Runs() {
	n := vParam("N")
	m := vParam("ALPHA")
	pre := vConc(vInt(0, vParam("PRE"))) // characters before the range
	post := vParam("POST")
	idx := make([]int, n)
	text := make([]rune, pre+n+post)
	for i := range text {
		text[i] = 0x1F600
	}
	cl := make([]v31class, n)
	lo := vParam("LO")
	at0 := 0 // the rune from the extended alphabet
	if lo > 0 {
		at0 = vConc(vInt(0, n-1))
	}
	var set []int
	if lo < 0 { // the sequences
		set = []int{3, 9, 4, 11, 12, 13, 14, 2}
	}
	for i := range idx {
		k := vInt(0, m-1)
		if set != nil {
			k = set[k]
		}
		if i == at0 && lo > 0 {
			k = vInt(lo, len(v31alphabet)-1)
		}
		idx[i] = k
		text[pre+i] = v31alphabet[k].r
		cl[i] = v31alphabet[k].c
	}

	kind := v31kind(cl)

	var iter emojiIter
	iter.reset(text, pre, n)
	at := pre
	for step := 0; ; step++ {
		vAssert(step < n, "each run has some characters")
		vAssert(iter.start == at, "the runs follow each other")
		vAssert(iter.end > at && iter.end <= pre+n, "the runs are in the text")
		for k := iter.start; k < iter.end; k++ {
			vAssert(kind[k-pre] == iter.isEmoji, "presentation of the characters")
		}
		if step > 0 {
			vAssert(kind[iter.start-pre-1] != iter.isEmoji, "the runs are as long as possible")
			vCover("runs")
		}
		if iter.isEmoji {
			vCover("emoji")
		}
		at = iter.end
		if at == pre+n {
			break
		}
		iter.next()
	}
}

// VerifC31Fonts : the emoji font is used for the characters with emoji presentation only
func VerifC31Fonts() {
	n := vParam("N")
	chars := []int{0, 6, 11, 3, 9, 1, 10, 4, 7, 16, 2, 5, 12, 13, 14}
	text := make([]rune, n)
	cl := make([]v31class, n)
	for i := range text {
		k := chars[vInt(0, vParam("ALPHA")-1)]
		text[i], cl[i] = v31alphabet[k].r, v31alphabet[k].c
	}
	kind := v31kind(cl)

	face := &vFace{width: func(r rune) int { return 10 }}
	emoji := &vFont{name: "e", face: face}
	context := NewContext(&vFontMap{fonts: []*vFont{{name: "0", face: face}}, emoji: []*vFont{emoji}, serial: 1})
	context.SetLanguage("en")
	at := 0
	for l := context.Itemize(text, 0, n, nil); l != nil; l = l.Next {
		it := l.Data
		vAssert(it.Offset == at && it.Length > 0, "the items follow each other")
		for i := it.Offset; i < it.Offset+it.Length; i++ {
			vAssert(kind[i] == (it.Analysis.Font == Font(emoji)), "font of the characters")
		}
		if it.Analysis.Font == Font(emoji) {
			vCover("emoji")
		}
		if at > 0 {
			vCover("runs")
		}
		at += it.Length
	}
	vAssert(at == n, "the items cover the text")
}
