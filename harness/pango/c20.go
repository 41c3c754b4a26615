package pango

import "github.com/benoitkugler/textlayout/language"

// Attributes changing the boundaries of a paragraph, against the boundaries without them

type v20case struct {
	text           []rune
	start, length  int // the paragraph
	before, after  []CharAttr
	from, to       int // range of the attribute, in the text
	fromPos, toPos int // range clamped to the positions of the paragraph
	overlap        bool
}

func v20run(alphabet []rune, attr *Attribute, value int) v20case {
	n := vParam("N")
	var c v20case
	c.text = make([]rune, n)
	for i := range c.text {
		c.text[i] = alphabet[vInt(0, len(alphabet)-1)]
	}
	// the paragraph is a part of the text
	c.start = vConc(vInt(0, vParam("START")))
	c.length = vConc(vInt(n-c.start-vParam("REST"), n-c.start))
	c.from = vInt(0, n)
	c.to = vInt(0, n+1)
	vAssume(c.from < c.to)
	c.from, c.to = vConc(c.from), vConc(c.to)
	attr.StartIndex, attr.EndIndex = c.from, c.to

	var attrs AttrList
	attrs.Insert(attr)
	// another attribute, without effect
	attrs.Insert(NewAttrShow(0))

	run := func(list AttrList) []CharAttr {
		out := make([]CharAttr, n-c.start+1)
		item := &Item{Offset: c.start, Length: c.length}
		item.Analysis.Script = language.Common
		getItemsLogAttrs(c.text, c.start, c.length, &ItemList{Data: item}, out, list)
		return out
	}
	c.before = run(nil)
	c.after = run(attrs)

	c.overlap = c.to > c.start && c.from < c.start+c.length
	c.fromPos, c.toPos = c.from-c.start, c.to-c.start
	if c.fromPos < 0 {
		c.fromPos = 0
	}
	if c.toPos > c.length {
		c.toPos = c.length
	}
	for i := range c.after {
		vObs("attr", int(c.after[i]))
	}
	return c
}

// v20same asserts that the attributes are the same, except for the flags of the mask
func v20same(c v20case, i int, mask CharAttr, msg string) {
	vAssert(c.before[i]&^mask == c.after[i]&^mask, msg)
}

func v20in(r rune, set ...rune) bool {
	out := false
	for _, s := range set {
		out = vOr(out, r == s)
	}
	return out
}

// v20noBreaks checks the line breaks inside the range
func v20noBreaks(c v20case) {
	for p := c.fromPos + 1; p < c.toPos; p++ {
		r := c.text[c.start+p-1]
		hyphen := v20in(r, '-', 0xAD, 0x2010, '|')
		// a zero width space, then spaces
		zws := false
		for q := c.fromPos + 1; q <= p; q++ {
			all := c.text[c.start+q-1] == 0x200B
			for k := q; k < p; k++ {
				all = vAnd(all, c.text[c.start+k] == ' ')
			}
			zws = vOr(zws, all)
		}
		// '-' is not one of the hyphens which keep their break
		keeps := vOr(vAnd(hyphen, r != '-'), zws)
		vAssert(vOr(vNot(c.after[p].IsLineBreak()), vOr(c.after[p].IsMandatoryBreak(), keeps)), "no line break inside the range")
		// the range does not start in such a sequence
		zws = false
		for q := c.fromPos + 2; q <= p; q++ {
			all := c.text[c.start+q-1] == 0x200B
			for k := q; k < p; k++ {
				all = vAnd(all, c.text[c.start+k] == ' ')
			}
			zws = vOr(zws, all)
		}
		if p < c.length {
			zws = vAnd(zws, c.text[c.start+p] != ' ')
			vAssert(vOr(vNot(vAnd(zws, c.before[p].IsLineBreak())), c.after[p].IsLineBreak()), "a break after a zero width space is kept")
		}
		vAssert(c.after[p].IsMandatoryBreak() == c.before[p].IsMandatoryBreak(), "the mandatory breaks are kept")
		if p > c.fromPos+1 {
			vAssert(vOr(vNot(vAnd(hyphen, r != '-')), c.after[p].IsLineBreak()), "a break after a hyphen is kept")
		}
	}
}

var v20alphabet = []rune{'a', ' ', '-', 0xAD, '\n', 0x200B, '.'}

func VerifC20AllowBreaks() {
	value := vConc(vInt(0, 1))
	c := v20run(v20alphabet, NewAttrAllowBreaks(value == 1), value)
	for i := range c.after {
		if c.overlap && value == 0 && i > c.fromPos && i < c.toPos {
			v20same(c, i, LineBreak|CharBreak, "only the breaks are changed")
			vAssert(vNot(c.after[i].IsCharBreak()), "no character break inside the range")
		} else if c.overlap && value == 0 && i == c.toPos && c.to >= c.start+c.length {
			// the end of the paragraph
			v20same(c, i, CharBreak, "the end is kept")
		} else {
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		}
	}
	if c.overlap && value == 0 {
		v20noBreaks(c)
		vCover("overlap")
	}
}

func VerifC20Word() {
	c := v20run(v20alphabet, NewAttrWord(), 1)
	ends := c.to < c.start+c.length // inside the paragraph
	starts := c.from >= c.start
	for i := range c.after {
		a := c.after[i]
		switch {
		case !c.overlap || i < c.fromPos || i > c.toPos || i > c.length:
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		case i > c.fromPos && i < c.toPos:
			v20same(c, i, LineBreak|WordStart|WordEnd|WordBoundary, "only the words are changed")
			vAssert(vNot(v19any(a.IsWordStart(), a.IsWordEnd(), a.IsWordBoundary())), "no word boundary inside the range")
		case i == c.fromPos && starts:
			v20same(c, i, LineBreak|WordStart|WordEnd|WordBoundary, "only the words are changed")
			vAssert(vAnd(a.IsWordStart(), a.IsWordBoundary()), "the word starts with the range")
			vAssert(a.IsLineBreak() == vOr(c.before[i].IsLineBreak(), i > 0), "a line may be broken in front of the word")
		case i == c.fromPos:
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		case ends:
			v20same(c, i, LineBreak|WordStart|WordEnd|WordBoundary, "only the words are changed")
			vAssert(vAnd(a.IsWordEnd(), a.IsWordBoundary()), "the word ends with the range")
		}
	}
	if !c.overlap {
		return
	}
	v20noBreaks(c)
	vCover("overlap")
	if ends && starts {
		inWord, ok := false, true
		for _, a := range c.after[:c.length+1] {
			end, start := a.IsWordEnd(), a.IsWordStart()
			ok = vAnd(ok, vOr(vNot(end), inWord))
			inWord = vAnd(inWord, vNot(end))
			ok = vAnd(ok, vNot(vAnd(start, inWord)))
			inWord = vOr(inWord, start)
		}
		vAssert(vAnd(ok, vNot(inWord)), "the starts and the ends of the words alternate")
	}
}

func VerifC20Sentence() {
	c := v20run(v20alphabet, NewAttrSentence(), 1)
	ends := c.to < c.start+c.length // inside the paragraph
	starts := c.from >= c.start
	mask := SentenceStart | SentenceEnd | SentenceBoundary
	for i := range c.after {
		a := c.after[i]
		switch {
		case !c.overlap || i < c.fromPos || i > c.toPos || i > c.length:
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		case i > c.fromPos && i < c.toPos:
			v20same(c, i, mask, "only the sentences are changed")
			vAssert(a&mask == 0, "no sentence boundary inside the range")
		case i == c.fromPos && starts:
			v20same(c, i, mask, "only the sentences are changed")
			vAssert(vAnd(a.IsSentenceStart(), a.IsSentenceBoundary()), "the sentence starts with the range")
		case i == c.fromPos:
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		case ends:
			v20same(c, i, mask, "only the sentences are changed")
			vAssert(vAnd(a.IsSentenceEnd(), a.IsSentenceBoundary()), "the sentence ends with the range")
		}
	}
	if !c.overlap {
		return
	}
	vCover("overlap")
	if ends && starts {
		inSentence, ok := false, true
		for _, a := range c.after[:c.length+1] {
			end, start := a.IsSentenceEnd(), a.IsSentenceStart()
			ok = vAnd(ok, vOr(vNot(end), inSentence))
			inSentence = vAnd(inSentence, vNot(end))
			ok = vAnd(ok, vNot(vAnd(start, inSentence)))
			inSentence = vOr(inSentence, start)
		}
		vAssert(vAnd(ok, vNot(inSentence)), "the starts and the ends of the sentences alternate")
	}
}

func VerifC20Hyphens() {
	value := vConc(vInt(0, 1))
	c := v20run([]rune{'a', ' ', '-', 0xAD, 0x2027, 0xE9}, NewAttrInsertHyphens(value == 1), value)
	for i := range c.after {
		if c.overlap && value == 0 && i > c.fromPos && i < c.toPos {
			v20same(c, i, BreakInsertsHyphen, "only the hyphens are changed")
			vAssert(vOr(vNot(c.after[i].IsBreakInsertsHyphen()), c.after[i].IsBreakRemovesPreceding()), "no hyphen is inserted inside the range")
		} else if c.overlap && value == 0 && i == c.toPos && c.to >= c.start+c.length {
			v20same(c, i, BreakInsertsHyphen, "only the hyphens are changed")
		} else {
			v20same(c, i, 0, "the boundaries outside of the range are kept")
		}
	}
	if c.overlap && value == 0 {
		vCover("overlap")
	}
}
