package pango

// Breaking a paragraph into lines. Shaping is replaced by the attribute giving the
// size of the characters of a range.

type v21case struct {
	n      int
	w      []int  // widths
	white  []bool // white spaces
	line   []bool // line break before the character (n included)
	char   []bool // character break
	start  []int  // start of the items
	layout *Layout
	width  int // available on the current line
	wrap   WrapMode

	layoutWidth, indent int

	hyphens []bool // an hyphen is inserted by a break before the character
	hyphen  int    // its width
}

// lineWidth returns the width available for a line
func (c *v21case) lineWidth(first bool) int {
	if c.layout.alignment == ALIGN_CENTER {
		return c.layoutWidth
	}
	w := c.layoutWidth
	if first {
		w -= vIte(c.indent > 0, c.indent, 0)
	} else {
		w += vIte(c.indent < 0, c.indent, 0)
	}
	return vIte(w > 0, w, 0)
}

func v21new(maxItems int) v21case {
	var c v21case
	c.n = vParam("N")
	text := make([]rune, c.n)
	for i := range text {
		text[i] = 'a'
	}
	c.w = make([]int, c.n)
	var attrs AttrList
	var context *Context
	maxWidth := vParam("MAXW")
	boxes := vParam("BOXES") != 0
	if boxes {
		// the characters of an item have different widths
		a, b, hyphen := 1, maxWidth, 2
		if vParam("CONC") == 0 {
			a, b, hyphen = vInt(0, maxWidth), vInt(0, maxWidth), vInt(0, maxWidth)
		}
		face := &vFace{width: func(r rune) int {
			if r == 'a' {
				return a
			} else if r == 'b' {
				return b
			}
			return hyphen
		}}
		font := &vFont{name: "v", metrics: FontMetrics{ApproximateCharWidth: Unit(vInt(0, vParam("SAFE")))}, face: face}
		context = NewContext(&vFontMap{fonts: []*vFont{font}, serial: 1})
		c.hyphen = hyphen
		pattern := vConc(vInt(0, 3))
		for i := range text {
			c.w[i] = a
			if i%2 != pattern%2 && (pattern < 2 || i < 2) {
				text[i], c.w[i] = 'b', b
			}
		}
	} else {
		safe := vInt(0, vParam("SAFE"))
		font := &vFont{name: "v", metrics: FontMetrics{ApproximateCharWidth: Unit(safe)}}
		context = NewContext(&vFontMap{fonts: []*vFont{font}, serial: 1})
	}
	context.RoundGlyphPositions = false
	c.layout = NewLayout(context)
	c.layout.SetRunes(text)

	// the items
	for i := 0; i < c.n; {
		c.start = append(c.start, i)
		l := c.n - i
		if len(c.start) < maxItems {
			l = vConc(vInt(1, l))
		}
		if boxes {
			attr := NewAttrLanguage([]Language{"fr", "en"}[len(c.start)%2])
			attr.StartIndex, attr.EndIndex = i, i+l
			attrs.Insert(attr)
			i += l
			continue
		}
		w := vInt(1, vParam("MAXW"))
		if vParam("CONC") != 0 {
			w = vConc(w)
		}
		attr := NewAttrShape(Rectangle{Width: Unit(w)}, Rectangle{Width: Unit(w), Height: Unit(len(c.start))})
		attr.StartIndex, attr.EndIndex = i, i+l
		attrs.Insert(attr)
		for k := 0; k < l; k++ {
			c.w[i] = w
			i++
		}
	}
	c.layout.SetAttributes(attrs)

	c.white = make([]bool, c.n+1)
	c.line = make([]bool, c.n+1)
	c.char = make([]bool, c.n+1)
	c.hyphens = make([]bool, c.n+1)
	logAttrs := make([]CharAttr, c.n+1)
	for i := range c.char {
		inside := i > 0 && i < c.n
		var a CharAttr
		if inside {
			c.line[i], c.char[i] = vBool(), vBool()
			vAssume(vOr(vNot(c.line[i]), c.char[i]))
			a |= CharAttr(vIte(c.line[i], int(LineBreak), 0)) | CharAttr(vIte(c.char[i], int(CharBreak), 0))
			if vParam("HYPHENS") != 0 {
				c.hyphens[i] = vBool()
				vAssume(vOr(vNot(c.hyphens[i]), vAnd(c.line[i], vNot(c.white[i-1]))))
				a |= CharAttr(vIte(c.hyphens[i], int(BreakInsertsHyphen), 0))
			}
		}
		if i < c.n {
			c.white[i] = vBool()
			a |= CharAttr(vIte(c.white[i], int(White), 0))
			// no break before a space
			vAssume(vOr(vNot(c.line[i]), vNot(c.white[i])))
		}
		logAttrs[i] = a
	}

	c.wrap = WrapMode(vConc(vInt(0, 2)))
	if c.wrap == WRAP_WORD_CHAR {
		// the text is only searched for a character break from the item that overflows
		for _, i := range c.start[1:] {
			vAssume(c.char[i])
		}
		vAssume(vParam("HYPHENS") == 0 || len(c.start) == 1)
	}
	c.layout.wrap = c.wrap
	c.layoutWidth = vInt(0, maxWidth*c.n)
	if boxes && vParam("CONC") != 0 {
		c.layoutWidth = vConc(c.layoutWidth)
	}
	if d := vParam("INDENT"); d > 0 {
		c.indent = vInt(-d, d)
		c.layout.SetIndent(Unit(c.indent))
		c.layout.SetAlignment(Alignment(vConc(vInt(0, 1))))
	}
	c.layout.SetWidth(Unit(c.layoutWidth))
	c.layout.logAttrs = logAttrs
	return c
}

// total is the width of the characters [s, e)
func (c *v21case) total(s, e int) int {
	total := 0
	for i := s; i < e; i++ {
		total += c.w[i]
	}
	return total
}

// fits returns true if the characters [s, e) fit in the line, a white space at
// their end being removed
func (c *v21case) fits(s, e int) bool {
	return c.total(s, e)-vIte(c.white[e-1], c.w[e-1], 0)+vIte(c.hyphens[e], c.hyphen, 0) <= c.width
}

// hangs returns true if the characters [s, e) fit in the line, except for
// the white spaces at their end
func (c *v21case) hangs(s, e int) bool {
	if e == s {
		return true
	}
	return vOr(c.total(s, e)+vIte(c.hyphens[e], c.hyphen, 0) <= c.width, vAnd(c.white[e-1], c.hangs(s, e-1)))
}

// allowed returns true if a line may be broken at p
func (c *v21case) allowed(p int, char bool) bool {
	if p == c.n {
		return true
	}
	if char {
		return c.char[p]
	}
	return c.line[p]
}

// best returns true if [s, e) is the line to be chosen among the allowed breaks:
// the longest which fits, or the shortest one if there is none
func (c *v21case) best(s, e int, char bool) bool {
	ok := c.allowed(e, char)
	// no longer line fits (if the line is not the end of the paragraph, whose last
	// space may or may not be removed)
	for q := e + 1; q <= c.n; q++ {
		fits := c.fits(s, q)
		if q == c.n {
			fits = c.total(s, q) <= c.width
		}
		ok = vAnd(ok, vNot(vAnd(c.allowed(q, char), fits)))
	}
	// it fits, or there is no break before (except in front of the last spaces)
	none, white := true, true
	for p := e - 1; p > s; p-- {
		white = vAnd(white, c.white[p])
		none = vAnd(none, vOr(vNot(c.allowed(p, char)), white))
	}
	return vAnd(ok, vOr(c.hangs(s, e), none))
}

func VerifC21Lines() { v21lines(v21new(vParam("ITEMS"))) }

// a single item broken several times
func VerifC21Boxes() { v21lines(v21new(vParam("ITEMS"))) }

func v21lines(c v21case) {
	lines := c.layout.GetLinesReadonly()
	s := 0
	for k, line := range lines {
		vAssert(line.StartIndex == s, "a line starts at the end of the previous one")
		vAssert(line.Length > 0, "no line is empty")
		vAssert(line.IsParagraphStart == (k == 0), "only the first line starts the paragraph")
		e := s + line.Length
		c.width = c.lineWidth(k == 0)
		vAssert(e <= c.n, "the lines are in the text")
		vObs("line", e)

		// the runs
		pos, width := s, 0
		for r := line.Runs; r != nil; r = r.Next {
			item := r.Data.Item
			vAssert(item.Offset == pos, "the runs follow each other")
			vAssert(item.Length > 0, "no run is empty")
			glyphs := r.Data.Glyphs.Glyphs
			if vParam("HYPHENS") != 0 && pos+item.Length == e && len(glyphs) == item.Length+1 {
				vAssert(vAnd(e < c.n, c.hyphens[e]), "an hyphen is inserted")
				vAssert(glyphs[item.Length].Glyph == 0x2010 && int(glyphs[item.Length].Geometry.Width) == c.hyphen, "an hyphen is inserted")
				glyphs = glyphs[:item.Length]
				vCover("hyphen")
			} else {
				vAssert(vNot(vAnd(pos+item.Length == e, c.hyphens[e])), "an hyphen is inserted")
			}
			vAssert(len(glyphs) == item.Length, "one glyph by character")
			vAssert(pos+item.Length <= e, "the runs are in the line")
			for i, g := range glyphs {
				w := c.w[pos+i]
				if pos+i == e-1 && e < c.n {
					w = vIte(c.white[e-1], 0, w)
				}
				vAssert(int(g.Geometry.Width) == w, "the widths are kept, except for a space at the end")
				width += int(g.Geometry.Width)
			}
			pos += item.Length
		}
		vAssert(pos == e, "the runs cover the line")

		// the break
		switch c.wrap {
		case WRAP_WORD:
			vAssert(c.best(s, e, false), "the line is broken at the last break which fits")
		case WRAP_CHAR:
			vAssert(c.best(s, e, true), "the line is broken at the last character break which fits")
		case WRAP_WORD_CHAR:
			word := false // a line break which fits
			for q := s + 1; q <= c.n; q++ {
				word = vOr(word, vAnd(c.allowed(q, false), c.fits(s, q)))
			}
			vAssert(vOr(vNot(word), c.best(s, e, false)), "the line is broken at the last break which fits")
			vAssert(vOr(word, c.best(s, e, true)), "the line is broken at the last character break which fits, if no break does")
		}
		s = e
	}
	vAssert(s == c.n, "the lines cover the text")
	vCoverIf(len(lines) > 1, "broken")
}

// justified lines fill the width
func VerifC21Justify() {
	c := v21new(vParam("ITEMS"))
	c.layout.Justify = true
	c.layout.JustifyLastLine = vFork(vBool())
	for i := range c.layout.logAttrs {
		c.layout.logAttrs[i] |= CursorPosition | CharAttr(vIte(c.white[i], int(ExpandableSpace), 0))
	}
	lines := c.layout.GetLinesReadonly()
	for k, line := range lines {
		s, e := line.StartIndex, line.StartIndex+line.Length
		last := k == len(lines)-1
		width := 0
		for r := line.Runs; r != nil; r = r.Next {
			for _, g := range r.Data.Glyphs.Glyphs {
				width += int(g.Geometry.Width)
			}
		}
		c.width = c.lineWidth(k == 0)
		natural := c.total(s, e)
		spaces := false // there are spaces to expand
		for i := s; i < e; i++ {
			spaces = vOr(spaces, vAnd(c.white[i], last || i != e-1))
		}
		visible := e - s // number of characters of non zero width
		if !last {
			natural -= vIte(c.white[e-1], c.w[e-1], 0)
			visible -= vIte(c.white[e-1], 1, 0)
		}
		want := natural
		if !last || c.layout.JustifyLastLine {
			want = vIte(vAnd(natural < c.width, vOr(spaces, visible > 1)), c.width, natural)
		}
		// the remaining width is divided exactly between the gaps without spaces
		vAssert(vAnd(width <= want, vOr(width == want, vAnd(vNot(spaces), want-width < visible))), "a justified line fills the width")
		vCoverIf(vAnd(width > natural, spaces), "spaces")
		vCoverIf(vAnd(width > natural, vNot(spaces)), "clusters")
	}
}
