package pango

// Texts without fonts: each character is a box

const (
	v22w = unknownGlyphWidth * Scale
	v22h = unknownGlyphHeight * Scale
)

type v22fm struct {
	empty bool // return an empty set instead of nil
	set   vFontset
}

func (fm *v22fm) GetSerial() uint { return 1 }

func (fm *v22fm) LoadFontset(context *Context, desc *FontDescription, lang Language) Fontset {
	if fm.empty {
		return &fm.set
	}
	return nil
}

func v22text(alphabet []rune, n int) []rune {
	text := make([]rune, n)
	for i := range text {
		text[i] = alphabet[vInt(0, len(alphabet)-1)]
	}
	return text
}

// v22attrs returns an attribute over a part of the text
func v22attrs(n int) AttrList {
	var attr *Attribute
	switch vConc(vInt(0, 9)) {
	case 0:
		return nil
	case 1:
		attr = NewAttrFontScale(FONT_SCALE_SUPERSCRIPT)
	case 2:
		attr = NewAttrFontScale(FONT_SCALE_SMALL_CAPS)
	case 3:
		attr = NewAttrVariant(VARIANT_SMALL_CAPS)
	case 4:
		attr = NewAttrUnderline(UNDERLINE_SINGLE)
	case 5:
		attr = NewAttrBaselineShift(int(BASELINE_SHIFT_SUPERSCRIPT))
	case 6:
		attr = NewAttrFallback(false)
	case 7:
		attr = NewAttrStrikethrough(true)
	case 8:
		attr = NewAttrTextTransform(TEXT_TRANSFORM_UPPERCASE)
	case 9:
		attr = NewAttrOverline(OVERLINE_SINGLE)
	}
	attr.StartIndex = vConc(vInt(0, n-1))
	attr.EndIndex = n
	var attrs AttrList
	attrs.Insert(attr)
	return attrs
}

func VerifC22Boxes() {
	n := vParam("N")
	alphabet := []rune{'a', ' ', '\n', 0x5D0, 0x301, 0x1F600, 0xAD}
	text := v22text(alphabet, n)
	context := NewContext(&v22fm{empty: vFork(vBool())})
	layout := NewLayout(context)
	layout.SetRunes(text)
	layout.SetAttributes(v22attrs(n))
	layout.SetWrap(WrapMode(vConc(vInt(0, 2))))
	width := vInt(0, 5) * v22w
	layout.SetWidth(Unit(width))

	lines := layout.GetLinesReadonly()
	vObs("lines", len(lines))
	s := 0
	for _, line := range lines {
		vAssert(line.StartIndex == s, "a line starts at the end of the previous one")
		count, total := 0, 0
		for r := line.Runs; r != nil; r = r.Next {
			item := r.Data.Item
			vAssert(item.Analysis.Font == nil, "no font")
			vAssert(len(r.Data.Glyphs.Glyphs) == item.Length, "one box by character")
			for _, g := range r.Data.Glyphs.Glyphs {
				w := int(g.Geometry.Width)
				vAssert(w == v22w || w == 0 && g.Glyph == GLYPH_EMPTY, "the boxes have a fixed size")
				total += w
			}
			count += item.Length
		}
		vAssert(count == line.Length, "the runs cover the line")
		var ink, logical Rectangle
		line.GetExtents(&ink, &logical)
		if line.Length > 0 {
			vAssert(int(logical.Width) == total, "width of the line")
			shifted := len(layout.Attributes) != 0 && layout.Attributes[0].Kind == ATTR_BASELINE_SHIFT
			vAssert(logical.Height == v22h || shifted, "height of the line")
		}
		s += line.Length
		if s < n && text[s] == '\n' {
			s++
		}
	}
	vAssert(s == n, "the lines cover the text")
	var ink, logical Rectangle
	layout.GetExtents(&ink, &logical)
	for i := 0; i <= n; i++ {
		layout.IndexToPos(i, &ink)
	}
	vCoverIf(len(lines) > 1, "lines")
}
