package pango

// The result of a layout only depends on its current settings

type v23set struct {
	text                                []rune
	width, height, indent, spacing      Unit
	lineSpacing                         float32
	align                               Alignment
	ellipsize                           EllipsizeMode
	wrap                                WrapMode
	justify, justifyLast, autoDir, single bool
	tabs                                *TabArray
	attrs                               AttrList
	desc                                *FontDescription
	round                               bool
}

func v23text() []rune {
	alphabet := []rune{'a', ' ', lineSeparator, '\n', '\t', 0x5D0, 0x301}
	return v22text(alphabet[:vParam("ALPHA")], vParam("N"))
}

func v23attrs() AttrList {
	if vFork(vBool()) {
		return nil
	}
	// wide characters
	attr := NewAttrShape(Rectangle{}, Rectangle{Y: -1, Height: 3, Width: 2 * v22w})
	if vFork(vBool()) {
		attr = NewAttrAllowBreaks(false)
	}
	attr.StartIndex, attr.EndIndex = 0, vParam("N")-1
	var attrs AttrList
	attrs.Insert(attr)
	return attrs
}

func v23width() Unit {
	n := vParam("N")
	if vFork(vBool()) {
		return -1
	}
	return Unit(vInt(0, 2*n) * v22w)
}

func v23height() Unit {
	return Unit([]int{-1, -2, 0, v22h, 2 * v22h}[vInt(0, 4)])
}

// v23base returns the settings before the change
func v23base(op int) v23set {
	s := v23set{height: -1, width: -1, autoDir: true}
	s.text = v23text()
	s.width = v23width()
	s.ellipsize = EllipsizeMode(vInt(0, 3))
	if op <= 3 && s.ellipsize != ELLIPSIZE_NONE {
		s.height = v23height()
	}
	if op <= 8 && op != 5 {
		s.wrap = WrapMode(vInt(0, 2))
	}
	if op == 0 || op == 4 || op == 5 {
		s.justify, s.justifyLast = vBool(), vBool()
	}
	if op == 6 || op == 2 || op == 7 {
		s.single = vBool()
	}
	if op == 14 && vFork(vBool()) {
		s.tabs = &TabArray{Tabs: []Tab{{Alignment: TAB_LEFT, Location: 3 * v22w}}}
		if vFork(vBool()) {
			s.tabs.Tabs = append(s.tabs.Tabs, Tab{Alignment: TAB_LEFT, Location: 2 * v22w})
		}
	}
	return s
}

func (s *v23set) apply(l *Layout) {
	l.SetRunes(s.text)
	l.SetWidth(s.width)
	l.SetHeight(s.height)
	l.SetIndent(s.indent)
	l.SetSpacing(s.spacing)
	l.SetLineSpacing(s.lineSpacing)
	l.SetAlignment(s.align)
	l.SetEllipsize(s.ellipsize)
	l.SetWrap(s.wrap)
	l.SetJustify(s.justify)
	l.SetJustifyLastLine(s.justifyLast)
	l.SetAutoDir(s.autoDir)
	l.SetSingleParagraphMode(s.single)
	l.SetTabs(s.tabs)
	l.SetAttributes(s.attrs)
	l.SetFontDescription(s.desc)
	l.context.SetRoundGlyphPositions(s.round)
}

func (s *v23set) change(l *Layout, op int) {
	switch op {
	case 0:
		s.width = v23width()
		l.SetWidth(s.width)
	case 1:
		vAssume(s.ellipsize != ELLIPSIZE_NONE)
		s.height = v23height()
		l.SetHeight(s.height)
	case 2:
		vAssume(s.height == -1)
		s.ellipsize = EllipsizeMode(vInt(0, 3))
		l.SetEllipsize(s.ellipsize)
	case 3:
		s.wrap = WrapMode(vInt(0, 2))
		l.SetWrap(s.wrap)
	case 4:
		s.justify = vBool()
		l.SetJustify(s.justify)
	case 5:
		s.justifyLast = vBool()
		l.SetJustifyLastLine(s.justifyLast)
	case 6:
		s.single = vBool()
		l.SetSingleParagraphMode(s.single)
	case 7:
		s.text = v23text()
		l.SetRunes(s.text)
	case 8:
		s.attrs = v23attrs()
		l.SetAttributes(s.attrs)
	case 9:
		s.indent = Unit(vInt(-1, 1) * v22w)
		l.SetIndent(s.indent)
	case 10:
		s.align = Alignment(vInt(0, 2))
		l.SetAlignment(s.align)
	case 11:
		s.spacing = Unit(vInt(0, 100))
		l.SetSpacing(s.spacing)
	case 12:
		if vFork(vBool()) {
			s.lineSpacing = 1.5
		}
		l.SetLineSpacing(s.lineSpacing)
	case 13:
		s.autoDir = vBool()
		l.SetAutoDir(s.autoDir)
	case 14:
		loc := Unit(vInt(1, 4) * v22w)
		if s.tabs == nil {
			s.tabs = &TabArray{Tabs: []Tab{{Alignment: TAB_LEFT, Location: loc}}}
			l.SetTabs(s.tabs)
			break
		}
		old := *s.tabs
		old.Tabs = append([]Tab(nil), s.tabs.Tabs...)
		// the object is changed by its owner
		if vFork(vBool()) {
			s.tabs.Tabs[0].Location = loc
		} else {
			s.tabs.Tabs = append([]Tab{{Alignment: TAB_LEFT, Location: loc}}, s.tabs.Tabs...)
		}
		if vFork(vBool()) {
			l.SetTabs(s.tabs)
		} else {
			s.tabs = &old
		}
	case 15:
		d := NewFontDescription()
		d.SetFamily("x")
		s.desc = &d
		l.SetFontDescription(s.desc)
	case 16:
		s.round = vBool()
		l.context.SetRoundGlyphPositions(s.round)
	}
}

func VerifC23History() {
	op := vConc(vInt(0, 16))
	s := v23base(op)

	l := NewLayout(NewContext(&v22fm{empty: true}))
	s.apply(l)
	if op == 14 && s.tabs != nil && len(s.tabs.Tabs) == 2 {
		vAssert(s.tabs.Tabs[0].Location == 3*v22w && s.tabs.Tabs[1].Location == 2*v22w, "the tabs given are not modified")
	}
	l.GetLinesReadonly()
	if op >= 9 { // changes of the positions
		l.GetExtents(nil, &Rectangle{})
	}
	before := len(l.lines)
	s.change(l, op)

	f := NewLayout(NewContext(&v22fm{empty: true}))
	s.apply(f)

	la, lb := l.GetLinesReadonly(), f.GetLinesReadonly()
	vAssert(len(la) == len(lb), "same number of lines")
	for k, a := range la {
		b := lb[k]
		vAssert(a.StartIndex == b.StartIndex && a.Length == b.Length && a.IsParagraphStart == b.IsParagraphStart && a.ResolvedDir == b.ResolvedDir, "same line")
		ra, rb := a.Runs, b.Runs
		for ra != nil && rb != nil {
			ia, ib := ra.Data.Item, rb.Data.Item
			vAssert(ia.Offset == ib.Offset && ia.Length == ib.Length && ia.Analysis.Level == ib.Analysis.Level, "same run")
			ga, gb := ra.Data.Glyphs.Glyphs, rb.Data.Glyphs.Glyphs
			vAssert(len(ga) == len(gb), "same glyphs")
			same := true
			for i := range ga {
				same = vAnd(same, ga[i].Glyph == gb[i].Glyph)
				same = vAnd(same, ga[i].Geometry.Width == gb[i].Geometry.Width)
				same = vAnd(same, ga[i].Geometry.XOffset == gb[i].Geometry.XOffset)
			}
			vAssert(same, "same glyphs")
			ra, rb = ra.Next, rb.Next
		}
		vAssert(ra == nil && rb == nil, "same number of runs")
	}
	vAssert(l.IsWrapped() == f.IsWrapped(), "same wrapping")
	vAssert(l.IsEllipsized() == f.IsEllipsized(), "same ellipsization")
	ca, cb := l.GetCharacterAttributes(), f.GetCharacterAttributes()
	vAssert(len(ca) == len(cb), "same number of attributes")
	same := true
	for i := range ca {
		same = vAnd(same, ca[i] == cb[i])
	}
	vAssert(same, "same attributes of the characters")
	if op >= 9 {
		var xa, xb Rectangle
		l.GetExtents(nil, &xa)
		f.GetExtents(nil, &xb)
		vAssert(xa == xb, "same extents")
	}
	vCoverIf(before != len(la), "changed")
}
