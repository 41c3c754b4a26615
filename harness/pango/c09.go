package pango

import (
	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/harfbuzz"
)

// a font of which only the (empty) harfbuzz font is used
type verifFont struct{ hb *harfbuzz.Font }

func (*verifFont) FaceID() fonts.FaceID            { return fonts.FaceID{} }
func (*verifFont) Describe(bool) FontDescription   { return FontDescription{} }
func (*verifFont) GetCoverage(Language) Coverage   { return nil }
func (*verifFont) GetMetrics(Language) FontMetrics { return FontMetrics{} }
func (*verifFont) GetFontMap() FontMap             { return nil }
func (*verifFont) GetFeatures() []harfbuzz.Feature { return nil }
func (f *verifFont) GetHarfbuzzFont() *harfbuzz.Font {
	return f.hb
}
func (*verifFont) GlyphExtents(glyph Glyph, inkRect, logicalRect *Rectangle) {
	if inkRect != nil {
		*inkRect = Rectangle{}
	}
	if logicalRect != nil {
		*logicalRect = Rectangle{}
	}
}

// x position of the boundary before character k of the item, measured from its
// left edge (reference): each cluster is divided equally between its graphemes
func verifEdge(gi *GlyphItem, k int, cursor func(int) bool) (Unit, bool) {
	g, cl := verifLogical(gi)
	n := gi.Item.Length
	total := Unit(0)
	for i := range g {
		total += g[i].Geometry.Width
	}
	side := func(x Unit) Unit {
		if gi.LTR() {
			return x
		}
		return total - x
	}
	if k == n {
		return side(total), true
	}
	start, end, x0, x1 := 0, n, Unit(0), Unit(0)
	for i := range g {
		if cl[i] > k {
			end = cl[i]
			break
		}
		if i > 0 && cl[i] != cl[i-1] {
			x0 = x1
		}
		x1 += g[i].Geometry.Width
		start = cl[i]
	}
	nb, off := Unit(0), Unit(0)
	for i := start; i < end; i++ {
		if cursor(i) {
			nb++
			if i < k {
				off++
			}
		}
	}
	if nb == 0 {
		return 0, false
	}
	return ((nb-off)*side(x0) + off*side(x1)) / nb, true
}

// the edges of the characters of an item
func VerifC09Item() {
	gi, _ := verifC08Item(true)
	n := gi.Item.Length
	gi.Item.Analysis.Font = &verifFont{hb: &harfbuzz.Font{}}
	text := make([]rune, n)
	k := vConc(vInt(0, n))
	all := func(int) bool { return true }
	if k < n {
		got := gi.Glyphs.IndexToX(text, &gi.Item.Analysis, k, false)
		want, _ := verifEdge(gi, k, all)
		vAssert(got == want, "leading edge of a character")
		// the characters of the cluster
		got = gi.Glyphs.IndexToX(text, &gi.Item.Analysis, k, true)
		next, _ := verifEdge(gi, k+1, all)
		vAssert(got == next, "the trailing edge of a character is the leading edge of the next one")
	} else {
		got := gi.Glyphs.IndexToX(text, &gi.Item.Analysis, k, false)
		w := Unit(0)
		for _, g := range gi.Glyphs.Glyphs {
			w += g.Geometry.Width
		}
		if !gi.LTR() {
			w = 0
		}
		vAssert(got == w, "end of the item")
	}
}

// a line of one or two items, in any order
func verifLine(widths bool) (*LayoutLine, []*GlyphItem) {
	layout := &Layout{context: &Context{}}
	nr := vConc(vInt(1, vParam("R")))
	var runs []*GlyphItem
	offset := vParam("start")
	for i := 0; i < nr; i++ {
		n, g := vConc(vInt(1, vParam("N"))), vConc(vInt(1, vParam("G")))
		r := verifGlyphItem(n, g, offset, vFork(vBool()), widths)
		r.Item.Analysis.Font = &verifFont{hb: &harfbuzz.Font{}}
		offset += n
		runs = append(runs, r)
	}
	line := &LayoutLine{layout: layout, StartIndex: vParam("start"), Length: offset - vParam("start"), ResolvedDir: DIRECTION_LTR}
	if nr == 2 && vFork(vBool()) {
		line.Runs = &RunList{Data: runs[1], Next: &RunList{Data: runs[0]}}
	} else if nr == 2 {
		line.Runs = &RunList{Data: runs[0], Next: &RunList{Data: runs[1]}}
	} else {
		line.Runs = &RunList{Data: runs[0]}
	}
	layout.Text = make([]rune, offset+1)
	layout.lines = []*LayoutLine{line}
	return line, runs
}

func verifRunX(line *LayoutLine, run *GlyphItem) Unit {
	x := Unit(0)
	for l := line.Runs; l.Data != run; l = l.Next {
		for _, g := range l.Data.Glyphs.Glyphs {
			x += g.Geometry.Width
		}
	}
	return x
}

func VerifC09Line() {
	line, runs := verifLine(true)
	n := len(line.layout.Text)
	line.layout.logAttrs = make([]CharAttr, n+1)
	for i := range line.layout.logAttrs {
		if i == line.StartIndex || i >= line.StartIndex+line.Length || vFork(vBool()) {
			line.layout.logAttrs[i] = CursorPosition
		}
	}
	start, end := line.StartIndex, line.StartIndex+line.Length
	cursor := func(i int) bool { return line.layout.logAttrs[i].IsCursorPosition() }
	i := vConc(vInt(start, end-1))
	lead, trail := i, i
	for !cursor(lead) {
		lead--
	}
	for trail+1 < end && !cursor(trail+1) {
		trail++
	}
	for _, run := range runs {
		o := run.Item.Offset
		if o <= lead && lead < o+run.Item.Length {
			want, ok := verifEdge(run, lead-o, func(k int) bool { return cursor(k + o) })
			vAssert(ok, "the cluster has a cursor position")
			vAssert(line.IndexToX(i, false) == verifRunX(line, run)+want, "leading edge of the grapheme")
		}
		if o <= trail && trail < o+run.Item.Length {
			want, ok := verifEdge(run, trail+1-o, func(k int) bool { return cursor(k + o) })
			if ok {
				vAssert(line.IndexToX(i, true) == verifRunX(line, run)+want, "trailing edge of the grapheme")
			} else {
				line.IndexToX(i, true)
			}
		}
	}
	vAssert(line.IndexToX(i, false) == line.IndexToX(lead, false), "the characters of a grapheme have the same leading edge")
	vAssert(line.IndexToX(i, true) == line.IndexToX(trail, true), "the characters of a grapheme have the same trailing edge")
	vAssert(line.IndexToX(end, false) == line.getWidth(), "the position after the line is its right end")
}

// visual ranges of a logical range
func VerifC09Ranges() {
	line, runs := verifLine(true)
	layout := line.layout
	layout.Width = -1
	all := func(int) bool { return true }
	w := Unit(0)
	for _, r := range runs {
		for _, g := range r.Glyphs.Glyphs {
			w += g.Geometry.Width
		}
	}
	line.cacheStatus = cached
	line.logicalRect.Width = w
	off := Unit(0)
	layout.alignment = Alignment(vConc(vInt(0, 2)))
	layout.Width = 2000002
	line.ResolvedDir = [2]Direction{DIRECTION_LTR, DIRECTION_RTL}[vConc(vInt(0, 1))]
	off = line.get_x_offset(layout, layout.Width, w) // VerifC09Offset
	start, end := line.StartIndex, line.StartIndex+line.Length
	a, b := vConc(vInt(start-1, end+1)), vConc(vInt(start-1, end+1))
	vAssume(a != b)
	got := line.GetXRanges(a, b)
	if a > b {
		vAssert(len(got) == 0, "no range")
		return
	}
	var want []Unit
	before, after := a < start, b > end
	if line.ResolvedDir == DIRECTION_RTL {
		before, after = after, before
	}
	if before && vFork(off > 0) {
		want = append(want, 0, off)
	}
	for l := line.Runs; l != nil; l = l.Next {
		o := l.Data.Item.Offset
		s, e := a-o, b-o
		if s < 0 {
			s = 0
		}
		if e > l.Data.Item.Length {
			e = l.Data.Item.Length
		}
		if s >= e {
			continue
		}
		x := off + verifRunX(line, l.Data)
		x0, _ := verifEdge(l.Data, s, all)
		x1, _ := verifEdge(l.Data, e, all)
		if !l.Data.LTR() {
			x0, x1 = x1, x0
		}
		want = append(want, x+x0, x+x1)
	}
	if after && vFork(off+w < layout.Width) {
		want = append(want, off+w, layout.Width)
	}
	vAssert(len(got) == len(want), "number of ranges")
	for i := range want {
		vAssert(got[i] == want[i], "visual range")
		if i > 0 {
			vAssert(got[i-1] <= got[i], "the ranges are sorted")
		}
	}
}

// horizontal position of a line: alignment and indentation
func VerifC09Offset() {
	layout := &Layout{context: &Context{}}
	line := &LayoutLine{layout: layout}
	layout.alignment = Alignment(vConc(vInt(0, 2)))
	layout.autoDir = vFork(vBool())
	layout.context.baseDir = [4]Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL}[vConc(vInt(0, 3))]
	line.ResolvedDir = [2]Direction{DIRECTION_LTR, DIRECTION_RTL}[vConc(vInt(0, 1))]
	line.IsParagraphStart = vFork(vBool())
	layout.Indent = Unit(vInt(-100000, 100000))
	lw, w := Unit(vInt(-1, 1000000)), Unit(vInt(0, 1000000))
	vAssume(lw != 0)
	got := line.get_x_offset(layout, lw, w)
	rtlBase := layout.context.baseDir == DIRECTION_RTL || layout.context.baseDir == DIRECTION_WEAK_RTL
	align := layout.alignment
	// the alignment is relative to the base direction
	if layout.autoDir && rtlBase != (line.ResolvedDir == DIRECTION_RTL) {
		align = [3]Alignment{ALIGN_LEFT: ALIGN_RIGHT, ALIGN_CENTER: ALIGN_CENTER, ALIGN_RIGHT: ALIGN_LEFT}[align]
	}
	vAssert(line.getAlignment() == align, "alignment of the line")
	indent := Unit(0)
	if line.IsParagraphStart == vFork(layout.Indent > 0) {
		indent = Unit(vIte(layout.Indent > 0, int(layout.Indent), int(-layout.Indent)))
	}
	switch align {
	case ALIGN_LEFT:
		vAssert(got == indent, "left aligned line")
	case ALIGN_RIGHT:
		vAssert(got == lw-w-indent, "right aligned line")
	default:
		if vFork((lw|w)&1023 == 0) {
			vAssert(got&1023 == 0 && vAnd(2*got-(lw-w) <= 1024, 2*got-(lw-w) >= -1024), "centered line, whole pixels")
		} else {
			vAssert(vAnd(2*got-(lw-w) <= 1, 2*got-(lw-w) >= -1), "centered line")
		}
	}
}
