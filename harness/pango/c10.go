package pango

import "github.com/benoitkugler/textprocessing/fribidi"

// Lines after breaking: order of the runs, baseline shifts, letter spacing, tabs,
// justification.

// the visual order of the runs is the one of rule L2
func VerifC10Reorder() {
	n := vConc(vInt(1, vParam("N")))
	line := &LayoutLine{}
	levels := make([]int, n)
	var list *RunList
	for i := n - 1; i >= 0; i-- {
		levels[i] = vConc(vInt(0, vParam("L")))
		list = &RunList{Data: &GlyphItem{Item: &Item{Offset: i, Length: 1, Analysis: Analysis{Level: fribidi.Level(levels[i])}}}, Next: list}
	}
	line.Runs = list
	line.pangoLayoutLineReorder()
	rank := make([]int, n)
	k := 0
	for l := line.Runs; l != nil; l = l.Next {
		vAssert(k < n, "no run is added")
		rank[l.Data.Item.Offset] = k + 1
		vAssert(int(l.Data.Item.Analysis.Level) == levels[l.Data.Item.Offset], "the levels are kept")
		k++
	}
	vAssert(k == n, "every run is kept")
	for i := 0; i < n; i++ {
		vAssert(rank[i] != 0, "every run is kept")
		m := levels[i]
		for j := i + 1; j < n; j++ {
			if levels[j] < m {
				m = levels[j]
			}
			vAssert((rank[i] < rank[j]) == (m%2 == 0), "order of two runs")
		}
	}
}

// baseline shifts: the offset of a run is the sum of the shifts which apply to it,
// over two lines
func VerifC10Baseline() {
	n := vParam("N")
	var attrs []*Attribute
	for i := 0; i < vParam("K"); i++ {
		s, e := vConc(vInt(0, n-1)), vConc(vInt(1, n))
		vAssume(s < e)
		kind := ATTR_BASELINE_SHIFT
		v := vInt(1025, 100000)
		if vFork(vBool()) {
			v = -v
		}
		if i == 0 && vFork(vBool()) {
			kind = ATTR_RISE
		}
		attrs = append(attrs, &Attribute{Kind: kind, Data: AttrInt(v), StartIndex: s, EndIndex: e})
	}
	var state paraBreakState
	cut := vConc(vInt(1, n))
	for k := 0; k < 2; k++ {
		from, to := 0, cut
		if k == 1 {
			from, to = cut, n
		}
		line := &LayoutLine{StartIndex: from}
		var list *RunList
		for i := to - 1; i >= from; i-- {
			item := &Item{Offset: i, Length: 1}
			for _, a := range attrs {
				if a.StartIndex <= i && i < a.EndIndex {
					item.Analysis.ExtraAttrs = append(item.Analysis.ExtraAttrs, a)
				}
			}
			list = &RunList{Data: &GlyphItem{Item: item}, Next: list}
		}
		line.Runs = list
		line.applyBaselineShift(&state)
		for l := line.Runs; l != nil; l = l.Next {
			want := Unit(0)
			for _, a := range attrs {
				if a.StartIndex <= l.Data.Item.Offset && l.Data.Item.Offset < a.EndIndex {
					want += Unit(a.Data.(AttrInt))
				}
			}
			vAssert(l.Data.yOffset == want, "vertical offset of a run")
			vAssert(l.Data.startXOffset == 0 && l.Data.endXOffset == 0, "no horizontal offset")
		}
	}
}

func verifLineWidth(runs *RunList) Unit {
	var w Unit
	for l := runs; l != nil; l = l.Next {
		for _, g := range l.Data.Glyphs.Glyphs {
			w += g.Geometry.Width
		}
	}
	return w
}

// letter spacing: the same space between all the graphemes of the line, none at the
// ends; text following a tab starts at the tab stop
func VerifC10Spacing() {
	layout := &Layout{context: &Context{}}
	layout.tabWidth = 80000
	layout.logicalRectCached = false
	line := &LayoutLine{layout: layout, ResolvedDir: DIRECTION_LTR}
	state := &paraBreakState{remainingWidth: -1, lineWidth: -1}
	w := Unit(vInt(3000, 20000))
	sp := Unit(vInt(-2000, 2000))
	nr := vConc(vInt(1, vParam("R")))
	total, nTabs := 0, 0
	var offsets []int
	var tabs []bool
	for i := 0; i < nr; i++ {
		offsets = append(offsets, total)
		tab := nTabs == 0 && vParam("tabs") == 1 && vFork(vBool())
		tabs = append(tabs, tab)
		n := 1
		if tab {
			nTabs++
			layout.Text = append(layout.Text, '\t')
		} else {
			n = vConc(vInt(1, vParam("N")))
			for k := 0; k < n; k++ {
				layout.Text = append(layout.Text, 'a')
			}
		}
		total += n
	}
	offsets = append(offsets, total)
	layout.logAttrs = make([]CharAttr, total+1)
	for i := range layout.logAttrs {
		layout.logAttrs[i] = CursorPosition
	}
	shape := AttrShape{logical: Rectangle{Width: w}}
	stop, col := Unit(0), Unit(0)
	tabRun := -1
	for i := 0; i < nr; i++ {
		item := &Item{Offset: offsets[i], Length: offsets[i+1] - offsets[i]}
		if nTabs == 0 && vFork(vBool()) {
			item.Analysis.Level = 1
		}
		item.Analysis.ExtraAttrs = AttrList{&Attribute{Kind: ATTR_SHAPE, Data: shape, EndIndex: total},
			&Attribute{Kind: ATTR_LETTER_SPACING, Data: AttrInt(sp), EndIndex: total}}
		state.properties = item.getProperties()
		state.startOffset = offsets[i]
		line.insertRun(state, item, nil, false)
		if tabs[i] {
			tabRun = i
			stop = state.lastTab.tab.Location
			col = state.lastTab.width
		}
	}
	line.Runs = line.Runs.reverse()
	vAssert(line.Length == total, "length of the line")
	line.adjust_line_letter_spacing(state)
	before, after := Unit(0), Unit(0) // widths around the tab
	nBefore, nAfter, i := 0, 0, 0
	for l := line.Runs; l != nil; l = l.Next {
		lw := Unit(0)
		for _, g := range l.Data.Glyphs.Glyphs {
			lw += g.Geometry.Width
		}
		n := offsets[i+1] - offsets[i]
		switch {
		case i == tabRun:
			before += lw
		case tabRun == -1 || i < tabRun:
			before += lw
			nBefore += n
		default:
			after += lw
			nAfter += n
		}
		i++
	}
	vAssert(i == nr, "every run is kept")
	if tabRun == -1 {
		vAssert(before == Unit(nBefore)*w+Unit(nBefore-1)*sp, "one space between two graphemes of the line")
		return
	}
	vCover("tab")
	vAssert(before == stop, "the text after a tab starts at the tab stop")
	if nAfter > 0 {
		vAssert(after == Unit(nAfter)*w+Unit(nAfter-1)*sp, "spaces after the tab")
	}
	// the stop is the first default one which leaves at least the width of a space
	vAssert(col == Unit(nBefore)*(w+sp), "width before the tab")
	k := stop / 80000
	vAssert(vAnd(stop == k*80000, vAnd(stop >= col+10000, stop-80000 < col+10000)), "default tab stop")
}

// justification
func VerifC10Justify() {
	layout := &Layout{context: &Context{}}
	line := &LayoutLine{layout: layout}
	nr := vConc(vInt(1, vParam("R")))
	offset := 1
	line.StartIndex = offset
	var last *RunList
	for i := 0; i < nr; i++ {
		r := verifGlyphItem(vConc(vInt(1, vParam("N"))), vConc(vInt(1, vParam("N"))), offset, vFork(vBool()), false)
		for k := range r.Glyphs.Glyphs {
			r.Glyphs.Glyphs[k].Geometry.Width = [3]Unit{0, 700, 1024}[vConc(vInt(0, vParam("NW")))]
		}
		offset += r.Item.Length
		node := &RunList{Data: r}
		if last == nil {
			line.Runs = node
		} else {
			last.Next = node
		}
		last = node
	}
	line.Length = offset - 1
	layout.Text = make([]rune, offset)
	layout.logAttrs = make([]CharAttr, offset+1)
	for i := 1; i < offset; i++ {
		switch vConc(vInt(0, 2)) {
		case 1:
			layout.logAttrs[i] = CursorPosition
		case 2:
			layout.logAttrs[i] = CursorPosition | ExpandableSpace
		}
	}
	state := &paraBreakState{lineStartIndex: 1}
	rem := Unit(vInt(0, 1000)) << 10 // in whole pixels
	hinted := vFork(vBool())
	if !hinted {
		rem += Unit(vInt(1, 1023))
	}
	state.remainingWidth = rem
	var widths []Unit
	var expand, cursor []bool // of the cluster of each glyph, in order of the runs
	spaces, w0 := Unit(0), Unit(0)
	gaps := 0
	for l := line.Runs; l != nil; l = l.Next {
		lc := l.Data.Glyphs.LogClusters
		prev, cw, pc := -1, Unit(0), false
		for i, g := range l.Data.Glyphs.Glyphs {
			a := layout.logAttrs[l.Data.Item.Offset+lc[i]]
			widths = append(widths, g.Geometry.Width)
			expand = append(expand, a.IsExpandableSpace())
			cursor = append(cursor, a.IsCursorPosition())
			w0 += g.Geometry.Width
			if a.IsExpandableSpace() {
				spaces += g.Geometry.Width
			}
			if lc[i] != prev {
				if pc && cw != 0 {
					gaps++
				}
				cw = 0
			}
			prev, pc = lc[i], a.IsCursorPosition()
			cw += g.Geometry.Width
		}
		if pc && cw != 0 {
			gaps++
		}
	}
	gaps-- // between the clusters
	line.justifyWords(state)
	added := verifLineWidth(line.Runs) - w0
	if vFork(rem <= 0) {
		vAssert(added == 0 && state.remainingWidth == rem, "nothing to add")
		return
	}
	vAssert(state.remainingWidth == rem-added, "remaining width")
	if spaces > 0 {
		vAssert(added == rem, "the line is justified")
		cum, sum := 0, Unit(0)
		base := 0
		for l := line.Runs; l != nil; l = l.Next {
			nb := len(l.Data.Glyphs.Glyphs)
			for k := 0; k < nb; k++ { // in logical order
				j := k
				if !l.Data.LTR() {
					j = nb - 1 - k
				}
				i := base + j
				d := l.Data.Glyphs.Glyphs[j].Geometry.Width - widths[i]
				if expand[i] && widths[i] > 0 {
					cum += int(widths[i])
					sum += d
					want := Unit(cum * int(rem) / int(spaces))
					if hinted {
						want = (want + 512) &^ 1023
					}
					vAssert(sum == want, "the spaces grow in proportion of their width")
				} else {
					vAssert(d == 0, "only the spaces are expanded")
				}
			}
			base += nb
		}
		return
	}
	if gaps <= 0 {
		vAssert(added == 0, "nothing to expand")
		return
	}
	vCover("clusters")
	vAssert(vAnd(state.remainingWidth <= Unit(gaps)+512, state.remainingWidth >= -Unit(gaps)-512), "the line is justified, up to rounding")
	if !hinted {
		vAssert(vAnd(state.remainingWidth <= Unit(gaps), state.remainingWidth >= 0), "the line is justified, up to one unit per gap")
	}
}
