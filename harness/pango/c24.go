package pango

// Iteration over a layout, and positions of the characters

type v24char struct {
	x0, x1 Unit
	line   int
	run    *GlyphItem
	seen   bool
}

func v24layout() *Layout {
	alphabet := []rune{'a', ' ', 0x5D0, 0x301, '\n', '\r', '1', lineSeparator}
	n := vParam("N")
	l := NewLayout(NewContext(&v22fm{empty: true}))
	l.SetRunes(v22text(alphabet[:vParam("ALPHA")], n))
	if vFork(vBool()) {
		l.SetWidth(Unit(vConc(vInt(0, n)) * v22w))
		l.SetWrap(WRAP_CHAR)
	}
	l.SetAlignment(Alignment(vInt(0, 2)))
	l.SetIndent(Unit(vInt(-1, 1) * 10))
	l.SetSpacing(Unit(vInt(0, 1) * 7))
	l.SetAutoDir(vBool())
	return l
}

// v24end returns the start of the next line
func v24next(text []rune, line *LayoutLine) int {
	e := line.StartIndex + line.Length
	if e < len(text) && text[e] == '\r' && e+1 < len(text) && text[e+1] == '\n' {
		return e + 2
	}
	if e < len(text) && (text[e] == '\n' || text[e] == '\r') {
		return e + 1
	}
	return e
}

type v24cluster struct {
	x, w  Unit
	index int // first character visited
	run   *GlyphItem
	line  int
}

// v24place returns the clusters in visual order and the places of the characters
func v24place(l *Layout, lines []*LayoutLine, rects []Rectangle) ([]v24cluster, []v24char) {
	chars := make([]v24char, len(l.Text)+1)
	var clusters []v24cluster
	for k, line := range lines {
		x := rects[k].X
		for run := line.Runs; run != nil; run = run.Next {
			item, gs := run.Data.Item, run.Data.Glyphs
			for i := 0; i < len(gs.Glyphs); {
				c := gs.LogClusters[i]
				// the characters of the cluster
				e := item.Length
				for _, o := range gs.LogClusters {
					if o > c && o < e {
						e = o
					}
				}
				var w Unit
				for i < len(gs.Glyphs) && gs.LogClusters[i] == c {
					w += gs.Glyphs[i].Geometry.Width
					i++
				}
				cl := v24cluster{x, w, item.Offset + c, run.Data, k}
				for j := c; j < e; j++ {
					p := j - c // visual place of the character
					if !run.Data.LTR() {
						p = e - 1 - j
						cl.index = item.Offset + e - 1
					}
					ch := &chars[item.Offset+j]
					vAssert(ch.run == nil, "each character is in one cluster")
					ch.x0 = x + Unit(p)*w/Unit(e-c)
					ch.x1 = x + Unit(p+1)*w/Unit(e-c)
					ch.line, ch.run = k, run.Data
				}
				clusters = append(clusters, cl)
				x += w
			}
		}
	}
	return clusters, chars
}

func VerifC24Iter() {
	l := v24layout()
	text := l.Text
	n := len(text)
	lines := l.GetLinesReadonly()

	// lines
	var y Unit
	rects := make([]Rectangle, len(lines))
	it := l.GetIter()
	for k, line := range lines {
		vAssert(it.GetLine() == line, "iteration by line")
		vAssert(it.IsAtLastLine() == (k == len(lines)-1), "last line")
		var r, own Rectangle
		it.GetLineExtents(nil, &r)
		line.GetExtents(nil, &own)
		vAssert(r.Width == own.Width && r.Height == own.Height, "extents of a line")
		vAssert(r.Y == y, "lines are placed one after the other")
		vAssert(it.GetBaseline() == y-own.Y, "baseline")
		if k == 0 {
			vAssert(l.GetBaseline() == it.GetBaseline(), "baseline of the layout")
		}
		y += r.Height + l.Spacing
		rects[k] = r
		vAssert(it.NextLine() == (k != len(lines)-1), "iteration by line")
	}
	var whole Rectangle
	l.GetExtents(nil, &whole)
	vAssert(whole.Y == 0 && whole.Height == y-l.Spacing, "height of the layout")
	w, h := l.GetSize()
	vAssert(w == whole.Width && h == whole.Height, "size of the layout")
	maxWidth := l.Width
	x0, x1 := rects[0].X, rects[0].X+rects[0].Width
	for _, r := range rects {
		if l.Width == -1 && r.Width > maxWidth {
			maxWidth = r.Width
		}
		x0 = minG(x0, r.X)
		x1 = maxG(x1, r.X+r.Width)
	}
	if l.Width == -1 {
		if l.Indent == 0 {
			vAssert(whole.X == 0 && whole.Width == maxWidth, "width of the layout")
		}
	} else {
		vAssert(whole.X == x0 && whole.Width == x1-x0, "width of the layout")
	}
	for k, line := range lines {
		align := l.alignment
		if line.ResolvedDir == DIRECTION_RTL && l.autoDir && align != ALIGN_CENTER {
			align = ALIGN_LEFT + ALIGN_RIGHT - align
		}
		indent := Unit(0)
		if l.Indent > 0 && line.IsParagraphStart {
			indent = l.Indent
		} else if l.Indent < 0 && !line.IsParagraphStart {
			indent = -l.Indent
		}
		if l.Width == -1 && l.Indent != 0 {
			continue
		}
		switch {
		case align == ALIGN_LEFT:
			vAssert(rects[k].X == indent, "alignment to the left")
		case maxWidth == 0 && align == ALIGN_CENTER:
			vAssert(rects[k].X == 0, "no alignment without width")
		case maxWidth == 0:
			vAssert(rects[k].X == -indent, "no alignment without width")
		case align == ALIGN_RIGHT:
			vAssert(rects[k].X+rects[k].Width == maxWidth-indent, "alignment to the right")
		default:
			vAssert(absG(rects[k].X-(maxWidth-rects[k].Width)/2) < Scale, "alignment to the center")
		}
	}

	// runs
	it = l.GetIter()
	for k, line := range lines {
		x := rects[k].X
		var r Rectangle
		for run := line.Runs; run != nil; run = run.Next {
			vAssert(it.GetRun() == run.Data, "iteration by run")
			it.GetRunExtents(nil, &r)
			vAssert(r.X == x && r.Width == run.Data.Glyphs.getWidth(), "extents of a run")
			x += r.Width
			vAssert(it.NextRun(), "iteration by run")
		}
		vAssert(it.GetRun() == nil, "each line ends with an empty run")
		vAssert(it.GetLine() == line, "each line ends with an empty run")
		it.GetRunExtents(nil, &r)
		vAssert(r.X == x && r.Width == 0, "extents of the end of a line")
		vAssert(it.Index == line.StartIndex+line.Length, "index of the end of a line")
		vAssert(it.NextRun() == (k != len(lines)-1), "iteration by run")
	}

	// clusters
	clusters, chars := v24place(l, lines, rects)
	it = l.GetIter()
	if it.run == nil {
		vAssert(it.NextCluster() == (len(clusters) > 0), "iteration by cluster")
	}
	for j, cl := range clusters {
		var r Rectangle
		vAssert(it.run == cl.run && it.lineIndex == cl.line, "iteration by cluster")
		it.GetClusterExtents(nil, &r)
		vAssert(r.X == cl.x && r.Width == cl.w, "extents of a cluster")
		vAssert(it.Index == cl.index, "index of a cluster")
		more := it.NextCluster()
		for more && it.run == nil {
			// empty run
			vAssert(j == len(clusters)-1, "iteration by cluster")
			more = it.NextCluster()
		}
		vAssert(more == (j != len(clusters)-1), "iteration by cluster")
	}

	// characters
	it = l.GetIter()
	count := 0
	more := true
	for more && count <= n {
		e := it.GetCharExtents()
		if it.run != nil {
			c := &chars[it.Index]
			vAssert(!c.seen, "iteration by character")
			c.seen = true
			vAssert(it.run == c.run, "run of a character")
			vAssert(e.X == c.x0 && e.X+e.Width == c.x1, "extents of a character")
		}
		count++
		more = it.NextChar()
	}
	vAssert(!more && (count == n || n == 0 && count == 1), "each character is visited once")
	for i := range text {
		vAssert(chars[i].seen == (chars[i].run != nil), "each character is visited once")
	}
	vCoverIf(len(lines) > 1, "lines")
}

func VerifC24Positions() {
	l := v24layout()
	text := l.Text
	n := len(text)
	lines := l.GetLinesReadonly()
	attrs := l.GetCharacterAttributes()
	rects := make([]Rectangle, len(lines))
	it := l.GetIter()
	for k := range lines {
		it.GetLineExtents(nil, &rects[k])
		it.NextLine()
	}
	_, chars := v24place(l, lines, rects)

	// index to position
	i := vConc(vInt(0, n))
	k := 0
	for k+1 < len(lines) && lines[k+1].StartIndex <= i {
		k++
	}
	line := lines[k]
	end := line.StartIndex + line.Length
	var pos Rectangle
	l.IndexToPos(i, &pos)
	nl, x := l.indexToLineX(i, false)
	_, xt := l.indexToLineX(i, true)
	vAssert(nl == k, "line of an index")
	if i < end {
		// the grapheme
		g0, g1 := i, i+1
		for g0 > line.StartIndex && !attrs[g0].IsCursorPosition() {
			g0--
		}
		for g1 < end && !attrs[g1].IsCursorPosition() {
			g1++
		}
		a, b := chars[g0].x0, chars[g1-1].x1
		if !chars[g0].run.LTR() {
			a = chars[g0].x1
		}
		if !chars[g1-1].run.LTR() {
			b = chars[g1-1].x0
		}
		vAssert(pos.X == a && pos.X+pos.Width == b, "position of an index")
		vAssert(rects[k].X+x == a && rects[k].X+xt == b, "horizontal position of an index")
		vAssert(pos.Y == rects[k].Y && pos.Height == rects[k].Height, "vertical position of an index")
		dir := DIRECTION_LTR
		if !chars[i].run.LTR() {
			dir = DIRECTION_RTL
		}
		vAssert(l.GetDirectionAt(i) == dir, "direction at an index")
	} else if line.ResolvedDir == DIRECTION_LTR {
		vAssert(pos.X == rects[k].X+rects[k].Width && pos.Width == 0, "position of the end of a line")
		vAssert(rects[k].X+x == pos.X, "position of the end of a line")
	}
	if line.Runs != nil {
		vAssert(pos.Y == rects[k].Y && pos.Height == rects[k].Height, "vertical position of an index")
	}

	// ranges
	s, e := vConc(vInt(0, n)), vConc(vInt(0, n))
	vAssume(s <= e)
	for k, line := range lines {
		ranges := line.GetXRanges(s, e)
		vAssert(len(ranges)%2 == 0, "ranges")
		ls, le := line.StartIndex, line.StartIndex+line.Length
		var sum Unit
		for j := 0; j+1 < len(ranges); j += 2 {
			vAssert(ranges[j] <= ranges[j+1], "the ranges are ordered")
			if j != 0 {
				vAssert(ranges[j-1] <= ranges[j], "the ranges are ordered")
			}
			sum += ranges[j+1] - ranges[j]
		}
		var want Unit
		for c := ls; c < le; c++ {
			in := false
			for j := 0; j+1 < len(ranges); j += 2 {
				in = vOr(in, vAnd(ranges[j] <= chars[c].x0, chars[c].x1 <= ranges[j+1]))
			}
			if s <= c && c < e {
				vAssert(in, "the range covers the character")
				want += chars[c].x1 - chars[c].x0
			}
		}
		left, right := rects[k].X, l.Width-rects[k].X-rects[k].Width
		toStart, toEnd := s < ls, e > le
		if line.ResolvedDir == DIRECTION_RTL {
			toStart, toEnd = toEnd, toStart
		}
		if toStart && left > 0 {
			want += left
			vAssert(ranges[0] == 0 && ranges[1] == rects[k].X, "the range goes to the left of the layout")
		}
		if toEnd && right > 0 {
			want += right
			vAssert(ranges[len(ranges)-1] == l.Width && ranges[len(ranges)-2] == l.Width-right, "the range goes to the right of the layout")
		}
		vAssert(sum == want, "the ranges cover nothing else")
	}
	vCoverIf(len(lines) > 1, "lines")
}

// VerifC24Numbers is run on smaller texts with more characters
func VerifC24Numbers() { VerifC24Iter() }
