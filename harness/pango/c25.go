package pango

// Cursors

func v25layout() *Layout {
	alphabet := []rune{'a', ' ', 0x5D0, '\n', 0x301, '\r', '1', lineSeparator}
	n := vParam("N")
	l := NewLayout(NewContext(&v22fm{empty: true}))
	l.SetRunes(v22text(alphabet[:vParam("ALPHA")], n))
	if vFork(vBool()) {
		l.SetWidth(Unit(vConc(vInt(0, n-1)) * v22w))
		l.SetWrap(WRAP_CHAR)
	}
	l.SetAutoDir(vBool())
	l.SetAlignment(Alignment(vParam("ALIGN")))
	return l
}

// v25line returns the last line starting at or before i
func v25line(lines []*LayoutLine, i int) int {
	k := 0
	for k+1 < len(lines) && lines[k+1].StartIndex <= i {
		k++
	}
	return k
}

// edges of a character of the line, from the left of the line
func v25edges(line *LayoutLine, i int) (leading, trailing Unit, level int) {
	var x Unit
	for run := line.Runs; run != nil; run = run.Next {
		item := run.Data.Item
		if item.Offset <= i && i < item.Offset+item.Length {
			lead := x + run.Data.Glyphs.IndexToX(line.layout.Text[item.Offset:item.Offset+item.Length], &item.Analysis, i-item.Offset, false)
			trail := x + run.Data.Glyphs.IndexToX(line.layout.Text[item.Offset:item.Offset+item.Length], &item.Analysis, i-item.Offset, true)
			return lead, trail, int(item.Analysis.Level)
		}
		x += run.Data.Glyphs.getWidth()
	}
	vAssert(false, "each character of a line is in a run")
	return
}

func VerifC25Position() {
	l := v25layout()
	n := len(l.Text)
	lines := l.GetLinesReadonly()
	attrs := l.GetCharacterAttributes()
	i := vConc(vInt(0, n))
	vAssume(attrs[i].IsCursorPosition())
	k := v25line(lines, i)
	line := lines[k]
	var rect, strong, weak Rectangle
	it := l.GetIter()
	for j := 0; j < k; j++ {
		it.NextLine()
	}
	it.GetLineExtents(nil, &rect)
	l.GetCursorPos(i, &strong, &weak)
	start, end := line.StartIndex, line.StartIndex+line.Length
	base := 0
	if line.ResolvedDir == DIRECTION_RTL {
		base = 1
	}

	// edges of the line count as characters of the base direction
	before, after := Unit(0), rect.Width
	if base == 1 {
		before, after = after, before
	}
	levelBefore, levelAfter := base, base
	if i > start {
		_, before, levelBefore = v25edges(line, i-1)
	}
	if i < end {
		after, _, levelAfter = v25edges(line, i)
	}
	s, w := rect.X+after, rect.X+before
	if levelBefore%2 == base && (levelAfter%2 != base || levelBefore < levelAfter) {
		s, w = w, s
	}
	vAssert(strong.X == s, "strong cursor")
	vAssert(weak.X == w, "weak cursor")
	vAssert(strong.Width == 0 && weak.Width == 0, "a cursor has no width")
	if line.Runs != nil {
		vAssert(strong.Y == rect.Y && weak.Y == rect.Y && strong.Height == rect.Height && weak.Height == rect.Height, "a cursor has the height of the line")
	}
	vCoverIf(s != w, "two places")
}

func VerifC25Move() {
	l := v25layout()
	n := len(l.Text)
	lines := l.GetLinesReadonly()
	attrs := l.GetCharacterAttributes()
	dir := 1
	if vFork(vBool()) {
		dir = -1
	}
	i := vConc(vInt(0, n))
	vAssume(attrs[i].IsCursorPosition())

	// the state: position i, displayed on the line k
	k := v25line(lines, i)
	line := lines[k]
	index, trailing := i, 0
	if k > 0 && i == line.StartIndex && !line.IsParagraphStart && vFork(vBool()) {
		// at the end of a wrapped line
		k--
		line = lines[k]
		for trailing == 0 || !attrs[index].IsCursorPosition() {
			index--
			trailing++
		}
	}
	start, end := line.StartIndex, line.StartIndex+line.Length

	// place of the cursors
	it := l.GetIter()
	var xs []Unit
	for _, li := range lines {
		var rect, pos Rectangle
		it.GetLineExtents(nil, &rect)
		s, e := li.StartIndex, li.StartIndex+li.Length
		for len(xs) < s {
			xs = append(xs, 0)
		}
		for j := s; j <= e; j++ {
			l.GetCursorPos(j, &pos, nil)
			x := pos.X
			if j == e && v25line(lines, j) != k {
				x = rect.X
				if li.ResolvedDir == DIRECTION_LTR {
					x += rect.Width
				}
			}
			if li == line || j > s && j < e {
				for len(xs) <= j {
					xs = append(xs, 0)
				}
				xs[j] = x
			}
		}
		it.NextLine()
	}

	ni, nt := l.MoveCursorVisually(true, index, trailing, dir)
	if ni == -1 {
		vAssert(dir < 0 && k == 0, "the cursor leaves the layout")
		vAssert(i == start || line.ResolvedDir == DIRECTION_RTL, "the cursor leaves the layout")
		vAssert(i == end || line.ResolvedDir == DIRECTION_LTR, "the cursor leaves the layout")
		return
	}
	if ni == MaxInt {
		vAssert(dir > 0 && k == len(lines)-1, "the cursor leaves the layout")
		vAssert(i == end || line.ResolvedDir == DIRECTION_RTL, "the cursor leaves the layout")
		vAssert(i == start || line.ResolvedDir == DIRECTION_LTR, "the cursor leaves the layout")
		return
	}
	vAssert(ni >= 0 && nt >= 0 && ni+nt <= n, "the new position is in the text")
	p := ni + nt
	vAssert(attrs[p].IsCursorPosition(), "the new position is a cursor position")
	nk := v25line(lines, ni)

	// last position of the line in this direction
	last, first := end, start
	if (line.ResolvedDir == DIRECTION_LTR) == (dir < 0) {
		last, first = start, end
	}
	if i != last {
		vAssert(nk == k, "the cursor stays on the line until its edge")
		want := last
		for j := start; j <= end; j++ {
			if !attrs[j].IsCursorPosition() {
				continue
			}
			if Unit(dir)*xs[j] > Unit(dir)*xs[i] && Unit(dir)*xs[j] <= Unit(dir)*xs[want] {
				want = j
			}
		}
		vAssert(xs[p] == xs[want], "the cursor moves to the next place")
		vAssert(p != i, "the cursor moves")
		vCover("same line")
		return
	}
	vAssert(nk == k+dir, "the cursor goes to the next line")
	nl := lines[nk]
	s, e := nl.StartIndex, nl.StartIndex+nl.Length
	first = s
	if (nl.ResolvedDir == DIRECTION_LTR) == (dir < 0) {
		first = e
	}
	wrapped := !lines[maxInt(nk, k)].IsParagraphStart
	if !wrapped {
		endWrapped := nk+1 < len(lines) && !lines[nk+1].IsParagraphStart
		if first == e && endWrapped {
			vAssert(p >= s && p <= e, "the cursor enters the line by its edge")
		} else {
			var a, b Rectangle
			l.GetCursorPos(p, &a, nil)
			l.GetCursorPos(first, &b, nil)
			vAssert(p >= s && p <= e && a.X == b.X, "the cursor enters the line by its edge")
		}
	} else {
		vAssert(p >= s && p <= e && p != i, "the cursor moves")
	}
	vCover("next line")
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// VerifC25Walk walks in a direction until the cursor leaves the layout
func VerifC25Walk() {
	l := v25layout()
	n := len(l.Text)
	attrs := l.GetCharacterAttributes()
	strong := vFork(vBool())
	dir := 1
	if vFork(vBool()) {
		dir = -1
	}
	index, trailing := vConc(vInt(0, n)), 0
	vAssume(attrs[index].IsCursorPosition())
	steps := 0
	for ; steps <= 3*n+4; steps++ {
		index, trailing = l.MoveCursorVisually(strong, index, trailing, dir)
		if index == -1 || index == MaxInt {
			vAssert((index == -1) == (dir < 0), "the cursor leaves by the side it goes to")
			break
		}
		vAssert(index >= 0 && trailing >= 0 && index+trailing <= n, "the position is in the text")
		vAssert(attrs[index+trailing].IsCursorPosition(), "the position is a cursor position")
	}
	vAssert(steps <= 3*n+4, "the cursor is never stuck")
	vCover("left")
}
