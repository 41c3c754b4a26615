package pango

import "github.com/benoitkugler/textprocessing/fribidi"

// Glyph items: a shaped item of n characters and g glyphs, both directions, any
// clusters (in logical order they start at 0 and do not decrease).

func verifGlyphItem(n, g, offset int, rtl bool, widths bool) *GlyphItem {
	item := &Item{Offset: offset, Length: n}
	if rtl {
		item.Analysis.Level = fribidi.Level(1)
	}
	gs := &GlyphString{}
	gs.setSize(g)
	prev := 0
	for i := 0; i < g; i++ {
		c := 0
		if i != 0 {
			c = vConc(vInt(0, n-1))
			vAssume(c >= prev)
		}
		prev = c
		j := i
		if rtl {
			j = g - 1 - i
		}
		gs.LogClusters[j] = c
		gs.Glyphs[j].Glyph = Glyph(i + 1)
		if widths {
			gs.Glyphs[j].Geometry.Width = Unit(vInt(vParam("W0"), vParam("W")) * vParam("mul"))
		} else {
			gs.Glyphs[j].Geometry.Width = Unit(vInt(0, 2) * 100)
		}
	}
	return &GlyphItem{Item: item, Glyphs: gs}
}

// the glyphs and clusters in logical order
func verifLogical(gi *GlyphItem) ([]GlyphInfo, []int) {
	g, c := gi.Glyphs.Glyphs, gi.Glyphs.LogClusters
	if gi.LTR() {
		return append([]GlyphInfo(nil), g...), append([]int(nil), c...)
	}
	var g2 []GlyphInfo
	var c2 []int
	for i := len(g) - 1; i >= 0; i-- {
		g2 = append(g2, g[i])
		c2 = append(c2, c[i])
	}
	return g2, c2
}

func verifC08Item(widths bool) (*GlyphItem, []rune) {
	n, g := vConc(vInt(1, vParam("N"))), vConc(vInt(1, vParam("G")))
	offset := vConc(vInt(0, 1)) * 2
	return verifGlyphItem(n, g, offset, vFork(vBool()), widths), make([]rune, offset+n+1)
}

// the cluster iterator visits a partition, forward and backward
func VerifC08Iter() {
	gi, text := verifC08Item(false)
	_, cl := verifLogical(gi)
	n, g, offset := gi.Item.Length, len(cl), gi.Item.Offset
	var starts, glyphs []int // of the clusters
	for i := range cl {
		if i == 0 || cl[i] != cl[i-1] {
			starts = append(starts, cl[i])
			glyphs = append(glyphs, i)
		}
	}
	starts, glyphs = append(starts, n), append(glyphs, g)
	check := func(it *GlyphItemIter, k int) {
		vAssert(it.StartChar == starts[k] && it.EndChar == starts[k+1], "characters of a cluster")
		vAssert(it.StartIndex == offset+starts[k] && it.EndIndex == offset+starts[k+1], "indices of a cluster")
		if gi.LTR() {
			vAssert(it.startGlyph == glyphs[k] && it.endGlyph == glyphs[k+1], "glyphs of a cluster")
		} else {
			vAssert(it.startGlyph == g-1-glyphs[k] && it.endGlyph == g-1-glyphs[k+1], "glyphs of a cluster, RTL")
		}
	}
	var it GlyphItemIter
	k := 0
	if vFork(vBool()) {
		vAssert(it.InitStart(gi, text), "a glyph item has a first cluster")
	} else {
		vAssert(it.InitEnd(gi, text), "a glyph item has a last cluster")
		k = len(starts) - 2
	}
	check(&it, k)
	for s := 0; s < vParam("steps"); s++ {
		if vFork(vBool()) {
			ok := it.NextCluster()
			vAssert(ok == (k+1 < len(starts)-1), "the iteration stops at the last cluster")
			if !ok {
				break
			}
			k++
		} else {
			ok := it.PrevCluster()
			vAssert(ok == (k > 0), "the iteration stops at the first cluster")
			if !ok {
				break
			}
			k--
		}
		check(&it, k)
	}
}

// splitting preserves the text, the glyphs and the clusters
func VerifC08Split() {
	gi, text := verifC08Item(false)
	gi.yOffset, gi.startXOffset, gi.endXOffset = 7, 11, 13
	gi.Item.Analysis.ExtraAttrs = AttrList{NewAttrShow(0)}
	n, offset := gi.Item.Length, gi.Item.Offset
	g, cl := verifLogical(gi)
	at := vConc(vInt(-1, n+1))
	out := gi.split(text, at)
	// the first cluster starting at or after the position
	k := len(g)
	for i := len(g) - 1; i >= 0; i-- {
		if cl[i] >= at {
			k = i
		}
	}
	if at <= 0 || at >= n || k == len(g) {
		vAssert(out == nil, "no split at the borders or inside the last cluster")
		g2, cl2 := verifLogical(gi)
		vAssert(gi.Item.Length == n && gi.Item.Offset == offset && len(g2) == len(g) && len(cl2) == len(cl), "the item is not changed")
		return
	}
	vCover("split")
	vAssert(out != nil, "split")
	vAssert(out.Item.Offset == offset && out.Item.Length == cl[k], "text before the split")
	vAssert(gi.Item.Offset == offset+cl[k] && gi.Item.Length == n-cl[k], "text after the split")
	ga, ca := verifLogical(out)
	gb, cb := verifLogical(gi)
	vAssert(len(ga) == k && len(gb) == len(g)-k && len(ca) == k && len(cb) == len(g)-k, "number of glyphs")
	for i := range g {
		if i < k {
			vAssert(ga[i] == g[i] && ca[i] == cl[i], "glyphs before the split")
		} else {
			vAssert(gb[i-k] == g[i] && cb[i-k] == cl[i]-cl[k], "glyphs after the split")
		}
	}
	vAssert(out.yOffset == 7 && gi.yOffset == 7, "baseline shift")
	vAssert(out.startXOffset == 11 && gi.endXOffset == 13, "horizontal shifts at the ends")
	vAssert(out.startXOffset+out.endXOffset+gi.startXOffset+gi.endXOffset == 24, "the width with the shifts")
	vAssert(len(out.Item.Analysis.ExtraAttrs) == 1 && out.Item.Analysis.ExtraAttrs[0] != gi.Item.Analysis.ExtraAttrs[0], "the attributes are copied")
	vAssert(out.LTR() == gi.LTR(), "direction")
}

// the logical widths: the width of a cluster is divided among its characters
func VerifC08Widths() {
	gi, text := verifC08Item(true)
	g, cl := verifLogical(gi)
	got := gi.GetLogicalWidths(text)
	n := gi.Item.Length
	vAssert(len(got) == n, "one width per character")
	for i := range g {
		if i != 0 && cl[i] == cl[i-1] {
			continue
		}
		end := n
		var w Unit
		for j := i; j < len(g); j++ {
			if cl[j] != cl[i] {
				end = cl[j]
				break
			}
			w += g[j].Geometry.Width
		}
		var sum Unit
		for c := cl[i]; c < end; c++ {
			sum += got[c]
			if c > cl[i]+1 {
				vAssert(got[c] == got[c-1], "the characters of a cluster have the same width")
			}
		}
		vAssert(sum == w, "the width of a cluster is the sum of the widths of its characters")
		if end-cl[i] > 1 {
			d := got[cl[i]] - got[cl[i]+1]
			vAssert(vAnd(d > -Unit(end-cl[i]), d < Unit(end-cl[i])), "the remainder is given to the first character")
		}
	}
}

// letter spacing: it is added between the graphemes, not at the ends
func VerifC08LetterSpace() {
	gi, text := verifC08Item(true)
	before, cl := verifLogical(gi)
	sp := Unit(vInt(-4096, 4096))
	logAttrs := make([]CharAttr, gi.Item.Length+1)
	nClusters := 0
	for i := range cl {
		if i == 0 || cl[i] != cl[i-1] {
			nClusters++
		}
	}
	for i := range logAttrs {
		logAttrs[i] = CursorPosition
	}
	gi.letterSpace(text, logAttrs, sp)
	after, cl2 := verifLogical(gi)
	var w0, w1 Unit
	for i := range before {
		w0 += before[i].Geometry.Width
		w1 += after[i].Geometry.Width
		vAssert(cl[i] == cl2[i] && before[i].Glyph == after[i].Glyph, "the glyphs are kept")
		d := after[i].Geometry.Width - before[i].Geometry.Width
		if i > 0 && i+1 < len(cl) && cl[i] == cl[i-1] && cl[i] == cl[i+1] {
			vAssert(d == 0, "no space inside a cluster")
		}
	}
	vAssert(w1-w0 == Unit(nClusters-1)*sp, "one space between two graphemes")
	// the space between two clusters is the requested one
	for i := 1; i < len(cl); i++ {
		if cl[i] == cl[i-1] {
			continue
		}
		// logical order: distance between the ink of the last glyph of a cluster and the
		// ink of the first glyph of the next one
		if gi.LTR() && (i == 1 || cl[i-1] != cl[i-2]) {
			pa := before[i-1].Geometry.Width - before[i-1].Geometry.XOffset + before[i].Geometry.XOffset
			pb := after[i-1].Geometry.Width - after[i-1].Geometry.XOffset + after[i].Geometry.XOffset
			vAssert(pb-pa == sp, "distance between two clusters")
		}
		if !gi.LTR() && (i+1 == len(cl) || cl[i+1] != cl[i]) && (i == 1 || cl[i-1] != cl[i-2]) {
			// visually: glyph i, then glyph i-1
			pa := before[i].Geometry.Width - before[i].Geometry.XOffset + before[i-1].Geometry.XOffset
			pb := after[i].Geometry.Width - after[i].Geometry.XOffset + after[i-1].Geometry.XOffset
			vAssert(pb-pa == sp, "distance between two clusters, RTL")
		}
	}
	if sp%Scale == 0 {
		for i := range before {
			vAssert((after[i].Geometry.Width-before[i].Geometry.Width)%Scale == 0, "a spacing in whole pixels keeps the widths aligned")
		}
	}
}

// attributes applied after shaping: the runs partition the glyphs, and each cluster
// gets exactly the attributes of its characters
func VerifC08ApplyAttrs() {
	gi, text := verifC08Item(false)
	n, offset := gi.Item.Length, gi.Item.Offset
	g, cl := verifLogical(gi)
	visual := append([]GlyphInfo(nil), gi.Glyphs.Glyphs...)
	ltr := gi.LTR()
	base := NewAttrShow(0)
	gi.Item.Analysis.ExtraAttrs = AttrList{base}
	var list AttrList
	for i := 0; i < vParam("K"); i++ {
		s, e := vConc(vInt(0, offset+n)), vConc(vInt(0, offset+n+1))
		vAssume(s < e)
		kind := ATTR_UNDERLINE
		if vFork(vBool()) {
			kind = ATTR_STRIKETHROUGH
		}
		list.Insert(&Attribute{Kind: kind, Data: AttrInt(i), StartIndex: s, EndIndex: e})
	}
	runs := gi.pango_glyph_item_apply_attrs(text, list)
	vAssert(runs != nil, "a run at least")

	// the glyphs are those of the item, in visual order
	k := 0
	var logical []*GlyphItem
	for r := runs; r != nil; r = r.Next {
		for _, gl := range r.Data.Glyphs.Glyphs {
			vAssert(k < len(visual) && visual[k] == gl, "the glyphs are kept in visual order")
			k++
		}
		if ltr {
			logical = append(logical, r.Data)
		} else {
			logical = append([]*GlyphItem{r.Data}, logical...)
		}
	}
	vAssert(k == len(visual), "every glyph is in a run")
	pos, gpos := offset, 0
	for _, r := range logical {
		vAssert(r.Item.Offset == pos && r.Item.Length > 0, "the runs cover the text")
		_, rc := verifLogical(r)
		for _, c := range rc {
			vAssert(c+pos-offset == cl[gpos], "clusters of a run")
			// the attributes of the cluster
			start, end := offset+cl[gpos], offset+n
			for j := range g {
				if cl[j] > cl[gpos] {
					end = offset + cl[j]
					break
				}
			}
			var want [4]bool
			for p := start; p < end; p++ {
				for _, kind := range []AttrKind{ATTR_UNDERLINE, ATTR_STRIKETHROUGH} {
					top := -1
					for _, a := range list {
						if a.Kind == kind && a.StartIndex <= p && p < a.EndIndex {
							top = int(a.Data.(AttrInt))
						}
					}
					if top != -1 {
						want[top] = true
					}
				}
			}
			var got [4]bool
			shows := 0
			for _, a := range r.Item.Analysis.ExtraAttrs {
				if a.Kind == ATTR_SHOW {
					shows++
				} else {
					got[int(a.Data.(AttrInt))] = true
				}
			}
			vAssert(shows == 1, "the attributes of the item are kept")
			vAssert(got == want, "attributes of a cluster")
			gpos++
		}
		pos += r.Item.Length
	}
	vAssert(pos == offset+n && gpos == len(cl), "the runs cover the text")
}
