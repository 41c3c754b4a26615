package pango

import (
	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/fribidi"
)

// Vertical text

var v32alphabet = []struct {
	r       rune
	script  Script
	upright bool
}{
	{'a', language.Latin, false},
	{0x4E00, language.Han, true},
	{0x5D0, language.Hebrew, false},
	{' ', language.Common, false},
	{0x1820, language.Mongolian, false},
	{0x1681, language.Ogham, false},
	{0xFF21, language.Latin, true},
	{0xA7, language.Common, true},
	{0x301, language.Inherited, false},
	{0x200D, language.Inherited, false},
	{0xFE00, language.Inherited, false}, // not special
	{0xFE0E, language.Inherited, false},
	{0x3042, language.Hiragana, true},
	{0x10FFFF, language.Common, false}, // unknown
}

func v32scripts(idx []int) []Script {
	out := make([]Script, len(idx))
	start, cur := 0, language.Common
	for i, k := range idx {
		sc := v32alphabet[k].script
		if sc != language.Common && sc != language.Inherited {
			if cur == language.Common {
				cur = sc
			} else if cur != sc {
				for k := start; k < i; k++ {
					out[k] = cur
				}
				start, cur = i, sc
			}
		}
	}
	for k := start; k < len(idx); k++ {
		out[k] = cur
	}
	return out
}

// v32upright returns the orientation of the characters, and the start of their run
func v32upright(text []rune, idx []int) ([]bool, []int) {
	out, runs := make([]bool, len(text)), make([]int, len(text))
	for i, c := range text {
		up := v32alphabet[idx[i]].upright
		if i > 0 && (c == 0x200D || c == 0xFE0E || v32joined(text, i) || up == out[i-1]) {
			out[i], runs[i] = out[i-1], runs[i-1]
		} else {
			out[i], runs[i] = up, i
		}
	}
	return out, runs
}

// v32joined returns true if the character follows a joiner
func v32joined(text []rune, i int) bool { return i > 0 && text[i-1] == 0x200D && text[i] != 0x200D }

// v32gravity is the rule for one character
func v32gravity(script Script, upright bool, base Gravity, hint GravityHint) Gravity {
	if base == GRAVITY_SOUTH || base == GRAVITY_NORTH || upright || hint == GRAVITY_HINT_STRONG {
		return base
	}
	reversed := base == GRAVITY_WEST
	if hint == GRAVITY_HINT_LINE {
		if script == language.Hebrew {
			reversed = !reversed
		}
	} else {
		switch script {
		case language.Han, language.Hiragana, language.Mongolian: // top to bottom
		case language.Ogham: // bottom to top
			reversed = !reversed
		default:
			return GRAVITY_SOUTH
		}
	}
	if reversed {
		return GRAVITY_NORTH
	}
	return GRAVITY_SOUTH
}

// v32level is the level of the glyphs once the text is rotated
func v32level(level fribidi.Level, g Gravity) fribidi.Level {
	odd := level % 2
	switch g {
	case GRAVITY_NORTH:
		return level + 1
	case GRAVITY_EAST:
		return level + odd
	case GRAVITY_WEST:
		return level + 1 - odd
	}
	return level
}

func VerifC32Vertical() {
	n := vParam("N")
	idx := make([]int, n)
	text := make([]rune, n)
	for i := range text {
		idx[i] = vInt(0, vParam("ALPHA")-1)
		text[i] = v32alphabet[idx[i]].r
	}
	face := &vFace{width: func(r rune) int { return 10 }}
	context := NewContext(&vFontMap{fonts: []*vFont{{name: "0", face: face}}, sized: true, serial: 1})
	context.SetLanguage("en")
	all := []Gravity{GRAVITY_EAST, GRAVITY_WEST, GRAVITY_SOUTH, GRAVITY_NORTH}
	base := all[vConc(vInt(0, vParam("BASES")-1))]
	hints := []GravityHint{GRAVITY_HINT_NATURAL, GRAVITY_HINT_STRONG, GRAVITY_HINT_LINE}
	hint := hints[vConc(vInt(0, 2))]
	if base != GRAVITY_NORTH && vFork(vBool()) { // by rotating the page
		context.Matrix = &Matrix{Xx: 1, Yy: 1}
		switch base {
		case GRAVITY_EAST:
			context.Matrix = &Matrix{Xy: -1, Yx: 1}
		case GRAVITY_WEST:
			context.Matrix = &Matrix{Xy: 1, Yx: -1}
		}
		context.SetBaseGravity(GRAVITY_AUTO)
	} else {
		context.SetBaseGravity(base)
	}
	context.gravityHint = hint
	layout := NewLayout(context)
	layout.SetAutoDir(false)

	// asking the metrics changes nothing
	switch vConc(vInt(0, vParam("METRICS"))) {
	case 1:
		context.GetMetrics(nil, "en")
	case 2:
		desc := NewFontDescription()
		desc.SetFamily("x")
		before := desc
		context.GetMetrics(&desc, "en")
		vAssert(desc == before, "the metrics do not change the description")
	}

	// attributes
	var attr *Attribute
	attrGravity, attrHint, attrFont := GRAVITY_AUTO, hint, GRAVITY_AUTO
	switch vConc(vInt(0, vParam("ATTRS"))) {
	case 1:
		attrGravity = all[vConc(vInt(0, 3))]
		attr = NewAttrGravity(attrGravity)
	case 2:
		attrHint = hints[vConc(vInt(0, 2))]
		attr = NewAttrGravityHint(attrHint)
	case 3:
		attrFont = all[vConc(vInt(0, 3))]
		desc := NewFontDescription()
		desc.SetGravity(attrFont)
		attr = NewAttrFontDescription(desc)
	}
	from, to := 0, 0
	if attr != nil {
		from = vConc(vInt(0, n-1))
		to = vConc(vInt(from+1, n))
		attr.StartIndex, attr.EndIndex = from, to
		var attrs AttrList
		attrs.Insert(attr)
		layout.SetAttributes(attrs)
	}

	layout.SetRunes(text)
	line := layout.GetLinesReadonly()[0]
	rtl := base == GRAVITY_NORTH || base == GRAVITY_WEST
	vAssert((line.ResolvedDir == DIRECTION_RTL) == rtl, "direction of the line")

	scripts := v32scripts(idx)
	upright, runs := v32upright(text, idx)
	if base != GRAVITY_EAST && base != GRAVITY_WEST {
		for i := range upright {
			runs[i] = 0
		}
	}
	_, levels := bidiEmbeddingLevels(text, context.baseDir)
	items := make([]*Item, n)
	for r := line.Runs; r != nil; r = r.Next {
		it, gl := r.Data.Item, r.Data.Glyphs
		for i := it.Offset; i < it.Offset+it.Length; i++ {
			vAssert(items[i] == nil, "the items do not overlap")
			items[i] = it
		}
		for k := 1; k < len(gl.LogClusters); k++ {
			a, b := gl.LogClusters[k-1], gl.LogClusters[k]
			if it.Analysis.Level%2 != 0 {
				a, b = b, a
			}
			vAssert(a <= b, "order of the glyphs")
		}
	}
	for i, it := range items {
		vAssert(it != nil, "each character is in an item")
		a := it.Analysis
		in := from <= i && i < to
		g, h, f := base, hint, GRAVITY_AUTO
		if in {
			h, f = attrHint, attrFont
			if attrGravity != GRAVITY_AUTO {
				g = attrGravity
			}
		}
		vertical := base == GRAVITY_EAST || base == GRAVITY_WEST
		want := f
		if f == GRAVITY_AUTO {
			if !vertical && g != base { // the widths are only known in vertical texts
				continue
			}
			want = v32gravity(scripts[i], upright[i], g, h)
		}
		vAssert(a.Script == scripts[i], "script")
		vAssert(a.Gravity == want, "orientation")
		vAssert(a.Level == v32level(levels[i], want), "level")
		vAssert(a.Flags&AFCenterdBaseline != 0 == vertical, "baseline")
		font := a.Font.(*vFont)
		vAssert(font.desc.Gravity == want, "gravity of the font")
		if i > 0 {
			same := scripts[i] == scripts[i-1] && levels[i] == levels[i-1] && runs[i] == runs[i-1] &&
				(attr == nil || in == (from <= i-1 && i-1 < to))
			vAssert((it == items[i-1]) == same, "the items are maximal")
		}
		vCoverIf(want == GRAVITY_NORTH, "north")
		vCoverIf(want == GRAVITY_SOUTH, "south")
	}
	vCoverIf(n > 1 && items[0] != items[n-1], "items")
}
