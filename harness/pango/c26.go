package pango

import (
	"github.com/benoitkugler/textlayout/language"
)

// Itemization

var v26alphabet = []rune{'a', ' ', 0x5D0, '(', ')', 0x3B1, '\n', '\t', 0x1F600, '1', lineSeparator, 0x301, '['}

var v26scriptsOf = []Script{language.Latin, language.Common, language.Hebrew, language.Common, language.Common, language.Greek,
	language.Common, language.Common, language.Common, language.Common, language.Common, language.Inherited, language.Common}

func v26index(c rune) int {
	for i, r := range v26alphabet {
		if r == c {
			return i
		}
	}
	return -1
}

// v26scripts returns the script of the characters of a paragraph (common and inherited
// characters have the one of their neighbours, a closing bracket the one of the opening one)
func v26scripts(text []rune) []Script {
	out := make([]Script, len(text))
	var stack []int // open brackets
	start, cur := 0, language.Common
	set := func(end int) {
		for k := start; k < end; k++ {
			out[k] = cur
		}
	}
	for i, c := range text {
		sc := v26scriptsOf[v26index(c)]
		switch c {
		case '(', '[':
			stack = append(stack, i)
		case ')':
			for len(stack) > 0 && text[stack[len(stack)-1]] != '(' {
				stack = stack[:len(stack)-1]
			}
			if len(stack) > 0 {
				open := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				sc = cur
				if open < start {
					sc = out[open]
				}
			}
		}
		if sc == language.Common || sc == language.Inherited {
			continue
		}
		if cur == language.Common {
			cur = sc
		} else if cur != sc {
			set(i)
			start, cur = i, sc
		}
	}
	set(len(text))
	return out
}

// v26direction returns the direction of the first letter
func v26direction(text []rune) Direction {
	for _, c := range text {
		switch c {
		case 'a', 0x3B1:
			return DIRECTION_LTR
		case 0x5D0:
			return DIRECTION_RTL
		}
	}
	return DIRECTION_NEUTRAL
}

func v26rtl(d Direction) bool { return d == DIRECTION_RTL || d == DIRECTION_WEAK_RTL }

func VerifC26Itemize() {
	n := vParam("N")
	alphabet := v26alphabet[:vParam("ALPHA")]
	text := v22text(alphabet, n)

	// fonts
	face := &vFace{width: func(r rune) int { return 10 }}
	fonts := make([]*vFont, vParam("FONTS"))
	cover := make([][]bool, len(fonts))
	for k := range fonts {
		cover[k] = make([]bool, len(v26alphabet))
		for i := range cover[k] {
			cover[k][i] = true
			if i < len(alphabet) && k < len(fonts)-1 && (i == 0 || i >= 2 && i <= 5) {
				cover[k][i] = vBool()
			}
		}
		c := cover[k]
		fonts[k] = &vFont{name: string(rune('0' + k)), face: face, has: func(r rune) bool { return c[v26index(r)] }}
	}
	emoji := &vFont{name: "e", face: face}
	context := NewContext(&vFontMap{fonts: fonts, emoji: []*vFont{emoji}, serial: 1})
	context.SetLanguage("en")
	dirs := []Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL}
	context.baseDir = dirs[vConc(vInt(0, len(dirs)-1))]
	layout := NewLayout(context)
	layout.SetRunes(text)
	auto := vFork(vBool())
	layout.SetAutoDir(auto)

	// attributes
	var attr *Attribute
	fallback, french := true, false
	switch vConc(vInt(0, vParam("ATTRS"))) {
	case 1:
		attr = NewAttrLanguage("fr")
		french = true
	case 2:
		attr = NewAttrFallback(false)
		fallback = false
	case 3:
		attr = NewAttrLetterSpacing(1)
	case 4:
		attr = NewAttrUnderline(UNDERLINE_SINGLE) // the items are not split before the shaping
	}
	from, to := 0, 0
	if attr != nil {
		from = vConc(vInt(0, n-1))
		to = vConc(vInt(from+1, n))
		attr.StartIndex, attr.EndIndex = from, to
		var attrs AttrList
		attrs.Insert(attr)
		layout.SetAttributes(attrs)
	}

	// the items, in the order of the text
	items := make([]*Item, n) // item of each character
	extra := make([]AttrList, n)
	_ = extra
	lines := layout.GetLinesReadonly()
	for _, line := range lines {
		for r := line.Runs; r != nil; r = r.Next {
			it := r.Data.Item
			vAssert(it.Offset >= line.StartIndex && it.Offset+it.Length <= line.StartIndex+line.Length, "the items are in their line")
			vAssert(it.Length > 0, "no item is empty")
			for i := it.Offset; i < it.Offset+it.Length; i++ {
				vAssert(items[i] == nil, "the items do not overlap")
				items[i] = it
			}
		}
	}

	prev := context.baseDir
	if d := v26direction(text); d != DIRECTION_NEUTRAL {
		prev = d
	}
	for s := 0; s <= n; {
		e := s
		for e < n && text[e] != '\n' {
			e++
		}
		par := text[s:e]

		// direction of the paragraph
		dir := context.baseDir
		if auto {
			if d := v26direction(par); d != DIRECTION_NEUTRAL {
				prev = d
			}
			dir = prev
		}
		for _, line := range lines {
			if line.StartIndex >= s && line.StartIndex <= e {
				vAssert((line.ResolvedDir == DIRECTION_RTL) == v26rtl(dir), "direction of the line")
			}
		}
		scripts := v26scripts(par)
		_, levels := bidiEmbeddingLevels(par, dir)
		for i := s; i < e; i++ {
			it := items[i]
			vAssert(it != nil, "each character is in an item")
			a := it.Analysis
			vAssert(a.Level == levels[i-s], "bidi level")
			vAssert(a.Script == scripts[i-s], "script")
			in := from <= i && i < to
			lang := Language("en")
			switch a.Script {
			case language.Greek:
				lang = "el"
			case language.Hebrew:
				lang = "he"
			default:
				if french && in {
					lang = "fr"
				}
			}
			vAssert(a.Language == lang, "language")
			has := false
			for _, x := range a.ExtraAttrs {
				if attr.Kind == x.Kind {
					has = true
				}
			}
			// the language is not an extra attribute
			vAssert(has == (in && !french), "the attributes of the item are the ones of its text")

			isEmoji := text[i] == 0x1F600
			space := text[i] == ' ' || text[i] == '\t' || text[i] == lineSeparator
			var want Font
			if !fallback && in {
				want = fonts[0]
			} else if isEmoji {
				want = emoji
			} else {
				for k := len(fonts) - 1; k >= 0; k-- {
					if vFork(cover[k][v26index(text[i])]) {
						want = fonts[k]
					}
				}
			}
			if !space {
				vAssert(a.Font == want, "font")
			} else {
				// the best font of its neighbours
				var near []Font
				forced := text[i] != ' '
				for _, d := range []int{-1, 1} {
					for j := i + d; j >= s && j < e; j += d {
						p := j // the characters p and p+1 are in the same segment
						if d > 0 {
							p--
						}
						if levels[p-s] != levels[p+1-s] || scripts[p-s] != scripts[p+1-s] ||
							(text[p] == 0x1F600) != (text[p+1] == 0x1F600) ||
							attr != nil && attr.Kind != ATTR_UNDERLINE && (from <= p && p < to) != (from <= p+1 && p+1 < to) {
							break
						}
						if text[j] == '\t' || text[j] == lineSeparator {
							forced = true
						} else if text[j] != ' ' {
							near = append(near, items[j].Analysis.Font)
							break
						}
					}
				}
				if forced { // a neighbour, or none
					ok := false
					for _, f := range near {
						ok = ok || f == a.Font
					}
					vAssert(ok || a.Font == fonts[0], "font of spaces")
				} else if len(near) != 0 {
					best := near[0]
					if len(near) == 2 {
						for k := len(fonts) - 1; k >= 0; k-- {
							if near[0] == fonts[k] || near[1] == fonts[k] {
								best = fonts[k]
							}
						}
					}
					vAssert(a.Font == best, "a space has the best font of its neighbours")
				} else {
					vAssert(a.Font == fonts[0], "font of a space alone")
				}
				if d := i + 1; d < e && items[d] == it {
					vCover("space")
				}
			}

			// items are not split without need
			if i+1 < e {
				b := items[i+1].Analysis
				same := text[i] != '\t' && text[i+1] != '\t' && text[i] != lineSeparator && text[i+1] != lineSeparator &&
					levels[i+1-s] == levels[i-s] && scripts[i+1-s] == scripts[i-s] && isEmoji == (text[i+1] == 0x1F600) &&
					(attr == nil || in == (from <= i+1 && i+1 < to)) && a.Font == b.Font
				vAssert(same == (it == items[i+1]), "the items are maximal")
			}
		}
		s = e + 1
	}
	vCoverIf(n > 1 && items[0] != nil && items[n-1] != nil && items[0] != items[n-1], "items")
}
