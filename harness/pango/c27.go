package pango

import "unicode"

// Text transformations, variants and sizes of the fonts

const v27size = 12000

func v27add(attrs *AttrList, attr *Attribute, n int) (from, to int) {
	from = vConc(vInt(0, n-1))
	to = vConc(vInt(from+1, n))
	attr.StartIndex, attr.EndIndex = from, to
	attrs.Insert(attr)
	return from, to
}

func VerifC27Transform() {
	n := vParam("N")
	alphabet := []rune{'a', 'B', ' ', 0xE9, '\n', '1'}
	text := v22text(alphabet[:vParam("ALPHA")], n)
	for i := range text {
		text[i] = rune(vConc(int(text[i])))
	}
	face := &vFace{width: func(r rune) int { return 10 }}
	context := NewContext(&vFontMap{fonts: []*vFont{{name: "v", face: face}}, sized: true, serial: 1})
	desc := NewFontDescription()
	desc.SetFamily("v")
	desc.SetSize(v27size)
	context.SetFontDescription(desc)
	layout := NewLayout(context)
	layout.SetRunes(text)

	var attrs AttrList
	transform, variant, scale := TextTransform(0), Variant(0), FontScale(0)
	var t0, t1, v0, v1, s0, s1 int
	if vParam("TRANSFORM") != 0 {
		transform = TextTransform(vConc(vInt(0, int(TEXT_TRANSFORM_CAPITALIZE))))
		t0, t1 = v27add(&attrs, NewAttrTextTransform(transform), n)
	}
	if vParam("VARIANT") != 0 {
		variant = Variant(vConc(vInt(0, int(VARIANT_TITLE_CAPS))))
		v0, v1 = v27add(&attrs, NewAttrVariant(variant), n)
	}
	if vParam("SCALE") != 0 {
		scale = FontScale(vConc(vInt(0, int(FONT_SCALE_SMALL_CAPS))))
		s0, s1 = v27add(&attrs, NewAttrFontScale(scale), n)
	}
	layout.SetAttributes(attrs)

	seen := 0
	for _, line := range layout.GetLinesReadonly() {
		for r := line.Runs; r != nil; r = r.Next {
			item := r.Data.Item
			glyphs := r.Data.Glyphs
			vAssert(len(glyphs.Glyphs) == item.Length && len(glyphs.LogClusters) == item.Length, "one glyph by character")
			for k, g := range glyphs.Glyphs {
				vAssert(glyphs.LogClusters[k] == k, "the clusters are relative to the item")
				i := item.Offset + k
				seen++
				c := text[i]
				size := float32(v27size)
				if s0 <= i && i < s1 {
					switch scale {
					case FONT_SCALE_SUBSCRIPT, FONT_SCALE_SUPERSCRIPT:
						size /= 1.2
					case FONT_SCALE_SMALL_CAPS:
						size *= 0.8
					}
				}
				if t0 <= i && i < t1 {
					switch transform {
					case TEXT_TRANSFORM_UPPERCASE:
						c = unicode.ToUpper(c)
					case TEXT_TRANSFORM_LOWERCASE:
						c = unicode.ToLower(c)
					case TEXT_TRANSFORM_CAPITALIZE:
						if i == 0 || text[i-1] == ' ' || text[i-1] == '\n' {
							c = unicode.ToTitle(c)
						}
					}
				}
				if v0 <= i && i < v1 && unicode.IsLetter(c) {
					small := false
					switch variant {
					case VARIANT_SMALL_CAPS, VARIANT_PETITE_CAPS:
						small = unicode.IsLower(c)
						c = unicode.ToUpper(c)
					case VARIANT_ALL_SMALL_CAPS, VARIANT_ALL_PETITE_CAPS:
						small = true
						c = unicode.ToUpper(c)
					case VARIANT_UNICASE:
						small = unicode.IsUpper(c)
					}
					if small {
						size *= 0.8
						vCover("small capitals")
					}
				}
				vAssert(g.Glyph == Glyph(c), "character displayed")
				if unicode.IsLetter(c) {
					d := float32(item.Analysis.Font.Describe(false).Size) - size
					vAssert(d < 3 && d > -3, "size of the font")
				}
			}
		}
	}
	want := n
	for _, c := range text {
		if c == '\n' {
			want--
		}
	}
	vAssert(seen == want, "each character is displayed once")
}
