package pango

// The iterator over an attribute list, against a pointwise definition: the attributes
// at a position are those whose range contains it, the last in the list has priority.

func verifC07List(m, k int, kinds []AttrKind) AttrList {
	var list AttrList
	for i := 0; i < k; i++ {
		s, e := vInt(0, m), vInt(0, m+1)
		if vParam("conc") == 1 {
			s, e = vConc(s), vConc(e)
		}
		vAssume(s <= e)
		if e == m+1 {
			e = MaxInt
		}
		kind := kinds[vInt(0, len(kinds)-1)]
		list.Insert(&Attribute{Kind: kind, Data: AttrInt(i), StartIndex: s, EndIndex: e})
	}
	return list
}

func VerifC07Iterator() {
	m, k := vParam("M"), vParam("K")
	kinds := []AttrKind{ATTR_WEIGHT, ATTR_UNDERLINE, ATTR_FONT_SCALE}
	kinds = kinds[len(kinds)-vParam("kinds"):]
	list := verifC07List(m, k, kinds)
	it := list.getIterator()
	pos := 0
	for steps := 0; ; steps++ {
		vAssert(steps <= 2*k+2, "the iteration ends")
		vAssert(it.StartIndex == pos, "the segments follow each other")
		if pos == MaxInt { // an attribute without limit: empty segment at the end
			vAssert(it.EndIndex == MaxInt && !it.next(), "the iteration ends at MaxInt")
			break
		}
		vAssert(it.EndIndex > it.StartIndex, "the segments are not empty")
		attrs := it.getAttributes()
		cp := it.copy()
		// at any position of the segment
		p := vInt(0, m+1)
		if p < it.StartIndex || p >= it.EndIndex {
			p = it.StartIndex
		}
		var active AttrList
		for _, a := range list {
			if a.StartIndex <= p && p < a.EndIndex {
				active = append(active, a)
			}
		}
		var want AttrList
		for i, a := range active {
			last := true
			if a.Kind != ATTR_FONT_SCALE {
				for _, b := range active[i+1:] {
					if b.Kind == a.Kind {
						last = false
					}
				}
			}
			if last {
				want = append(want, a)
			}
		}
		vAssert(len(want) == len(attrs), "number of attributes at a position")
		for i := range want {
			vAssert(want[i] == attrs[i], "attributes at a position")
		}
		for _, kind := range kinds {
			var top *Attribute
			for _, a := range active {
				if a.Kind == kind {
					top = a
				}
			}
			vAssert(it.getByKind(kind) == top, "attribute of a kind at a position")
			vAssert(cp.getByKind(kind) == top, "attribute of a kind, from a copy")
		}
		pos = it.EndIndex
		if !it.next() {
			break
		}
		vAssert(cp.EndIndex == pos, "a copy is not moved")
		again := cp.getAttributes()
		vAssert(len(again) == len(attrs), "a copy is not moved")
		for i := range again {
			vAssert(again[i] == attrs[i], "a copy is not moved")
		}
	}
	vAssert(pos == MaxInt, "the segments cover every position")
}

// the font at a position: each field comes from the last attribute setting it
func VerifC07Font() {
	m, k := 2, vParam("K")
	kinds := []AttrKind{ATTR_WEIGHT, ATTR_SIZE, ATTR_ABSOLUTE_SIZE, ATTR_SCALE, ATTR_LANGUAGE, ATTR_FAMILY, ATTR_FONT_DESC, ATTR_UNDERLINE, ATTR_FONT_FEATURES, ATTR_STYLE, ATTR_STRETCH, ATTR_VARIANT}
	var list AttrList
	for i := 0; i < k; i++ {
		e := vConc(vInt(1, m))
		kind := kinds[vConc(vInt(0, len(kinds)-1))]
		a := &Attribute{Kind: kind, StartIndex: 0, EndIndex: e}
		switch kind {
		case ATTR_SCALE:
			a.Data = AttrFloat(2 + i)
		case ATTR_LANGUAGE:
			a.Data = AttrString([]string{"fr", "en", "ar"}[i])
		case ATTR_FAMILY, ATTR_FONT_FEATURES:
			a.Data = AttrString([]string{"F", "G", "H"}[i])
		case ATTR_FONT_DESC:
			d := NewFontDescription()
			c := vConc(vInt(0, 5))
			if c == 0 || c == 4 {
				d.SetFamily([]string{"X", "Y", "Z"}[i])
				d.SetStretch(Stretch(i))
			}
			if c == 1 || c == 4 {
				d.SetWeight(Weight(700 + i))
				d.SetStyle(Style(i % 2))
			}
			if c == 2 {
				d.SetSize(int32(50 + i))
			}
			if c == 3 || c == 4 {
				d.SetAbsoluteSize(int32(50 + i))
				d.SetVariant(Variant(i))
			}
			a.Data = d
		case ATTR_STYLE, ATTR_STRETCH, ATTR_VARIANT:
			a.Data = AttrInt(1 + i%2)
		default:
			a.Data = AttrInt(500 + 10*i)
		}
		list.Insert(a)
	}
	it := list.getIterator()
	desc := NewFontDescription()
	desc.SetFamily("base")
	desc.SetSize(1000)
	desc.SetWeight(WEIGHT_LIGHT)
	desc.SetVariant(VARIANT_UNICASE)
	desc.SetStretch(STRETCH_EXPANDED)
	desc.SetStyle(STYLE_OBLIQUE)
	var lang Language
	var extra AttrList
	it.getFont(&desc, &lang, &extra)

	family, size, abs, weight, style := "base", int32(1000), false, WEIGHT_LIGHT, STYLE_OBLIQUE
	stretch, variant := STRETCH_EXPANDED, VARIANT_UNICASE
	wantLang := Language("")
	scale := 1
	var wantExtra AttrList
	for _, a := range list { // the last one wins
		switch a.Kind {
		case ATTR_WEIGHT:
			weight = Weight(a.Data.(AttrInt))
		case ATTR_STYLE:
			style = Style(a.Data.(AttrInt))
		case ATTR_STRETCH:
			stretch = Stretch(a.Data.(AttrInt))
		case ATTR_VARIANT:
			variant = Variant(a.Data.(AttrInt))
		case ATTR_SIZE:
			size, abs = int32(a.Data.(AttrInt)), false
		case ATTR_ABSOLUTE_SIZE:
			size, abs = int32(a.Data.(AttrInt)), true
		case ATTR_SCALE:
			scale = int(a.Data.(AttrFloat))
		case ATTR_LANGUAGE:
			wantLang = Language(a.Data.(AttrString))
		case ATTR_FAMILY:
			family = string(a.Data.(AttrString))
		case ATTR_FONT_DESC:
			d := a.Data.(FontDescription)
			if d.mask&FmWeight != 0 {
				weight = d.Weight
			}
			if d.mask&FmSize != 0 {
				size, abs = d.Size, d.SizeIsAbsolute
			}
			if d.mask&FmStyle != 0 {
				style = d.Style
			}
			if d.mask&FmStretch != 0 {
				stretch = d.Stretch
			}
			if d.mask&FmVariant != 0 {
				variant = d.Variant
			}
			if d.mask&FmFamily != 0 {
				family = d.FamilyName
			}
		case ATTR_UNDERLINE:
			var next AttrList
			for _, b := range wantExtra {
				if b.Kind != ATTR_UNDERLINE {
					next = append(next, b)
				}
			}
			wantExtra = append(next, a)
		default:
			wantExtra = append(wantExtra, a)
		}
	}
	vAssert(desc.FamilyName == family, "family")
	vAssert(desc.Weight == weight, "weight")
	vAssert(desc.Style == style, "style")
	vAssert(desc.Stretch == stretch, "stretch")
	vAssert(desc.Variant == variant, "variant")
	vAssert(desc.Size == size*int32(scale), "size")
	vAssert(desc.SizeIsAbsolute == abs, "unit of the size")
	vAssert(lang == wantLang, "language")
	vAssert(len(extra) == len(wantExtra), "number of other attributes")
	for i := range extra {
		vAssert(extra[i] != wantExtra[i] && *extra[i] == *wantExtra[i], "other attributes")
	}
}
