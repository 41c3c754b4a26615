package pango

import "strings"

// Text forms of font descriptions

var v28families = []string{"", "Sans", "Sans 12", "Bold", "A,B", "A,Small-Caps", "12px", "Normal", "My west", "nan", "Sans Extra-Light", "Arial,Sans Oblique", "px", "X 1e3px"}

var v28weights = []Weight{WEIGHT_NORMAL, WEIGHT_THIN, WEIGHT_ULTRALIGHT, WEIGHT_LIGHT, WEIGHT_SEMILIGHT, WEIGHT_BOOK, WEIGHT_MEDIUM,
	WEIGHT_SEMIBOLD, WEIGHT_BOLD, WEIGHT_ULTRABOLD, WEIGHT_HEAVY, WEIGHT_ULTRAHEAVY, 450, 1, 0}

var v28sizes = []int32{0, 1, 1023, 1024, 10240, 10753, 1024000, 1024 * 1000000, 123456789}

var v28variations = []string{"wght=200", "wght=200,wdth=5", "a", "12"}

// v28set sets one field of the description
func v28set(d *FontDescription, field int) {
	switch field {
	case 0:
		d.SetFamily(v28families[vConc(vInt(0, len(v28families)-1))])
	case 1:
		d.SetWeight(v28weights[vConc(vInt(0, len(v28weights)-1))])
	case 2:
		d.SetStyle(Style(vConc(vInt(0, 2))))
	case 3:
		d.SetStretch(Stretch(vConc(vInt(0, int(STRETCH_ULTRA_EXPANDED)))))
	case 4:
		d.SetVariant(Variant(vConc(vInt(0, int(VARIANT_TITLE_CAPS)))))
	case 5:
		d.SetGravity(Gravity(vConc(vInt(0, int(GRAVITY_AUTO)))))
	case 6:
		s := v28sizes[vConc(vInt(0, len(v28sizes)-1))]
		if vFork(vBool()) {
			d.SetSize(s)
		} else {
			d.SetAbsoluteSize(s)
		}
	case 7:
		d.SetVariations(v28variations[vConc(vInt(0, len(v28variations)-1))])
	}
}

func VerifC28RoundTrip() {
	d := NewFontDescription()
	last := -1
	for k := 0; k < vParam("FIELDS"); k++ {
		if last == 7 {
			break
		}
		last = vConc(vInt(last+1, 7))
		v28set(&d, last)
	}
	s := d.String()
	p := NewFontDescriptionFrom(s)
	vObs("text length", len(s))
	vAssert(p.FamilyName == d.FamilyName, "the family is read back")
	vAssert(p.Weight == d.Weight, "the weight is read back")
	vAssert(p.Style == d.Style, "the style is read back")
	vAssert(p.Stretch == d.Stretch, "the stretch is read back")
	vAssert(p.Variant == d.Variant, "the variant is read back")
	vAssert(p.Gravity == d.Gravity, "the gravity is read back")
	vAssert(p.Size == d.Size && p.SizeIsAbsolute == d.SizeIsAbsolute, "the size is read back")
	vAssert(p.Variations == d.Variations, "the variations are read back")
	vAssert((p.mask^d.mask)&(FmFamily|FmSize|FmGravity|FmVariations) == 0, "the set fields are read back")
	vAssert(p.mask&(FmWeight|FmStyle|FmStretch|FmVariant) == FmWeight|FmStyle|FmStretch|FmVariant, "the style is set")
	vAssert(p.pango_font_description_equal(d) && d.pango_font_description_equal(p), "the description is read back")
	vCover("read")
}

type v28word struct {
	str   string
	field int // as in v28set
	value int
}

// the documented words
var v28words = []v28word{
	{"normal", -1, 0},
	{"roman", 2, int(STYLE_NORMAL)}, {"oblique", 2, int(STYLE_OBLIQUE)}, {"italic", 2, int(STYLE_ITALIC)},
	{"small-caps", 4, int(VARIANT_SMALL_CAPS)}, {"all-small-caps", 4, int(VARIANT_ALL_SMALL_CAPS)},
	{"petite-caps", 4, int(VARIANT_PETITE_CAPS)}, {"all-petite-caps", 4, int(VARIANT_ALL_PETITE_CAPS)},
	{"unicase", 4, int(VARIANT_UNICASE)}, {"title-caps", 4, int(VARIANT_TITLE_CAPS)},
	{"thin", 1, 100}, {"ultra-light", 1, 200}, {"extra-light", 1, 200}, {"light", 1, 300}, {"semi-light", 1, 350},
	{"demi-light", 1, 350}, {"book", 1, 380}, {"regular", 1, 400}, {"medium", 1, 500}, {"semi-bold", 1, 600},
	{"demi-bold", 1, 600}, {"bold", 1, 700}, {"ultra-bold", 1, 800}, {"extra-bold", 1, 800}, {"heavy", 1, 900},
	{"black", 1, 900}, {"ultra-black", 1, 1000}, {"extra-black", 1, 1000},
	{"ultra-condensed", 3, 0}, {"extra-condensed", 3, 1}, {"condensed", 3, 2}, {"semi-condensed", 3, 3},
	{"semi-expanded", 3, 5}, {"expanded", 3, 6}, {"extra-expanded", 3, 7}, {"ultra-expanded", 3, 8},
	{"not-rotated", 5, int(GRAVITY_SOUTH)}, {"south", 5, int(GRAVITY_SOUTH)}, {"upside-down", 5, int(GRAVITY_NORTH)},
	{"north", 5, int(GRAVITY_NORTH)}, {"rotated-left", 5, int(GRAVITY_EAST)}, {"east", 5, int(GRAVITY_EAST)},
	{"rotated-right", 5, int(GRAVITY_WEST)}, {"west", 5, int(GRAVITY_WEST)},
}

// v28spell returns the word with any case, with or without its first hyphen
func v28spell(s string) string {
	if strings.Contains(s, "-") && vFork(vBool()) {
		s = strings.Replace(s, "-", "", 1)
	}
	out := []byte(s)
	for i := range out {
		if i < vParam("CASE") && 'a' <= out[i] && out[i] <= 'z' {
			out[i] = byte(vIte(vBool(), int(out[i])-32, int(out[i])))
		}
	}
	return string(out)
}

// the documented words are understood, whatever their case and order
func VerifC28Words() {
	want := NewFontDescription()
	want.mask = FmStyle | FmWeight | FmVariant | FmStretch
	var parts []string
	families := []string{"", "Sans", "Sans,", "A , B", "Bold,", "X Heavy ,,"}
	names := []string{"", "Sans", "Sans", "A,B", "Bold", "X Heavy"}
	if k := vConc(vInt(0, len(families)-1)); k > 0 {
		parts = append(parts, families[k])
		want.SetFamily(names[k])
	}
	n := vParam("WORDS")
	words := make([]v28word, n)
	for i := range words {
		words[i] = v28words[vConc(vInt(0, len(v28words)-1))]
		parts = append(parts, v28spell(words[i].str))
	}
	for i := n - 1; i >= 0; i-- { // the first one is kept
		w := words[i]
		switch w.field {
		case 1:
			want.SetWeight(Weight(w.value))
		case 2:
			want.SetStyle(Style(w.value))
		case 3:
			want.SetStretch(Stretch(w.value))
		case 4:
			want.SetVariant(Variant(w.value))
		case 5:
			want.SetGravity(Gravity(w.value))
		}
	}
	switch vConc(vInt(0, 3)) {
	case 1:
		parts = append(parts, "12.5")
		want.SetSize(12800)
	case 2:
		parts = append(parts, "3px")
		want.SetAbsoluteSize(3072)
	case 3:
		parts = append(parts, "@wght=3")
		want.SetVariations("wght=3")
	}
	got := NewFontDescriptionFrom(strings.Join(parts, " "))
	vAssert(got == want, "the words are understood")
	vCover("words")
}

// v28desc returns any description with the given fields
func v28any(fields int) (d FontDescription) {
	d = NewFontDescription()
	set := func(i int) bool { return fields&(1<<uint(i)) != 0 }
	if set(0) {
		d.SetFamily([]string{"a", "A", "b"}[vConc(vInt(0, 2))])
	}
	if set(1) {
		d.SetWeight(Weight(vInt(0, 1000)))
	}
	if set(2) {
		d.SetStyle(Style(vInt(0, 2)))
	}
	if set(3) {
		d.SetStretch(Stretch(vInt(0, 8)))
	}
	if set(4) {
		d.SetVariant(Variant(vInt(0, 6)))
	}
	if set(5) {
		d.SetGravity(Gravity(vInt(0, int(GRAVITY_WEST))))
	}
	if set(6) {
		d.SetSize(int32(vInt(0, 5000)))
		d.SizeIsAbsolute = vBool()
	}
	if set(7) {
		d.SetVariations([]string{"x", "y"}[vConc(vInt(0, 1))])
	}
	return d
}

// v28same compares the field i
func v28same(a, b FontDescription, i int) bool {
	switch i {
	case 0:
		return a.FamilyName == b.FamilyName
	case 1:
		return a.Weight == b.Weight
	case 2:
		return a.Style == b.Style
	case 3:
		return a.Stretch == b.Stretch
	case 4:
		return a.Variant == b.Variant
	case 5:
		return a.Gravity == b.Gravity
	case 6:
		return vAnd(a.Size == b.Size, a.SizeIsAbsolute == b.SizeIsAbsolute)
	}
	return a.Variations == b.Variations
}

var v28masks = []FontMask{FmFamily, FmWeight, FmStyle, FmStretch, FmVariant, FmSize, FmGravity, FmVariations}

func v28mask(i int) FontMask {
	switch i {
	case 5:
		return FmGravity
	case 6:
		return FmSize
	}
	return v28masks[i]
}

// merging, unsetting and comparing descriptions
func VerifC28Merge() {
	group := vParam("GROUP")
	a, b := v28any(vConc(vInt(0, 15))<<uint(group)), v28any(vConc(vInt(0, 15))<<uint(group))
	old, arg := a, b
	replace := vFork(vBool())
	a.pango_font_description_merge(&b, replace)
	vAssert(b == arg, "the merged description is not modified")
	for i := 0; i < 8; i++ {
		m := v28mask(i)
		vAssert(a.mask&m == (old.mask|b.mask)&m, "the set fields are those of both")
		from := old
		if b.mask&m != 0 && (replace || old.mask&m == 0) {
			from = b
		}
		vAssert(v28same(a, from, i), "a field comes from the right description")
	}

	// unset
	u := FontMask(0)
	bits := vConc(vInt(0, 15)) << uint(group)
	for i := 0; i < 8; i++ {
		if bits&(1<<uint(i)) != 0 {
			u |= v28mask(i)
		}
	}
	c := old
	c.UnsetFields(u)
	d := NewFontDescription()
	for i := 0; i < 8; i++ {
		m := v28mask(i)
		if u&m != 0 {
			vAssert(c.mask&m == 0 && v28same(c, d, i), "an unset field has its default value")
		} else {
			vAssert(c.mask&m == old.mask&m && v28same(c, old, i), "the other fields are kept")
		}
	}

	// equality and keys
	same := strings.EqualFold(old.FamilyName, b.FamilyName)
	for i := 1; i < 8; i++ {
		same = vAnd(same, v28same(old, b, i))
	}
	vAssert(old.pango_font_description_equal(b) == same, "equal descriptions")
	vAssert((old.AsHash() == b.AsHash()) == same, "equal descriptions have the same key")
	vCoverIf(same, "equal")
	vCoverIf(vNot(same), "different")
}
