package pango

import "strings"

// Markup

type v29attr struct {
	kind AttrKind
	data AttrData
}

// an opening tag, with its attributes in order
type v29tag struct {
	open, name string
	attrs      []v29attr
	size       int // absolute size
	scale      Fl  // absolute scale
	delta      int // relative size
}

var v29tags = []v29tag{
	{open: "<b>", name: "b", attrs: []v29attr{{ATTR_WEIGHT, AttrInt(700)}}},
	{open: "<small>", name: "small", delta: -1},
	{open: "<big>", name: "big", delta: 1},
	{open: "<span font='Sans Bold 10'>", name: "span", attrs: []v29attr{{ATTR_FONT_DESC, nil}}, size: 10240},
	{open: "<span size='x-large'>", name: "span", attrs: []v29attr{{ATTR_SCALE, nil}}, scale: 1.44},
	{open: "<span size='2048' weight='light'>", name: "span", attrs: []v29attr{{ATTR_SIZE, AttrInt(2048)}, {ATTR_WEIGHT, AttrInt(300)}}, size: 2048},
	{open: "<span size='larger' font_desc='Serif'>", name: "span", attrs: []v29attr{{ATTR_FONT_DESC, nil}}, delta: 1},
	{open: "<i>", name: "i", attrs: []v29attr{{ATTR_STYLE, AttrInt(STYLE_ITALIC)}}},
	{open: "<s>", name: "s", attrs: []v29attr{{ATTR_STRIKETHROUGH, AttrInt(1)}}},
	{open: "<sub>", name: "sub", attrs: []v29attr{{ATTR_FONT_SCALE, AttrInt(FONT_SCALE_SUBSCRIPT)}, {ATTR_BASELINE_SHIFT, AttrInt(BASELINE_SHIFT_SUBSCRIPT)}}},
	{open: "<sup>", name: "sup", attrs: []v29attr{{ATTR_FONT_SCALE, AttrInt(FONT_SCALE_SUPERSCRIPT)}, {ATTR_BASELINE_SHIFT, AttrInt(BASELINE_SHIFT_SUPERSCRIPT)}}},
	{open: "<tt>", name: "tt", attrs: []v29attr{{ATTR_FAMILY, AttrString("Monospace")}}},
	{open: "<u>", name: "u", attrs: []v29attr{{ATTR_UNDERLINE, AttrInt(UNDERLINE_SINGLE)}}},
	{open: "<span>", name: "span"},
}

// v29state is the size in a tag
type v29state struct {
	size  int // 0 for the size of the text
	scale Fl
	level int
}

// v29font applies an attribute on a font
func v29font(desc *FontDescription, scale *Fl, kind AttrKind, data AttrData) {
	switch kind {
	case ATTR_FONT_DESC:
		d := data.(FontDescription)
		desc.pango_font_description_merge(&d, true)
	case ATTR_SIZE:
		desc.SetSize(int32(data.(AttrInt)))
	case ATTR_SCALE:
		*scale = Fl(data.(AttrFloat))
	case ATTR_WEIGHT:
		desc.SetWeight(Weight(data.(AttrInt)))
	case ATTR_STYLE:
		desc.SetStyle(Style(data.(AttrInt)))
	case ATTR_FAMILY:
		desc.SetFamily(string(data.(AttrString)))
	}
}

func v29near(a, b float64) bool { return a-b < 2 && b-a < 2 }

func VerifC29Markup() {
	n := vParam("TOKENS")
	marker := rune(0)
	if vParam("ACCEL") != 0 {
		marker = '_'
	}
	var (
		markup string
		text   []rune  // the text
		in     [][]int // for each character, the tags it is in
		accel  []bool
		char   rune
		stack  []int // index in all
		all    []int // tags
		states []v29state
		pend   bool
	)
	add := func(c rune, a bool) {
		text = append(text, c)
		in = append(in, append([]int(nil), stack...))
		accel = append(accel, a)
		if a && char == 0 {
			char = c
		}
	}
	flush := func() { // a marker at the end of a text is kept
		if pend {
			add('_', false)
			pend = false
		}
	}
	for i := 0; i < n; i++ {
		switch vConc(vInt(0, 3)) {
		case 0:
			markup += "x"
			add('x', pend)
			pend = false
		case 1:
			if vParam("ACCEL") == 0 {
				markup += "&lt;"
				add('<', false)
			} else {
				markup += "_"
				if pend {
					add('_', false)
				}
				pend = !pend
			}
		case 2:
			flush()
			if len(all) == vParam("TAGS") {
				vAssume(false)
			}
			k := vConc(vInt(0, vParam("NTAGS")-1))
			t := v29tags[k]
			markup += t.open
			state := v29state{scale: 1}
			if len(stack) != 0 {
				state = states[stack[len(stack)-1]]
			}
			if t.size != 0 {
				state = v29state{size: t.size, scale: 1}
			} else if t.scale != 0 {
				state = v29state{scale: t.scale}
			}
			state.level += t.delta
			stack = append(stack, len(all))
			all, states = append(all, k), append(states, state)
		case 3:
			flush()
			if len(stack) == 0 {
				vAssume(false)
			}
			markup += "</" + v29tags[all[stack[len(stack)-1]]].name + ">"
			stack = stack[:len(stack)-1]
		}
	}
	flush()
	for len(stack) != 0 {
		markup += "</" + v29tags[all[stack[len(stack)-1]]].name + ">"
		stack = stack[:len(stack)-1]
	}
	vObs("markup", len(markup))

	out, err := ParseMarkup([]byte(markup), marker)
	vAssert(err == nil, "a valid markup is parsed")
	vAssert(string(out.Text) == string(text), "the text without tags is returned")
	vAssert(out.AccelChar == char, "the first accelerator is returned")
	for _, a := range out.Attr {
		vAssert(0 <= a.StartIndex && a.StartIndex <= a.EndIndex && a.EndIndex <= len(text), "the attributes are in the text")
	}
	for i := range text {
		// the attributes of the character
		var got [60]AttrData
		font, scale := NewFontDescription(), Fl(1)
		for _, a := range out.Attr {
			if a.StartIndex <= i && i < a.EndIndex {
				got[a.Kind] = a.Data
				v29font(&font, &scale, a.Kind, a.Data)
			}
		}
		// the ones of its tags
		var want [60]AttrData
		wantFont, wantScale := NewFontDescription(), Fl(1)
		underlined := false
		for _, k := range in[i] {
			t, state := v29tags[all[k]], states[k]
			factor := sizeLevel(state.level).scaleFactor(1)
			for _, a := range t.attrs {
				if a.kind == ATTR_FONT_DESC {
					a.data = NewFontDescriptionFrom(strings.Split(t.open, "'")[1])
					if t.delta != 0 {
						a.data = NewFontDescriptionFrom(strings.Split(t.open, "'")[3])
					}
				} else if a.kind == ATTR_SCALE {
					a.data = AttrFloat(t.scale)
				}
				want[a.kind] = a.data
				v29font(&wantFont, &wantScale, a.kind, a.data)
				underlined = underlined || a.kind == ATTR_UNDERLINE
			}
			if t.delta != 0 {
				if state.size != 0 {
					want[ATTR_SIZE] = AttrInt(factor * Fl(state.size))
					v29font(&wantFont, &wantScale, ATTR_SIZE, want[ATTR_SIZE])
				} else {
					want[ATTR_SCALE] = AttrFloat(factor * state.scale)
					v29font(&wantFont, &wantScale, ATTR_SCALE, want[ATTR_SCALE])
				}
			}
		}
		if accel[i] && !underlined {
			want[ATTR_UNDERLINE] = AttrInt(UNDERLINE_LOW)
		}
		for k := range want {
			switch AttrKind(k) {
			case ATTR_SIZE, ATTR_FONT_DESC:
				vAssert((want[k] == nil) == (got[k] == nil), "a character has the attributes of its tags")
				continue
			case ATTR_SCALE:
				if want[k] != nil && got[k] != nil {
					vAssert(v29near(1000*float64(want[k].(AttrFloat)), 1000*float64(got[k].(AttrFloat))), "the sizes of the tags are combined")
					continue
				}
			case ATTR_UNDERLINE:
				if accel[i] && underlined {
					continue
				}
			}
			vAssert(want[k] == got[k], "a character has the attributes of its tags")
		}
		vAssert(v29near(float64(font.Size), float64(wantFont.Size)), "the inner tags win")
		font.Size = wantFont.Size
		vAssert(font == wantFont, "the inner tags win")
		vAssert(v29near(1000*float64(scale), 1000*float64(wantScale)), "the sizes of the tags are combined")
	}
	vCoverIf(len(all) == 2, "two tags")
	vCoverIf(char != 0, "accelerator")
}

// the documented attributes of span
func VerifC29Span() {
	red, rgb := AttrColor{0xffff, 0, 0}, AttrColor{0x1111, 0xffff, 0x8080}
	values := []struct {
		attr, value string
		kind        AttrKind
		data        AttrData
	}{
		{"font_family", "A B", ATTR_FAMILY, AttrString("A B")},
		{"face", "A B", ATTR_FAMILY, AttrString("A B")},
		{"font_size", "12800", ATTR_SIZE, AttrInt(12800)},
		{"size", "12.5pt", ATTR_SIZE, AttrInt(12800)},
		{"font_style", "normal", ATTR_STYLE, AttrInt(STYLE_NORMAL)},
		{"font_style", "oblique", ATTR_STYLE, AttrInt(STYLE_OBLIQUE)},
		{"style", "italic", ATTR_STYLE, AttrInt(STYLE_ITALIC)},
		{"font_weight", "ultralight", ATTR_WEIGHT, AttrInt(200)},
		{"weight", "light", ATTR_WEIGHT, AttrInt(300)},
		{"weight", "normal", ATTR_WEIGHT, AttrInt(400)},
		{"weight", "bold", ATTR_WEIGHT, AttrInt(700)},
		{"weight", "ultrabold", ATTR_WEIGHT, AttrInt(800)},
		{"weight", "heavy", ATTR_WEIGHT, AttrInt(900)},
		{"weight", "450", ATTR_WEIGHT, AttrInt(450)},
		{"font_variant", "normal", ATTR_VARIANT, AttrInt(VARIANT_NORMAL)},
		{"variant", "smallcaps", ATTR_VARIANT, AttrInt(VARIANT_SMALL_CAPS)},
		{"font_stretch", "ultracondensed", ATTR_STRETCH, AttrInt(STRETCH_ULTRA_CONDENSED)},
		{"stretch", "extracondensed", ATTR_STRETCH, AttrInt(STRETCH_EXTRA_CONDENSED)},
		{"stretch", "condensed", ATTR_STRETCH, AttrInt(STRETCH_CONDENSED)},
		{"stretch", "semicondensed", ATTR_STRETCH, AttrInt(STRETCH_SEMI_CONDENSED)},
		{"stretch", "normal", ATTR_STRETCH, AttrInt(STRETCH_NORMAL)},
		{"stretch", "semiexpanded", ATTR_STRETCH, AttrInt(STRETCH_SEMI_EXPANDED)},
		{"stretch", "expanded", ATTR_STRETCH, AttrInt(STRETCH_EXPANDED)},
		{"stretch", "extraexpanded", ATTR_STRETCH, AttrInt(STRETCH_EXTRA_EXPANDED)},
		{"stretch", "ultraexpanded", ATTR_STRETCH, AttrInt(STRETCH_ULTRA_EXPANDED)},
		{"font_features", "dlig=1, -kern", ATTR_FONT_FEATURES, AttrString("dlig=1, -kern")},
		{"foreground", "#1f8", ATTR_FOREGROUND, AttrColor{0x1111, 0xffff, 0x8888}},
		{"fgcolor", "red", ATTR_FOREGROUND, red},
		{"color", "#11ff80", ATTR_FOREGROUND, rgb},
		{"background", "Red", ATTR_BACKGROUND, red},
		{"bgcolor", "#1111ffff8080", ATTR_BACKGROUND, rgb},
		{"alpha", "50%", ATTR_FOREGROUND_ALPHA, AttrInt(32767)},
		{"fgalpha", "100%", ATTR_FOREGROUND_ALPHA, AttrInt(65535)},
		{"alpha", "65536", ATTR_FOREGROUND_ALPHA, AttrInt(65535)},
		{"background_alpha", "30000", ATTR_BACKGROUND_ALPHA, AttrInt(30000)},
		{"bgalpha", "1", ATTR_BACKGROUND_ALPHA, AttrInt(1)},
		{"underline", "none", ATTR_UNDERLINE, AttrInt(UNDERLINE_NONE)},
		{"underline", "single", ATTR_UNDERLINE, AttrInt(UNDERLINE_SINGLE)},
		{"underline", "double", ATTR_UNDERLINE, AttrInt(UNDERLINE_DOUBLE)},
		{"underline", "low", ATTR_UNDERLINE, AttrInt(UNDERLINE_LOW)},
		{"underline", "error", ATTR_UNDERLINE, AttrInt(UNDERLINE_ERROR)},
		{"underline", "single-line", ATTR_UNDERLINE, AttrInt(UNDERLINE_SINGLE_LINE)},
		{"underline", "double-line", ATTR_UNDERLINE, AttrInt(UNDERLINE_DOUBLE_LINE)},
		{"underline", "error-line", ATTR_UNDERLINE, AttrInt(UNDERLINE_ERROR_LINE)},
		{"underline_color", "red", ATTR_UNDERLINE_COLOR, red},
		{"overline", "none", ATTR_OVERLINE, AttrInt(OVERLINE_NONE)},
		{"overline", "single", ATTR_OVERLINE, AttrInt(OVERLINE_SINGLE)},
		{"overline_color", "#11ff80", ATTR_OVERLINE_COLOR, rgb},
		{"rise", "-100", ATTR_RISE, AttrInt(-100)},
		{"rise", "5.5pt", ATTR_RISE, AttrInt(5632)},
		{"strikethrough", "true", ATTR_STRIKETHROUGH, AttrInt(1)},
		{"strikethrough", "false", ATTR_STRIKETHROUGH, AttrInt(0)},
		{"strikethrough_color", "red", ATTR_STRIKETHROUGH_COLOR, red},
		{"fallback", "false", ATTR_FALLBACK, AttrInt(0)},
		{"fallback", "yes", ATTR_FALLBACK, AttrInt(1)},
		{"allow_breaks", "false", ATTR_ALLOW_BREAKS, AttrInt(0)},
		{"allow_breaks", "true", ATTR_ALLOW_BREAKS, AttrInt(1)},
		{"insert_hyphens", "no", ATTR_INSERT_HYPHENS, AttrInt(0)},
		{"insert_hyphens", "t", ATTR_INSERT_HYPHENS, AttrInt(1)},
		{"show", "spaces", ATTR_SHOW, AttrInt(SHOW_SPACES)},
		{"show", "spaces|line-breaks", ATTR_SHOW, AttrInt(SHOW_SPACES | SHOW_LINE_BREAKS)},
		{"show", "ignorables", ATTR_SHOW, AttrInt(SHOW_IGNORABLES)},
		{"lang", "fr_FR", ATTR_LANGUAGE, AttrString("fr-fr")},
		{"letter_spacing", "2048", ATTR_LETTER_SPACING, AttrInt(2048)},
		{"letter_spacing", "-3", ATTR_LETTER_SPACING, AttrInt(-3)},
		{"gravity", "south", ATTR_GRAVITY, AttrInt(GRAVITY_SOUTH)},
		{"gravity", "east", ATTR_GRAVITY, AttrInt(GRAVITY_EAST)},
		{"gravity", "north", ATTR_GRAVITY, AttrInt(GRAVITY_NORTH)},
		{"gravity", "west", ATTR_GRAVITY, AttrInt(GRAVITY_WEST)},
		{"gravity_hint", "natural", ATTR_GRAVITY_HINT, AttrInt(GRAVITY_HINT_NATURAL)},
		{"gravity_hint", "strong", ATTR_GRAVITY_HINT, AttrInt(GRAVITY_HINT_STRONG)},
		{"gravity_hint", "line", ATTR_GRAVITY_HINT, AttrInt(GRAVITY_HINT_LINE)},
		{"font_scale", "superscript", ATTR_FONT_SCALE, AttrInt(FONT_SCALE_SUPERSCRIPT)},
		{"font_scale", "subscript", ATTR_FONT_SCALE, AttrInt(FONT_SCALE_SUBSCRIPT)},
		{"baseline_shift", "superscript", ATTR_BASELINE_SHIFT, AttrInt(BASELINE_SHIFT_SUPERSCRIPT)},
		{"baseline_shift", "subscript", ATTR_BASELINE_SHIFT, AttrInt(BASELINE_SHIFT_SUBSCRIPT)},
		{"baseline_shift", "-2pt", ATTR_BASELINE_SHIFT, AttrInt(-2048)},
		{"line_height", "1.5", ATTR_LINE_HEIGHT, AttrFloat(1.5)},
		{"line_height", "2048", ATTR_ABSOLUTE_LINE_HEIGHT, AttrInt(2048)},
		{"text_transform", "none", ATTR_TEXT_TRANSFORM, AttrInt(TEXT_TRANSFORM_NONE)},
		{"text_transform", "lowercase", ATTR_TEXT_TRANSFORM, AttrInt(TEXT_TRANSFORM_LOWERCASE)},
		{"text_transform", "uppercase", ATTR_TEXT_TRANSFORM, AttrInt(TEXT_TRANSFORM_UPPERCASE)},
		{"text_transform", "capitalize", ATTR_TEXT_TRANSFORM, AttrInt(TEXT_TRANSFORM_CAPITALIZE)},
		{"segment", "word", ATTR_WORD, nil},
		{"segment", "sentence", ATTR_SENTENCE, nil},
		// errors
		{"style", "bold", 0, nil}, {"weight", "italic", 0, nil}, {"variant", "x", 0, nil}, {"stretch", "wide", 0, nil},
		{"size", "huge", 0, nil}, {"color", "#12", 0, nil}, {"color", "#+1+1+1", 0, nil}, {"color", "nocolor", 0, nil},
		{"underline_color", "#ffff", 0, nil}, {"alpha", "101%", 0, nil}, {"alpha", "x", 0, nil}, {"alpha", "70000", 0, nil}, {"alpha", "-1", 0, nil},
		{"underline", "triple", 0, nil}, {"overline", "double", 0, nil}, {"rise", "up", 0, nil}, {"strikethrough", "2", 0, nil},
		{"show", "all", 0, nil}, {"letter_spacing", "a", 0, nil}, {"gravity", "auto", 0, nil}, {"gravity", "up", 0, nil},
		{"gravity_hint", "x", 0, nil}, {"font_scale", "x", 0, nil}, {"baseline_shift", "x", 0, nil}, {"line_height", "x", 0, nil},
		{"text_transform", "x", 0, nil}, {"segment", "x", 0, nil}, {"unknown", "x", 0, nil}, {"fallback", "maybe", 0, nil},
	}
	v := values[vConc(vInt(0, len(values)-1))]
	attr := v.attr
	if vFork(vBool()) {
		attr = strings.Replace(attr, "_", "-", -1)
	}
	markup := "a<span " + attr + "=\"" + v.value + "\">b</span>c"
	switch vConc(vInt(0, 3)) {
	case 1: // alone
		markup = "<span " + attr + "=\"" + v.value + "\">b</span>"
	case 2: // twice
		_, err := ParseMarkup([]byte("<span "+attr+"='"+v.value+"' "+attr+"='"+v.value+"'>b</span>"), 0)
		vAssert(err != nil, "an attribute given twice is an error")
		vCover("twice")
		return
	case 3: // not on another tag
		_, err := ParseMarkup([]byte("<b "+attr+"='"+v.value+"'>b</b>"), 0)
		vAssert(err != nil, "an attribute of a tag other than span is an error")
		return
	}
	out, err := ParseMarkup([]byte(markup), 0)
	if v.kind == ATTR_INVALID {
		vAssert(err != nil, "an invalid value is an error")
		vCover("error")
		return
	}
	vAssert(err == nil, "a valid attribute is parsed")
	start := strings.Index(markup, "<")
	vAssert(len(out.Attr) == 1, "one attribute is set")
	a := out.Attr[0]
	vAssert(a.Kind == v.kind && (v.data == nil || a.Data == v.data), "the attribute has the documented value")
	vAssert(a.StartIndex == start && a.EndIndex == start+1, "the attribute applies to the text of the tag")
	vCover("value")
}

// malformed markups
func VerifC29Errors() {
	n := vParam("N")
	pieces := []string{"a", "<b>", "</b>", "<i>", "</i>", "</markup>", "<markup>", "<x>", "</x>", "<", "&lt;", "&", "<!-- -->"}
	markup, depth, ok := "", "", true
	text := ""
	for i := 0; i < n; i++ {
		k := vConc(vInt(0, len(pieces)-1))
		markup += pieces[k]
		switch k {
		case 0:
			text += "a"
		case 1, 3, 6:
			depth += pieces[k][1:2]
		case 2, 4, 5:
			if ok = ok && strings.HasSuffix(depth, pieces[k][2:3]); ok {
				depth = depth[:len(depth)-1]
			}
		case 10:
			text += "<"
		case 7, 8, 9, 11:
			ok = false
		}
	}
	ok = ok && depth == ""
	out, err := ParseMarkup([]byte(markup), 0)
	vAssert((err == nil) == ok, "a markup is parsed if its tags are known and balanced")
	vAssert(err != nil || string(out.Text) == text, "the text without tags is returned")
	vCoverIf(ok, "valid")
	vCoverIf(!ok, "error")
}

// hexadecimal colors
func VerifC29Color() {
	n := vParam("N")
	spec := []byte("#")
	digits := make([]int, n)
	ok, class := true, 0
	for i := range digits {
		c := 0
		if n <= 4 {
			c = vInt('*', 'h')
		} else if i == 0 {
			// the digits are of the same class
			class = vConc(vInt(0, 3))
		}
		switch class {
		case 1:
			c = vInt('0', '9')
		case 2:
			c = vInt('a', 'f')
		case 3:
			c = vInt('A', 'F')
		case 0:
			if n > 4 { // one may be wrong
				c = '1'
				if i == n/2 {
					c = vInt('*', 'h')
				}
			}
		}
		spec = append(spec, byte(c))
		isDigit, isLow, isUp := vAnd(c >= '0', c <= '9'), vAnd(c >= 'a', c <= 'f'), vAnd(c >= 'A', c <= 'F')
		ok = vAnd(ok, vOr(isDigit, vOr(isLow, isUp)))
		digits[i] = vIte(isDigit, c-'0', vIte(isLow, c-'a'+10, c-'A'+10))
	}
	withAlpha := vFork(vBool())
	components := 3
	switch n {
	case 3, 6, 9, 12:
	case 4, 8, 16:
		components = 4
		ok = vAnd(ok, withAlpha)
	default:
		ok = false
	}
	color, alpha, got := pango_color_parse_with_alpha(string(spec), withAlpha)
	vAssert(got == ok, "the valid colors are accepted")
	if !got {
		vCover("error")
		return
	}
	l := n / components
	values := [4]int{0, 0, 0, 0xffff}
	for k := 0; k < components; k++ {
		// the digits are repeated up to 16 bits
		v := 0
		for i := 0; i < 4; i++ {
			v = 16*v + digits[k*l+i%l]
		}
		values[k] = v
	}
	vAssert(vAnd(int(color.Red) == values[0], vAnd(int(color.Green) == values[1], vAnd(int(color.Blue) == values[2], int(alpha) == values[3]))), "the color is the one of the digits")
	vCover("color")
}
