package pango

import "github.com/benoitkugler/textprocessing/fribidi"

// The resolved direction and the levels used by the layout engine agree with the
// full bidirectional algorithm: same direction, and same visual order and parity
// for the characters which are not removed by rule X9.

func VerifC05BidiShortcut() {
	n := vParam("N")
	alphabet := []rune{'a', 0x05D0, 0x0628, '1', 0x0661, '+', '%', ',', 0x0301, '(', ')', ' ', '\t', '!', 0x00AD, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2069}
	alphabet = alphabet[:vParam("chars")]
	text := make([]rune, n)
	types := make([]fribidi.CharType, n)
	brackets := make([]fribidi.BracketType, n)
	aTypes := make([]fribidi.CharType, len(alphabet))
	aBr := make([]fribidi.BracketType, len(alphabet))
	for i, r := range alphabet {
		aTypes[i] = fribidi.GetBidiType(r)
		if aTypes[i] == fribidi.ON {
			aBr[i] = fribidi.GetBracket(r)
		}
	}
	for i := range text {
		k := vInt(0, len(alphabet)-1)
		text[i], types[i], brackets[i] = alphabet[k], aTypes[k], aBr[k]
	}
	dirs := []Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL, DIRECTION_NEUTRAL}
	par := []fribidi.ParType{fribidi.LTR, fribidi.RTL, fribidi.WLTR, fribidi.WRTL, fribidi.WLTR}
	d := vConc(vInt(0, 4))

	got, levels := bidiEmbeddingLevels(text, dirs[d])

	dir := par[d]
	want, _ := fribidi.GetParEmbeddingLevels(types, brackets, &dir)
	wantDir := DIRECTION_LTR
	if dir == fribidi.RTL || dir == fribidi.WRTL {
		wantDir = DIRECTION_RTL
	}
	vAssert(len(levels) == n, "one level per character")
	vAssert(got == wantDir, "resolved direction")
	var a, b []fribidi.Level
	for i := range text {
		t := types[i]
		if t == fribidi.BN || t == fribidi.LRE || t == fribidi.RLE || t == fribidi.LRO || t == fribidi.RLO || t == fribidi.PDF {
			continue
		}
		a = append(a, levels[i])
		b = append(b, want[i])
		vAssert(levels[i]%2 == want[i]%2, "direction of the character")
	}
	// same visual order, character by character: see C02
	for i := range a {
		ma, mb := a[i], b[i]
		for j := i + 1; j < len(a); j++ {
			if a[j] < ma {
				ma = a[j]
			}
			if b[j] < mb {
				mb = b[j]
			}
			vAssert(ma%2 == mb%2, "visual order")
		}
	}
	for i := range levels {
		vObs("l", int(levels[i]))
	}
	vObs("d", int(got))
}
