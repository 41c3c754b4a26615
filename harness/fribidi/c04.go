package fribidi

// Arabic joining and shaping, mirroring, through LogicalToVisual, against
// rules R1-R7 of the cursive joining algorithm stated on pairs of neighbours,
// the presentation forms of the Unicode Character Database and rule L4.

type verifLetter struct {
	r      rune
	jt     byte    // R, D, C, T, G, U
	forms  [4]rune // isolated, right-joined (final), left-joined (initial), both (medial)
	mirror rune
}

var verifLetters = []verifLetter{
	{0x0628, 'D', [4]rune{0xFE8F, 0xFE90, 0xFE91, 0xFE92}, 0}, // BEH
	{0x0627, 'R', [4]rune{0xFE8D, 0xFE8E, 0xFE8D, 0xFE8E}, 0}, // ALEF
	{0x0644, 'D', [4]rune{0xFEDD, 0xFEDE, 0xFEDF, 0xFEE0}, 0}, // LAM
	{0x0640, 'C', [4]rune{}, 0},                               // TATWEEL
	{0x064E, 'T', [4]rune{}, 0},                               // FATHA
	{'a', 'U', [4]rune{}, 0},
	{0x200D, 'C', [4]rune{}, 0}, // ZWJ (BN)
	{'(', 'U', [4]rune{}, ')'},
	{0x202A, 'G', [4]rune{}, 0}, // LRE
	{0x202C, 'G', [4]rune{}, 0}, // PDF
	{0x0625, 'R', [4]rune{0xFE87, 0xFE88, 0xFE87, 0xFE88}, 0}, // ALEF WITH HAMZA BELOW
	{0x200C, 'U', [4]rune{}, 0},                               // ZWNJ (BN)
	{0x0621, 'U', [4]rune{}, 0}, // HAMZA, not shaped
	{0x05D0, 'U', [4]rune{}, 0},
	{'<', 'U', [4]rune{}, '>'},
	{'1', 'U', [4]rune{}, 0},
	{0x202E, 'G', [4]rune{}, 0}, // RLO
	{0x062F, 'R', [4]rune{0xFEA9, 0xFEAA, 0xFEA9, 0xFEAA}, 0}, // DAL
}

func VerifC04Shape() {
	n := vParam("N")
	k0 := vParam("letters")
	letters := make([]verifLetter, n)
	str := make([]rune, n)
	for i := range str {
		k := vInt(0, k0-1)
		if vParam("fork") != 0 {
			k = vConc(k)
		}
		letters[i] = verifLetters[k]
		str[i] = letters[i].r
	}
	dir := ParType(ON)
	if d := vConc(vInt(0, vParam("dirs")-1)); d == 1 {
		dir = LTR
	} else if d == 2 {
		dir = RTL
	}
	flags := ReorderNSM | ShapeMirroring | ShapeArabPres | ShapeArabLiga
	switch vConc(vInt(0, vParam("flags"))) {
	case 1:
		flags = ShapeMirroring | ShapeArabPres
	case 2:
		flags = ShapeArabPres | ShapeArabLiga
	case 3:
		flags = ReorderNSM
	}
	orig := append([]rune(nil), str...)
	vis, _ := LogicalToVisual(flags, str, &dir)
	vAssert(dir == LTR || dir == RTL || dir == ON, "resolved direction")
	for i := range str {
		vAssert(str[i] == orig[i], "the input is not modified")
	}
	vAssert(len(vis.Str) == n && len(vis.VisualToLogical) == n && len(vis.EmbeddingLevels) == n, "lengths")
	lToV := vis.LogicalToVisual()
	for i := range str {
		v := lToV[i]
		vAssert(v >= 0 && v < n && vis.VisualToLogical[v] == i, "the maps are inverse")
	}
	lv := vis.EmbeddingLevels

	// joining
	joined := make([]bool, n) // i is joined to the next character which is not skipped
	prevJoined := make([]bool, n)
	noLevel := func(i int) bool { t := letters[i].r; return t == 0x200D || t == 0x200C }
	rtl := func(i int) bool { return noLevel(i) || lv[i]%2 != 0 }
	skipped := func(i int) bool { return letters[i].jt == 'T' || letters[i].jt == 'G' }
	for i := 0; i < n; i++ {
		if skipped(i) {
			continue
		}
		j := i + 1
		sameLevel := true
		for ; j < n; j++ {
			if letters[j].jt == 'G' {
				continue
			}
			if !(noLevel(i) || noLevel(j) || lv[i] == lv[j]) {
				sameLevel = false
			}
			if !skipped(j) {
				break
			}
		}
		if j == n || !sameLevel {
			continue
		}
		a, b := letters[i].jt, letters[j].jt
		// the Arabic letters join to the following character on their left side in a
		// right to left run, and on their right side in a left to right run
		follow := a == 'D' || a == 'C' || (a == 'R' && !rtl(i))
		precede := b == 'D' || b == 'C' || (b == 'R' && rtl(j))
		if follow && precede {
			joined[i], prevJoined[j] = true, true
			vCover("joined")
		}
	}
	shaped := make([]rune, n)
	for i := range shaped {
		l := letters[i]
		shaped[i] = l.r
		if l.forms[0] != 0 && flags&ShapeArabPres != 0 {
			right, left := prevJoined[i], joined[i]
			if !rtl(i) {
				right, left = left, right
			}
			k := 0
			if right {
				k++
			}
			if left {
				k += 2
			}
			shaped[i] = l.forms[k]
		}
	}
	if flags&ShapeArabLiga != 0 {
		for i := 0; i+1 < n; i++ {
			if lv[i]%2 == 0 || lv[i] != lv[i+1] {
				continue
			}
			var liga rune
			switch {
			case shaped[i] == 0xFEDF && shaped[i+1] == 0xFE8E:
				liga = 0xFEFB
			case shaped[i] == 0xFEE0 && shaped[i+1] == 0xFE8E:
				liga = 0xFEFC
			case shaped[i] == 0xFEDF && shaped[i+1] == 0xFE88:
				liga = 0xFEF9
			case shaped[i] == 0xFEE0 && shaped[i+1] == 0xFE88:
				liga = 0xFEFA
			}
			if liga != 0 {
				shaped[i], shaped[i+1] = 0xFEFF, liga
				vCover("ligature")
			}
		}
	}
	for i := range shaped {
		if flags&ShapeMirroring != 0 && letters[i].mirror != 0 && lv[i]%2 != 0 {
			shaped[i] = letters[i].mirror
		}
		if letters[i].jt == 'T' && flags&ShapeArabPres != 0 {
			// the marks may take a form placed on a tatweel or not
			continue
		}
		vAssert(vis.Str[lToV[i]] == shaped[i], "shaped character")
		vObs("c", int(vis.Str[i]))
	}
}
