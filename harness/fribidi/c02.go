package fribidi

// ReorderLine: rule L2 is stated pairwise: two characters i < j of the line keep
// their order if and only if the lowest level between them is even. With L3,
// the order is swapped again inside a cluster (base, marks) of odd level.

func VerifC02Reorder() {
	n := vParam("N")
	alphabet := []CharType{LTR, RTL, NSM, WS, BN, RLE, LRI, PDI, EN, SS}
	alphabet = alphabet[:vParam("types")]
	types := make([]CharType, n)
	levels := make([]Level, n)
	str := make([]rune, n)
	vToL := make([]int, n)
	for i := range types {
		types[i] = alphabet[vInt(0, len(alphabet)-1)]
		levels[i] = Level(vInt(0, vParam("levels")-1))
		str[i] = rune(0x61 + i)
		vToL[i] = 100 + i
	}
	off := vConc(vInt(0, n))
	length := vConc(vInt(0, n-off))
	base := ParType(LTR)
	baseLevel := Level(0)
	if vFork(vBool()) {
		base, baseLevel = RTL, 1
	}
	nsm := vFork(vBool())
	flags := Options(0)
	if nsm {
		flags = ReorderNSM
	}
	inTypes := append([]CharType(nil), types...)

	// L1, 4
	ref := append([]Level(nil), levels...)
	for i := off + length - 1; i >= off; i-- {
		t := types[i]
		if !(t == WS || t == BN || t == RLE || t == LRI || t == PDI) {
			break
		}
		ref[i] = baseLevel
	}
	// L3: the clusters
	cluster := make([]int, n)
	for i := range cluster {
		cluster[i] = i
	}
	if nsm {
		for i := off + length - 1; i >= off; i-- {
			if types[i] != NSM || ref[i]%2 == 0 {
				continue
			}
			end := i
			lv := ref[i]
			for i > off && (types[i] == NSM || types[i] == BN || types[i] == RLE) && ref[i-1] == lv {
				i--
			}
			for k := i; k <= end; k++ {
				cluster[k] = i
			}
		}
	}

	mode := vConc(vInt(0, 2))
	var argStr []rune
	var argMap []int
	if mode != 1 {
		argStr = str
	}
	if mode != 0 {
		argMap = vToL
	}
	max := ReorderLine(flags, types, length, off, base, levels, argStr, argMap)

	pos := make([]int, n) // visual position
	for i := range pos {
		pos[i] = -1
	}
	for i := 0; i < n; i++ {
		vAssert(types[i] == inTypes[i], "types are not modified")
		vAssert(levels[i] == ref[i], "levels after L1")
		if argStr != nil {
			k := int(str[i]) - 0x61
			vAssert(k >= 0 && k < n && pos[k] == -1, "the string is permuted")
			pos[k] = i
			if argMap != nil {
				vAssert(vToL[i] == 100+k, "the string and the map agree")
			}
		} else {
			k := vToL[i] - 100
			vAssert(k >= 0 && k < n && pos[k] == -1, "the map is permuted")
			pos[k] = i
		}
	}
	top := Level(0)
	for i := 0; i < n; i++ {
		if i < off || i >= off+length {
			vAssert(pos[i] == i, "outside of the line")
			continue
		}
		if ref[i] > top {
			top = ref[i]
		}
		min := ref[i]
		for j := i + 1; j < off+length; j++ {
			if ref[j] < min {
				min = ref[j]
			}
			keep := min%2 == 0
			if cluster[i] == cluster[j] {
				keep = !keep
			}
			vAssert((pos[i] < pos[j]) == keep, "visual order (L2, L3)")
		}
	}
	vAssert(max == top+1, "maximum level")
	if length > 1 && top > 1 {
		vCover("reordered")
	}
	for i := range pos {
		vObs("pos", pos[i])
	}
}
