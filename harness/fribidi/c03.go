package fribidi

// RemoveBidiMarks against its documentation, for every string over an
// alphabet and every permutation.

func VerifC03RemoveMarks() {
	n := vParam("N")
	alphabet := []rune{'a', 0x05D0, '1', ' ', 0x0301, 0x200E, 0x200F, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0x200C, 0x00AD}
	removedFlag := []bool{false, false, false, false, false, true, true, true, true, true, true, true, true, true, true, true, true, true}
	str := make([]rune, n)
	removed := make([]bool, n)
	for i := range str {
		k := vInt(0, len(alphabet)-1)
		str[i] = alphabet[k]
		if vFork(removedFlag[k]) { // one path per set of removed characters
			removed[i] = true
			vCover("removed")
		}
	}
	// a permutation
	from := make([]int, n)
	to := make([]int, n)
	used := make([]bool, n)
	for i := range from {
		x := vConc(vInt(0, n-1))
		vAssume(!used[x])
		used[x] = true
		from[i] = x
		to[x] = i
	}
	levels := make([]Level, n)
	for i := range levels {
		levels[i] = Level(i + 3)
	}
	mode := vConc(vInt(0, 3)) // which lists are given

	origStr := append([]rune(nil), str...)
	origFrom := append([]int(nil), from...)
	origTo := append([]int(nil), to...)

	var argTo, argFrom []int
	var argLevels []Level
	if mode&1 != 0 {
		argTo = to
		argFrom = from
	}
	if mode == 2 {
		argTo = to
	}
	if mode >= 2 {
		argLevels = levels
	}
	out := RemoveBidiMarks(str, argTo, argFrom, argLevels)

	j := 0
	for i := 0; i < n; i++ {
		if removed[i] {
			if argTo != nil {
				vAssert(to[origFrom[i]] == -1, "map entry of a removed character")
			}
			continue
		}
		vAssert(j < len(out), "kept characters missing")
		vAssert(out[j] == origStr[i], "kept characters not preserved")
		if argFrom != nil {
			vAssert(from[j] == origFrom[i], "position from this")
		}
		if argTo != nil {
			vAssert(to[origFrom[i]] == j, "position to this")
		}
		if argLevels != nil {
			vAssert(levels[j] == Level(i+3), "embedding levels")
		}
		j++
	}
	vAssert(len(out) == j, "length of the result")
	_ = origTo
	vObs("len", len(out))
}
