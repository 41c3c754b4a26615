package fribidi

// Embedding levels against a transcription of UAX #9 (rules P2 to L1),
// working on characters (not runs), independent of the implementation.

type refEntry struct {
	level    int
	override CharType // LTR, RTL or ON
	isolate  bool
}

func refRemoved(t CharType) bool {
	return t == LRE || t == RLE || t == LRO || t == RLO || t == PDF || t == BN
}

func refIsInit(t CharType) bool { return t == LRI || t == RLI || t == FSI }

// first strong character in [from, to), skipping the isolates: -1, 0 or 1
func refFirstStrong(types []CharType, from, to int) int {
	depth := 0
	for i := from; i < to; i++ {
		t := types[i]
		if refIsInit(t) {
			depth++
		} else if t == PDI {
			if depth > 0 {
				depth--
			}
		} else if depth == 0 {
			if t == LTR {
				return 0
			}
			if t == RTL || t == AL {
				return 1
			}
		}
	}
	return -1
}

// index of the matching PDI or len(types), for each isolate initiator
func refMatch(types []CharType, i int) int {
	depth := 1
	for j := i + 1; j < len(types); j++ {
		t := types[j]
		if refIsInit(t) {
			depth++
		} else if t == PDI {
			depth--
			if depth == 0 {
				return j
			}
		}
	}
	return len(types)
}

func refDir(level int) CharType {
	if level&1 != 0 {
		return RTL
	}
	return LTR
}

func refMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func refIsNI(t CharType) bool {
	return t == BS || t == SS || t == WS || t == ON || t == LRI || t == RLI || t == FSI || t == PDI
}

// brackets: 0 none, +k opening, -k closing (k identifies the pair)
func refLevels(orig []CharType, brackets []int, base int) []int {
	n := len(orig)
	types := append([]CharType(nil), orig...)
	levels := make([]int, n)
	const maxDepth = 125
	// X1-X8
	stack := []refEntry{{base, ON, false}}
	ovIsolate, ovEmbed, validIso := 0, 0, 0
	for i, t := range orig {
		top := stack[len(stack)-1]
		odd := (top.level + 1) | 1
		even := (top.level + 2) &^ 1
		switch {
		case t == RLE || t == LRE || t == RLO || t == LRO:
			lv := even
			if t == RLE || t == RLO {
				lv = odd
			}
			ov := CharType(ON)
			if t == RLO {
				ov = RTL
			} else if t == LRO {
				ov = LTR
			}
			if lv <= maxDepth && ovIsolate == 0 && ovEmbed == 0 {
				stack = append(stack, refEntry{lv, ov, false})
			} else if ovIsolate == 0 {
				ovEmbed++
			}
		case refIsInit(t):
			levels[i] = top.level
			if top.override != ON {
				types[i] = top.override
			}
			rtl := t == RLI
			if t == FSI {
				rtl = refFirstStrong(orig, i+1, refMatch(orig, i)) == 1
			}
			lv := even
			if rtl {
				lv = odd
			}
			if lv <= maxDepth && ovIsolate == 0 && ovEmbed == 0 {
				validIso++
				stack = append(stack, refEntry{lv, ON, true})
			} else {
				ovIsolate++
			}
		case t == PDI:
			if ovIsolate > 0 {
				ovIsolate--
			} else if validIso > 0 {
				ovEmbed = 0
				for !stack[len(stack)-1].isolate {
					stack = stack[:len(stack)-1]
				}
				stack = stack[:len(stack)-1]
				validIso--
			}
			top = stack[len(stack)-1]
			levels[i] = top.level
			if top.override != ON {
				types[i] = top.override
			}
		case t == PDF:
			if ovIsolate > 0 {
			} else if ovEmbed > 0 {
				ovEmbed--
			} else if !top.isolate && len(stack) >= 2 {
				stack = stack[:len(stack)-1]
			}
		case t == BS:
			levels[i] = base
		case t == BN:
		default:
			levels[i] = top.level
			if top.override != ON {
				types[i] = top.override
			}
		}
	}
	explicit := append([]int(nil), levels...)
	// X9
	var kept []int
	for i, t := range orig {
		if !refRemoved(t) {
			kept = append(kept, i)
		}
	}
	// X10: level runs, isolating run sequences
	m := len(kept)
	done := make([]bool, m)
	runEnd := func(k int) int { // end of the level run starting at kept[k]
		e := k + 1
		for e < m && explicit[kept[e]] == explicit[kept[k]] {
			e++
		}
		return e
	}
	for k := 0; k < m; k++ {
		if done[k] {
			continue
		}
		var seq []int // indexes in kept
		start := k
		for {
			e := runEnd(start)
			for x := start; x < e; x++ {
				seq = append(seq, x)
				done[x] = true
			}
			last := kept[e-1]
			if !refIsInit(orig[last]) {
				break
			}
			match := refMatch(orig, last)
			if match == n {
				break
			}
			next := -1
			for x := e; x < m; x++ {
				if kept[x] == match {
					next = x
				}
			}
			start = next
		}
		refSequence(orig, types, explicit, levels, brackets, kept, seq, base)
	}
	// L1
	reset := true
	for i := n - 1; i >= 0; i-- {
		t := orig[i]
		if t == BS || t == SS {
			levels[i] = base
			reset = true
		} else if t == WS || t == LRI || t == RLI || t == FSI || t == PDI {
			if reset {
				levels[i] = base
			}
		} else if !refRemoved(t) {
			reset = false
		}
	}
	return levels
}

func refSequence(orig, types []CharType, levels, out []int, brackets []int, kept, seq []int, base int) {
	first, last := seq[0], seq[len(seq)-1]
	level := levels[kept[first]]
	prevLevel := base
	if first > 0 {
		prevLevel = levels[kept[first-1]]
	}
	nextLevel := base
	if last+1 < len(kept) && !(refIsInit(orig[kept[last]]) && refMatch(orig, kept[last]) == len(orig)) {
		nextLevel = levels[kept[last+1]]
	}
	sos := refDir(refMax(level, prevLevel))
	eos := refDir(refMax(level, nextLevel))
	l := len(seq)
	ty := make([]CharType, l)
	for i, k := range seq {
		ty[i] = types[kept[k]]
	}
	// W1
	prev := sos
	for i := range ty {
		if ty[i] == NSM {
			if prev == LRI || prev == RLI || prev == FSI || prev == PDI {
				ty[i] = ON
			} else {
				ty[i] = prev
			}
		}
		prev = ty[i]
	}
	// W2
	strong := sos
	for i := range ty {
		if ty[i] == LTR || ty[i] == RTL || ty[i] == AL {
			strong = ty[i]
		} else if ty[i] == EN && strong == AL {
			ty[i] = AN
		}
	}
	// W3
	for i := range ty {
		if ty[i] == AL {
			ty[i] = RTL
		}
	}
	// W4
	for i := 1; i+1 < l; i++ {
		if ty[i] == ES && ty[i-1] == EN && ty[i+1] == EN {
			ty[i] = EN
		} else if ty[i] == CS && ty[i-1] == EN && ty[i+1] == EN {
			ty[i] = EN
		} else if ty[i] == CS && ty[i-1] == AN && ty[i+1] == AN {
			ty[i] = AN
		}
	}
	// W5
	for i := range ty {
		if ty[i] == ET {
			j := i
			for j < l && ty[j] == ET {
				j++
			}
			if i > 0 && ty[i-1] == EN || j < l && ty[j] == EN {
				for x := i; x < j; x++ {
					ty[x] = EN
				}
			}
		}
	}
	// W6
	for i := range ty {
		if ty[i] == ET || ty[i] == ES || ty[i] == CS {
			ty[i] = ON
		}
	}
	// W7
	strong = sos
	for i := range ty {
		if ty[i] == LTR || ty[i] == RTL {
			strong = ty[i]
		} else if ty[i] == EN && strong == LTR {
			ty[i] = LTR
		}
	}
	// N0
	e := refDir(level)
	var stack, pairOpen, pairClose []int
	for i := range ty {
		b := brackets[kept[seq[i]]]
		if b == 0 || ty[i] != ON {
			continue
		}
		if b > 0 {
			if len(stack) == 63 {
				// BD16: stop processing for the remainder of the sequence
				break
			}
			stack = append(stack, i)
		} else {
			for s := len(stack) - 1; s >= 0; s-- {
				if brackets[kept[seq[stack[s]]]] == -b {
					pairOpen = append(pairOpen, stack[s])
					pairClose = append(pairClose, i)
					stack = stack[:s]
					break
				}
			}
		}
	}
	// pairs in the order of the opening brackets
	for i := 0; i < l; i++ {
		for p := range pairOpen {
			if pairOpen[p] != i {
				continue
			}
			c := pairClose[p]
			foundE, foundO := false, false
			for x := i + 1; x < c; x++ {
				t := refStrongN(ty[x])
				if t == e {
					foundE = true
				} else if t != ON {
					foundO = true
				}
			}
			var to CharType
			if foundE {
				to = e
			} else if foundO {
				ctx := sos
				for x := i - 1; x >= 0; x-- {
					if t := refStrongN(ty[x]); t != ON {
						ctx = t
						break
					}
				}
				to = ctx
				if ctx == e {
					to = e
				}
			} else {
				continue
			}
			ty[i], ty[c] = to, to
			for _, b := range [2]int{i, c} {
				for x := b + 1; x < l && orig[kept[seq[x]]] == NSM && types[kept[seq[x]]] == NSM; x++ {
					ty[x] = to
				}
			}
		}
	}
	// N1, N2
	for i := 0; i < l; i++ {
		if !refIsNI(ty[i]) {
			continue
		}
		j := i
		for j < l && refIsNI(ty[j]) {
			j++
		}
		a, b := sos, eos
		if i > 0 {
			a = refStrongN(ty[i-1])
		}
		if j < l {
			b = refStrongN(ty[j])
		}
		to := e
		if a == b {
			to = a
		}
		for x := i; x < j; x++ {
			ty[x] = to
		}
	}
	// I1, I2
	for i, k := range seq {
		lv := level
		if level&1 == 0 {
			if ty[i] == RTL {
				lv = level + 1
			} else if ty[i] == AN || ty[i] == EN {
				lv = level + 2
			}
		} else if ty[i] == LTR || ty[i] == EN || ty[i] == AN {
			lv = level + 1
		}
		out[kept[k]] = lv
	}
}

// L, R (also for numbers) or ON
func refStrongN(t CharType) CharType {
	if t == LTR {
		return LTR
	}
	if t == RTL || t == EN || t == AN {
		return RTL
	}
	return ON
}

func verifC01Check(types []CharType, brackets []BracketType, ids []int, dir ParType) {
	base := 0
	want := dir
	if dir == RTL || dir == WRTL {
		base = 1
	}
	if dir != LTR && dir != RTL {
		if f := refFirstStrong(types, 0, len(types)); f >= 0 {
			base = f
			want = LTR
			if f == 1 {
				want = RTL
			}
		}
	}
	got := dir
	in := append([]CharType(nil), types...)
	levels, maxl := GetParEmbeddingLevels(in, brackets, &got)
	vAssert(got == want, "paragraph direction (P2, P3)")
	vAssert(len(levels) == len(types), "number of levels")
	ref := refLevels(types, ids, base)
	top := base
	for i, l := range levels {
		vAssert(in[i] == types[i], "the types are not modified")
		vAssert(l >= 0 && l <= 126, "level out of range")
		if !refRemoved(types[i]) {
			if types[i] == BS {
				continue // its level is the one of the paragraph
			}
			vAssert(int(l) == ref[i], "embedding level")
		}
		if int(l) > top {
			top = int(l)
		}
		vObs("level", int(l))
	}
	vAssert(int(maxl) >= top+1, "maximum level")
	vObs("max", int(maxl))
}

var verifClasses = []CharType{LTR, RTL, AL, EN, AN, ES, ET, CS, NSM, ON, ON, ON, ON, ON, WS, SS, BN, LRE, RLE, LRO, RLO, PDF, LRI, RLI, FSI, PDI}
var verifBracketRune = []rune{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, '(', ')', '[', ']', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
var verifBracketID = []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, -1, 2, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}

func verifC01Dir() ParType {
	dirs := []ParType{LTR, RTL, ON, WLTR, WRTL}
	return dirs[vConc(vInt(0, vParam("dirs")-1))]
}

func verifC01Input(alphabet []int, n int) ([]CharType, []BracketType, []int) {
	cl := make([]CharType, len(alphabet))
	br := make([]BracketType, len(alphabet))
	id := make([]int, len(alphabet))
	for i, a := range alphabet {
		cl[i] = verifClasses[a]
		br[i] = NoBracket
		if r := verifBracketRune[a]; r != 0 {
			br[i] = GetBracket(r)
		}
		id[i] = verifBracketID[a]
	}
	types := make([]CharType, n)
	brackets := make([]BracketType, n)
	ids := make([]int, n)
	for i := range types {
		k := vInt(0, len(alphabet)-1)
		types[i], brackets[i], ids[i] = cl[k], br[k], id[k]
	}
	return types, brackets, ids
}

// every string of N characters over all the classes
func VerifC01Levels() {
	all := make([]int, len(verifClasses))
	for i := range all {
		all[i] = i
	}
	types, brackets, ids := verifC01Input(all, vParam("N"))
	verifC01Check(types, brackets, ids, verifC01Dir())
}

// longer strings over a part of the classes
func VerifC01Sub() {
	alphabets := [][]int{
		{0, 1, 3, 22, 23, 24, 25},          // L R EN LRI RLI FSI PDI
		{0, 1, 3, 9, 10, 11, 12, 13, 8},    // L R EN ON ( ) [ ] NSM
		{0, 1, 2, 3, 4, 5, 6, 7, 8, 16},    // L R AL EN AN ES ET CS NSM BN
		{0, 1, 3, 18, 19, 20, 21, 22, 25},  // L R EN RLE LRO RLO PDF LRI PDI
		{0, 1, 10, 11, 23, 25},             // L R ( ) RLI PDI
		{1, 14, 15, 16, 22, 25, 9, 18, 21}, // R WS SS BN LRI PDI ON RLE PDF
		{0, 2, 3, 5, 6, 8, 23, 25, 21, 20}, // L AL EN ES ET NSM RLI PDI PDF RLO
		{1, 10, 11, 22, 25},                // R ( ) LRI PDI
		{0, 1, 10, 11, 18, 21, 22, 25},     // L R ( ) RLE PDF LRI PDI
		{1, 3, 4, 5, 6, 7},                 // R EN AN ES ET CS
	}
	types, brackets, ids := verifC01Input(alphabets[vParam("A")], vParam("N"))
	verifC01Check(types, brackets, ids, verifC01Dir())
}

// near the limits on the depth of the embeddings (125) and of the brackets (63)
func VerifC01Deep() {
	prefixes := [][]int{{18}, {17}, {22}, {23}, {18, 22}, {23, 17}, {22, 23}, {20, 19}}
	p := prefixes[vConc(vInt(0, len(prefixes)-1))]
	k := vConc(vInt(vParam("lo"), vParam("hi")))
	suffix := []int{0, 1, 3, 25, 21, 22, 23, 18, 24}
	var types []CharType
	types = append(types, CharType(LTR))
	for i := 0; i < k; i++ {
		types = append(types, verifClasses[p[i%len(p)]])
	}
	cl := make([]CharType, len(suffix))
	for i, a := range suffix {
		cl[i] = verifClasses[a]
	}
	for i := 0; i < vParam("N"); i++ {
		types = append(types, cl[vInt(0, len(cl)-1)])
	}
	if vFork(vBool()) { // a long tail of PDI
		for i := 0; i < k-1; i++ {
			types = append(types, CharType(PDI))
		}
		types = append(types, CharType(RTL))
	}
	verifC01Check(types, make([]BracketType, len(types)), make([]int, len(types)), verifC01Dir())
}

func VerifC01DeepBrackets() {
	k := vConc(vInt(60, 66))
	alphabet := []int{0, 1, 10, 11, 12, 13}
	first, b1, i1 := verifC01Input(alphabet, vParam("N"))
	types := append([]CharType{RTL}, first...)
	brackets := append([]BracketType{NoBracket}, b1...)
	ids := append([]int{0}, i1...)
	add := func(a int) {
		types = append(types, verifClasses[a])
		if r := verifBracketRune[a]; r != 0 {
			brackets = append(brackets, GetBracket(r))
		} else {
			brackets = append(brackets, NoBracket)
		}
		ids = append(ids, verifBracketID[a])
	}
	if vFork(vBool()) {
		add(22)
	}
	for i := 0; i < k; i++ {
		add(10)
	}
	add(1)
	t2, b2, i2 := verifC01Input(alphabet, vParam("N"))
	types, brackets, ids = append(types, t2...), append(brackets, b2...), append(ids, i2...)
	for i := 0; i < 4; i++ {
		add(11)
	}
	add(25)
	add(10)
	add(1)
	add(11)
	verifC01Check(types, brackets, ids, verifC01Dir())
}
