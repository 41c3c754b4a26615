package fontconfig

import (
	"strings"
)

// Configuration files: the rules are the ones written in the document.

func verifLoadXML(content string) (*Config, error) {
	config := NewConfig()
	err := config.LoadFromMemory(strings.NewReader("<fontconfig>" + content + "</fontconfig>"))
	return config, err
}

func verifAttr(name, value string) string {
	if value == "-" { // absent
		return ""
	}
	return " " + name + `="` + value + `"`
}

// one choice among several
func verifOneOf(l []string) (int, string) {
	i := vConc(vInt(0, len(l)-1))
	return i, l[i]
}

var (
	verifMatchTargets = []string{"-", "pattern", "font", "scan", "other"}
	verifMatchKinds   = []matchKind{MatchQuery, MatchQuery, MatchResult, MatchScan, 0}
	verifTestTargets  = []string{"-", "default", "pattern", "font", "scan", "other"}
	verifTestKinds    = []matchKind{matchDefault, matchDefault, MatchQuery, MatchResult, MatchScan, 0}
	verifQuals        = []string{"-", "any", "all", "first", "not_first", "other"}
	verifQualValues   = []uint8{qualAny, qualAny, qualAll, qualFirst, qualNotFirst, 0}
	verifCompares     = []string{"-", "eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains", "other"}
	verifCompareOpsXML   = []opKind{opEqual, opEqual, opNotEqual, opLess, opLessEqual, opMore, opMoreEqual, opContains, opNotContains, 0}
	verifBlanks       = []string{"-", "true", "no", "zz"}
	verifModes        = []string{"-", "assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete_all", "other"}
	verifModeOps      = []opKind{opAssign, opAssign, opAssignReplace, opPrepend, opPrependFirst, opAppend, opAppendLast, opDelete, opDeleteAll, 0}
	verifBindings     = []string{"-", "weak", "strong", "same", "other"}
	verifBindingVals  = []valueBinding{vbWeak, vbWeak, vbStrong, vbSame, 0}
)

// the only rule of a configuration
func verifOnlyRule(config *Config, kind matchKind) (directive, bool) {
	var out directive
	found := 0
	for _, rs := range config.subst {
		for k := range rs.subst {
			for _, r := range rs.subst[k] {
				if matchKind(k) == kind {
					out = r
				} else {
					found++
				}
				found++
			}
		}
	}
	return out, found == 1
}

// an Int leaf
func verifIsInt(e *expression, d int) bool {
	v, ok := e.evaluate(NewPattern(), NewPattern(), MatchQuery).(Int)
	return ok && int(v) == d
}

func verifDigit(c byte) string { return string([]byte{c}) }

func VerifC30Test() {
	mt, tt, qu, co := 0, 0, 0, 0
	var a, b, c, d, e string
	a, b, c, d, e = "-", "-", "-", "-", "-"
	if vConc(vInt(0, 1)) == 0 {
		mt, a = verifOneOf(verifMatchTargets)
		tt, b = verifOneOf(verifTestTargets)
		if vParam("FULL") == 1 || mt <= 2 && tt%2 == 0 {
			qu, c = verifOneOf(verifQuals)
		}
	} else {
		qu, c = verifOneOf(verifQuals)
		co, d = verifOneOf(verifCompares)
		if vParam("FULL") == 1 || qu == 0 {
			_, e = verifOneOf(verifBlanks)
		}
	}
	digit := byte(vInt('0', '9'))
	obj, name := verifOneOf([]string{"size", "custom", "-"})
	swap := vFork(vBool()) // the tests and the edits in any order
	test := "<test" + verifAttr("qual", c) + verifAttr("name", name) + verifAttr("target", b) +
		verifAttr("compare", d) + verifAttr("ignore-blanks", e) + ">" + "<int>" + verifDigit(digit) + "</int></test>"
	edit := `<edit name="weight" mode="assign"><int>7</int></edit>`
	if swap {
		test, edit = edit, test
	}
	config, err := verifLoadXML("<match" + verifAttr("target", a) + ">" + test + edit + "</match>")
	bad := a == "other" || b == "other" || c == "other" || d == "other" || e == "zz" || name == "-"
	vAssert(bad == (err != nil), "configuration: the invalid attributes of a test are errors")
	if err != nil {
		vCover("configuration: invalid test")
		return
	}
	kind := verifMatchKinds[mt]
	r, ok := verifOnlyRule(config, kind)
	vAssert(ok && len(r.tests) == 1 && len(r.edits) == 1, "configuration: one rule by match element")
	t := r.tests[0]
	wantKind := verifTestKinds[tt]
	if wantKind == matchDefault {
		wantKind = kind
	}
	vAssert(t.kind == wantKind, "configuration: the target of a test")
	vAssert(t.qual == verifQualValues[qu], "configuration: the qualifier of a test")
	vAssert(t.op.getOp() == verifCompareOpsXML[co], "configuration: the comparison of a test")
	vAssert(t.op.getFlags() == map[bool]int64{true: opFlagIgnoreBlanks, false: 0}[e == "true"], "configuration: the blanks are ignored only if asked")
	if obj == 0 {
		vAssert(t.object == SIZE, "configuration: the object of a test")
	} else {
		vAssert(t.object >= FirstCustomObject, "configuration: a new object is registered")
		vAssert(t.object == config.customObjects["custom"], "configuration: a new object is registered")
	}
	vAssert(verifIsInt(t.expr, int(digit-'0')), "configuration: the value of a test")
	vAssert(r.edits[0].object == WEIGHT && r.edits[0].op.getOp() == opAssign && verifIsInt(r.edits[0].expr, 7), "configuration: the edit of a rule")
	// applying the rule is possible
	p := NewPattern()
	p.Add(SIZE, Int(vInt(0, 9)), true)
	config.Substitute(p, NewPattern(), kind)
	vCover("configuration: valid test")
}

func VerifC30Edit() {
	mt, a := verifOneOf(verifMatchTargets[1:])
	mt++
	mo, b := verifOneOf(verifModes)
	bi, c := verifOneOf(verifBindings)
	obj, name := verifOneOf([]string{"size", "custom", "-"})
	n := vConc(vInt(0, 2))
	digits := [2]byte{byte(vInt('0', '9')), byte(vInt('0', '9'))}
	exprs := ""
	for i := 0; i < n; i++ {
		exprs += "<int>" + verifDigit(digits[i]) + "</int>"
	}
	config, err := verifLoadXML("<match" + verifAttr("target", a) + "><edit" + verifAttr("mode", b) +
		verifAttr("name", name) + verifAttr("binding", c) + ">" + exprs + "</edit></match>")
	isDel := verifModeOps[mo] == opDelete || verifModeOps[mo] == opDeleteAll
	bad := a == "other" || b == "other" || c == "other" || name == "-" || isDel && n > 0 || a == "scan" && name == "custom"
	vAssert(bad == (err != nil), "configuration: the invalid edits are errors")
	if err != nil {
		vCover("configuration: invalid edit")
		return
	}
	kind := verifMatchKinds[mt]
	r, ok := verifOnlyRule(config, kind)
	vAssert(ok && len(r.tests) == 0 && len(r.edits) == 1, "configuration: one rule by match element")
	e := r.edits[0]
	vAssert(e.op.getOp() == verifModeOps[mo], "configuration: the mode of an edit")
	vAssert(e.binding == verifBindingVals[bi], "configuration: the binding of an edit")
	if obj == 0 {
		vAssert(e.object == SIZE, "configuration: the object of an edit")
	} else {
		vAssert(e.object >= FirstCustomObject && e.object == config.customObjects["custom"], "configuration: a new object is registered")
	}
	vals := e.expr.toValues(NewPattern(), NewPattern(), kind, e.binding)
	vAssert(len(vals) == n, "configuration: the values of an edit")
	for i, v := range vals {
		x, ok := v.Value.(Int)
		vAssert(ok && int(x) == int(digits[i]-'0'), "configuration: the values of an edit are in the order of the document")
	}
	p := NewPattern()
	p.Add(SIZE, Int(3), true)
	config.Substitute(p, NewPattern(), kind)
	vCover("configuration: valid edit")
}

// the value of the expression of an edit
func verifExprValue(config *Config, p Pattern, o Object) Value {
	r, ok := verifOnlyRule(config, MatchQuery)
	vAssert(ok && len(r.edits) == 1, "configuration: one rule by match element")
	vals := r.edits[0].expr.toValues(p, p, MatchQuery, vbWeak)
	if len(vals) == 0 {
		return nil
	}
	vAssert(len(vals) == 1, "configuration: one value by expression")
	return vals[0].Value
}

func verifEditXML(object, expr string) string {
	return `<match><edit name="` + object + `" mode="assign">` + expr + "</edit></match>"
}

func VerifC30Value() {
	d1, d2 := vInt(0, 9), vInt(0, 9)
	s1, s2 := verifDigit(byte('0'+d1)), verifDigit(byte('0'+d2))
	p := NewPattern()
	switch vConc(vInt(0, 11)) {
	case 0: // int
		neg := vFork(vBool())
		txt, want := s1+s2, 10*d1+d2
		if neg {
			txt, want = "-"+txt, -want
		}
		config, err := verifLoadXML(verifEditXML("size", "<int>"+txt+"</int>"))
		vAssert(err == nil, "configuration: valid int")
		v, ok := verifExprValue(config, p, SIZE).(Int)
		vAssert(ok && int(v) == want, "configuration: value of an int")
	case 1: // double
		d := vConc(d1)
		config, err := verifLoadXML(verifEditXML("size", "<double>"+verifDigit(byte('0'+d))+".5</double>"))
		vAssert(err == nil, "configuration: valid double")
		v, ok := verifExprValue(config, p, SIZE).(Float)
		vAssert(ok && float64(v) == float64(d)+0.5, "configuration: value of a double")
	case 2: // string
		c := byte(vInt('a', 'z'))
		config, err := verifLoadXML(verifEditXML("family", "<string>x &amp; "+string([]byte{c})+"</string>"))
		vAssert(err == nil, "configuration: valid string")
		v, ok := verifExprValue(config, p, FAMILY).(String)
		vAssert(ok && string(v) == "x & "+string([]byte{c}), "configuration: value of a string")
	case 3: // bool
		i, txt := verifOneOf([]string{"true", "false", "dontcare", "Yes", "no", "on", "off", "z"})
		config, err := verifLoadXML(verifEditXML("antialias", "<bool>"+txt+"</bool>"))
		vAssert((err != nil) == (txt == "z"), "configuration: valid bool")
		if err != nil {
			return
		}
		v, ok := verifExprValue(config, p, ANTIALIAS).(Bool)
		vAssert(ok && v == [...]Bool{True, False, DontCare, True, False, True, False}[i], "configuration: value of a bool")
	case 4: // range
		k1, k2 := vConc(vInt(0, 1)), vConc(vInt(0, 1))
		f1, f2 := float32(d1), float32(d2)
		var content string
		if k1 == 0 {
			content += "<int>" + s1 + "</int>"
		} else {
			d := vConc(d1)
			content += "<double>" + verifDigit(byte('0'+d)) + ".5</double>"
			f1 = float32(d) + 0.5
		}
		if k2 == 0 {
			content += "<int>" + s2 + "</int>"
		} else {
			d := vConc(d2)
			content += "<double>" + verifDigit(byte('0'+d)) + ".5</double>"
			f2 = float32(d) + 0.5
		}
		config, err := verifLoadXML(verifEditXML("size", "<range>"+content+"</range>"))
		vAssert((err != nil) == (f1 > f2), "configuration: a range has increasing bounds")
		if err != nil {
			vCover("configuration: invalid range")
			return
		}
		v, ok := verifExprValue(config, p, SIZE).(Range)
		vAssert(ok && v.Begin == f1 && v.End == f2, "configuration: value of a range")
		vCover("configuration: range")
	case 5: // matrix
		config, err := verifLoadXML(verifEditXML("matrix", "<matrix><double>1.5</double><double>"+verifDigit(byte('0'+vConc(d1)))+
			".5</double><double>2.5</double><double>"+verifDigit(byte('0'+vConc(vIte(d2 < 5, 1, 2))))+".5</double></matrix>"))
		vAssert(err == nil, "configuration: valid matrix")
		v, ok := verifExprValue(config, p, MATRIX).(Matrix)
		vAssert(ok && v.Xx == 1.5 && v.Xy == float32(d1)+0.5 && v.Yx == 2.5 && v.Yy == float32(vIte(d2 < 5, 1, 2))+0.5, "configuration: value of a matrix")
	case 6: // charset
		config, err := verifLoadXML(verifEditXML("charset", "<charset><int>"+s1+"</int><range><int>2</int><int>"+s2+"</int></range></charset>"))
		vAssert((err != nil) == (d2 < 2), "configuration: valid charset")
		if err != nil {
			return
		}
		v, ok := verifExprValue(config, p, CHARSET).(Charset)
		vAssert(ok, "configuration: value of a charset")
		x := vInt(0, 12)
		vAssert(v.HasChar(rune(x)) == vOr(x == d1, vAnd(2 <= x, x <= d2)), "configuration: characters of a charset")
		vCover("configuration: charset")
	case 7: // langset
		i, txt := verifOneOf([]string{"fr", "ar", "zh-tw"})
		config, err := verifLoadXML(verifEditXML("lang", "<langset><string>"+txt+"</string><string>en</string></langset>"))
		vAssert(err == nil, "configuration: valid langset")
		v, ok := verifExprValue(config, p, LANG).(Langset)
		vAssert(ok, "configuration: value of a langset")
		for j, l := range []string{"fr", "ar", "zh-tw"} {
			vAssert((v.hasLang(l) == langEqual) == (i == j), "configuration: languages of a langset")
		}
		vAssert(v.hasLang("en") == langEqual, "configuration: languages of a langset")
	case 8: // constant
		i, txt := verifOneOf([]string{"bold", "roman", "mono", "zz"})
		config, err := verifLoadXML(verifEditXML([...]string{"weight", "slant", "spacing", "weight"}[i], "<const>"+txt+"</const>"))
		vAssert((err != nil) == (i == 3), "configuration: the unknown constants are errors")
		if err != nil {
			return
		}
		v, ok := verifExprValue(config, p, WEIGHT).(Int)
		vAssert(ok && int(v) == [...]int{WEIGHT_BOLD, SLANT_ROMAN, MONO}[i], "configuration: value of a constant")
	case 9: // the value of a name is the one of the pattern
		o, txt := verifOneOf([]string{"size", "custom", "dpi"})
		i, target := verifOneOf([]string{"-", "default", "pattern", "font", "other"})
		config, err := verifLoadXML(`<match target="font"><edit name="size" mode="assign"><name` + verifAttr("target", target) + ">" + txt + "</name></edit></match>")
		vAssert((err != nil) == (i == 4), "configuration: the target of a name")
		if err != nil {
			return
		}
		obj := [...]Object{SIZE, config.customObjects["custom"], DPI}[o]
		q := NewPattern()
		q.Add(obj, Float(d2), true)
		p.Add(obj, Float(d1), true)
		config.Substitute(p, q, MatchResult)
		v, res := p.GetAt(SIZE, 0)
		x, ok := v.(Float)
		vAssert(res == ResultMatch && ok, "configuration: value of a name")
		vAssert(x == Float(vIte(i == 2, d2, d1)), "configuration: a name is looked for in its target")
		vCover("configuration: name")
	case 10: // negative characters
		vAssume(d1 > 0)
		_, content := verifOneOf([]string{"<int>-" + s1 + "</int>", "<range><int>-" + s1 + "</int><int>" + s2 + "</int></range>"})
		_, err := verifLoadXML(verifEditXML("charset", "<charset>"+content+"</charset>"))
		vAssert(err != nil, "configuration: the negative characters are errors")
	case 11: // out of range
		config, err := verifLoadXML(verifEditXML("size", "<int>214748364"+s1+"</int>"))
		vAssert((err != nil) == (d1 > 7), "configuration: the integers out of range are errors")
		if err != nil {
			return
		}
		v, ok := verifExprValue(config, p, SIZE).(Int)
		vAssert(ok && int(v) == 2147483640+d1, "configuration: value of an int")
	}
}

var verifXMLOps = []string{
	"or", "and", "eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains",
	"plus", "minus", "times", "divide", "not", "floor", "ceil", "round", "trunc", "if",
}

func verifIsBool(v Value, want bool) bool {
	b, ok := v.(Bool)
	return ok && (b == True) == want && b != DontCare
}

func VerifC30Operator() {
	d1, d2 := vInt(0, 9), vInt(0, 9)
	i1, i2 := "<int>"+verifDigit(byte('0'+d1))+"</int>", "<int>"+verifDigit(byte('0'+d2))+"</int>"
	b1, b2 := vBool(), vBool()
	bs := func(b bool) string { // false or true
		return "<bool>" + verifDigit(byte('0'+vIte(b, 1, 0))) + "</bool>"
	}
	op, name := verifOneOf(verifXMLOps)
	_ = op
	object := "custom" // no check of the types
	var content string
	switch name {
	case "or", "and":
		content = bs(b1) + bs(b2)
	case "not":
		content = bs(b1)
	case "if":
		content = bs(b1) + i1 + i2
	case "floor", "ceil", "round", "trunc":
		content = "<double>" + verifDigit(byte('0'+vConc(d1))) + ".75</double>"
	case "divide":
		d2 = vConc(d2)
		vAssume(d2 != 0)
		content = "<int>" + verifDigit(byte('0'+vConc(d1))) + "</int>" + "<int>" + verifDigit(byte('0'+d2)) + "</int>"
	default:
		content = i1 + i2
	}
	nested := vFork(vBool())
	x := "<" + name + ">" + content + "</" + name + ">"
	if nested {
		// in an other expression: an operator with only one operand is its operand
		x = "<and> " + x + "\n</and>"
	}
	config, err := verifLoadXML(verifEditXML(object, x))
	vAssert(err == nil, "configuration: valid expression")
	v := verifExprValue(config, NewPattern(), FirstCustomObject)
	isInt := func(want int) bool {
		r, ok := v.(Int)
		return ok && int(r) == want
	}
	ok := false
	switch name {
	case "or":
		ok = verifIsBool(v, vOr(b1, b2))
	case "and":
		ok = verifIsBool(v, vAnd(b1, b2))
	case "not":
		ok = verifIsBool(v, !b1)
	case "eq", "contains":
		ok = verifIsBool(v, d1 == d2)
	case "not_eq", "not_contains":
		ok = verifIsBool(v, d1 != d2)
	case "less":
		ok = verifIsBool(v, d1 < d2)
	case "less_eq":
		ok = verifIsBool(v, d1 <= d2)
	case "more":
		ok = verifIsBool(v, d1 > d2)
	case "more_eq":
		ok = verifIsBool(v, d1 >= d2)
	case "plus":
		ok = isInt(d1 + d2)
	case "minus":
		ok = isInt(d1 - d2)
	case "times":
		ok = isInt(d1 * d2)
	case "divide":
		if d1%d2 == 0 {
			ok = isInt(d1 / d2)
		} else {
			f, isFloat := v.(Float)
			ok = isFloat && f == Float(float64(d1)/float64(d2))
		}
	case "floor", "trunc":
		ok = isInt(d1)
	case "ceil", "round":
		ok = isInt(d1 + 1)
	case "if":
		ok = isInt(vIte(b1, d1, d2))
	}
	vAssert(ok, "configuration: value of an operator")
	vCover("configuration: operator")
}

// Aliases: the families are added around the family which is matched.
func VerifC30Alias() {
	bi, b := verifOneOf(verifBindings)
	var lists [3][]byte
	letters := 3
	content := ""
	order := vConc(vInt(0, 1))
	for k := 0; k < 3; k++ {
		i := k
		if order == 1 {
			i = 2 - k
		}
		n := vConc(vInt(0, vParam("FAM")))
		if i == 2 && n > 1 {
			n = 1
		}
		if n == 0 {
			continue
		}
		tag := [...]string{"prefer", "accept", "default"}[i]
		content += "<" + tag + ">"
		for j := 0; j < n; j++ {
			c := byte('n' + 3*i + j)
			lists[i] = append(lists[i], c)
			content += "<family>" + string([]byte{c}) + "</family>"
		}
		content += "</" + tag + ">"
	}
	fam := byte(vInt('a', 'a'+letters-1))
	nfam := vConc(vInt(0, 2))
	for i := 0; i < nfam; i++ {
		f := "<family>" + string([]byte{fam}) + "</family>"
		if order == 1 {
			content += f
		} else {
			content = f + content
		}
	}
	config, err := verifLoadXML("<alias" + verifAttr("binding", b) + ">" + content + "</alias>")
	vAssert((err != nil) == (nfam != 1 || b == "other"), "configuration: an alias has one family")
	if err != nil {
		vCover("configuration: invalid alias")
		return
	}

	query := vConc(vInt(0, 2))
	p := NewPattern()
	p.Add(PRGNAME, String("p"), true)
	var list verifList
	list.anchor = -1
	for i := 0; i < query; i++ {
		x := vInt(int('a'), int('a')+letters-1)
		strong := vFork(vBool())
		bind := vbWeak
		if strong {
			bind = vbStrong
		}
		list.items = append(list.items, verifItem{x, int(bind)})
		// upper case letters are the same
		p.addWithBinding(FAMILY, String([]byte{byte(x - 32*vConc(vInt(0, 1)))}), bind, true)
	}
	for i := len(list.items) - 1; i >= 0; i-- {
		if list.items[i].x == int(fam) {
			list.anchor = i
		}
	}
	if list.anchor >= 0 {
		for i, op := range [...]opKind{opPrepend, opAppend, opAppendLast} {
			var items []verifItem
			for _, c := range lists[i] {
				items = append(items, verifItem{int(c), int(verifBindingVals[bi])})
			}
			if len(items) != 0 {
				list.edit(op, items)
			}
		}
		vCover("configuration: alias applied")
	}
	config.Substitute(p, NewPattern(), MatchQuery)
	var got valueList
	if l := p[FAMILY]; l != nil {
		got = *l
	}
	vAssert(len(got) == len(list.items), "configuration: the families of an alias")
	for i, v := range got {
		s, ok := v.Value.(String)
		vAssert(ok && len(s) == 1, "configuration: the families of an alias")
		c := int(s[0])
		c = vIte(c < 'a', c+32, c)
		vAssert(c == list.items[i].x, "configuration: the families of an alias are around the matched one")
		vAssert(int(v.Binding) == list.items[i].binding, "configuration: the binding of an alias")
	}
}

func VerifC30Select() {
	n := vConc(vInt(1, 2))
	var globs [2][]string
	var pats [2][]int
	content := ""
	for i := 0; i < n; i++ {
		accept := vConc(vInt(0, 1))
		tag := [...]string{"rejectfont", "acceptfont"}[accept]
		content += "<" + tag + ">"
		m := vConc(vInt(0, 2))
		for j := 0; j < m; j++ {
			c := vInt('0', '9')
			if vFork(vBool()) {
				g := string([]byte{'/', byte('a' + 2*i + j), '*'})
				content += "<glob>" + g + "</glob>"
				globs[accept] = append(globs[accept], g)
			} else {
				content += `<pattern><patelt name="weight"><int>` + verifDigit(byte(c)) + `</int></patelt><patelt name="family"><string>x</string></patelt></pattern>`
				pats[accept] = append(pats[accept], c-'0')
			}
		}
		content += "</" + tag + ">"
	}
	config, err := verifLoadXML("<selectfont>" + content + "</selectfont>")
	vAssert(err == nil, "configuration: valid font selectors")
	for k, set := range [2]strSet{config.rejectGlobs, config.acceptGlobs} {
		vAssert(len(set) == len(globs[k]), "configuration: the globs of the selectors")
		for _, g := range globs[k] {
			vAssert(set[g], "configuration: the globs of the selectors")
		}
	}
	for k, fs := range [2]Fontset{config.rejectPatterns, config.acceptPatterns} {
		vAssert(len(fs) == len(pats[k]), "configuration: the patterns of the selectors")
		for i, p := range fs {
			w, ok := p.GetInt(WEIGHT)
			vAssert(ok && int(w) == pats[k][i], "configuration: the patterns of the selectors")
			f, ok := p.GetString(FAMILY)
			vAssert(ok && f == "x" && len(p) == 2, "configuration: the patterns of the selectors")
		}
	}
	vCover("configuration: selectors")
}

// No content makes the loading or the use of the rules fail abruptly.
func VerifC30Any() {
	var elems []string
	for _, e := range elementMap {
		if e != "" {
			elems = append(elems, e)
		}
	}
	_, outer := verifOneOf(elems)
	inner := ""
	if vConc(vInt(0, 1)) == 1 {
		_, e := verifOneOf(elems)
		inner = "<" + e + verifAnyAttrs(e) + ">1</" + e + ">"
		if vParam("TWICE") == 1 && vConc(vInt(0, 1)) == 1 {
			inner += inner
		}
	} else {
		_, inner = verifOneOf([]string{"", "1", "bold", "<!-- c -->"})
	}
	x := "<" + outer + verifAnyAttrs(outer) + ">" + inner + "</" + outer + ">"
	ctx := vConc(vInt(0, 5))
	switch ctx {
	case 1:
		x = "<match>" + x + "</match>"
	case 2:
		x = `<match><edit name="size" mode="assign">` + x + "</edit></match>"
	case 3:
		x = `<match><test name="family">` + x + "</test></match>"
	case 4:
		x = "<alias><family>a</family>" + x + "</alias>"
	}
	config, err := NewConfig(), error(nil)
	if ctx == 5 { // as the root
		err = config.LoadFromMemory(strings.NewReader(x))
	} else {
		config, err = verifLoadXML(x)
	}
	if err != nil {
		vCover("configuration: refused")
		return
	}
	for _, kind := range [...]matchKind{MatchQuery, MatchResult, MatchScan} {
		p := NewPattern()
		p.Add(PRGNAME, String("p"), true)
		p.Add(FAMILY, String("a"), true)
		p.Add(SIZE, Int(1), true)
		config.Substitute(p, NewPattern(), kind)
	}
	vCover("configuration: accepted")
}

func verifAnyAttrs(e string) string {
	switch e {
	case "test", "edit", "patelt":
		return ` name="size"`
	}
	return ""
}

// Expressions in expressions.
func VerifC30Nested() {
	digits := func() (string, int) {
		d := vInt(0, 9)
		return "<int>" + verifDigit(byte('0'+d)) + "</int>", d
	}
	a, va := digits()
	b, vb := digits()
	c, vc := digits()
	_, op1 := verifOneOf([]string{"minus", "plus", "less", "if"})
	i2, op2 := verifOneOf([]string{"minus", "times", "plus", "if", "floor"})
	_ = i2
	sep := "\n\t<!-- comment -->"
	inner, vinner := "", 0
	switch op2 {
	case "minus":
		inner, vinner = b+sep+c, vb-vc
	case "plus":
		inner, vinner = b+c, vb+vc
	case "times":
		inner, vinner = b+sep+c, vb*vc
	case "floor":
		inner, vinner = c, vc
	case "if":
		inner, vinner = "<more>"+b+c+"</more>"+sep+b+c, vIte(vb > vc, vb, vc)
	}
	inner = "<" + op2 + ">" + inner + "</" + op2 + ">"
	first := vFork(vBool())
	x, vx, y, vy := a, va, inner, vinner
	if first {
		x, vx, y, vy = y, vy, x, vx
	}
	var content string
	var want int
	switch op1 {
	case "minus":
		content, want = x+y, vx-vy
	case "plus":
		content, want = x+sep+y+a, vx+vy+va
	case "less":
		content, want = x+sep+y, vIte(vx < vy, 1, 0)
	case "if":
		content, want = "<eq>"+b+c+"</eq>"+x+y, vIte(vb == vc, vx, vy)
	}
	config, err := verifLoadXML(verifEditXML("custom", "<"+op1+">"+content+"</"+op1+">"))
	vAssert(err == nil, "configuration: valid nested expression")
	v := verifExprValue(config, NewPattern(), FirstCustomObject)
	if op1 == "less" {
		bo, ok := v.(Bool)
		vAssert(ok && int(bo) == want, "configuration: value of a nested expression")
		return
	}
	r, ok := v.(Int)
	vAssert(ok && int(r) == want, "configuration: value of a nested expression")
	vCover("configuration: nested")
}

// The rules are applied in the order of the documents, for their target only.
func VerifC30Order() {
	n := vParam("N")
	var content [2]string
	var want []int
	kind := [...]matchKind{MatchQuery, MatchResult, MatchScan}[vConc(vInt(0, 2))]
	p := NewPattern()
	p.Add(PRGNAME, String("p"), true)
	s := vInt(0, 9)
	p.Add(SIZE, Int(s), true)
	files := vConc(vInt(1, 2))
	for i := 0; i < n; i++ {
		f := 0
		if files == 2 && i >= n/2 {
			f = 1
		}
		t, target := verifOneOf(verifMatchTargets[:4])
		x, d := vInt(0, 9), vInt(0, 9)
		last := vFork(vBool())
		mode := "prepend_first"
		if last {
			mode = "append_last"
		}
		content[f] += "<match" + verifAttr("target", target) + `><test target="` + [...]string{"pattern", "font", "scan"}[kind] + `" name="size" compare="less_eq"><int>` + verifDigit(byte('0'+x)) + "</int></test>" +
			`<edit name="weight" mode="` + mode + `"><int>` + verifDigit(byte('0'+d)) + "</int></edit></match>\n<description>x</description>"
		if verifMatchKinds[t] == kind && s <= x {
			if last {
				want = append(want, d)
			} else {
				want = append([]int{d}, want...)
			}
		}
	}
	config := NewConfig()
	for f := 0; f < files; f++ {
		err := config.LoadFromMemory(strings.NewReader("<?xml version=\"1.0\"?>\n<!DOCTYPE fontconfig SYSTEM \"fonts.dtd\">\n<fontconfig>" + content[f] + "</fontconfig>"))
		vAssert(err == nil, "configuration: valid rules")
	}
	config.Substitute(p, p, kind)
	got := p.getVals(WEIGHT)
	vAssert(len(got) == len(want), "configuration: the rules with the target are applied")
	for i, v := range got {
		x, ok := v.Value.(Int)
		vAssert(ok && int(x) == want[i], "configuration: the rules are applied in the order of the files")
	}
	vCoverIf(len(want) == n, "configuration: all rules applied")
}

// An alias with other tests.
func VerifC30AliasTest() {
	x, s := vInt(0, 9), vInt(0, 9)
	test := `<test name="size" compare="more"><int>` + verifDigit(byte('0'+x)) + "</int></test>"
	second := vFork(vBool())
	if second {
		test += `<test name="slant" compare="eq"><const>italic</const></test>`
	}
	content := []string{test, "<family>a</family>", "<prefer><family>b</family></prefer>"}
	i := vConc(vInt(0, 2))
	content[0], content[i] = content[i], content[0]
	config, err := verifLoadXML("<alias>" + content[0] + content[1] + content[2] + "</alias>")
	vAssert(err == nil, "configuration: valid alias with a test")
	p := NewPattern()
	p.Add(PRGNAME, String("p"), true)
	if r, ok := verifOnlyRule(config, MatchQuery); ok {
		// the order decides of the matched values
		n := len(r.tests)
		vAssert(n >= 2 && r.tests[0].object == SIZE && r.tests[n-1].object == FAMILY, "configuration: the tests of an alias are in order")
	}
	fi, family := verifOneOf([]string{"a", "A", " a", "ab", "ba", "b", ""})
	hasFamily := fi < 3 // blanks and case are ignored
	if family != "" {
		p.Add(FAMILY, String(family), true)
	}
	p.Add(SIZE, Int(s), true)
	sl := vInt(0, 1)
	p.Add(SLANT, Int(sl*SLANT_ITALIC), true)
	config.Substitute(p, p, MatchQuery)
	f, _ := p.GetString(FAMILY)
	applied := vAnd(s > x, vOr(!second, sl == 1))
	switch {
	case !hasFamily:
		vAssert(f == family, "configuration: an alias is for one family")
	case applied:
		vAssert(f == "b", "configuration: an alias is applied when its tests pass")
		vCover("configuration: alias with a test")
	default:
		vAssert(f == family, "configuration: an alias is not applied when its tests fail")
	}
}

// The values of the patterns of the selectors.
func VerifC30Patelt() {
	d1, d2 := vInt(0, 9), vInt(0, 9)
	i1, i2 := "<int>"+verifDigit(byte('0'+d1))+"</int>", "<int>"+verifDigit(byte('0'+d2))+"</int>"
	i, elt := verifOneOf([]string{
		`<patelt name="weight"><const>bold</const></patelt>`,
		`<patelt name="weight"><const>zz</const></patelt>`,
		`<patelt name="weight">` + i1 + i2 + `</patelt>`,
		`<patelt name="weight"><range>` + i1 + i2 + `</range></patelt>`,
		`<patelt name="antialias"><bool>yes</bool></patelt>`,
		`<patelt name="lang"><langset><string>fr</string></langset></patelt>`,
		`<patelt name="charset"><charset>` + i1 + `</charset></patelt>`,
		`<patelt name="size"><double>2.5</double></patelt>`,
		`<patelt name="custom"><string>x</string></patelt>`,
		`<patelt><int>1</int></patelt>`,
		`<patelt name="weight"><plus>` + i1 + i2 + `</plus></patelt>`,
		`<int>1</int>`,
	})
	config, err := verifLoadXML("<selectfont><rejectfont><pattern>" + elt + "</pattern></rejectfont></selectfont>")
	bad := i == 1 || i >= 9 || i == 3 && d1 > d2
	vAssert((err != nil) == bad, "configuration: the invalid patterns are errors")
	if err != nil {
		vCover("configuration: invalid pattern")
		return
	}
	vAssert(len(config.rejectPatterns) == 1 && len(config.acceptPatterns) == 0 && len(config.rejectPatterns[0]) == 1, "configuration: the pattern of a selector")
	p := config.rejectPatterns[0]
	ok := false
	switch i {
	case 0:
		w, _ := p.GetInt(WEIGHT)
		ok = w == WEIGHT_BOLD
	case 2:
		vals := p.getVals(WEIGHT)
		vAssert(len(vals) == 2, "configuration: the values of a pattern")
		x, _ := vals[0].Value.(Int)
		y, _ := vals[1].Value.(Int)
		ok = vOr(vAnd(int(x) == d1, int(y) == d2), vAnd(int(x) == d2, int(y) == d1))
	case 3:
		r, _ := p.getVals(WEIGHT)[0].Value.(Range)
		ok = r.Begin == float32(d1) && r.End == float32(d2)
	case 4:
		b, _ := p.GetBool(ANTIALIAS)
		ok = b == True
	case 5:
		l, _ := p.getVals(LANG)[0].Value.(Langset)
		ok = l.hasLang("fr") == langEqual && l.hasLang("en") != langEqual
	case 6:
		c, _ := p.GetCharset(CHARSET)
		ok = c.Len() == 1 && c.HasChar(rune(d1))
	case 7:
		f, _ := p.GetFloat(SIZE)
		ok = f == 2.5
	case 8:
		s, _ := p.GetString(config.customObjects["custom"])
		ok = s == "x"
	}
	vAssert(ok, "configuration: the values of a pattern")
	vCover("configuration: pattern")
}

// The objects which are not builtin are distinct, and kept by the substitutions.
func VerifC30Custom() {
	names := []string{"one", "two", "three"}
	used := [3]bool{}
	var vals [3]int
	content := ""
	n := vConc(vInt(1, 3))
	for i := 0; i < n; i++ {
		k := vConc(vInt(0, 2))
		d := vInt(0, 9)
		used[k], vals[k] = true, d
		content += `<match><test name="` + names[(k+1)%3] + `" qual="all" compare="less"><int>9</int></test>` +
			`<edit name="` + names[k] + `" mode="assign"><int>` + verifDigit(byte('0'+d)) + "</int></edit></match>"
		if l := (k + 1) % 3; used[l] && vals[l] >= 9 { // the test fails
			return
		}
	}
	config, err := verifLoadXML(content)
	vAssert(err == nil, "configuration: valid rules on new objects")
	p := NewPattern()
	p.Add(PRGNAME, String("p"), true)
	p.Add(SIZE, Int(5), true)
	config.Substitute(p, p, MatchQuery)
	seen := map[Object]bool{}
	for k, name := range names {
		o, ok := config.customObjects[name]
		if !ok {
			continue
		}
		vAssert(o >= FirstCustomObject && !seen[o], "configuration: the new objects are distinct")
		seen[o] = true
		got := p.getVals(o)
		vAssert((len(got) == 1) == used[k], "configuration: the values of the new objects")
		if used[k] {
			x, ok := got[0].Value.(Int)
			vAssert(ok && int(x) == vals[k], "configuration: the values of the new objects")
		}
	}
	s, _ := p.GetInt(SIZE)
	vAssert(s == 5, "configuration: the other objects are kept")
	vCoverIf(len(seen) == 3, "configuration: new objects")
}
