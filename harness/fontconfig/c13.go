package fontconfig

import (
	"bytes"
	"compress/gzip"
	"io"
	"math"
)

// Binary form of font sets.

func verifBits() uint32 { return uint32(vInt(0, 0xffffffff)) }

func verifF32() float32 { return math.Float32frombits(verifBits()) }

// any value of the given type
func verifValue(kind int) Value {
	switch kind {
	case tInt:
		return Int(verifBits())
	case tFloat:
		return Float(verifF32())
	case tString:
		b := make([]byte, vParam("S"))
		for i := range b {
			b[i] = byte(vInt(0, 255))
		}
		return String(b[:vConc(vInt(0, len(b)))])
	case tBool:
		return Bool(vInt(0, 2))
	case tCharset:
		var cs Charset
		for i, n := 0, vConc(vInt(0, 2)); i < n; i++ {
			var pg charPage
			for j := range pg {
				pg[j] = verifBits()
			}
			cs.pageNumbers = append(cs.pageNumbers, uint16(vInt(0, 0xffff)))
			cs.pages = append(cs.pages, pg)
		}
		return cs
	case tLangset:
		var ls Langset
		for j := range ls.page {
			ls.page[j] = verifBits()
		}
		return ls
	case tMatrix:
		return Matrix{verifF32(), verifF32(), verifF32(), verifF32()}
	default:
		return Range{verifF32(), verifF32()}
	}
}

func verifSameF(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

// a and b are identical
func verifSameValue(a, b Value) bool {
	switch a := a.(type) {
	case Int:
		b, ok := b.(Int)
		return ok && a == b
	case Float:
		b, ok := b.(Float)
		return ok && verifSameF(float32(a), float32(b))
	case String:
		b, ok := b.(String)
		return ok && len(a) == len(b) && string(a) == string(b)
	case Bool:
		b, ok := b.(Bool)
		return ok && a == b
	case Charset:
		b, ok := b.(Charset)
		if !ok || len(a.pageNumbers) != len(b.pageNumbers) || len(a.pages) != len(b.pages) || len(a.pages) != len(a.pageNumbers) {
			return false
		}
		same := true
		for i, pg := range a.pages {
			same = vAnd(same, a.pageNumbers[i] == b.pageNumbers[i])
			for j := range pg {
				same = vAnd(same, pg[j] == b.pages[i][j])
			}
		}
		return same
	case Langset:
		b, ok := b.(Langset)
		if !ok || len(a.extra) != 0 || len(b.extra) != 0 {
			return false
		}
		same := true
		for j := range a.page {
			same = vAnd(same, a.page[j] == b.page[j])
		}
		return same
	case Matrix:
		b, ok := b.(Matrix)
		return ok && vAnd(vAnd(verifSameF(a.Xx, b.Xx), verifSameF(a.Xy, b.Xy)), vAnd(verifSameF(a.Yx, b.Yx), verifSameF(a.Yy, b.Yy)))
	case Range:
		b, ok := b.(Range)
		return ok && vAnd(verifSameF(a.Begin, b.Begin), verifSameF(a.End, b.End))
	}
	return false
}

func verifSamePattern(a, b Pattern) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for o, la := range a {
		lb := b[o]
		if lb == nil || len(*la) != len(*lb) {
			return false
		}
		for i, v := range *la {
			w := (*lb)[i]
			same = vAnd(same, vAnd(v.Binding == w.Binding, verifSameValue(v.Value, w.Value)))
		}
	}
	return same
}

// up to P objects with up to V values each of any type
func verifPattern() Pattern {
	p := NewPattern()
	objs := [...]Object{FAMILY, CHARSET, FirstCustomObject + 1000}
	for i, n := 0, vConc(vInt(0, vParam("P"))); i < n; i++ {
		var list valueList
		for j, m := 0, vConc(vInt(0, vParam("V"))); j < m; j++ {
			list = append(list, valueElt{
				Value:   verifValue(vConc(vInt(tInt, tRange))),
				Binding: valueBinding(vInt(0, 2)),
			})
		}
		p[objs[i]] = &list
	}
	return p
}

// writing then reading a font set
func VerifC13RoundTrip() {
	vMapOrder(true)
	var fs Fontset
	for i, n := 0, vParam("F"); i < n; i++ {
		fs = append(fs, verifPattern())
	}
	var w bytes.Buffer
	vAssert(fs.Serialize(&w) == nil, "a font set is written")
	got, err := LoadFontset(&w)
	vAssert(err == nil, "what was written is read")
	vAssert(len(got) == len(fs), "number of fonts")
	for i, p := range fs {
		vAssert(verifSamePattern(p, got[i]), "the pattern is the same after writing and reading")
	}
}

func verifWrap(b []byte) io.Reader {
	var w bytes.Buffer
	z := gzip.NewWriter(&w)
	z.Write(b)
	z.Close()
	return &w
}

func verifNoNil(fs Fontset) bool {
	for _, p := range fs {
		for _, l := range p {
			if l == nil {
				return false
			}
			for _, v := range *l {
				if v.Value == nil {
					return false
				}
			}
		}
	}
	return true
}

// any bytes
func VerifC13Any() {
	b := make([]byte, vParam("N"))
	for i := range b {
		if i < 8 && i%4 < 3 { // sizes
			b[i] = byte(vInt(0, 1) * 255)
		} else {
			b[i] = byte(vInt(0, 10))
		}
	}
	fs, err := LoadFontset(verifWrap(b[:vConc(vInt(0, len(b)))]))
	if err == nil {
		vAssert(verifNoNil(fs), "every value which is read has a type")
		vCover("read")
		if len(fs) != 0 {
			vCover("read a font")
		}
	}
}

// the bytes of one pattern, with any sizes
func VerifC13AnyPattern() {
	b := make([]byte, vParam("N"))
	for i := range b {
		b[i] = byte(vInt(0, 10))
		if i < vParam("wide") {
			b[i] = byte(vIte(vBool(), 255, int(b[i])))
		}
	}
	p, err := deserializePatternBin(b[:vConc(vInt(0, len(b)))])
	if err == nil {
		vAssert(verifNoNil(Fontset{p}), "every value which is read has a type")
		vCover("read")
		out, err := p.serializeBin()
		vAssert(err == nil, "a pattern which was read can be written")
		q, err := deserializePatternBin(out)
		vAssert(err == nil && verifSamePattern(p, q), "a pattern which was read is kept by writing and reading")
	}
}

// a font set cut at any point, with one byte changed
func VerifC13Damaged() {
	fs := Fontset{verifPattern()}
	var w bytes.Buffer
	vAssert(fs.Serialize(&w) == nil, "a font set is written")
	z, err := gzip.NewReader(&w)
	vAssert(err == nil, "compressed")
	var raw bytes.Buffer
	io.Copy(&raw, z)
	b := raw.Bytes()
	if vFork(vBool()) {
		cut := vConc(vInt(0, len(b)-1))
		_, err := LoadFontset(verifWrap(b[:cut]))
		vAssert(err != nil, "a font set cut short is an error")
		vCover("cut")
		return
	}
	at := vConc(vInt(0, len(b)-1))
	b[at] = byte(vInt(0, 10))
	got, err := LoadFontset(verifWrap(b))
	if err == nil {
		vAssert(verifNoNil(got), "every value which is read has a type")
		vCover("changed")
	}
}
