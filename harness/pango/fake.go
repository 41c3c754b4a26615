package pango

import (
	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/harfbuzz"
)

// a font map with the given fonts, in the same order for all descriptions

type vFont struct {
	name    string
	width   Unit // approximate width
	metrics FontMetrics
	has     func(r rune) bool // nil for all
	loaded  int
	desc    *FontDescription // size and variant, if not nil
	face    *vFace           // nil if nothing is shaped
	hb      *harfbuzz.Font
}

// vFace has one glyph by character, without ligatures or kerning
type vFace struct {
	name  string
	width func(r rune) int
	has   func(r rune) bool // nil for all
}

func (f *vFace) Cmap() (fonts.Cmap, fonts.CmapEncoding)             { return nil, fonts.EncUnicode }
func (f *vFace) PostscriptInfo() (fonts.PSInfo, bool)               { return fonts.PSInfo{}, false }
func (f *vFace) PoscriptName() string                               { return f.name }
func (f *vFace) LoadSummary() (fonts.FontSummary, error)            { return fonts.FontSummary{}, nil }
func (f *vFace) LoadBitmaps() []fonts.BitmapSize                    { return nil }
func (f *vFace) Upem() uint16                                       { return 1000 }
func (f *vFace) GlyphName(gid fonts.GID) string                     { return "" }
func (f *vFace) LineMetric(metric fonts.LineMetric) (float32, bool) { return 0, false }
func (f *vFace) FontHExtents() (fonts.FontExtents, bool)            { return fonts.FontExtents{}, false }
func (f *vFace) FontVExtents() (fonts.FontExtents, bool)            { return fonts.FontExtents{}, false }
func (f *vFace) NominalGlyph(ch rune) (fonts.GID, bool) {
	if f.has == nil || f.has(ch) {
		return fonts.GID(ch), true
	}
	return 0, false
}
func (f *vFace) HorizontalAdvance(gid fonts.GID) float32         { return float32(f.width(rune(gid))) }
func (f *vFace) VerticalAdvance(gid fonts.GID) float32           { return 0 }
func (f *vFace) GlyphHOrigin(fonts.GID) (x, y int32, found bool) { return 0, 0, true }
func (f *vFace) GlyphVOrigin(fonts.GID) (x, y int32, found bool) { return 0, 0, true }
func (f *vFace) GlyphExtents(glyph fonts.GID, xPpem, yPpem uint16) (fonts.GlyphExtents, bool) {
	return fonts.GlyphExtents{}, false
}
func (f *vFace) GlyphData(gid fonts.GID, xPpem, yPpem uint16) fonts.GlyphData { return nil }

type vFontMap struct {
	fonts  []*vFont
	emoji  []*vFont // fonts of the family emoji
	sized  bool     // the fonts have the size and the variant of the description
	sets   []*vFontset
	choose func(desc *FontDescription, lang Language) int // key of the set
	serial uint
}

type vFontset struct {
	key   int
	fm    *vFontMap
	lang  Language
	fonts []*vFont
}

func (f *vFont) FaceID() fonts.FaceID { return fonts.FaceID{File: f.name} }

func (f *vFont) Describe(absolute bool) FontDescription {
	d := NewFontDescription()
	d.SetFamily(f.name)
	if f.desc != nil {
		d.SetSize(f.desc.Size)
		d.SetVariant(f.desc.Variant)
	}
	return d
}

func (f *vFont) Get(r rune) bool               { return f.has == nil || f.has(r) }
func (f *vFont) Set(r rune, covered bool)      {}
func (f *vFont) GetCoverage(Language) Coverage { return f }

func (f *vFont) GlyphExtents(glyph Glyph, inkRect, logicalRect *Rectangle) {
	r := Rectangle{Y: -f.metrics.Ascent, Height: f.metrics.Ascent + f.metrics.Descent, Width: f.width}
	if f.face != nil {
		r.Width = Unit(f.face.width(rune(glyph)))
	}
	if inkRect != nil {
		*inkRect = r
	}
	if logicalRect != nil {
		*logicalRect = r
	}
}

func (f *vFont) GetMetrics(Language) FontMetrics { return f.metrics }
func (f *vFont) GetFontMap() FontMap             { return nil }
func (f *vFont) GetFeatures() []harfbuzz.Feature { return nil }

func (f *vFont) GetHarfbuzzFont() *harfbuzz.Font {
	if f.hb == nil && f.face != nil {
		f.hb = harfbuzz.NewFont(f.face)
	}
	return f.hb
}

func (fm *vFontMap) GetSerial() uint { return fm.serial }

func (fm *vFontMap) LoadFontset(context *Context, desc *FontDescription, lang Language) Fontset {
	key := 0
	if fm.choose != nil {
		key = fm.choose(desc, lang)
	}
	list := fm.fonts
	if len(fm.emoji) != 0 && desc.FamilyName == "emoji" {
		list = fm.emoji
		key += 100
	}
	if fm.sized {
		key += 1000*(int(desc.Size)*16+int(desc.Variant)) + 200*int(desc.Gravity)
	}
	for _, s := range fm.sets {
		if s.key == key && s.lang == lang {
			return s
		}
	}
	s := &vFontset{key: key, fm: fm, lang: lang, fonts: list}
	if fm.sized {
		s.fonts = nil
		for _, f := range list {
			g, d := *f, *desc
			g.desc = &d
			s.fonts = append(s.fonts, &g)
		}
	}
	fm.sets = append(fm.sets, s)
	return s
}

func (fs *vFontset) GetLanguage() Language { return fs.lang }

func (fs *vFontset) Foreach(fn FontsetForeachFunc) {
	for _, f := range fs.fonts {
		if fn(f) {
			return
		}
	}
}
