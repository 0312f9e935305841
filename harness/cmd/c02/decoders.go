package main

import (
	"bytes"
	"io"
	"math/rand/v2"
	"sort"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"
)

// input is the input of a decoder.
type input struct {
	a []byte
	b []byte // second table ("loca", "hmtx"), or nil
	n int    // parameter (loca format, position)
}

func (in input) size() int { return len(in.a) + len(in.b) }

// user calls accessors.
type user func(name string, fn func())

// decoder describes a decoder.
type decoder struct {
	name string
	two  bool // uses both tables
	// decode returns a function which uses the decoded value
	decode func(in input) (func(u user), error)
	seed   func(rng *rand.Rand) input
	// hostile makes an input which wants to be expensive
	hostile func(rng *rand.Rand) (input, string)
	// The library may allocate allocs + perByte*size bytes
	allocs, perByte int
}

const mb = 1 << 20

type readerOnly struct{ io.Reader }

// slowReader returns few bytes per call.
type slowReader struct {
	r io.Reader
	n int
}

func (s slowReader) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

var decoders = []*decoder{
	{name: "sfnt", allocs: 2500 * mb, perByte: 5000, seed: seedFont, hostile: hostileFont, decode: func(in input) (func(u user), error) {
		var r io.Reader = bytes.NewReader(in.a)
		switch in.n % 4 {
		case 1:
			r = readerOnly{r}
		case 2:
			r = slowReader{r, 1 + in.n/4%50}
		}
		f, err := sfnt.Read(r)
		if err != nil {
			return nil, err
		}
		return func(u user) { useFont(f, u) }, nil
	}},
	{name: "header", allocs: 2 * mb, perByte: 50, seed: seedFont, hostile: hostileHeader, decode: func(in input) (func(u user), error) {
		r := bytes.NewReader(in.a)
		info, err := header.Read(r)
		if err != nil {
			return nil, err
		}
		return func(u user) {
			for tag := range info.Toc {
				u("Has", func() { info.Has(tag, "none") })
				u("ReadTableBytes", func() { info.ReadTableBytes(r, tag) })
				u("TableReader", func() {
					if s, err := info.TableReader(r, tag); err == nil {
						io.Copy(io.Discard, s)
					}
				})
			}
			u("missing table", func() { info.ReadTableBytes(r, "none") })
		}, nil
	}},
	{name: "cff", allocs: 500 * mb, perByte: 5000, seed: seedCFF, hostile: hostileCFF, decode: func(in input) (func(u user), error) {
		f, err := cff.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) { useCFF(f, u) }, nil
	}},
	{name: "cmap", allocs: 64 * mb, perByte: 100, seed: seedTable("cmap"), hostile: hostileCmap, decode: func(in input) (func(u user), error) {
		t, err := cmap.Decode(in.a)
		if err != nil {
			return nil, err
		}
		return func(u user) { useCmap(t, u) }, nil
	}},
	{name: "cmap.Get", allocs: 64 * mb, perByte: 200, seed: seedCmapSub, hostile: hostileCmapSub, decode: func(in input) (func(u user), error) {
		// one subtable, as a part of a table
		d := []byte{0, 0, 0, 1, 0, 3, 0, 10, 0, 0, 0, 12}
		t, err := cmap.Decode(append(d, in.a...))
		if err != nil {
			return nil, err
		}
		key := cmap.Key{PlatformID: 3, EncodingID: 10}
		for k := range t {
			key = k
		}
		s, err := t.Get(key)
		if err != nil {
			return nil, err
		}
		return func(u user) { useSubtable(s, u) }, nil
	}},
	{name: "glyf", two: true, allocs: 8 * mb, perByte: 300, seed: seedGlyf, hostile: hostileGlyf, decode: func(in input) (func(u user), error) {
		gg, err := glyf.Decode(&glyf.Encoded{GlyfData: in.a, LocaData: in.b, LocaFormat: int16(in.n)})
		if err != nil {
			return nil, err
		}
		return func(u user) { useGlyf(gg, u) }, nil
	}},
	{name: "SimpleGlyph", allocs: 16 * mb, perByte: 3000, seed: seedSimple, hostile: hostileSimple, decode: func(in input) (func(u user), error) {
		g := &glyf.SimpleGlyph{NumContours: int16(in.n), Encoded: in.a}
		i, err := g.Decode()
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("again", func() { g.Decode() })
			_ = i
		}, nil
	}},
	{name: "GSUB", allocs: 1500 * mb, perByte: 1500, seed: seedGtab(true), hostile: hostileGtab(true), decode: decodeGtab(gtab.TypeGsub)},
	{name: "GPOS", allocs: 1500 * mb, perByte: 1500, seed: seedGtab(false), hostile: hostileGtab(false), decode: decodeGtab(gtab.TypeGpos)},
	{name: "gdef", allocs: 900 * mb, perByte: 1000, seed: seedGdef, hostile: hostileGdef, decode: func(in input) (func(u user), error) {
		t, err := gdef.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
			u("IsMark", func() { t.IsMark(3) })
		}, nil
	}},
	{name: "coverage", allocs: 16 * mb, perByte: 100, seed: seedCov, hostile: hostileCov, decode: func(in input) (func(u user), error) {
		t, err := coverage.Read(parser.New(bytes.NewReader(in.a)), int64(in.n))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() {
				if n := t.EncodeLen(); n != len(t.Encode()) {
					panic("wrong length")
				}
			})
			u("Glyphs", func() { t.Glyphs() })
			u("ToSet", func() { t.ToSet() })
			u("Contains", func() { t.Contains(1) })
			u("Prune", func() { t.Prune(2); t.Encode() })
		}, nil
	}},
	{name: "coverage set", allocs: 16 * mb, perByte: 100, seed: seedCov, hostile: hostileCov, decode: func(in input) (func(u user), error) {
		t, err := coverage.ReadSet(parser.New(bytes.NewReader(in.a)), int64(in.n))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Glyphs", func() { t.Glyphs() })
			u("ToTable", func() { t.ToTable().Encode() })
		}, nil
	}},
	{name: "classdef", allocs: 16 * mb, perByte: 100, seed: seedClass, hostile: hostileClass, decode: func(in input) (func(u user), error) {
		t, err := classdef.Read(parser.New(bytes.NewReader(in.a)), int64(in.n))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Append", func() {
				if n := t.AppendLen(); n != len(t.Append(nil)) {
					panic("wrong length")
				}
			})
			u("Glyphs", func() { t.Glyphs() })
			u("NumClasses", func() { t.NumClasses() })
		}, nil
	}},
	{name: "name", allocs: 128 * mb, perByte: 1000, seed: seedTable("name"), hostile: hostileName, decode: func(in input) (func(u user), error) {
		t, err := name.Decode(in.a)
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode(1) })
			u("Choose", func() {
				t.Windows.Choose(language.German)
				t.Mac.Choose(language.English)
				t.Windows.Choose(language.Und)
			})
		}, nil
	}},
	{name: "head", allocs: mb, perByte: 50, seed: seedTable("head"), decode: func(in input) (func(u user), error) {
		t, err := head.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
			u("String", func() { _ = t.FontRevision.String() })
		}, nil
	}},
	{name: "hmtx", two: true, allocs: 2 * mb, perByte: 50, seed: seedHmtx, decode: func(in input) (func(u user), error) {
		t, err := hmtx.Decode(in.a, in.b)
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
		}, nil
	}},
	{name: "maxp", allocs: mb, perByte: 50, seed: seedTable("maxp"), decode: func(in input) (func(u user), error) {
		t, err := maxp.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
		}, nil
	}},
	{name: "os2", allocs: mb, perByte: 50, seed: seedTable("OS/2"), decode: func(in input) (func(u user), error) {
		t, err := os2.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
			u("String", func() { _ = t.WeightClass.String() + t.WidthClass.String() })
		}, nil
	}},
	{name: "post", allocs: 8 * mb, perByte: 100, seed: seedTable("post"), hostile: hostilePost, decode: func(in input) (func(u user), error) {
		t, err := post.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
		}, nil
	}},
	{name: "kern", allocs: 2 * mb, perByte: 100, seed: seedKern, hostile: hostileKern, decode: func(in input) (func(u user), error) {
		t, err := kern.Read(bytes.NewReader(in.a))
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
		}, nil
	}},
}

func decodeGtab(tp gtab.Type) func(in input) (func(u user), error) {
	return func(in input) (func(u user), error) {
		t, err := gtab.Read(bytes.NewReader(in.a), tp)
		if err != nil {
			return nil, err
		}
		return func(u user) {
			u("Encode", func() { t.Encode() })
			u("FindLookups", func() {
				t.FindLookups(language.English, map[string]bool{"liga": true, "kern": true})
				t.FindLookups(language.Und, nil)
			})
		}, nil
	}
}

var runes = []rune{-1, 0, 1, ' ', 'A', 'f', 0x7F, 0xFF, 0x100, 0x3C0, 0xF020, 0xF0FF, 0xFB01, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF, -0x80000000}

func useSubtable(s cmap.Subtable, u user) {
	var lo, hi rune
	u("CodeRange", func() { lo, hi = s.CodeRange() })
	u("Lookup", func() {
		for _, r := range runes {
			s.Lookup(r)
		}
		for i, r := 0, lo; i < 2000 && r <= hi && r >= lo; i, r = i+1, r+1 {
			s.Lookup(r)
		}
		s.Lookup(lo - 1)
		s.Lookup(hi)
		s.Lookup(hi + 1)
	})
	u("subtable Encode", func() { s.Encode(0) })
	if f4, ok := s.(cmap.Format4); ok {
		u("TryEncode", func() { f4.TryEncode(0) })
	}
}

func useCmap(t cmap.Table, u user) {
	u("Encode", func() { t.Encode() })
	u("GetBest", func() { t.GetBest() })
	u("GetNoLang", func() {
		for p := uint16(0); p < 5; p++ {
			for e := uint16(0); e < 12; e++ {
				t.GetNoLang(p, e)
			}
		}
	})
	keys := make([]cmap.Key, 0, len(t))
	for key := range t {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	})
	for i, key := range keys {
		if i == 6 {
			break
		}
		var s cmap.Subtable
		u("Get", func() { s, _ = t.Get(key) })
		if s != nil {
			useSubtable(s, u)
		}
	}
}

func useGlyf(gg glyf.Glyphs, u user) {
	o := &glyf.Outlines{Glyphs: gg}
	ident := map[glyph.ID]glyph.ID{}
	for i := 0; i < 65536; i++ {
		ident[glyph.ID(i)] = glyph.ID(i)
		if i > len(gg) && len(gg) < 1000 {
			// this is enough for most glyphs
			if i > 3000 {
				break
			}
		}
	}
	u("NumGlyphs", func() { o.NumGlyphs() })
	u("glyphs", func() {
		for i, g := range gg {
			o.GlyphBBoxPDF(matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}, glyph.ID(i))
			if g == nil {
				continue
			}
			if s, ok := g.Data.(glyf.SimpleGlyph); ok {
				s.Decode()
			}
			missing := false
			for _, c := range g.Components() {
				if _, ok := ident[c]; !ok {
					missing = true
				}
			}
			if !missing {
				g.FixComponents(ident)
			}
		}
	})
	u("Encode", func() { gg.Encode() })
}

func useCFF(f *cff.Font, u user) {
	n := f.NumGlyphs()
	u("widths", func() { f.Widths(); f.WidthsPDF(); f.WidthsMapPDF() })
	u("boxes", func() { f.BBox(); f.FontBBoxPDF() })
	u("glyphs", func() {
		for i, g := range f.Glyphs {
			if i == 2000 {
				break
			}
			f.GlyphWidthPDF(glyph.ID(i))
			f.Outlines.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))
			if g != nil {
				g.Extent()
				if len(g.Cmds) < 1000 {
					_ = g.String()
				}
			}
			f.FDSelect(glyph.ID(i))
		}
		if n > 0 {
			f.FDSelect(glyph.ID(n - 1))
			f.GlyphWidthPDF(glyph.ID(n - 1))
		}
	})
	u("encoding", func() { f.BuiltinEncoding(); f.IsCIDKeyed() })
	cmds := 0
	for _, g := range f.Glyphs {
		if g != nil {
			cmds += len(g.Cmds)
		}
	}
	if cmds < 30000 {
		u("Write", func() { f.Write(io.Discard) })
		u("Clone", func() { f.Clone().Write(io.Discard) })
	}
	u("Subset", func() {
		if n > 0 {
			f.Outlines.Subset([]glyph.ID{0, glyph.ID(n - 1)})
		}
	})
}

func useFont(f *sfnt.Font, u user) {
	n := f.NumGlyphs()
	u("widths", func() { f.Widths(); f.WidthsPDF(); f.IsFixedPitch() })
	u("WidthsMapPDF", func() { f.WidthsMapPDF() })
	u("FontBBox", func() { f.FontBBox(); f.FontBBoxPDF() })
	u("GlyphBBoxes", func() { f.GlyphBBoxes() })
	u("glyphs", func() {
		for i := 0; i < n; i++ {
			if i == 1000 {
				i = n - 1
			}
			gid := glyph.ID(i)
			f.GlyphWidth(gid)
			f.GlyphWidthPDF(gid)
			f.GlyphBBox(gid)
			if o, ok := f.Outlines.(interface {
				GlyphBBoxPDF(matrix.Matrix, glyph.ID) rect.Rect
			}); ok {
				o.GlyphBBoxPDF(f.FontMatrix, gid)
			}
			f.GlyphName(gid)
		}
	})
	u("BuiltinEncoding", func() { f.BuiltinEncoding() })
	u("MakeGlyphNames", func() { f.MakeGlyphNames() })
	var info *type1.FontInfo
	u("names", func() { info = f.GetFontInfo(); f.FullName(); f.PostScriptName(); f.Subfamily() })
	_ = info
	u("kind", func() { f.IsCFF(); f.IsGlyf() })
	cmds := 0
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		for _, g := range o.Glyphs {
			if g != nil {
				cmds += len(g.Cmds)
			}
		}
	}
	if cmds < 30000 {
		u("Write", func() { f.Write(io.Discard) })
	}
	if f.IsCFF() {
		if cmds < 30000 {
			u("WriteOpenTypeCFFPDF", func() { f.WriteOpenTypeCFFPDF(io.Discard) })
		}
		u("AsCFF", func() { useCFF(f.AsCFF(), u) })
	} else {
		u("WriteTrueTypePDF", func() { f.WriteTrueTypePDF(io.Discard) })
		if o, ok := f.Outlines.(*glyf.Outlines); ok {
			useGlyf(o.Glyphs, u)
		}
	}
	useCmap(f.CMapTable, u)
	u("Clone", func() { f.Clone().EnsureGlyphNames() })
	u("NewLayouter", func() { f.NewLayouter(language.English, nil, nil) })
	if f.Gdef != nil {
		u("Gdef.Encode", func() { f.Gdef.Encode() })
	}
	for _, t := range []*gtab.Info{f.Gsub, f.Gpos} {
		if t != nil {
			u("gtab Encode", func() { t.Encode() })
		}
	}
}
