package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"verif/fdump"
	"verif/fgen"
)

// op is a read-only operation on a font.  The result describes everything the
// operation returned.
type op struct {
	name string
	run  func(f *sfnt.Font) string
}

// slowWriter yields during writes.
type slowWriter struct {
	bytes.Buffer
	every int
	n     int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.n++
	if w.every > 0 && w.n%w.every == 0 {
		runtime.Gosched()
	}
	return w.Buffer.Write(p)
}

func digest(b []byte) string {
	return fmt.Sprintf("%d bytes, %x", len(b), sha256.Sum256(b))
}

func dump(f *sfnt.Font) string {
	return text(fdump.Font(f))
}

func text(ii []fdump.Item) string {
	var sb strings.Builder
	for _, i := range ii {
		sb.WriteString(i.String())
		sb.WriteByte('\n')
	}
	return sb.String()
}

func glyphList(rng *rand.Rand, n int) []glyph.ID {
	res := []glyph.ID{0}
	for _, i := range rng.Perm(n)[:rng.IntN(n+1)] {
		if i != 0 {
			res = append(res, glyph.ID(i))
		}
	}
	return append(res, make([]glyph.ID, 2)...)[:len(res)]
}

// makeOps makes a list of operations for a given font.
func makeOps(rng *rand.Rand, f *sfnt.Font) []op {
	var res []op
	add := func(name string, run func(f *sfnt.Font) string) {
		res = append(res, op{name, run})
	}
	n := f.NumGlyphs()
	every := func() int { return rng.IntN(4) }
	gids := make([]glyph.ID, 8)
	for i := range gids {
		gids[i] = glyph.ID(rng.IntN(n))
	}

	e1, e2 := every(), every()
	add("Write", func(f *sfnt.Font) string {
		w := &slowWriter{every: e1}
		k, err := f.Write(w)
		return fmt.Sprint(k, err, digest(w.Bytes()))
	})
	if f.IsGlyf() {
		var extraTables []any
		if rng.IntN(2) == 0 {
			extraTables = append(extraTables, "cmap", append([]byte("abcdef"), 1, 2, 3)[:6], "test", []byte{1, 2, 3, 4, 5})
		}
		add("WriteTrueTypePDF", func(f *sfnt.Font) string {
			w := &slowWriter{every: e2}
			k, err := f.WriteTrueTypePDF(w, extraTables...)
			return fmt.Sprint(k, err, digest(w.Bytes()))
		})
	} else {
		add("WriteOpenTypeCFFPDF", func(f *sfnt.Font) string {
			w := &slowWriter{every: e2}
			err := f.WriteOpenTypeCFFPDF(w)
			return fmt.Sprint(err, digest(w.Bytes()))
		})
		add("AsCFF.Write", func(f *sfnt.Font) string {
			w := &slowWriter{every: e2}
			cf := f.AsCFF()
			err := cf.Write(w)
			return fmt.Sprint(err, digest(w.Bytes()))
		})
		add("AsCFF", func(f *sfnt.Font) string {
			cf := f.AsCFF()
			cf.FontInfo.FontName += "X"
			s := fmt.Sprint(cf.FontBBoxPDF(), cf.Widths(), cf.WidthsPDF(), cf.WidthsMapPDF(), cf.BBox(), cf.BuiltinEncoding(), cf.NumGlyphs(), cf.IsCIDKeyed())
			for _, g := range gids {
				s += fmt.Sprint(cf.GlyphWidthPDF(g), cf.GlyphBBoxPDF(cf.FontMatrix, g), cf.Glyphs[g].Extent(), cf.Glyphs[g].String(), cf.FDSelect(g))
			}
			c2 := cf.Clone()
			c2.FontInfo = nil
			return s
		})
		list := glyphList(rng, n)
		mode := rng.IntN(3)
		add("cff.Subset", func(f *sfnt.Font) string {
			out := f.Outlines.(*cff.Outlines).Subset(list)
			switch mode {
			case 1:
				// change the names in the subset only
				out.MakeSimple(map[glyph.ID]string{1: "A", 2: "B"})
			case 2:
				gidToCID := make([]cid.CID, len(list))
				for i := range gidToCID {
					gidToCID[i] = cid.CID(i)
				}
				out.MakeCIDKeyed(&cid.SystemInfo{Registry: "Test", Ordering: "Test"}, gidToCID)
			}
			p := &fingerprinter{}
			h := p.walk(reflect.ValueOf(out), 0)
			return fmt.Sprint(h, p.fdSelect(out))
		})
	}

	plain := supported(f)
	list, e3 := glyphList(rng, n), every()
	full := rng.IntN(2) == 0
	add("Subset", func(f *sfnt.Font) string {
		if !plain {
			f = f.Clone()
			f.Gdef, f.Gsub, f.Gpos = nil, nil, nil
		}
		sub := f.Subset(list)
		sub.FamilyName += " Subset"
		if full {
			h, _ := fingerprint(sub)
			return fmt.Sprint(h)
		}
		w := &slowWriter{every: e3}
		k, err := sub.Write(w)
		return fmt.Sprint(k, err, digest(w.Bytes()))
	})

	e4, name := every(), fgen.Pick(rng, "A", "Clone", "X Y")
	add("Clone", func(f *sfnt.Font) string {
		f2 := f.Clone()
		s, _ := fingerprint(f2)
		f2.FamilyName = name
		f2.UnderlinePosition++
		f2.Gpos = nil
		f2.InstallCMap(cmap.Format4{65: 0, 66: 0})
		w := &slowWriter{every: e4}
		k, err := f2.Write(w)
		return fmt.Sprint(s, k, err, digest(w.Bytes()))
	})
	add("measure", func(f *sfnt.Font) string {
		s := fmt.Sprint(f.FontBBox(), f.FontBBoxPDF(), f.Widths(), f.GlyphBBoxes(), f.IsFixedPitch(), f.NumGlyphs(), f.IsCFF(), f.IsGlyf())
		for _, g := range gids {
			s += fmt.Sprint(f.GlyphBBox(g), f.GlyphWidth(g), f.GlyphWidthPDF(g))
		}
		return s
	})
	add("WidthsPDF", func(f *sfnt.Font) string {
		return fmt.Sprint(f.WidthsPDF())
	})
	add("WidthsMapPDF", func(f *sfnt.Font) string {
		return fmt.Sprint(f.WidthsMapPDF())
	})
	add("GlyphBBoxPDF", func(f *sfnt.Font) string {
		s := ""
		for _, g := range gids {
			switch out := f.Outlines.(type) {
			case *glyf.Outlines:
				s += fmt.Sprint(out.GlyphBBoxPDF(f.FontMatrix, g))
			case *cff.Outlines:
				s += fmt.Sprint(out.GlyphBBoxPDF(matrix.Matrix{0.001, 0, 0.0002, 0.001, 0, 0}, g))
			}
		}
		return s
	})
	add("MakeGlyphNames", func(f *sfnt.Font) string {
		return fmt.Sprintf("%q", f.MakeGlyphNames())
	})
	add("names", func(f *sfnt.Font) string {
		s := fmt.Sprintf("%q %q %q %q", f.PostScriptName(), f.FullName(), f.Subfamily(), f.BuiltinEncoding())
		for _, g := range gids {
			s += fmt.Sprintf(" %q", f.GlyphName(g))
		}
		return s
	})
	add("GetFontInfo", func(f *sfnt.Font) string {
		info := f.GetFontInfo()
		s := fmt.Sprintf("%v", *info)
		info.FontName += "X"
		info.FontMatrix[0]++
		return s
	})
	if out, ok := f.Outlines.(*glyf.Outlines); ok {
		_ = out
		add("glyf", func(f *sfnt.Font) string {
			out := f.Outlines.(*glyf.Outlines)
			enc := out.Glyphs.Encode()
			s := digest(enc.GlyfData) + digest(enc.LocaData)
			for _, i := range gids {
				g := out.Glyphs[i]
				s += fmt.Sprint(g.Components())
				if g != nil {
					if sg, ok := g.Data.(glyf.SimpleGlyph); ok {
						s += text(fdump.Any(sg))
						info, err := sg.Decode()
						s += fmt.Sprint(err, info)
						if info != nil {
							s += fmt.Sprint(info.Contours)
						}
					}
				}
			}
			return s
		})
	}

	// character maps
	add("cmap", func(f *sfnt.Font) string {
		s := digest(f.CMapTable.Encode())
		for _, get := range []func() (cmap.Subtable, error){f.CMapTable.GetBest, func() (cmap.Subtable, error) { return f.CMapTable.GetNoLang(3, 1) }} {
			t, err := get()
			if err != nil {
				s += err.Error()
				continue
			}
			lo, hi := t.CodeRange()
			s += fmt.Sprint(lo, hi)
			for r := max(lo, 0); r < min(hi+1, lo+500); r++ {
				s += fmt.Sprint(" ", t.Lookup(r))
			}
			s += digest(t.Encode(0))
		}
		return s
	})

	// layout
	var rr []rune
	if best, err := f.CMapTable.GetBest(); err == nil {
		lo, hi := best.CodeRange()
		for r := max(lo, 0); r <= min(hi, lo+3000); r++ {
			if best.Lookup(r) != 0 {
				rr = append(rr, r)
			}
		}
	}
	rr = append(rr, 'f', 'i', 'l', 'A', 'V', ' ', 'é')
	var texts []string
	for i := 0; i < 4; i++ {
		var s []rune
		for k := rng.IntN(20); k >= 0; k-- {
			s = append(s, rr[rng.IntN(len(rr))])
		}
		texts = append(texts, string(s))
	}
	sw := func(info *gtab.Info) map[string]bool {
		if info == nil || rng.IntN(4) == 0 {
			return nil
		}
		res := map[string]bool{}
		for _, f := range info.FeatureList {
			if rng.IntN(4) > 0 {
				res[f.Tag] = rng.IntN(4) > 0
			}
		}
		return res
	}
	tags := []language.Tag{language.Und, language.English, language.German}
	for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
		if info != nil {
			var tt []language.Tag
			for t := range info.ScriptList {
				tt = append(tt, t)
			}
			slices.SortFunc(tt, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
			tags = append(tags, tt...)
		}
	}
	for k := 0; k < 2; k++ {
		tag := fgen.Pick(rng, tags...)
		sw1, sw2 := sw(f.Gsub), sw(f.Gpos)
		add("Layout", func(f *sfnt.Font) string {
			l, err := f.NewLayouter(tag, sw1, sw2)
			if err != nil {
				return err.Error()
			}
			s := ""
			for _, t := range texts {
				s += fmt.Sprint(l.Layout(t))
			}
			return s
		})
	}
	for _, x := range []struct {
		name string
		get  func(f *sfnt.Font) *gtab.Info
	}{{"GSUB", func(f *sfnt.Font) *gtab.Info { return f.Gsub }}, {"GPOS", func(f *sfnt.Font) *gtab.Info { return f.Gpos }}} {
		info := x.get(f)
		if info == nil || len(info.LookupList) == 0 {
			continue
		}
		get := x.get
		tag := fgen.Pick(rng, tags...)
		sw1 := sw(info)
		var lookups []gtab.LookupIndex
		for i := range info.LookupList {
			if rng.IntN(4) > 0 {
				lookups = append(lookups, gtab.LookupIndex(i))
			}
		}
		var seqs [][]glyph.ID
		for i := 0; i < 5; i++ {
			var s []glyph.ID
			for k := rng.IntN(15); k >= 0; k-- {
				s = append(s, glyph.ID(rng.IntN(n)))
			}
			seqs = append(seqs, s)
		}
		add(x.name+" Apply", func(f *sfnt.Font) string {
			ctx := gtab.NewContext(get(f).LookupList, f.Gdef, lookups)
			s := ""
			for _, gg := range seqs {
				var seq []glyph.Info
				for i, g := range gg {
					seq = append(seq, glyph.Info{GID: g, Text: []rune{rune('a' + i)}, Advance: funit.Int16(100 * i)})
				}
				s += fmt.Sprint(ctx.Apply(seq))
			}
			return s
		})
		add(x.name+" FindLookups", func(f *sfnt.Font) string {
			return fmt.Sprint(get(f).FindLookups(tag, sw1))
		})
		add(x.name+" Encode", func(f *sfnt.Font) string {
			return digest(get(f).Encode())
		})
	}
	if f.Gsub != nil {
		add("ExplainGsub", func(f *sfnt.Font) string { return builder.ExplainGsub(f) })
	}
	if f.Gpos != nil {
		add("ExplainGpos", func(f *sfnt.Font) string { return strings.Join(builder.ExplainGpos(f), "\n") })
	}
	if f.Gdef != nil {
		add("GDEF", func(f *sfnt.Font) string {
			s := digest(f.Gdef.Encode())
			for _, g := range gids {
				s += fmt.Sprint(f.Gdef.IsMark(g))
			}
			return s
		})
	}
	return res
}

// supported returns true for fonts which can be subset as they are.
func supported(f *sfnt.Font) bool {
	if f.Gdef != nil {
		return false
	}
	for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
		if info == nil {
			continue
		}
		for _, lt := range info.LookupList {
			for _, sub := range lt.Subtables {
				switch s := sub.(type) {
				case *gtab.Gsub1_1:
					for g := range s.Cov {
						if int(g+s.Delta) >= f.NumGlyphs() {
							return false
						}
					}
				case *gtab.Gsub4_1, gtab.Gpos2_1:
				default:
					return false
				}
			}
		}
	}
	return true
}
