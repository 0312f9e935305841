// Command c03 checks that written files are well-formed sfnt containers, and
// that an independent reader agrees with the library about the contents.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	xfont "golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

var known = []string{"head", "hhea", "maxp", "OS/2", "hmtx", "LTSH", "VDMX", "hdmx", "cmap", "fpgm", "prep", "cvt ", "loca", "glyf", "kern", "name", "post", "gasp", "DSIG", "CFF ", "GSUB", "GPOS", "GDEF", "BASE"}

func tag(rng *rand.Rand) string {
	switch rng.IntN(4) {
	case 0:
		return fgen.Pick(rng, known...)
	case 1: // close to a known tag
		b := []byte(fgen.Pick(rng, known...))
		b[rng.IntN(4)] = byte(32 + rng.IntN(95))
		return string(b)
	case 2:
		return string([]byte{'a', 'a', byte('a' + rng.IntN(26)), byte(32 + rng.IntN(95))})
	default:
		b := make([]byte, 4)
		for i := range b {
			b[i] = byte(32 + rng.IntN(95))
		}
		return string(b)
	}
}

func data(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch rng.IntN(4) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1:
		for i := range b {
			b[i] = byte(rng.IntN(2)) * 255
		}
	default:
		for i := range b {
			b[i] = byte(rng.Uint32())
		}
	}
	return b
}

// container writes arbitrary table maps.
func container(c *h.Case) { containerN(c, 1+c.Rng.IntN(40), 300) }

// many writes large numbers of tables.
func many(c *h.Case) {
	containerN(c, fgen.Pick(c.Rng, 255, 256, 257, 279, 280, 281, 511, 512, 600, 1023, 1024, 2048, 4094, 4095, 1+c.Rng.IntN(4095)), 20)
}

// big writes large tables.
func big(c *h.Case) { containerN(c, 1+c.Rng.IntN(8), 3000000) }

// huge writes files with table offsets of more than 24 bits.
func huge(c *h.Case) {
	rng := c.Rng
	tables := map[string][]byte{}
	for total := 0; total < 17<<20; {
		l := 1<<20 + rng.IntN(8<<20)
		b := make([]byte, l)
		for i := 0; i < 100; i++ {
			b[rng.IntN(l)] = byte(1 + rng.IntN(255))
		}
		b[l-1] = 1
		tables[tag(rng)] = b
		total += l
	}
	for i := rng.IntN(5); i > 0; i-- {
		tables[tag(rng)] = data(rng, rng.IntN(40))
	}
	want := map[string][]byte{}
	for t, d := range tables {
		want[t] = bytes.Clone(d)
	}
	checkContainer(c, header.ScalerTypeTrueType, tables, want)
}

func containerN(c *h.Case, n, maxLen int) {
	rng := c.Rng
	scaler := fgen.Pick(rng, header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple)
	tables := map[string][]byte{}
	for len(tables) < n {
		l := rng.IntN(fgen.Pick(rng, 1, 2, 5, 17, maxLen+1))
		tables[tag(rng)] = data(rng, l)
	}
	if rng.IntN(2) == 0 {
		tables["head"] = data(rng, fgen.Pick(rng, 54, 54, 54, 12, 11, 13, 8, 10, 0, rng.IntN(100)))
		for t := range tables {
			if len(tables) <= n {
				break
			}
			if t != "head" {
				delete(tables, t)
			}
		}
	}
	want := map[string][]byte{}
	for t, d := range tables {
		want[t] = append([]byte{}, d...)
	}
	if rng.IntN(3) == 0 {
		for i := 1 + rng.IntN(4); i > 0; i-- {
			t := tag(rng)
			if len(want) > 1 || want[t] == nil {
				tables[t] = nil
				delete(want, t)
			}
		}
	}
	checkContainer(c, scaler, tables, want)
}

func checkContainer(c *h.Case, scaler uint32, tables, want map[string][]byte) {
	rng := c.Rng
	out := &bytes.Buffer{}
	var n int64
	var err error
	if !c.Guard("header.Write", func() { n, err = header.Write(out, scaler, tables) }) {
		return
	}
	if err != nil {
		c.Violation("tables cannot be written", "%d tables: %v", len(want), err)
		return
	}
	if n != int64(out.Len()) {
		c.Violation("byte count", "%d returned, %d written", n, out.Len())
	}
	c.NonTrivial(out.Bytes())
	file := out.Bytes()
	f := structure(c, file)
	if f == nil {
		return
	}
	if f.Scaler != scaler {
		c.Violation("scaler type", "%08x, want %08x", f.Scaler, scaler)
	}
	if len(f.Recs) != len(want) {
		c.Violation("number of tables", "%d, want %d", len(f.Recs), len(want))
	}
	okHead := func(got, want []byte) bool {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if got[i] != want[i] && (i < 8 || i > 11 || len(got) < 12) {
				return false
			}
		}
		return true
	}
	for t, d := range want {
		if got := f.Table(t); !f.Has(t) || !bytes.Equal(got, d) && !(t == "head" && okHead(got, d)) {
			c.Violation("table contents", "%q: %x, want %x", t, h.Trunc(got), h.Trunc(d))
			return
		}
	}

	// the library's own reader
	var info *header.Info
	if !c.Guard("header.Read", func() { info, err = header.Read(bytes.NewReader(file)) }) {
		return
	}
	if err != nil {
		c.Violation("written container rejected", "%d tables, %d bytes: %v", len(want), len(file), err)
		return
	}
	if info.ScalerType != scaler || len(info.Toc) != len(want) {
		c.Violation("container read back differs", "scaler %08x, %d tables", info.ScalerType, len(info.Toc))
		return
	}
	for t, d := range want {
		got, err := info.ReadTableBytes(bytes.NewReader(file), t)
		if err != nil || !bytes.Equal(got, d) && !(t == "head" && okHead(got, d)) {
			c.Violation("container read back differs", "%q: %x %v, want %x", t, h.Trunc(got), err, h.Trunc(d))
			return
		}
		if t == "head" && !bytes.Equal(got, f.Table("head")) {
			c.Violation("container read back differs", "head: %x, file has %x", h.Trunc(got), h.Trunc(f.Table("head")))
		}
		if r := info.Toc[t]; int(r.Length) != len(d) || info.Has(t) != (len(d) > 0) {
			c.Violation("container read back differs", "%q: %+v Has=%v", t, r, info.Has(t))
		}
	}
	for i := 0; i < 5; i++ {
		t := tag(rng)
		if _, ok := want[t]; !ok {
			if _, err := info.ReadTableBytes(bytes.NewReader(file), t); err == nil || !header.IsMissing(err) || info.Has(t) {
				c.Violation("container read back differs", "missing table %q: %v", t, err)
			}
		}
	}
	c.Count("tables compared", len(want))

	// again, with the patched head table
	out2 := &bytes.Buffer{}
	n2, err := header.Write(out2, scaler, tables)
	if err != nil || n2 != n || !bytes.Equal(out2.Bytes(), file) {
		c.Violation("second write differs", "%d bytes, %v", n2, err)
	}
	c.Eval(1)
}

// structure runs the strict container checker.
func structure(c *h.Case, file []byte) *raw.File {
	f, problems := raw.Check(file)
	for i, p := range problems {
		if i < 3 {
			c.Violation("container: "+key(p), "%s", p)
		}
	}
	return f
}

func key(p string) string {
	w := strings.Fields(p)
	for i := range w {
		if strings.ContainsAny(w[i], "0123456789\"") {
			w[i] = "#"
		}
	}
	return strings.Join(w, " ")
}

// fonts writes whole fonts in all output forms.
func fonts(c *h.Case) {
	rng := c.Rng
	kind := c.Index % fgen.NumKinds
	n := 1 + rng.IntN(fgen.Pick(rng, 2, 6, 30, 120))
	if rng.IntN(12) == 0 {
		n = 200 + rng.IntN(900)
	}
	fontsN(c, kind, n)
}

func large(c *h.Case) {
	fontsN(c, c.Index%fgen.NumKinds, fgen.Pick(c.Rng, 65535, 65534, 32767, 32768, 32769, 10000+c.Rng.IntN(50000)))
}

func fontsN(c *h.Case, kind, n int) {
	rng := c.Rng
	o := &fgen.FontOpts{Kind: kind, NumGlyphs: n, XYOnly: rng.IntN(4) > 0, Layout: rng.IntN(3) == 0, IntWidths: rng.IntN(4) > 0, PlainCFF: rng.IntN(2) == 0, Matrix: rng.IntN(3) == 0, NoCmap: rng.IntN(8) == 0}
	f, m := fgen.Font(rng, o)
	if rng.IntN(10) == 0 { // only blank glyphs
		fgen.Blank(f)
	}
	if out, ok := f.Outlines.(*cff.Outlines); ok && n < 2000 && rng.IntN(2) == 0 {
		for i, g := range out.Glyphs {
			out.Glyphs[i] = fgen.CFFGlyph(rng, &fgen.GlyphOpts{Style: fgen.Pick(rng, fgen.SmallInt, fgen.Int), MaxSegs: fgen.Pick(rng, 8, 60), Subpaths: rng.IntN(4), Stems: fgen.Pick(rng, 0, 4, 12, 60), Masks: rng.IntN(2) == 0, Limit: 8000}, g.Name, g.Width)
		}
	}
	out := &bytes.Buffer{}
	var k int64
	var err error
	if !c.Guard("Write", func() { k, err = f.Write(out) }) {
		return
	}
	if err != nil {
		c.Count("refused: "+err.Error(), 1)
		if o.Layout || kind == fgen.CFFSimple && n > 60000 {
			return // layout data may be too large, or too many strings for CFF
		}
		if out, ok := f.Outlines.(*glyf.Outlines); ok && n > 65000 {
			// The indices into the list of names of a "post" table have 16
			// bits, and the first 258 are taken.
			distinct := make(map[string]bool)
			for _, name := range out.Names {
				distinct[name] = true
			}
			if len(distinct) > 65536-258 {
				return
			}
		}
		c.Violation("font cannot be written", "%v", err)
		return
	}
	if k != int64(out.Len()) {
		c.Violation("byte count", "%d returned, %d written", k, out.Len())
	}
	data := out.Bytes()
	c.NonTrivial(data)
	c.Sample("kind %d, %d glyphs, %d bytes, %d characters", kind, n, len(data), len(m))
	file := structure(c, data)
	if file == nil {
		return
	}
	req := []string{"head", "hhea", "hmtx", "maxp", "name", "OS/2", "post"}
	scaler := uint32(0x00010000)
	if kind == fgen.TrueType {
		req = append(req, "glyf", "loca")
	} else {
		req = append(req, "CFF ")
		scaler = 0x4F54544F
	}
	if f.CMapTable != nil {
		req = append(req, "cmap")
	}
	if file.Scaler != scaler {
		c.Violation("scaler type", "%08x", file.Scaler)
	}
	for _, t := range req {
		if !file.Has(t) {
			c.Violation("missing table", "%q (%d glyphs)", t, n)
		}
	}
	if c.Failed() {
		return
	}

	// PDF variants
	pdf := &bytes.Buffer{}
	if kind == fgen.TrueType {
		var extra []any
		over := map[string][]byte{}
		for i := rng.IntN(4); i > 0; i-- {
			t := fgen.Pick(rng, "cmap", "OS/2", "post", "name", "cvt ", tag(rng))
			if t == "head" || over[t] != nil {
				continue
			}
			over[t] = append([]byte{1}, fgen.Bytes(rng, rng.IntN(40))...)
			extra = append(extra, t, bytes.Clone(over[t]))
		}
		if !c.Guard("WriteTrueTypePDF", func() { k, err = f.WriteTrueTypePDF(pdf, extra...) }) {
			return
		}
		if k != int64(pdf.Len()) {
			c.Violation("byte count", "%d returned, %d written", k, pdf.Len())
		}
		req := []string{"glyf", "head", "hhea", "hmtx", "loca", "maxp"}
		if f.CMapTable != nil {
			req = append(req, "cmap")
		}
		for t := range f.Outlines.(*glyf.Outlines).Tables {
			req = append(req, t)
		}
		checkPDF(c, file, pdf.Bytes(), err, req, over)
	} else {
		if !c.Guard("WriteOpenTypeCFFPDF", func() { err = f.WriteOpenTypeCFFPDF(pdf) }) {
			return
		}
		req := []string{"CFF "}
		if f.CMapTable != nil {
			req = append(req, "cmap")
		}
		checkPDF(c, file, pdf.Bytes(), err, req, nil)
	}
	if c.Failed() {
		return
	}
	thirdParty(c, f, m, data)
	c.Eval(1)
}

func checkPDF(c *h.Case, full *raw.File, data []byte, err error, req []string, over map[string][]byte) {
	if err != nil {
		c.Violation("PDF font cannot be written", "%v", err)
		return
	}
	pf := structure(c, data)
	if pf == nil {
		return
	}
	if pf.Scaler != full.Scaler {
		c.Violation("scaler type", "%08x", pf.Scaler)
	}
	for _, t := range req {
		if !pf.Has(t) {
			c.Violation("missing table", "%q in PDF font", t)
		}
	}
	for _, r := range pf.Recs {
		got, want := bytes.Clone(pf.Table(r.Tag)), bytes.Clone(full.Table(r.Tag))
		if d, ok := over[r.Tag]; ok {
			want = d
		}
		if r.Tag == "head" && over["head"] == nil && len(got) >= 12 && len(want) >= 12 {
			copy(got[8:], want[8:12])
		}
		if !bytes.Equal(got, want) {
			c.Violation("table in PDF font differs", "%q: %x, want %x", r.Tag, h.Trunc(got), h.Trunc(want))
		}
	}
	for t := range over {
		if !pf.Has(t) {
			c.Violation("missing table", "extra table %q in PDF font", t)
		}
	}
	c.Count("PDF tables compared", len(pf.Recs))
}

func unsupported(err error) bool {
	return err != nil && strings.Contains(err.Error(), "unsupported")
}

// thirdParty compares the font with what golang.org/x/image sees.
func thirdParty(c *h.Case, f *sfnt.Font, m map[rune]glyph.ID, data []byte) {
	rng := c.Rng
	if f.CMapTable == nil {
		c.Count("x/image skipped: no cmap", 1)
		return
	}
	xf, err := xsfnt.Parse(data)
	if err != nil {
		if unsupported(err) {
			c.Count("x/image: "+err.Error(), 1)
			return
		}
		c.Violation("third party rejects the font", "%v", err)
		return
	}
	n := f.NumGlyphs()
	if xf.NumGlyphs() != n {
		c.Violation("third party: number of glyphs", "%d, want %d", xf.NumGlyphs(), n)
	}
	upem := int(f.UnitsPerEm)
	if int(xf.UnitsPerEm()) != upem {
		c.Violation("third party: units per em", "%d, want %d", xf.UnitsPerEm(), upem)
	}
	var buf xsfnt.Buffer
	// character map
	try := func(r rune) {
		g, err := xf.GlyphIndex(&buf, r)
		if err != nil {
			c.Violation("third party: character map", "%x: %v", r, err)
		} else if glyph.ID(g) != m[r] {
			c.Violation("third party: character map", "%x: glyph %d, want %d", r, g, m[r])
		}
		c.Count("characters agreed with x/image", 1)
	}
	for r := range m {
		try(r)
		for _, x := range []rune{r - 1, r + 1} {
			if x >= 0 && x <= 0x10FFFF {
				try(x)
			}
		}
		if c.Failed() {
			return
		}
	}
	for i := 0; i < 20; i++ {
		try(rng.Int32N(0x110000))
	}
	// names
	ppem := fixed.Int26_6(upem)
	gids := rng.Perm(n)
	if n > 3000 {
		gids = append(gids[:3000], 0, n-1)
	}
	big := func(x float64) bool { return math.Abs(x)*float64(upem) >= 1<<31-65536 }
	ww := f.Widths()
	post := raw.U32(file(data).Table("post"), 0)
	for _, i := range gids {
		w := math.Round(ww[i])
		if !big(w) {
			adv, err := xf.GlyphAdvance(&buf, xsfnt.GlyphIndex(i), ppem, xfont.HintingNone)
			if err != nil || float64(adv) != w && math.Abs(float64(adv)-ww[i]) > 0.5 {
				c.Violation("third party: advance", "glyph %d: %v %v, want %v", i, adv, err, ww[i])
				return
			}
			c.Count("advances agreed with x/image", 1)
		}
		want := f.GlyphName(glyph.ID(i))
		if f.IsGlyf() {
			got, err := xf.GlyphName(&buf, xsfnt.GlyphIndex(i))
			if n > 32000 && unsupported(err) {
				// ok
			} else if err != nil || got != want {
				c.Violation("third party: glyph name", "glyph %d: %q %v, want %q (post %x)", i, got, err, want, post)
				return
			} else if want != "" {
				c.Count("names agreed with x/image", 1)
			}
		}
		segs, err := xf.LoadGlyph(&buf, xsfnt.GlyphIndex(i), ppem, nil)
		var want2 []raw.Seg
		var tol float64
		ok := true
		switch out := f.Outlines.(type) {
		case *glyf.Outlines:
			budget := 63
			want2, tol, ok = expand(out, glyph.ID(i), 7, &budget)
		case *cff.Outlines:
			want2, ok = cffSegs(out.Glyphs[i])
		}
		if !ok {
			continue
		}
		if err != nil {
			if unsupported(err) {
				c.Count("x/image: "+err.Error(), 1)
				continue
			}
			c.Violation("third party: outline rejected", "glyph %d: %v", i, err)
			return
		}
		if len(segs) != len(want2) {
			c.Violation("third party: outline", "glyph %d: %d segments, want %d\n%v\n%v", i, len(segs), len(want2), segs, want2)
			return
		}
		for k, g := range segs {
			w := want2[k]
			op := "MLQC"[g.Op]
			na := map[byte]int{'M': 1, 'L': 1, 'Q': 2, 'C': 3}[op]
			bad := op != w.Op
			for j := 0; j < na && !bad; j++ {
				if big(w.Arg[j][0]) || big(w.Arg[j][1]) {
					continue
				}
				dx, dy := float64(g.Args[j].X)-w.Arg[j][0], -float64(g.Args[j].Y)-w.Arg[j][1]
				bad = math.Abs(dx) > tol || math.Abs(dy) > tol
			}
			if bad {
				c.Violation("third party: outline", "glyph %d segment %d: %v, want %v (tolerance %v)", i, k, g, w, tol)
				return
			}
		}
		if len(segs) > 0 {
			c.Count("outlines agreed with x/image", 1)
			if f.IsGlyf() {
				if g := f.Outlines.(*glyf.Outlines).Glyphs[i]; g != nil {
					if _, ok := g.Data.(glyf.CompositeGlyph); ok {
						c.Count("composite outlines agreed with x/image", 1)
					}
				}
			}
		}
	}
	// a glyph outside the font
	if _, err := xf.GlyphAdvance(&buf, xsfnt.GlyphIndex(n), ppem, xfont.HintingNone); n < 65535 && err == nil {
		c.Violation("third party: number of glyphs", "glyph %d exists", n)
	}
	c.Count("fonts agreed with x/image", 1)
}

func file(data []byte) *raw.File {
	f, _ := raw.Check(data)
	return f
}

// expand flattens a TrueType glyph the way x/image does; ok is false where
// x/image has limits or rules of its own.
func expand(out *glyf.Outlines, gid glyph.ID, depth int, budget *int) (res []raw.Seg, tol float64, ok bool) {
	g := out.Glyphs[gid]
	if g == nil {
		return nil, 1, true
	}
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		info, err := d.Decode()
		if err != nil {
			return nil, 0, false
		}
		var cc [][]raw.Point
		for _, ct := range info.Contours {
			var pp []raw.Point
			for _, p := range ct {
				pp = append(pp, raw.Point{X: int(p.X), Y: int(p.Y), On: p.OnCurve})
			}
			if len(pp) == 1 && !pp[0].On {
				return nil, 0, false
			}
			cc = append(cc, pp)
		}
		return raw.Segments(cc), 1, true
	case glyf.CompositeGlyph:
		if depth == 0 {
			return nil, 0, false
		}
		tol = 1
		for _, comp := range d.Components {
			*budget--
			if *budget < 0 {
				return nil, 0, false
			}
			fl := int(comp.Flags)
			b := comp.Data
			if fl&2 == 0 {
				return nil, 0, false
			}
			var dx, dy float64
			if fl&1 != 0 {
				dx, dy = float64(raw.I16(b, 0)), float64(raw.I16(b, 2))
				b = b[4:]
			} else {
				dx, dy = float64(int8(b[0])), float64(int8(b[1]))
				b = b[2:]
			}
			t := [4]float64{1, 0, 0, 1}
			f214 := func(i int) float64 { return float64(raw.I16(b, 2*i)) / 16384 }
			switch {
			case fl&8 != 0:
				t[0], t[3] = f214(0), f214(0)
			case fl&0x40 != 0:
				t[0], t[3] = f214(0), f214(1)
			case fl&0x80 != 0:
				t = [4]float64{f214(0), f214(1), f214(2), f214(3)}
			}
			sub, st, ok := expand(out, comp.GlyphIndex, depth-1, budget)
			if !ok {
				return nil, 0, false
			}
			for _, s := range sub {
				for j := range s.Arg {
					x, y := s.Arg[j][0], s.Arg[j][1]
					s.Arg[j] = [2]float64{x*t[0] + y*t[2] + dx, x*t[1] + y*t[3] + dy}
				}
				res = append(res, s)
			}
			f := max(math.Abs(t[0])+math.Abs(t[2]), math.Abs(t[1])+math.Abs(t[3]))
			tol = max(tol, st*f+2)
		}
		return res, tol, true
	}
	return nil, 0, false
}

// cffSegs converts a glyph program to segments, with explicit closing lines.
func cffSegs(g *cff.Glyph) (res []raw.Seg, ok bool) {
	var x, y, x0, y0 float64
	ok = true
	p := func(a []float64, i int) [2]float64 {
		for _, v := range a {
			if v != math.Trunc(v) {
				ok = false
			}
		}
		x, y = a[i], a[i+1]
		return [2]float64{x, y}
	}
	cl := func() {
		if x != x0 || y != y0 {
			res = append(res, raw.Seg{Op: 'L', Arg: [3][2]float64{{x0, y0}}})
		}
	}
	for _, v := range append(append([]float64{}, g.HStem...), g.VStem...) {
		if v != math.Trunc(v) {
			ok = false
		}
	}
	for _, cmd := range g.Cmds {
		switch cmd.Op {
		case cff.OpMoveTo:
			cl()
			res = append(res, raw.Seg{Op: 'M', Arg: [3][2]float64{p(cmd.Args, 0)}})
			x0, y0 = x, y
		case cff.OpLineTo:
			res = append(res, raw.Seg{Op: 'L', Arg: [3][2]float64{p(cmd.Args, 0)}})
		case cff.OpCurveTo:
			res = append(res, raw.Seg{Op: 'C', Arg: [3][2]float64{p(cmd.Args, 0), p(cmd.Args, 2), p(cmd.Args, 4)}})
		case cff.OpHintMask, cff.OpCntrMask:
		default:
			panic(fmt.Sprint(cmd))
		}
	}
	cl()
	return res, ok && g.Width == math.Trunc(g.Width)
}

func main() {
	h.Main(&h.Check{
		ID:    "C03",
		Level: "exploration",
		Rule:  "arbitrary table maps and random whole fonts are written; a strict container checker (directory order, search fields, alignment, overlap, padding, checksums, file checksum) and byte comparisons judge every file, and golang.org/x/image reports glyph count, units per em, character map, advances, names and outlines of every font. Non-trivial: distinct files",
		Assumptions: []string{
			"a container has between 1 and 4095 tables (searchRange is a 16-bit field)",
			"only bytes 8..11 of a head table with at least 12 bytes are adjusted",
			"golang.org/x/image rejects some features as unsupported (glyph data > 64 KiB, point-matching composites, deep nesting, real numbers in charstrings); those are skipped and counted",
		},
		Groups: []h.Group{
			{Name: "container", Quick: 20000, Run: container},
			{Name: "many", Quick: 200, Run: many},
			{Name: "big", Quick: 60, Run: big},
			{Name: "huge", Quick: 2, Run: huge},
			{Name: "fonts", Quick: 6000, Run: fonts},
			{Name: "large", Quick: 9, Thorough: 60, Run: large},
		},
	})
}
