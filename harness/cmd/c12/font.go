package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	xfont "golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/os2"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

type box struct {
	x0, y0, x1, y1 float64
	set            bool
}

func (b *box) add(x, y float64) {
	if !b.set {
		*b = box{x, y, x, y, true}
		return
	}
	b.x0, b.x1 = math.Min(b.x0, x), math.Max(b.x1, x)
	b.y0, b.y1 = math.Min(b.y0, y), math.Max(b.y1, y)
}

// extreme finds the maximum of one coordinate of a cubic Bezier curve by
// search.
func extreme(a, b, c, d float64) float64 {
	f := func(t float64) float64 {
		s := 1 - t
		return s*s*s*a + 3*s*s*t*b + 3*s*t*t*c + t*t*t*d
	}
	const n = 64
	var v [n + 1]float64
	for i := range v {
		v[i] = f(float64(i) / n)
	}
	best := math.Max(a, d)
	for i := range v {
		if i > 0 && v[i-1] > v[i] || i < n && v[i+1] > v[i] {
			continue
		}
		lo, hi := math.Max(0, float64(i-1)/n), math.Min(1, float64(i+1)/n)
		for k := 0; k < 60; k++ {
			m1, m2 := lo+(hi-lo)/3, hi-(hi-lo)/3
			if f(m1) < f(m2) {
				lo = m1
			} else {
				hi = m2
			}
		}
		best = math.Max(best, f((lo+hi)/2))
	}
	return best
}

// cffBox computes the exact bounding box of a transformed glyph.
func cffBox(g *cff.Glyph, tr func(x, y float64) (float64, float64)) *box {
	res := &box{}
	var x, y float64
	for _, cmd := range g.Cmds {
		switch cmd.Op {
		case cff.OpMoveTo, cff.OpLineTo:
			x, y = tr(cmd.Args[0], cmd.Args[1])
			res.add(x, y)
		case cff.OpCurveTo:
			x1, y1 := tr(cmd.Args[0], cmd.Args[1])
			x2, y2 := tr(cmd.Args[2], cmd.Args[3])
			x3, y3 := tr(cmd.Args[4], cmd.Args[5])
			res.add(x3, y3)
			if math.Max(x1, x2) > math.Max(x, x3) {
				res.add(extreme(x, x1, x2, x3), y3)
			}
			if math.Min(x1, x2) < math.Min(x, x3) {
				res.add(-extreme(-x, -x1, -x2, -x3), y3)
			}
			if math.Max(y1, y2) > math.Max(y, y3) {
				res.add(x3, extreme(y, y1, y2, y3))
			}
			if math.Min(y1, y2) < math.Min(y, y3) {
				res.add(x3, -extreme(-y, -y1, -y2, -y3))
			}
			x, y = x3, y3
		}
	}
	return res
}

func near(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-7*(1+scale) }

func font(c *h.Case) {
	rng := c.Rng
	o := &fgen.FontOpts{Kind: rng.IntN(fgen.NumKinds), NumGlyphs: 1 + rng.IntN(fgen.Pick(rng, 3, 12, 40)), XYOnly: true,
		IntWidths: rng.IntN(2) == 0, Matrix: rng.IntN(3) == 0, NoCmap: rng.IntN(8) == 0}
	if rng.IntN(40) == 0 {
		o.NumGlyphs = 200 + rng.IntN(2000)
	}
	f, cm := fgen.Font(rng, o)
	if rng.IntN(4) == 0 {
		f.ItalicAngle = fgen.Pick(rng, -11.3, 7.77777, -rng.Float64()*40)
	}
	if rng.IntN(6) == 0 { // monospaced
		w := f.GlyphWidth(0)
		switch out := f.Outlines.(type) {
		case *cff.Outlines:
			for _, g := range out.Glyphs {
				if rng.IntN(8) > 0 {
					g.Width = w
				} else {
					g.Width = 0
				}
			}
		case *glyf.Outlines:
			for i := range out.Widths {
				out.Widths[i] = funit.Int16(w)
			}
		}
	}
	if out, ok := f.Outlines.(*glyf.Outlines); ok && rng.IntN(10) == 0 {
		out.Widths = nil // all widths are zero
		c.Count("fonts without widths", 1)
	}
	checkFont(c, rng, f, cm, o)
}

// cffQueries compares the queries for the CFF part of a font to these for the
// whole font, which have already been checked.
func cffQueries(c *h.Case, f *sfnt.Font, out *cff.Outlines, w []float64, box funit.Rect16, boxPDF rect.Rect) {
	c.Guard("cff.Font queries", func() {
		cf := f.AsCFF()
		if !f.IsCFF() || f.IsGlyf() {
			c.Violation("outline type", "IsCFF %v, IsGlyf %v", f.IsCFF(), f.IsGlyf())
		}
		widths, widthsPDF, wmap := cf.Widths(), cf.WidthsPDF(), cf.WidthsMapPDF()
		if len(widths) != len(w) || len(widthsPDF) != len(w) || cf.NumGlyphs() != len(w) {
			c.Violation("query lengths", "cff.Font: %d glyphs, %d widths, %d PDF widths", cf.NumGlyphs(), len(widths), len(widthsPDF))
			return
		}
		for i := range w {
			gid := glyph.ID(i)
			a, b := cf.GlyphWidthPDF(gid), f.GlyphWidthPDF(gid)
			if widths[i] != w[i] || !near(a, b, math.Abs(b)) || !near(widthsPDF[i], b, math.Abs(b)) {
				c.Violation("PDF width queries inconsistent", "cff.Font, glyph %d: Widths %v (want %v), WidthsPDF %v, GlyphWidthPDF %v, want %v", i, widths[i], w[i], widthsPDF[i], a, b)
				return
			}
			if wmap != nil {
				if v, ok := wmap[out.Glyphs[i].Name]; !ok || !near(v, b, math.Abs(b)) {
					c.Violation("PDF width queries inconsistent", "cff.Font, glyph %d: WidthsMapPDF %v, GlyphWidthPDF %v", i, v, b)
					return
				}
			}
		}
		if (wmap == nil) != (out.ROS != nil) {
			c.Violation("WidthsMapPDF", "map %v for a font with ROS %v", wmap != nil, out.ROS)
		}
		if b := out.BBox(); b != box {
			c.Violation("font box", "cff.Outlines.BBox %v, union of glyph boxes %v", b, box)
		}
		if b := cf.FontBBoxPDF(); b != boxPDF {
			c.Violation("font box", "cff.Font.FontBBoxPDF %v, union of glyph boxes %v", b, boxPDF)
		}
		enc := f.BuiltinEncoding()
		if !reflect.DeepEqual(enc, out.BuiltinEncoding()) || (enc == nil) != (len(out.Encoding) != 256) || enc != nil && len(enc) != 256 {
			c.Violation("BuiltinEncoding", "%v, encoding %v", enc, out.Encoding)
			return
		}
		for i, name := range enc {
			want := ".notdef"
			if gid := out.Encoding[i]; gid != 0 {
				want = out.Glyphs[gid].Name
			}
			if name != want {
				c.Violation("BuiltinEncoding", "code %d: %q instead of %q", i, name, want)
				return
			}
		}
		cl := cf.Clone()
		if cl.FontInfo == cf.FontInfo || cl.Outlines == cf.Outlines || !reflect.DeepEqual(cl.FontInfo, cf.FontInfo) || !reflect.DeepEqual(cl.Glyphs, cf.Glyphs) {
			c.Violation("Clone", "cff.Font.Clone: not an independent copy")
		}
		c.Eval(3)
		c.Count("CFF fonts queried", 1)
	})
}

func checkFont(c *h.Case, rng *rand.Rand, f *sfnt.Font, cm map[rune]glyph.ID, o *fgen.FontOpts) {
	n := o.NumGlyphs
	var data []byte
	if !c.Guard("Font.Write", func() { data = fgen.MustWrite(f) }) {
		return
	}
	c.NonTrivial(data)
	c.Count(fmt.Sprintf("fonts of kind %d", o.Kind), 1)
	c.Sample("kind %d, %d glyphs, %d bytes", o.Kind, n, len(data))
	file, _ := raw.Check(data)
	if file == nil {
		c.Violation("container", "written file is not an sfnt")
		return
	}

	// the harness's own view of the outlines
	simple := rect.Rect{}
	_ = simple
	w := make([]float64, n)
	bb := make([]*box, n)  // design units
	bbp := make([]*box, n) // PDF units
	id := func(x, y float64) (float64, float64) { return x, y }
	fm := f.FontMatrix
	ap := func(m matrix.Matrix, x, y float64) (float64, float64) {
		return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
	}
	wpdf := make([]float64, n)
	plain := true
	switch out := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range out.Glyphs {
			w[i] = g.Width
			bb[i] = cffBox(g, id)
			fd := matrix.Matrix{1, 0, 0, 1, 0, 0}
			if out.ROS != nil {
				fd = out.FontMatrices[out.FDSelect(glyph.ID(i))]
			}
			if fm[1] != 0 || fm[2] != 0 || fd[1] != 0 || fd[2] != 0 {
				plain = false
			}
			wpdf[i] = w[i] * fd[0] * fm[0] * 1000
			bbp[i] = cffBox(g, func(x, y float64) (float64, float64) {
				x, y = ap(fd, x, y)
				x, y = ap(fm, x, y)
				return 1000 * x, 1000 * y
			})
		}
	case *glyf.Outlines:
		for i, g := range out.Glyphs {
			if out.Widths != nil {
				w[i] = float64(out.Widths[i])
			}
			wpdf[i] = w[i] / float64(f.UnitsPerEm) * 1000
			bb[i], bbp[i] = &box{}, &box{}
			if g != nil {
				bb[i].add(float64(g.LLx), float64(g.LLy))
				bb[i].add(float64(g.URx), float64(g.URy))
				for _, x := range []funit.Int16{g.LLx, g.URx} {
					for _, y := range []funit.Int16{g.LLy, g.URy} {
						px, py := ap(fm, float64(x), float64(y))
						bbp[i].add(1000*px, 1000*py)
					}
				}
			}
		}
	}

	// query methods
	var widths, widthsPDF []float64
	var boxes []funit.Rect16
	var fbox funit.Rect16
	var fboxPDF rect.Rect
	var fixedPitch bool
	var wmap map[string]float64
	if !c.Guard("queries", func() {
		widths, widthsPDF, boxes = f.Widths(), f.WidthsPDF(), f.GlyphBBoxes()
		fbox, fboxPDF, fixedPitch, wmap = f.FontBBox(), f.FontBBoxPDF(), f.IsFixedPitch(), f.WidthsMapPDF()
	}) {
		return
	}
	if out, ok := f.Outlines.(*glyf.Outlines); ok && out.Widths == nil && widthsPDF == nil {
		widthsPDF = make([]float64, n)
	}
	if f.NumGlyphs() != n || len(widths) != n || len(widthsPDF) != n || len(boxes) != n {
		c.Violation("query lengths", "%d glyphs: %d widths, %d PDF widths, %d boxes", n, len(widths), len(widthsPDF), len(boxes))
		return
	}
	var union funit.Rect16
	var unionPDF box
	first := true
	for i := 0; i < n; i++ {
		gid := glyph.ID(i)
		c.Eval(4)
		if widths[i] != w[i] || f.GlyphWidth(gid) != w[i] {
			c.Violation("width query", "glyph %d: Widths %v, GlyphWidth %v, want %v", i, widths[i], f.GlyphWidth(gid), w[i])
			return
		}
		wp := f.GlyphWidthPDF(gid)
		if !near(wp, 1000*widthsPDF[i], math.Abs(wp)) {
			c.Violation("PDF width queries inconsistent", "glyph %d: GlyphWidthPDF %v, WidthsPDF %v", i, wp, widthsPDF[i])
			return
		}
		if plain && !near(wp, wpdf[i], math.Abs(wp)) {
			c.Violation("PDF width", "glyph %d: GlyphWidthPDF %v, want %v", i, wp, wpdf[i])
			return
		}
		if wmap != nil {
			if v, ok := wmap[f.GlyphName(gid)]; !ok || !near(v, wp, math.Abs(wp)) {
				c.Violation("PDF width queries inconsistent", "glyph %d: WidthsMapPDF %v, GlyphWidthPDF %v", i, v, wp)
				return
			}
		}
		b := f.GlyphBBox(gid)
		if b != boxes[i] {
			c.Violation("box queries inconsistent", "glyph %d: GlyphBBox %v, GlyphBBoxes %v", i, b, boxes[i])
			return
		}
		if !okBox(b, bb[i], o.Kind == fgen.TrueType) {
			c.Violation("glyph box", "glyph %d: box %v, outline %v", i, b, *bb[i])
			return
		}
		bp := f.Outlines.GlyphBBoxPDF(f.FontMatrix, gid)
		want := bbp[i]
		sc := math.Abs(bp.LLx) + math.Abs(bp.LLy) + math.Abs(bp.URx) + math.Abs(bp.URy)
		if !bb[i].set && !bp.IsZero() || !near(bp.LLx, want.x0, sc) || !near(bp.LLy, want.y0, sc) || !near(bp.URx, want.x1, sc) || !near(bp.URy, want.y1, sc) {
			c.Violation("PDF glyph box", "glyph %d: box %v, outline %v", i, bp, *want)
			return
		}
		if !b.IsZero() {
			if first {
				union = b
			} else {
				union = funit.Rect16{LLx: min(union.LLx, b.LLx), LLy: min(union.LLy, b.LLy), URx: max(union.URx, b.URx), URy: max(union.URy, b.URy)}
			}
			first = false
		}
		if !bp.IsZero() {
			unionPDF.add(bp.LLx, bp.LLy)
			unionPDF.add(bp.URx, bp.URy)
		}
	}
	if fbox != union {
		c.Violation("font box", "FontBBox %v, union of glyph boxes %v", fbox, union)
	}
	if fboxPDF != (rect.Rect{LLx: unionPDF.x0, LLy: unionPDF.y0, URx: unionPDF.x1, URy: unionPDF.y1}) {
		c.Violation("font box", "FontBBoxPDF %v, union of glyph boxes %v", fboxPDF, unionPDF)
	}
	if out, ok := f.Outlines.(*cff.Outlines); ok {
		cffQueries(c, f, out, w, union, fboxPDF)
		if c.Failed() {
			return
		}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range w {
		if x != 0 {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
	}
	if lo == hi && !fixedPitch || hi-lo >= 1 && fixedPitch {
		c.Violation("IsFixedPitch", "IsFixedPitch is %v for widths between %v and %v", fixedPitch, lo, hi)
	}
	if lo == hi {
		c.Count("fixed pitch fonts", 1)
	}

	// tables in the file
	hd, err := raw.ParseHead(file.Table("head"))
	hh, err2 := raw.ParseHhea(file.Table("hhea"))
	o2, err3 := raw.ParseOS2(file.Table("OS/2"))
	po, err4 := raw.ParsePost(file.Table("post"))
	for _, e := range []error{err, err2, err3, err4} {
		if e != nil {
			c.Violation("table malformed", "%v", e)
			return
		}
	}
	aw, lsb, err := raw.ParseHmtx(file.Table("hmtx"), hh.NumHMetrics, n)
	if err != nil {
		c.Violation("table malformed", "%v", err)
		return
	}
	eq := func(what string, got, want any) {
		c.Eval(1)
		if got != want {
			c.Violation(what, "%s is %v, want %v", what, got, want)
		}
	}
	maxW, minL, minR, maxE, any := 0, 1<<20, 1<<20, -1<<20, false
	sum, cnt := 0.0, 0
	for i := range aw {
		b := boxes[i]
		if float64(aw[i]) != w[i] && (w[i] == math.Trunc(w[i]) || math.Abs(float64(aw[i])-w[i]) >= 1) {
			c.Violation("hmtx width", "glyph %d: %d, want %v", i, aw[i], w[i])
			return
		}
		if lsb[i] != int(b.LLx) {
			c.Violation("hmtx bearing", "glyph %d: %d, want %v", i, lsb[i], b.LLx)
			return
		}
		maxW = max(maxW, aw[i])
		if w[i] > 0 {
			sum += w[i]
			cnt++
		}
		if b.IsZero() {
			continue
		}
		any = true
		minL, minR, maxE = min(minL, int(b.LLx)), min(minR, aw[i]-int(b.URx)), max(maxE, int(b.URx))
	}
	eq("advanceWidthMax", hh.AdvanceWidthMax, maxW)
	if any {
		eq("minLeftSideBearing", hh.MinLSB, minL)
		if minR >= -32768 && minR <= 32767 {
			eq("minRightSideBearing", hh.MinRSB, minR)
		}
		eq("xMaxExtent", hh.XMaxExtent, maxE)
	}
	eq("head bbox", [4]int{hd.XMin, hd.YMin, hd.XMax, hd.YMax}, [4]int{int(union.LLx), int(union.LLy), int(union.URx), int(union.URy)})
	eq("unitsPerEm", hd.UnitsPerEm, int(f.UnitsPerEm))
	lt := func(u int64, zero bool) int64 {
		if zero {
			return 0
		}
		return u - epoch1904
	}
	eq("created", hd.Created, lt(f.CreationTime.Unix(), f.CreationTime.IsZero()))
	eq("modified", hd.Modified, lt(f.ModificationTime.Unix(), f.ModificationTime.IsZero()))
	eq("hhea ascent/descent/lineGap", [3]int{hh.Ascent, hh.Descent, hh.LineGap}, [3]int{int(f.Ascent), int(f.Descent), int(f.LineGap)})
	eq("typo ascender/descender/lineGap", [3]int{o2.Ascender, o2.Descender, o2.LineGap}, [3]int{int(f.Ascent), int(f.Descent), int(f.LineGap)})
	if union.URy >= 0 && union.LLy <= 0 {
		eq("win metrics", [2]int{o2.WinAscent, o2.WinDescent}, [2]int{int(union.URy), -int(union.LLy)})
	}
	eq("heights", [2]int{o2.CapHeight, o2.XHeight}, [2]int{int(f.CapHeight), int(f.XHeight)})
	avg := 0.0
	if cnt > 0 {
		avg = sum / float64(cnt)
	}
	if math.Abs(avg-float64(o2.AvgWidth)) > 1 {
		c.Violation("xAvgCharWidth", "%d, want %v", o2.AvgWidth, avg)
	}
	if cm != nil && len(cm) > 0 {
		a, b := rune(math.MaxInt32), rune(-1)
		for r := range cm {
			a, b = min(a, r), max(b, r)
		}
		eq("first/last char", [2]int{o2.First, o2.Last}, [2]int{min(int(a), 0xFFFF), min(int(b), 0xFFFF)})
		eq("non-BMP bit", o2.Unicode[1]>>25&1 != 0, b >= 0xFFFF)
	}
	eq("weight/width class", [2]int{o2.Weight, o2.Width}, [2]int{int(f.Weight), int(f.Width)})
	eq("code pages", o2.CodePage, [2]uint32{uint32(f.CodePageRange), uint32(f.CodePageRange >> 32)})
	eq("fsType", o2.Type&0xF, map[os2.Permissions]int{os2.PermInstall: 0, os2.PermRestricted: 2, os2.PermView: 4, os2.PermEdit: 8}[f.PermUse])
	if math.Abs(float64(po.ItalicAngle)/65536-f.ItalicAngle) > 0.5001/65536 {
		c.Violation("italicAngle", "%v, want %v", float64(po.ItalicAngle)/65536, f.ItalicAngle)
	}
	if up := float64(f.UnderlinePosition); math.Abs(float64(po.UPos)-up) > 0.5 {
		c.Violation("underline position", "%d, want %v", po.UPos, up)
	}
	if ut := float64(f.UnderlineThickness); math.Abs(float64(po.UThick)-ut) > 0.5 {
		c.Violation("underline thickness", "%d, want %v", po.UThick, ut)
	}
	eq("isFixedPitch", po.Fixed != 0, fixedPitch)
	checkAngle(c, "caret slope", math.Atan2(float64(hh.CaretRise), float64(hh.CaretRun))-math.Pi/2, f.ItalicAngle/180*math.Pi, 3.2e-5)
	mp := file.Table("maxp")
	eq("numGlyphs", raw.U16(mp, 4), n)
	if out, ok := f.Outlines.(*glyf.Outlines); ok && len(mp) == 32 {
		m := out.Maxp
		eq("maxp fields", [4]int{raw.U16(mp, 6), raw.U16(mp, 8), raw.U16(mp, 10), raw.U16(mp, 30)}, [4]int{int(m.MaxPoints), int(m.MaxContours), int(m.MaxCompositePoints), int(m.MaxComponentDepth)})
	}

	// third party
	xf, err := xsfnt.Parse(data)
	if err != nil {
		c.Count("not readable by x/image", 1)
		return
	}
	var buf xsfnt.Buffer
	ppem := fixed.I(int(f.UnitsPerEm))
	for i := 0; i < n; i++ {
		if aw[i]*int(f.UnitsPerEm)*64 >= 1<<31 {
			continue // x/image overflows
		}
		adv, err := xf.GlyphAdvance(&buf, xsfnt.GlyphIndex(i), ppem, xfont.HintingNone)
		if err != nil || adv != fixed.I(aw[i]) {
			c.Violation("third party disagrees", "glyph %d: advance %v %v, want %d", i, adv, err, aw[i])
			return
		}
	}
	ext := max(-int(union.LLx), -int(union.LLy), int(union.URx), int(union.URy), int(union.LLx), int(union.LLy))
	if r, err := xf.Bounds(&buf, ppem, xfont.HintingNone); ext*int(f.UnitsPerEm)*64 < 1<<31 && (err != nil || r != (fixed.Rectangle26_6{
		Min: fixed.Point26_6{X: fixed.I(int(union.LLx)), Y: fixed.I(-int(union.URy))},
		Max: fixed.Point26_6{X: fixed.I(int(union.URx)), Y: fixed.I(-int(union.LLy))}})) {
		c.Violation("third party disagrees", "bounds %v %v, want %v", r, err, union)
	}
	if t := xf.PostTable(); t != nil && (math.Abs(t.ItalicAngle-f.ItalicAngle) > 0.5001/65536 || int(t.UnderlinePosition) != po.UPos || t.IsFixedPitch != fixedPitch) {
		c.Violation("third party disagrees", "post table %+v", t)
	}
	c.Count("fonts agreed with x/image", 1)
}

// okBox checks that a box is the outline's box, rounded outwards.
func okBox(b funit.Rect16, want *box, exact bool) bool {
	if !want.set {
		return b == funit.Rect16{}
	}
	lo := func(got funit.Int16, x float64) bool {
		return float64(got) <= x+1e-6 && float64(got) >= math.Floor(x-1e-6)
	}
	return lo(b.LLx, want.x0) && lo(b.LLy, want.y0) && lo(-b.URx, -want.x1) && lo(-b.URy, -want.y1)
}
