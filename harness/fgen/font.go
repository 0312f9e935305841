package fgen

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/raw"
)

// Font kinds.
const (
	TrueType = iota
	CFFSimple
	CFFCID
	NumKinds
)

// FontOpts controls Font.
type FontOpts struct {
	Kind      int
	NumGlyphs int
	Layout    bool // add GDEF/GSUB/GPOS tables
	XYOnly    bool // composite glyphs use offsets only
	IntWidths bool
	PlainCFF  bool // glyph shapes with moderate coordinates
	Large     bool // allow many/large glyphs
	Limit     float64
	// NoCmap disables the cmap table.
	NoCmap bool
	// PerGlyph bounds the number of contours per glyph
	Matrix bool // non-standard font matrices
}

// GlyfOutlines makes TrueType outlines.
func GlyfOutlines(rng *rand.Rand, n int, xyOnly bool, scale int) *glyf.Outlines {
	var glyfData, locaData []byte
	depth := make([]int, n)
	maxDepth := 0
	for i := 0; i < n; i++ {
		locaData = raw.A32(locaData, uint32(len(glyfData)))
		k := rng.IntN(10)
		var instr []byte
		if rng.IntN(3) == 0 {
			instr = Bytes(rng, 1+rng.IntN(20))
		}
		switch {
		case k == 0 && i > 0: // empty
		case k <= 2 && i > 2:
			nc := 1 + rng.IntN(3)
			d := 0
			comps := Components(rng, nc, instr != nil, func() int {
				g := rng.IntN(i)
				if depth[g] > 4 {
					g = 0
				}
				d = max(d, depth[g]+1)
				return g
			}, xyOnly)
			depth[i] = d
			maxDepth = max(maxDepth, d)
			x0, y0 := rng.IntN(200)-100, rng.IntN(200)-200
			g := raw.A16(nil, -1, x0, y0, x0+1+rng.IntN(900), y0+1+rng.IntN(900))
			for _, c := range comps {
				g = raw.A16(g, c.Flags, c.GID)
				g = append(g, c.Args...)
			}
			if instr != nil {
				g = raw.A16(g, len(instr))
				g = append(g, instr...)
			}
			glyfData = append(glyfData, g...)
		default:
			cc := Contours(rng, 1+rng.IntN(3), 12, scale)
			x0, y0, x1, y1 := math.MaxInt, math.MaxInt, math.MinInt, math.MinInt
			for _, c := range cc {
				for _, p := range c {
					x0, x1 = min(x0, p.X), max(x1, p.X)
					y0, y1 = min(y0, p.Y), max(y1, p.Y)
				}
			}
			g := raw.A16(nil, len(cc), x0, y0, x1, y1)
			g = append(g, EncodeSimple(rng, cc, instr)...)
			glyfData = append(glyfData, g...)
		}
		for len(glyfData)%2 != 0 {
			glyfData = append(glyfData, 0)
		}
	}
	locaData = raw.A32(locaData, uint32(len(glyfData)))
	gg, err := glyf.Decode(&glyf.Encoded{GlyfData: glyfData, LocaData: locaData, LocaFormat: 1})
	if err != nil {
		panic(fmt.Sprintf("fgen: %v", err))
	}
	o := &glyf.Outlines{Glyphs: gg, Tables: map[string][]byte{}}
	for _, w := range Widths(rng, n, true) {
		o.Widths = append(o.Widths, funit.Int16(w))
	}
	u := func() uint16 { return uint16(rng.IntN(Pick(rng, 3, 100, 65536))) }
	o.Maxp = &maxp.TTFInfo{
		MaxPoints: u(), MaxContours: u(), MaxCompositePoints: u(), MaxCompositeContours: u(), MaxZones: 2,
		MaxTwilightPoints: u(), MaxStorage: u(), MaxFunctionDefs: u(), MaxInstructionDefs: u(),
		MaxStackElements: u(), MaxSizeOfInstructions: u(), MaxComponentElements: u(), MaxComponentDepth: uint16(maxDepth),
	}
	for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
		if rng.IntN(3) == 0 {
			o.Tables[t] = Bytes(rng, 1+rng.IntN(40))
		}
	}
	switch rng.IntN(4) {
	case 0:
	default:
		o.Names = GlyphNames(rng, n, false)
	}
	return o
}

// UniText returns a string for use in the name table.
func UniText(rng *rand.Rand) string {
	switch rng.IntN(6) {
	case 0:
		return ""
	case 1:
		return Pick(rng, "© 2024 Test", "Größe ™", "日本語", "𝔘𝔫𝔦𝔠𝔬𝔡𝔢 😀", "Ελληνικά", "a\nb\tc", "é ü ﬁ Ω", "\u00a0x", "€ 100", "﷼")
	default:
		return Text(rng)
	}
}

// Family returns a font family name.
func Family(rng *rand.Rand) string {
	return Pick(rng, "Test", "Go", "Source Sans", "Test Bold", "Times New Roman", "My (Weird) [Font]/Name", "Größe", "日本", "A", "Black Light", "X-Y_Z", UniText(rng)+"F")
}

// CMap makes a unicode mapping for n glyphs.
func CMap(rng *rand.Rand, n int) map[rune]glyph.ID {
	m := map[rune]glyph.ID{}
	g := func() glyph.ID { return glyph.ID(rng.IntN(n)) }
	if rng.IntN(4) > 0 {
		for r := ' '; r < 127; r++ {
			if rng.IntN(5) > 0 {
				m[r] = glyph.ID((int(r) - 31) % n)
			}
		}
	}
	k := rng.IntN(5)
	for i := 0; i < k; i++ {
		base := rune(rng.IntN(0xFFF0))
		if rng.IntN(3) == 0 {
			base = rune(0x10000 + rng.IntN(0x100000))
		}
		if rng.IntN(8) == 0 {
			base = Pick[rune](rng, 0xFFF0, 0xFFFC, 0x10FFF0, 0, 0xFB00)
		}
		l := 1 + rng.IntN(14)
		start := g()
		for j := 0; j < l; j++ {
			switch rng.IntN(3) {
			case 0:
				m[base+rune(j)] = g()
			default:
				m[base+rune(j)] = glyph.ID((int(start) + j) % n)
			}
		}
	}
	if rng.IntN(4) == 0 {
		for _, r := range []rune{0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04} {
			m[r] = g()
		}
	}
	for r, g := range m {
		if g == 0 {
			delete(m, r)
		}
	}
	return m
}

// Subtable converts a mapping to a cmap subtable.
func Subtable(rng *rand.Rand, m map[rune]glyph.ID) cmap.Subtable {
	high := rune(0)
	for r := range m {
		high = max(high, r)
	}
	if high <= 0xFFFF && rng.IntN(4) > 0 {
		res := cmap.Format4{}
		for r, g := range m {
			res[uint16(r)] = g
		}
		return res
	}
	res := cmap.Format12{}
	for r, g := range m {
		res[uint32(r)] = g
	}
	return res
}

// CmapTable makes a "cmap" table with one or more subtables.
func CmapTable(rng *rand.Rand, n int) (cmap.Table, map[rune]glyph.ID) {
	m := CMap(rng, n)
	if len(m) == 0 && n > 1 {
		m['A'] = glyph.ID(n - 1)
	}
	s := Subtable(rng, m)
	f := &sfnt.Font{}
	f.InstallCMap(s)
	if rng.IntN(4) == 0 {
		f0 := &cmap.Format0{}
		for i := range f0.Data {
			if rng.IntN(2) == 0 {
				f0.Data[i] = byte(rng.IntN(min(n, 256)))
			}
		}
		lang := uint16(Pick(rng, 0, 0, 0, 12))
		f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0, Language: lang}] = f0.Encode(lang)
	}
	return f.CMapTable, m
}

// Time returns a time for use in the head table.
func Time(rng *rand.Rand) time.Time {
	switch rng.IntN(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Date(1904, 1, 1, 0, 0, 1, 0, time.UTC)
	case 2:
		return time.Unix(rng.Int64N(1<<33), 0)
	case 3:
		return time.Unix(int64(rng.IntN(2000))-1000, 0)
	default:
		return time.Date(1950+rng.IntN(200), time.Month(1+rng.IntN(12)), 1+rng.IntN(28), rng.IntN(24), rng.IntN(60), rng.IntN(60), 0,
			Pick(rng, time.UTC, time.FixedZone("x", 3600*(rng.IntN(20)-10))))
	}
}

// Font makes a random font.
func Font(rng *rand.Rand, o *FontOpts) (*sfnt.Font, map[rune]glyph.ID) {
	n := o.NumGlyphs
	f := &sfnt.Font{}
	f.FamilyName = Family(rng)
	f.Width = os2.Width(Pick(rng, 5, 5, 5, 1+rng.IntN(9)))
	f.Weight = os2.Weight(Pick(rng, 400, 400, 700, 100*(1+rng.IntN(9)), 1+rng.IntN(1000)))
	b := func() bool { return rng.IntN(3) == 0 }
	f.IsBold = b()
	f.IsItalic = b()
	if f.IsItalic || rng.IntN(6) == 0 {
		f.ItalicAngle = Pick(rng, -12, -9.5, 7, -0.25, float64(rng.IntN(60*65536)-30*65536)/65536, -89, -11.25)
		f.IsOblique = b()
	}
	f.IsRegular = b()
	switch rng.IntN(3) {
	case 0:
		f.IsSerif = true
	case 1:
		f.IsScript = true
	}
	f.CodePageRange = os2.CodePageRange(Pick(rng, 0, rng.Uint64()))
	f.Version = head.Version(Pick(rng, 0x10000, 0x18000, uint32(rng.IntN(10*65536)), uint32(rng.IntN(65000*65536)))).Round()
	f.CreationTime, f.ModificationTime = Time(rng), Time(rng)
	f.Description, f.SampleText = UniText(rng), UniText(rng)
	f.Copyright, f.Trademark, f.License, f.LicenseURL = UniText(rng), UniText(rng), UniText(rng), UniText(rng)
	f.PermUse = Pick(rng, os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted)
	f.UnitsPerEm = uint16(Pick(rng, 1000, 1000, 2048, 1024, 16, 16384, 16+rng.IntN(16369)))
	q := 1 / float64(f.UnitsPerEm)
	f.FontMatrix = [6]float64{q, 0, 0, q, 0, 0}
	i16 := func(lo, hi int) funit.Int16 {
		if rng.IntN(10) == 0 {
			return Pick[funit.Int16](rng, 0, 32767, -32768, 1, -1)
		}
		return funit.Int16(lo + rng.IntN(hi-lo))
	}
	f.Ascent, f.Descent, f.LineGap = i16(500, 2000), i16(-800, 0), i16(0, 400)
	f.CapHeight, f.XHeight = max(0, i16(0, 1000)), max(0, i16(0, 800))
	f.UnderlinePosition = funit.Float64(i16(-300, 0))
	f.UnderlineThickness = funit.Float64(i16(0, 200))
	if o.Kind != TrueType && rng.IntN(3) == 0 && !o.IntWidths {
		f.UnderlinePosition += funit.Float64(Pick(rng, 0.5, 0.25, 0.125))
	}

	switch o.Kind {
	case TrueType:
		f.Outlines = GlyfOutlines(rng, n, o.XYOnly, Pick(rng, 500, 2000))
	default:
		cf := CFFFont(rng, &CFFOpts{NumGlyphs: n, CID: o.Kind == CFFCID, Simple: o.PlainCFF || n > 200, IntWidths: o.IntWidths, Limit: o.Limit})
		f.Outlines = cf.Outlines
		if o.Kind == CFFCID {
			if o.Matrix {
				f.FontMatrix = cf.FontMatrix
			} else {
				for i := range cf.FontMatrices {
					cf.FontMatrices[i] = [6]float64{1, 0, 0, 1, 0, 0}
				}
			}
		} else if o.Matrix {
			f.FontMatrix = Matrix(rng, q)
		}
		out := f.Outlines.(*cff.Outlines)
		// keep coordinates and widths within 16 bits
		for _, g := range out.Glyphs {
			if g.Width > 32767 {
				g.Width = 32767
			}
		}
	}

	var m map[rune]glyph.ID
	if !o.NoCmap {
		f.CMapTable, m = CmapTable(rng, n)
	}
	if o.Layout {
		k := min(n, 14)
		gg := &Gtab{Rng: rng}
		p := rng.Perm(n)
		for i := 0; i < k; i++ {
			gg.Gids = append(gg.Gids, glyph.ID(p[i]))
		}
		f.Gdef = gg.Gdef()
		if rng.IntN(4) > 0 {
			f.Gsub = gg.Info(1+rng.IntN(5), GsubKinds, Tags)
		}
		if rng.IntN(4) > 0 {
			f.Gpos = gg.Info(1+rng.IntN(5), GposKinds, Tags)
		}
	}
	return f, m
}

// Blank removes all outlines from the font.
func Blank(f *sfnt.Font) {
	switch out := f.Outlines.(type) {
	case *glyf.Outlines:
		for i := range out.Glyphs {
			out.Glyphs[i] = nil
		}
	case *cff.Outlines:
		for _, g := range out.Glyphs {
			g.Cmds, g.HStem, g.VStem = nil, nil, nil
		}
	}
}

// FixFlags makes the style flags of the font consistent, so that they
// survive a round-trip through a font file.
func FixFlags(f *sfnt.Font) {
	if f.ItalicAngle != 0 || f.IsOblique {
		f.IsItalic = true
	}
	if f.IsItalic || f.IsBold {
		f.IsRegular = false
	}
}

// MustWrite writes the font.
func MustWrite(f *sfnt.Font) []byte {
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

var _ = gtab.TypeGsub
