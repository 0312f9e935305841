package fgen

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"verif/cffref"
)

// Pick returns a random element.
func Pick[T any](rng *rand.Rand, x ...T) T { return x[rng.IntN(len(x))] }

// Float returns a random real number of any magnitude.
func Float(rng *rand.Rand) float64 {
	switch rng.IntN(7) {
	case 0:
		return float64(rng.IntN(2001) - 1000)
	case 1:
		return float64(rng.IntN(200001)-100000) / 1000
	case 2:
		return rng.NormFloat64()
	case 3:
		return rng.NormFloat64() * math.Pow(10, float64(rng.IntN(40)-20))
	case 4:
		for {
			x := math.Float64frombits(rng.Uint64())
			if !math.IsNaN(x) && !math.IsInf(x, 0) {
				return x
			}
		}
	case 5:
		return Pick(rng, 0, 1, -1, 0.001, 0.039625, 1e-3+1e-9, 999999999, 999999999.5, 9999999995, 0.1, 0.01, 0.099999999999, 1e9, 1e10, 123456789.123,
			math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e300, 1e301, 1e-300, 1e-301, 1e22, 1e-22, 0.5, 2147483647, 2147483648, -2147483648, -2147483649)
	default:
		return math.Round(rng.NormFloat64()*1000) * math.Pow(10, float64(rng.IntN(30)-15))
	}
}

// Text returns a random valid UTF-8 string.
func Text(rng *rand.Rand) string {
	switch rng.IntN(8) {
	case 0:
		return ""
	case 1:
		return cffref.StdStrings[rng.IntN(len(cffref.StdStrings))]
	case 2:
		return Pick(rng, "001.000", "Bold", "Regular", "Medium", "Black", "a", " ", "Ünïcödé 字", "© 2024 nobody")
	case 3:
		b := make([]byte, 200+rng.IntN(400))
		for i := range b {
			b[i] = byte(32 + rng.IntN(95))
		}
		return string(b)
	default:
		b := make([]byte, 1+rng.IntN(20))
		for i := range b {
			b[i] = byte(32 + rng.IntN(95))
		}
		return string(b)
	}
}

// Private returns a random private dictionary.
func Private(rng *rand.Rand) *type1.PrivateDict {
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	blues := func(n int) []funit.Int16 {
		if n == 0 {
			return nil
		}
		var v []int
		wide := rng.IntN(3) == 0
		for i := 0; i < 2*n; i++ {
			if wide {
				v = append(v, rng.IntN(65536)-32768)
			} else {
				v = append(v, rng.IntN(1400)-300)
			}
		}
		sort.Ints(v)
		var res []funit.Int16
		for _, x := range v {
			res = append(res, funit.Int16(x))
		}
		return res
	}
	p.BlueValues = blues(rng.IntN(8))
	p.OtherBlues = blues(rng.IntN(6))
	if rng.IntN(2) == 0 {
		p.BlueScale = Pick(rng, 0.039625, 0.0396255, 0.03963, 0.03962500001, 0.5, rng.Float64(), 0, 1, 0.0001)
	}
	if rng.IntN(2) == 0 {
		p.BlueShift = Pick(rng, 0, 7, 8, -1, 107, 108, -108, 1131, 1132, -1132, 32767, 32768, -32769, math.MaxInt32, math.MinInt32, rng.Int32())
		p.BlueFuzz = Pick(rng, 0, 1, 2, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, 32768, -32768, -32769, math.MaxInt32, math.MinInt32, -rng.Int32())
	}
	if rng.IntN(2) == 0 {
		p.StdHW = Pick(rng, 0, 1, 80, 80.5, 33.333333333, rng.Float64()*200, 10000, 1e-7)
		p.StdVW = Pick(rng, 0, 1, 80, 80.5, 33.333333333, rng.Float64()*200, 9999.9999, 1e-12)
	}
	p.ForceBold = rng.IntN(3) == 0
	return p
}

// Matrix returns a random font matrix close to scale s.
func Matrix(rng *rand.Rand, s float64) matrix.Matrix {
	switch rng.IntN(6) {
	case 0, 1:
		return matrix.Matrix{s, 0, 0, s, 0, 0}
	case 2:
		t := s * (1 + Pick(rng, 1e-3, 1e-5, 1e-7, 1e-8, 0.5, 1.048576))
		return matrix.Matrix{t, 0, 0, t, 0, 0}
	case 3:
		return matrix.Matrix{s, 0, s * rng.Float64(), s, 0, 0}
	case 4:
		return matrix.Matrix{s, s * rng.NormFloat64() * 0.1, s * 0.2, s * 1.5, rng.NormFloat64() * 0.1, rng.NormFloat64() * 10}
	default:
		return matrix.Matrix{1 / float64(Pick(rng, 2048, 1024, 512, 4096, 777, 1001)), 0, 0, 1 / float64(Pick(rng, 2048, 1024, 1000)), 0, Pick(rng, 0, 1e-6, -3e-6)}
	}
}

// GlyphNames returns n different glyph names, starting with ".notdef".
func GlyphNames(rng *rand.Rand, n int, wild bool) []string {
	seen := map[string]bool{".notdef": true}
	res := []string{".notdef"}
	add := func(s string) {
		if len(res) < n && !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	if rng.IntN(5) == 0 {
		// a prefix of a predefined charset
		for _, sid := range cffref.PredefCharset(rng.IntN(3)) {
			add(cffref.StdStrings[sid])
		}
	}
	for len(res) < n {
		switch rng.IntN(5) {
		case 0: // run of standard names
			k := rng.IntN(len(cffref.StdStrings))
			for m := 1 + rng.IntN(40); m > 0 && k < len(cffref.StdStrings); m-- {
				add(cffref.StdStrings[k])
				k++
			}
		case 1:
			add(cffref.StdStrings[rng.IntN(len(cffref.StdStrings))])
		case 2, 3:
			for m := 1 + rng.IntN(1+n/2); m > 0; m-- {
				add(fmt.Sprintf("g%d.%c", rng.IntN(4*n+10), 'a'+rune(rng.IntN(3))))
			}
		case 4:
			if wild {
				b := make([]byte, Pick(rng, 0, 1, 2, 5, 31, 32, 127, 300))
				for i := range b {
					b[i] = byte(rng.IntN(256))
				}
				add(string(b))
			} else {
				add(fmt.Sprintf("uni%04X", rng.IntN(65536)))
			}
		}
	}
	return res
}

// Encoding returns a random encoding vector.  There are at most 255 codes if
// glyph 1 is not encoded.
func Encoding(rng *rand.Rand, n int) []glyph.ID {
	enc := make([]glyph.ID, 256)
	m := min(n-1, rng.IntN(257))
	if rng.IntN(4) == 0 {
		m = min(n-1, Pick(rng, 0, 1, 255, 256, 254))
	}
	var codes []int
	switch rng.IntN(4) {
	case 0: // random order
		codes = rng.Perm(256)[:m]
	case 1: // increasing
		codes = append(codes, rng.Perm(256)[:m]...)
		sort.Ints(codes)
	case 2: // one block
		a := rng.IntN(257 - m)
		for i := 0; i < m; i++ {
			codes = append(codes, a+i)
		}
	case 3: // shuffled blocks
		var blocks [][]int
		for a := 0; a < 256; {
			l := min(1+rng.IntN(30), 256-a)
			var b []int
			for i := 0; i < l; i++ {
				b = append(b, a+i)
			}
			blocks = append(blocks, b)
			a += l
		}
		rng.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
		for _, b := range blocks {
			codes = append(codes, b...)
		}
		codes = codes[:m]
	}
	for i, c := range codes {
		enc[c] = glyph.ID(i + 1)
	}
	if m > 0 && rng.IntN(2) == 0 {
		p := Pick(rng, 0.02, 0.3, 1)
		for c := range enc {
			if enc[c] == 0 && rng.Float64() < p {
				enc[c] = glyph.ID(1 + rng.IntN(m))
			}
		}
	}
	if m < n-1 && rng.IntN(3) == 0 {
		// the encoded glyphs are not contiguous
		perm := rng.Perm(n - 1)
		for c, g := range enc {
			if g != 0 {
				enc[c] = glyph.ID(1 + perm[g-1])
			}
		}
		enc[Pick(rng, rng.IntN(256), 0, 255)] = 0
	}
	return enc
}

// FDSelect returns a random assignment of n glyphs to nfd dictionaries.
func FDSelect(rng *rand.Rand, n, nfd int) []uint8 {
	res := make([]uint8, n)
	switch rng.IntN(5) {
	case 0: // constant
		v := uint8(rng.IntN(nfd))
		for i := range res {
			res[i] = v
		}
	case 1: // random
		for i := range res {
			res[i] = uint8(rng.IntN(nfd))
		}
	case 2: // periodic
		for i := range res {
			res[i] = uint8(i % nfd)
		}
	case 3: // first one special
		for i := range res {
			res[i] = uint8(nfd - 1)
		}
		res[0] = 0
	default: // blocks
		v := uint8(0)
		l := 1 + rng.IntN(n)
		for i := range res {
			if rng.IntN(l) == 0 {
				v = uint8(rng.IntN(nfd))
			}
			res[i] = v
		}
	}
	return res
}

// CFFOpts controls CFFFont.
type CFFOpts struct {
	NumGlyphs int
	CID       bool
	Wild      bool // arbitrary bytes in glyph names
	Simple    bool // trivial glyph outlines
	IntWidths bool
	Limit     float64 // coordinates
}

// Widths returns n advance widths; see kind.
func Widths(rng *rand.Rand, n int, integer bool) []float64 {
	w := make([]float64, n)
	base := float64(rng.IntN(1500))
	mode := rng.IntN(7)
	for i := range w {
		switch mode {
		case 0:
			w[i] = base
		case 1:
			w[i] = base
			if rng.IntN(4) == 0 {
				w[i] = float64(rng.IntN(2000))
			}
		case 2:
			w[i] = float64(rng.IntN(32768))
		case 3:
			w[i] = base + Pick(rng, 0.0, 1, 107, 108, 109, 1131, 1132, 1240)
		case 4:
			w[i] = float64(rng.IntN(2000*65536)) / 65536
		case 5:
			w[i] = base + 0.5
			if rng.IntN(3) == 0 {
				w[i] = base + rng.Float64()
			}
		case 6:
			w[i] = float64(rng.IntN(2500))
		}
		if integer {
			w[i] = math.Round(w[i])
			if w[i] > 32767 {
				w[i] = 32767
			}
		}
	}
	return w
}

// CFFFont returns a random font.
func CFFFont(rng *rand.Rand, o *CFFOpts) *cff.Font {
	n := o.NumGlyphs
	f := &cff.Font{FontInfo: &type1.FontInfo{}, Outlines: &cff.Outlines{}}
	info := f.FontInfo
	info.FontName = Pick(rng, "Test", "Test-Regular", "A", "ABCDEF+Test-Bold", "Times-Roman")
	info.UnderlinePosition = -100
	info.UnderlineThickness = 50
	if rng.IntN(3) > 0 {
		info.Version, info.Notice, info.Copyright = Text(rng), Text(rng), Text(rng)
		info.FullName, info.FamilyName, info.Weight = Text(rng), Text(rng), Text(rng)
		info.ItalicAngle = Pick(rng, 0, -12, 7.5, -9.333333333333, rng.NormFloat64()*20, 1e-7, -90)
		info.IsFixedPitch = rng.IntN(2) == 0
		info.UnderlinePosition = funit.Float64(Pick(rng, -100, 0, -75.5, -100.00000001, float64(rng.IntN(2000)-1000), rng.NormFloat64()*100, 40000, -1132))
		info.UnderlineThickness = funit.Float64(Pick(rng, 50, 0, 49.5, 107, 108, 1131, 1132, 32768, rng.Float64()*100))
	}
	w := Widths(rng, n, o.IntWidths)
	limit := o.Limit
	if limit == 0 {
		limit = 15000
	}
	for i := 0; i < n; i++ {
		var g *cff.Glyph
		if o.Simple {
			g = cff.NewGlyph("", w[i])
			switch rng.IntN(4) {
			case 0:
			case 1:
				g.MoveTo(float64(rng.IntN(100)), float64(rng.IntN(100)))
				g.LineTo(float64(rng.IntN(1000)), float64(rng.IntN(1000)))
			default:
				x, y := float64(rng.IntN(500)), float64(rng.IntN(500))
				g.MoveTo(x, y)
				g.LineTo(x+10, y)
				g.LineTo(x+10, y+float64(i%100))
			}
		} else {
			g = CFFGlyph(rng, &GlyphOpts{Style: Pick(rng, SmallInt, Int, Fixed, BigInt, Int), MaxSegs: 12, Subpaths: rng.IntN(3),
				Stems: Pick(rng, 0, 0, 4, 12), Masks: rng.IntN(2) == 0, Limit: limit}, "", w[i])
		}
		f.Glyphs = append(f.Glyphs, g)
	}
	if o.CID {
		nfd := Pick(rng, 1, 1, 2, 3, 5, 1+rng.IntN(256), 256)
		if nfd > 20 && rng.IntN(4) > 0 {
			nfd = 4
		}
		sel := FDSelect(rng, n, nfd)
		f.FDSelect = func(g glyph.ID) int { return int(sel[g]) }
		top := Pick(rng, 1.0, 0.001)
		f.FontMatrix = Matrix(rng, top)
		for i := 0; i < nfd; i++ {
			priv, mat := Private(rng), Matrix(rng, 0.001/top)
			if i > 0 && rng.IntN(3) == 0 {
				// the same values as in an earlier dictionary
				j := rng.IntN(i)
				p := *f.Private[j]
				p.BlueValues = slices.Clone(p.BlueValues)
				p.OtherBlues = slices.Clone(p.OtherBlues)
				priv = &p
				if rng.IntN(4) == 0 {
					mat = f.FontMatrices[j]
				}
			} else if i > 0 && rng.IntN(4) == 0 {
				mat = f.FontMatrices[rng.IntN(i)]
			}
			f.Private = append(f.Private, priv)
			f.FontMatrices = append(f.FontMatrices, mat)
		}
		f.ROS = &cid.SystemInfo{Registry: Pick(rng, "Adobe", "Test", "a"), Ordering: Pick(rng, "Identity", "Japan1", "Regular", "Bold"), Supplement: Pick(rng, 0, 1, 6, 107, 108, 32768, math.MaxInt32, rng.Int32N(1000))}
		f.GIDToCID = make([]cid.CID, n)
		switch rng.IntN(4) {
		case 0:
			for i := range f.GIDToCID {
				f.GIDToCID[i] = cid.CID(i)
			}
		case 1: // increasing with gaps
			c, gap := 0, min(65535/n, 1+rng.IntN(500))
			for i := 1; i < n; i++ {
				c += 1
				if rng.IntN(3) == 0 {
					c += rng.IntN(max(gap, 1))
				}
				c = min(c, 65535-(n-1-i))
				f.GIDToCID[i] = cid.CID(c)
			}
		case 2: // random
			p := rng.Perm(65535)
			for i := 1; i < n; i++ {
				f.GIDToCID[i] = cid.CID(p[i-1] + 1)
			}
		case 3: // at the upper end
			for i := 1; i < n; i++ {
				f.GIDToCID[i] = cid.CID(65535 - (n - 1 - i))
			}
		}
	} else {
		names := GlyphNames(rng, n, o.Wild)
		for i, g := range f.Glyphs {
			g.Name = names[i]
		}
		f.FontMatrix = Matrix(rng, 0.001)
		f.Private = []*type1.PrivateDict{Private(rng)}
		f.FDSelect = func(glyph.ID) int { return 0 }
		rev := map[string]int{}
		for i, s := range names {
			rev[s] = i
		}
		switch rng.IntN(4) {
		case 0:
			f.Encoding = cff.StandardEncoding(f.Glyphs)
		case 1:
			f.Encoding = make([]glyph.ID, 256)
			for c, sid := range cffref.ExpertEncoding() {
				f.Encoding[c] = glyph.ID(rev[cffref.StdStrings[sid]])
			}
			// only usable if it is exactly the expert encoding
		default:
			f.Encoding = Encoding(rng, n)
		}
	}
	return f
}
