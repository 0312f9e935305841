// Package fgen generates random fonts and parts of fonts.
package fgen

import (
	"math"
	"math/rand/v2"

	"seehuhn.de/go/sfnt/cff"
)

// NumStyle describes which numbers a generator uses.
type NumStyle int

// The number styles.
const (
	SmallInt NumStyle = iota
	Int
	Fixed      // multiples of 1/65536
	Real       // arbitrary
	NearInt    // integers with tiny offsets
	HalfFixed  // close to the midpoint between 16.16 numbers
	BigInt     // up to +-32000
	BigReal    // up to +-32000
	numStyles_ // number of styles
)

// RandStyle returns a random style.
func RandStyle(rng *rand.Rand) NumStyle { return NumStyle(rng.IntN(int(numStyles_))) }

// Num returns a random delta.
func (st NumStyle) Num(rng *rand.Rand) float64 {
	switch st {
	case SmallInt:
		return float64(rng.IntN(41) - 20)
	case Int:
		e := []float64{0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132}
		if rng.IntN(5) == 0 {
			return e[rng.IntN(len(e))]
		}
		return float64(rng.IntN(1001) - 500)
	case Fixed:
		return float64(rng.IntN(200*65536)-100*65536) / 65536
	case Real:
		return (rng.Float64() - 0.5) * 400
	case NearInt:
		return float64(rng.IntN(401)-200) + []float64{0, 1e-3, 1e-6, -1e-6, 1e-5, -1e-5, 7.6e-6, -7.7e-6, 1.0 / 3}[rng.IntN(9)]
	case HalfFixed:
		return (float64(rng.IntN(100000)-50000) + 0.5 + (rng.Float64()-0.5)*1e-3) / 65536
	case BigInt:
		return float64(rng.IntN(32001) - 16000)
	default:
		return (rng.Float64() - 0.5) * 32000
	}
}

// GlyphOpts controls CFFGlyph.
type GlyphOpts struct {
	Style    NumStyle
	MaxSegs  int // maximum number of segments per subpath
	Subpaths int
	Stems    int // maximum number of stems
	Masks    bool
	Limit    float64 // coordinates are in [-Limit, Limit]
}

// RandGlyphOpts returns random options.
func RandGlyphOpts(rng *rand.Rand) *GlyphOpts {
	o := &GlyphOpts{Style: RandStyle(rng), Limit: 32000}
	switch rng.IntN(4) {
	case 0:
		o.MaxSegs, o.Subpaths = 120, 1+rng.IntN(2)
	case 1:
		o.MaxSegs, o.Subpaths = 30, rng.IntN(4)
	default:
		o.MaxSegs, o.Subpaths = 8, rng.IntN(6)
	}
	switch rng.IntN(6) {
	case 0:
		o.Stems = 96
	case 1:
		o.Stems = 30
	case 2, 3:
		o.Stems = 6
	}
	o.Masks = o.Stems > 0 && rng.IntN(3) > 0
	return o
}

// CFFGlyph returns a random valid glyph program.
func CFFGlyph(rng *rand.Rand, o *GlyphOpts, name string, width float64) *cff.Glyph {
	g := cff.NewGlyph(name, width)
	num := func() float64 { return o.Style.Num(rng) }
	nz := func() float64 {
		for {
			if x := num(); x != 0 {
				return x
			}
		}
	}

	if o.Stems > 0 {
		total := rng.IntN(o.Stems + 1)
		nh := rng.IntN(total + 1)
		switch rng.IntN(4) {
		case 0:
			nh = total
		case 1:
			nh = 0
		}
		stems := func(n int) []float64 {
			var res []float64
			pos := math.Trunc(num())
			pos = math.Max(-10000, math.Min(pos, 10000))
			for i := 0; i < n; i++ {
				a := pos + math.Abs(num())
				b := a + math.Abs(num())
				switch rng.IntN(12) {
				case 0:
					b = a - 20
				case 1:
					b = a - 21
				}
				if math.Abs(a) > 15000 || math.Abs(b) > 15000 {
					a, b = float64(i), float64(i)+0.25
				}
				res = append(res, a, b)
				pos = b
			}
			return res
		}
		g.HStem = stems(nh)
		g.VStem = stems(total - nh)
	}
	n := (len(g.HStem) + len(g.VStem)) / 2
	mask := func() {
		if n == 0 {
			return
		}
		op := cff.OpHintMask
		if rng.IntN(3) == 0 {
			op = cff.OpCntrMask
		}
		args := make([]float64, (n+7)/8)
		for i := range args {
			args[i] = float64(rng.IntN(256))
		}
		g.Cmds = append(g.Cmds, cff.GlyphOp{Op: op, Args: args})
	}
	if o.Masks && rng.IntN(2) == 0 {
		mask()
		if rng.IntN(4) == 0 {
			mask()
		}
	}

	var x, y float64
	clip := func(v float64) float64 {
		if v > o.Limit {
			return o.Limit - math.Mod(v, 100)
		}
		if v < -o.Limit {
			return -o.Limit - math.Mod(v, 100)
		}
		return v
	}
	line := func(dx, dy float64) {
		x, y = clip(x+dx), clip(y+dy)
		g.LineTo(x, y)
	}
	curve := func(a, b, c, d, e, f float64) {
		x1, y1 := clip(x+a), clip(y+b)
		x2, y2 := clip(x1+c), clip(y1+d)
		x, y = clip(x2+e), clip(y2+f)
		g.CurveTo(x1, y1, x2, y2, x, y)
	}
	seg := func(kind int) {
		switch kind {
		case 0:
			line(num(), num())
		case 1:
			line(nz(), 0)
		case 2:
			line(0, nz())
		case 3:
			line(0, 0)
		case 4:
			curve(num(), num(), num(), num(), num(), num())
		case 5: // horizontal - horizontal
			curve(num(), 0, num(), num(), num(), 0)
		case 6:
			curve(0, num(), num(), num(), 0, num())
		case 7: // horizontal - vertical
			curve(num(), 0, num(), num(), 0, num())
		case 8:
			curve(0, num(), num(), num(), num(), 0)
		case 9: // general with one aligned end
			if rng.IntN(2) == 0 {
				curve(num(), 0, num(), num(), num(), num())
			} else {
				curve(0, num(), num(), num(), num(), num())
			}
		case 10:
			if rng.IntN(2) == 0 {
				curve(num(), num(), num(), num(), num(), 0)
			} else {
				curve(num(), num(), num(), num(), 0, num())
			}
		case 11: // hflex
			y0 := y
			curve(num(), 0, num(), num(), num(), 0)
			d := y0 - y
			curve(num(), 0, num(), d, num(), 0)
		case 12: // hflex1
			y0 := y
			curve(num(), num(), num(), num(), num(), 0)
			m := num()
			curve(num(), 0, num(), m, num(), y0-y-m)
		case 13: // flex
			y0 := y
			curve(num(), num(), num(), num(), num(), num())
			m, k := num(), num()
			curve(num(), k, num(), m, num(), y0-y-m-k)
		case 14: // degenerate curves
			v := [6]float64{}
			for i := range v {
				if rng.IntN(3) == 0 {
					v[i] = num()
				}
			}
			curve(v[0], v[1], v[2], v[3], v[4], v[5])
		case 15: // absolute jump
			tx, ty := (rng.Float64()*2-1)*o.Limit/2, (rng.Float64()*2-1)*o.Limit/2
			if o.Style != Real && o.Style != BigReal {
				tx, ty = math.Round(tx), math.Round(ty)
			}
			x, y = tx, ty
			g.LineTo(x, y)
		}
	}
	for s := 0; s < o.Subpaths; s++ {
		switch rng.IntN(5) {
		case 0:
			x = clip(x + num())
		case 1:
			y = clip(y + num())
		case 2:
		default:
			x, y = clip(x+num()), clip(y+num())
		}
		g.MoveTo(x, y)
		m := rng.IntN(o.MaxSegs + 1)
		// runs of similar segments
		for m > 0 {
			kinds := []int{rng.IntN(16)}
			switch rng.IntN(5) {
			case 0: // alternating
				kinds = [][]int{{1, 2}, {2, 1}, {7, 8}, {8, 7}, {4, 0}, {0, 4}, {5, 6}}[rng.IntN(7)]
			case 1:
				kinds = append(kinds, rng.IntN(15), rng.IntN(15))
			}
			if rng.IntN(20) != 0 {
				for i := range kinds {
					if kinds[i] == 15 {
						kinds[i] = 4
					}
				}
			}
			run := 1 + rng.IntN(m)
			for i := 0; i < run; i++ {
				seg(kinds[i%len(kinds)])
				if o.Masks && rng.IntN(25) == 0 {
					mask()
				}
			}
			m -= run
		}
	}
	return g
}
