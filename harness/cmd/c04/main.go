// C04: compiling glyphs to Type 2 charstrings preserves outline, hints, width.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"verif/cffref"
	"verif/fgen"
	"verif/h"
	"verif/t2"
)

const unit = 1.0 / 65536

func near(a, b float64) bool { return math.Abs(a-b) <= unit*1.0001 }

// representable reports whether every number in the glyph program can be
// stored as a 16.16 number; the compiler may refuse the glyph otherwise.
func representable(g *cff.Glyph) bool {
	ok := func(d float64) bool { return d > -32767.9 && d < 32767.9 }
	var x, y float64
	for _, c := range g.Cmds {
		if c.Op == cff.OpHintMask || c.Op == cff.OpCntrMask {
			continue
		}
		for k := 0; k+1 < len(c.Args); k += 2 {
			if !ok(c.Args[k]-x) || !ok(c.Args[k+1]-y) {
				return false
			}
			x, y = c.Args[k], c.Args[k+1]
		}
	}
	for _, s := range [][]float64{g.HStem, g.VStem} {
		p := 0.0
		for _, v := range s {
			if !ok(v-p) || !ok(v) {
				return false
			}
			p = v
		}
	}
	return true
}

var kinds = map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k'}

func diffStems(what string, got, want []float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %v, want %v", what, got, want)
	}
	for k := range got {
		if !near(got[k], want[k]) {
			return fmt.Sprintf("%s: edge %d is %.8f, want %.8f", what, k, got[k], want[k])
		}
	}
	return ""
}

// diff compares what was executed with the glyph that was compiled.
func diff(r *t2.Result, g *cff.Glyph) string {
	if !near(r.Width, g.Width) {
		return fmt.Sprintf("width %.8f, want %.8f", r.Width, g.Width)
	}
	if d := diffStems("hstem", r.HStem, g.HStem); d != "" {
		return d
	}
	if d := diffStems("vstem", r.VStem, g.VStem); d != "" {
		return d
	}
	for i := 0; i < len(r.Ops) && i < len(g.Cmds); i++ {
		o, c := r.Ops[i], g.Cmds[i]
		if o.Kind != kinds[c.Op] {
			return fmt.Sprintf("command %d is %c, want %s", i, o.Kind, c)
		}
		var a []float64
		if o.Kind == 'h' || o.Kind == 'k' {
			for _, b := range o.Mask {
				a = append(a, float64(b))
			}
		} else {
			a = o.Args
		}
		if len(a) != len(c.Args) {
			return fmt.Sprintf("command %d is %c%v, want %s", i, o.Kind, a, c)
		}
		for k := range a {
			if !near(a[k], c.Args[k]) {
				return fmt.Sprintf("command %d is %c%.8f, want %.8f", i, o.Kind, a, c.Args)
			}
		}
	}
	if len(r.Ops) != len(g.Cmds) {
		return fmt.Sprintf("%d commands, want %d", len(r.Ops), len(g.Cmds))
	}
	return ""
}

// asResult converts a decoded glyph.
func asResult(g *cff.Glyph) *t2.Result {
	r := &t2.Result{Width: g.Width, HStem: g.HStem, VStem: g.VStem}
	for _, c := range g.Cmds {
		o := t2.Op{Kind: kinds[c.Op]}
		if o.Kind == 'h' || o.Kind == 'k' {
			for _, a := range c.Args {
				o.Mask = append(o.Mask, byte(a))
			}
		} else {
			o.Args = c.Args
		}
		r.Ops = append(r.Ops, o)
	}
	return r
}

func widths(rng *rand.Rand, n int) []float64 {
	w := make([]float64, n)
	base := []float64{0, 500, 600.5, 1000, 333.333, 250 + unit, -100, 32767, 32000.75}[rng.IntN(9)]
	mode := rng.IntN(9)
	spread := []float64{33000, 40000, 60000, 65000}[rng.IntN(4)]
	for i := range w {
		switch mode {
		case 0:
			w[i] = base
		case 1: // mostly the base
			w[i] = base
			if rng.IntN(3) == 0 {
				w[i] = base - float64(rng.IntN(300))
			}
		case 2:
			w[i] = float64(rng.IntN(2000))
		case 3:
			w[i] = rng.Float64() * 2000
		case 4:
			w[i] = float64(rng.IntN(2000*65536)) / 65536
		case 5:
			w[i] = []float64{base, base - 0.5, base - unit, base - unit/4}[rng.IntN(4)]
		case 6:
			w[i] = float64(rng.IntN(32768))
		case 8: // the differences only fit for some nominal widths
			w[i] = max(base, 0) + []float64{0, 1, spread, spread - 1, spread * rng.Float64(), 100 * rng.Float64()}[rng.IntN(6)]
			if base <= 0 {
				w[i] -= 32768
			}
		case 7:
			w[i] = 500 + []float64{0, 0.25, 107, 108, -107, -108, 214, 107.5, 1131, 1132, -400}[rng.IntN(11)]
		}
	}
	return w
}

// makeFont wraps glyphs as a simple or CID-keyed font.
func makeFont(rng *rand.Rand, gg []*cff.Glyph) *cff.Font {
	for i, g := range gg {
		g.Name = fmt.Sprintf("g%d", i)
		if i == 0 {
			g.Name = ".notdef"
		}
	}
	f := &cff.Font{
		FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: &cff.Outlines{Glyphs: gg, Private: []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}}, FDSelect: func(glyph.ID) int { return 0 }},
	}
	if rng.IntN(4) == 0 {
		nfd := 1 + rng.IntN(4)
		f.Private = nil
		for i := 0; i < nfd; i++ {
			f.Private = append(f.Private, &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1})
			f.FontMatrices = append(f.FontMatrices, matrix.Identity)
		}
		f.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
		for i := range gg {
			f.GIDToCID = append(f.GIDToCID, cid.CID(i))
			gg[i].Name = "" // CID-keyed fonts have no glyph names
		}
		f.FDSelect = func(g glyph.ID) int { return int(g) % nfd }
		f.FontMatrix = matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	}
	return f
}

// run compiles a font and checks every glyph.  It returns false when the font
// was refused.
func run(c *h.Case, f *cff.Font) bool {
	var buf bytes.Buffer
	var err error
	if !c.Guard("cff.Font.Write", func() { err = f.Write(&buf) }) {
		return false
	}
	if err != nil {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, g := range f.Glyphs {
			lo, hi = min(lo, g.Width), max(hi, g.Width)
		}
		if hi-lo > 65000 || lo < -32768 || hi > 98000 {
			c.Count("refused: widths", 1)
			return false
		}
		for _, g := range f.Glyphs {
			if !representable(g) {
				c.Count("refused: out of 16.16 range", 1)
				return false
			}
		}
		c.Violation("representable font refused", "Write: %v", err)
		return false
	}
	ref, err := cffref.Parse(buf.Bytes())
	if err != nil {
		c.Violation("output is not valid CFF", "%v", err)
		return false
	}
	if len(ref.CharStrings) != len(f.Glyphs) {
		c.Violation("number of charstrings", "%d, want %d", len(ref.CharStrings), len(f.Glyphs))
		return false
	}
	f2, err := cff.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		c.Violation("cff.Read rejects the output", "%v", err)
		return false
	}
	for i, g := range f.Glyphs {
		fd := ref.FDs[0]
		if ref.IsCID {
			fd = ref.FDs[ref.FDSelect[i]]
		}
		in := &t2.Interp{Subrs: fd.Subrs, GSubrs: ref.GSubrs,
			Default: fd.Private.Float(cffref.OpDefaultWidthX, 0), Nominal: fd.Private.Float(cffref.OpNominalWidthX, 0)}
		code := ref.CharStrings[i]
		if math.IsInf(in.Nominal, 0) || math.IsInf(in.Default, 0) {
			c.Violation("infinite width parameter", "default %v nominal %v", in.Default, in.Nominal)
			return false
		}
		r, err := in.Run(code)
		if err != nil {
			c.Violation("emitted charstring is not legal", "glyph %d: %v\n% x\n%s", i, err, clip(code), clipS(g.String()))
			return false
		}
		if d := diff(r, g); d != "" {
			c.Violation("outline differs", "glyph %d: %s\nnominal %v default %v\n% x\n%s", i, d, in.Nominal, in.Default, clip(code), clipS(g.String()))
			return false
		}
		if d := diff(asResult(f2.Glyphs[i]), g); d != "" {
			c.Violation("cff.Read disagrees", "glyph %d: %s\n% x\n%s", i, d, clip(code), clipS(g.String()))
			return false
		}
		for k, n := range r.Used {
			c.Count("emitted "+k, n)
		}
		if r.HasWidth {
			c.Count("explicit widths", 1)
		}
		c.Max("operand stack", r.MaxStack)
		c.Max("stems", (len(g.HStem)+len(g.VStem))/2)
		if len(g.Cmds) > 0 {
			c.NonTrivial(code)
		}
		if i == 1 {
			c.Sample("glyph with %d commands, %d stems, width %v: % x", len(g.Cmds), (len(g.HStem)+len(g.VStem))/2, g.Width, clip(code))
		}
	}
	c.Eval(len(f.Glyphs))
	return true
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func clipS(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

func random(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(12)
	w := widths(rng, n)
	var gg []*cff.Glyph
	for i := range w {
		name := ".notdef"
		if i > 0 {
			name = fmt.Sprintf("g%d", i)
		}
		gg = append(gg, fgen.CFFGlyph(rng, fgen.RandGlyphOpts(rng), name, w[i]))
	}
	f := makeFont(rng, gg)
	if !run(c, f) && !c.Failed() && n > 1 {
		// retry with the glyphs which can be represented
		var keep []*cff.Glyph
		for i, g := range gg {
			if i == 0 {
				g.Cmds, g.HStem, g.VStem = nil, nil, nil
			}
			if representable(g) {
				keep = append(keep, g)
			}
		}
		if len(keep) > 0 && keep[0] == gg[0] {
			run(c, makeFont(rng, keep))
		}
	}
}

// patterns enumerates short programs over zero/non-zero deltas: the form of
// the operator depends only on which deltas vanish.
func patterns(c *h.Case) {
	rng := c.Rng
	var gg []*cff.Glyph
	gg = append(gg, cff.NewGlyph(".notdef", 500))
	for k := 0; k < 200; k++ {
		g := cff.NewGlyph(fmt.Sprintf("g%d", k), 500)
		var x, y float64
		v := func() float64 {
			switch rng.IntN(5) {
			case 0, 1:
				return 0
			case 2:
				return 1
			case 3:
				return -1
			default:
				return 2
			}
		}
		x, y = v(), v()
		g.MoveTo(x, y)
		m := 1 + rng.IntN(6)
		for i := 0; i < m; i++ {
			if rng.IntN(3) == 0 {
				x, y = x+v(), y+v()
				g.LineTo(x, y)
			} else {
				x1, y1 := x+v(), y+v()
				x2, y2 := x1+v(), y1+v()
				x, y = x2+v(), y2+v()
				g.CurveTo(x1, y1, x2, y2, x, y)
			}
		}
		gg = append(gg, g)
	}
	run(c, makeFont(rng, gg))
}

// long generates runs around the stack limit.
func long(c *h.Case) {
	rng := c.Rng
	gg := []*cff.Glyph{cff.NewGlyph(".notdef", 500)}
	for k := 0; k < 20; k++ {
		g := cff.NewGlyph(fmt.Sprintf("g%d", k), 500+float64(rng.IntN(3)))
		var x, y float64
		g.MoveTo(float64(rng.IntN(2)), 5)
		x, y = g.Cmds[0].Args[0], 5
		n := func() float64 { return float64(1 + rng.IntN(9)) }
		line := func(dx, dy float64) { x += dx; y += dy; g.LineTo(x, y) }
		curve := func(a, b, cc, d, e, f float64) {
			g.CurveTo(x+a, y+b, x+a+cc, y+b+d, x+a+cc+e, y+b+d+f)
			x, y = x+a+cc+e, y+b+d+f
		}
		for blocks := 1 + rng.IntN(4); blocks > 0; blocks-- {
			kind := rng.IntN(9)
			m := rng.IntN(60)
			if rng.IntN(3) == 0 {
				m = []int{7, 8, 9, 11, 12, 13, 22, 23, 24, 25, 47, 48, 49}[rng.IntN(13)]
			}
			for i := 0; i < m; i++ {
				switch kind {
				case 0:
					line(n(), n())
				case 1, 2:
					if (i+kind)%2 == 0 {
						line(n(), 0)
					} else {
						line(0, n())
					}
				case 3:
					curve(n(), n(), n(), n(), n(), n())
				case 4:
					d := 0.0
					if i == 0 {
						d = n()
					}
					curve(n(), d, n(), n(), n(), 0)
				case 5:
					d := 0.0
					if i == 0 {
						d = n()
					}
					curve(d, n(), n(), n(), 0, n())
				case 6, 7:
					d := 0.0
					if i == m-1 && rng.IntN(2) == 0 {
						d = n()
					}
					if (i+kind)%2 == 0 {
						curve(n(), 0, n(), n(), d, n())
					} else {
						curve(0, n(), n(), n(), n(), d)
					}
				case 8:
					curve(n(), 0, n(), n(), n(), 0)
				}
			}
		}
		gg = append(gg, g)
	}
	run(c, makeFont(rng, gg))
}

// stems covers all stem counts with and without masks and widths.
func stems(c *h.Case) {
	rng := c.Rng
	gg := []*cff.Glyph{cff.NewGlyph(".notdef", 500)}
	for k := 0; k < 20; k++ {
		g := cff.NewGlyph(fmt.Sprintf("g%d", k), []float64{500, 501, 600.25}[rng.IntN(3)])
		total := rng.IntN(97)
		nh := rng.IntN(total + 1)
		switch rng.IntN(5) {
		case 0:
			nh = total
		case 1:
			nh = 0
		case 2:
			nh = min(total, []int{22, 23, 24, 25, 46, 47, 48}[rng.IntN(7)])
		}
		style := fgen.RandStyle(rng)
		mk := func(n int) (s []float64) {
			p := 0.0
			for i := 0; i < 2*n; i++ {
				d := math.Abs(style.Num(rng))
				if d > 100 {
					d = math.Mod(d, 100)
				}
				p += d
				s = append(s, p)
			}
			return s
		}
		g.HStem, g.VStem = mk(nh), mk(total-nh)
		mask := func() {
			if total == 0 {
				return
			}
			op := cff.OpHintMask
			if rng.IntN(2) == 0 {
				op = cff.OpCntrMask
			}
			a := make([]float64, (total+7)/8)
			for i := range a {
				a[i] = float64(rng.IntN(256))
			}
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: op, Args: a})
		}
		w := rng.IntN(16)
		if w&1 != 0 {
			mask()
		}
		if w&2 != 0 {
			g.MoveTo(1, 2)
			if w&4 != 0 {
				mask()
			}
			g.LineTo(3, 4)
		}
		if w&8 != 0 {
			mask()
		}
		gg = append(gg, g)
	}
	run(c, makeFont(rng, gg))
}

func main() {
	h.Main(&h.Check{
		ID:    "C04",
		Level: "exploration",
		Rule: "random glyph programs are compiled by cff.Font.Write; the CFF bytes are taken apart by an independent parser and every charstring is executed by an independent Type 2 interpreter, which enforces " +
			"operand counts, the 48 entry stack and endchar; the result must match the program within 2^-16 per coordinate. Non-trivial: a distinct compiled charstring with at least one command",
		Assumptions: []string{"TN5176/TN5177 as implemented by harness/cffref and harness/t2",
			"a glyph whose deltas do not fit the 16.16 range of charstring operands may be refused with an error, but not be altered"},
		Groups: []h.Group{
			{Name: "random", Quick: 6000, Run: random},
			{Name: "patterns", Quick: 800, Run: patterns},
			{Name: "long", Quick: 1500, Run: long},
			{Name: "stems", Quick: 1500, Run: stems},
		},
	})
}
