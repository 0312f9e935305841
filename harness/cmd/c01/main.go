// Command c01 checks that fonts survive being written and read back, and
// that reading and writing reach a fixed point after one cycle.
package main

import (
	"bytes"
	"math"
	"strings"
	"time"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/fdump"
	"verif/fgen"
	"verif/gdump"
	"verif/h"
)

// At every moment, the date is different in these two time zones.
var west, east = time.FixedZone("west", -12*3600), time.FixedZone("east", 14*3600)

// write writes the font twice and compares the results.  The two runs use
// different local time zones, so that output which depends on the current
// date (or on the local time) always differs.
func write(c *h.Case, what string, f *sfnt.Font) ([]byte, error) {
	var b1, b2 bytes.Buffer
	var n1, n2 int64
	var err1, err2 error
	defer func() { time.Local = time.UTC }()
	time.Local = west
	if !c.Guard("Write ("+what+")", func() { n1, err1 = f.Write(&b1) }) {
		return nil, errPanic
	}
	time.Local = east
	if !c.Guard("Write again ("+what+")", func() { n2, err2 = f.Write(&b2) }) {
		return nil, errPanic
	}
	if (err1 == nil) != (err2 == nil) || n1 != n2 || !bytes.Equal(b1.Bytes(), b2.Bytes()) {
		c.Violation("writing twice gives different files", "%s: %v %v, %s", what, err1, err2, diffFiles(b1.Bytes(), b2.Bytes()))
	}
	if err1 == nil && n1 != int64(b1.Len()) {
		c.Violation("byte count", "%s: %d, want %d", what, n1, b1.Len())
	}
	return b1.Bytes(), err1
}

type constErr string

func (e constErr) Error() string { return string(e) }

const errPanic = constErr("panic")

func read(c *h.Case, what string, data []byte) (*sfnt.Font, error) {
	var f *sfnt.Font
	var err error
	in := bytes.Clone(data)
	if !c.Guard("Read ("+what+")", func() { f, err = sfnt.Read(bytes.NewReader(in)) }) {
		return nil, errPanic
	}
	if err == nil && f == nil {
		c.Violation("no font and no error", "%s", what)
		return nil, errPanic
	}
	if !bytes.Equal(in, data) {
		c.Violation("Read changed its input", "%s", what)
	}
	return f, err
}

// fixedPoint checks the fixed-point property for a file which the reader
// accepts as font g1.
func fixedPoint(c *h.Case, what string, g1 *sfnt.Font) {
	if g1.NumGlyphs() == 0 {
		// no glyph count of the domain
		c.Count("fonts without glyphs", 1)
		return
	}
	before := fdump.Font(g1)
	w1, err := write(c, what, g1)
	if err != nil {
		if err != errPanic {
			c.Violation("font which was read cannot be written", "%s: %v", what, err)
		}
		return
	}
	if p, msg := fdump.Diff(fdump.Font(g1), before, nil); p != "" {
		c.Violation("Write changed the font: "+fdump.Key(p), "%s: %s", what, msg)
		return
	}
	g2, err := read(c, what+", written", w1)
	if err != nil {
		if err != errPanic {
			c.Violation("written file rejected", "%s: %v", what, err)
		}
		return
	}
	if p, msg := fdump.Diff(fdump.Font(g2), before, nearFile); p != "" {
		c.Violation("second reading differs: "+fdump.Key(p), "%s: %s", what, msg)
		return
	}
	w2, err := write(c, what+", second generation", g2)
	if err != nil {
		if err != errPanic {
			c.Violation("font which was read cannot be written", "%s, second generation: %v", what, err)
		}
		return
	}
	if !bytes.Equal(w1, w2) {
		c.Violation("second generation differs: "+where(w2, w1), "%s: %s", what, diffFiles(w2, w1))
	}
	c.Count("fixed points", 1)
	c.Eval(1)
}

func constructed(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 2, 6, 30, 120))
	constructedN(c, c.Index%fgen.NumKinds, n)
}

func large(c *h.Case) {
	constructedN(c, c.Index%fgen.NumKinds, fgen.Pick(c.Rng, 65535, 65534, 32768, 1000+c.Rng.IntN(64000)))
}

// longText uses names which fill large parts of the name table: with 16 bits
// per offset, there is space for the Windows names (the longest string can be at the end),
// but not always for a second copy.
func longText(c *h.Case, f *sfnt.Font) {
	text := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + c.Rng.IntN(95))
		}
		return string(b)
	}
	a, b := 1000+c.Rng.IntN(31700), c.Rng.IntN(30000)
	if c.Rng.IntN(2) == 0 {
		a, b = 30000+c.Rng.IntN(2700), 20000+c.Rng.IntN(10000)
	}
	f.License = text(a)
	switch c.Rng.IntN(4) {
	case 0, 1:
		f.Copyright = text(b)
	case 2:
		f.Description = text(b)
	}
	c.Count("long names", 1)
}

func constructedN(c *h.Case, kind, n int) {
	rng := c.Rng
	o := &fgen.FontOpts{Kind: kind, NumGlyphs: n, XYOnly: rng.IntN(2) == 0, Layout: rng.IntN(2) == 0 && n < 2000, IntWidths: rng.IntN(2) == 0,
		PlainCFF: rng.IntN(3) == 0, Matrix: rng.IntN(2) == 0, NoCmap: rng.IntN(10) == 0}
	f, _ := fgen.Font(rng, o)
	fgen.FixFlags(f)
	if rng.IntN(15) == 0 {
		fgen.Blank(f)
	}
	if rng.IntN(40) == 0 {
		longText(c, f)
	}
	var b []byte
	var err error
	if b, err = write(c, "constructed", f); err != nil {
		if err != errPanic {
			c.Count("refused: "+err.Error(), 1)
			if !o.Layout && !(kind != fgen.CFFCID && n > 60000) {
				c.Violation("font cannot be written", "%v", err)
			}
		}
		return
	}
	c.NonTrivial(b)
	c.Sample("kind %d, %d glyphs, %d bytes", kind, n, len(b))
	g, err := read(c, "constructed", b)
	if err != nil {
		if err != errPanic {
			c.Violation("written file rejected", "constructed: %v", err)
		}
		return
	}
	compare(c, f, g)
	c.Eval(1)
	if c.Failed() {
		return
	}
	fixedPoint(c, "constructed", g)
}

func near(path string, a, b float64) bool {
	if strings.HasPrefix(path, ".Outlines.Glyphs") {
		return math.Abs(a-b) <= 1.0001/65536
	}
	return a == b || math.Abs(a-b) <= 5.0001e-9*math.Max(math.Abs(a), math.Abs(b))+1e-320
}

// nearFile compares the first two generations of a file.  Files can contain
// real numbers with more digits than the library writes.
func nearFile(path string, a, b float64) bool {
	if strings.HasPrefix(path, ".Outlines.Glyphs") && !strings.HasSuffix(path, ".Width") {
		return math.Float64bits(a) == math.Float64bits(b)
	}
	return near(path, a, b)
}

// compare checks that g is the normal form of f.
func compare(c *h.Case, f, g *sfnt.Font) {
	nf := *f
	if sub := f.Subfamily(); strings.Contains(sub, "Bold") && !strings.Contains(sub, "Semi Bold") && !strings.Contains(sub, "Extra Bold") && !nf.IsBold {
		nf.IsBold = true
		nf.IsRegular = false
	}
	nf.ItalicAngle = math.Round(f.ItalicAngle*65536) / 65536
	height := func(r rune) funit.Int16 {
		s, err := f.CMapTable.GetBest()
		if err != nil || s == nil {
			return 0
		}
		if gid := s.Lookup(r); gid != 0 && int(gid) < f.NumGlyphs() {
			return f.GlyphBBox(gid).URy
		}
		return 0
	}
	if nf.CapHeight == 0 {
		nf.CapHeight = height('H')
	}
	if nf.XHeight == 0 {
		nf.XHeight = height('x')
	}
	switch out := f.Outlines.(type) {
	case *glyf.Outlines:
		o2 := *out
		o2.Tables = map[string][]byte{}
		for t, d := range out.Tables {
			if len(d) > 0 {
				o2.Tables[t] = d
			}
		}
		nf.Outlines = &o2
	case *cff.Outlines:
	}
	want := fdump.Font(&nf, "Gdef", "Gsub", "Gpos")
	got := fdump.Font(g, "Gdef", "Gsub", "Gpos")
	if p, msg := fdump.Diff(got, want, near); p != "" {
		c.Violation("font read back differs: "+fdump.Key(p), "%s", msg)
		return
	}
	c.Count("values compared", len(got))
	if f.Gsub == nil {
		if g.Gsub != nil && (len(g.Gsub.LookupList) == 0 || f.IsFixedPitch()) {
			c.Violation("font read back differs: Gsub", "unexpected lookups %v", gdump.Info(g.Gsub))
		}
	} else {
		infos(c, "GSUB", g.Gsub, f.Gsub)
	}
	infos(c, "GPOS", g.Gpos, f.Gpos)
	if (g.Gdef == nil) != (f.Gdef == nil) {
		c.Violation("font read back differs: GDEF", "got %v, want %v", g.Gdef, f.Gdef)
	} else if f.Gdef != nil {
		if a, b := gdump.Gdef(g.Gdef), gdump.Gdef(f.Gdef); a != b {
			c.Violation("font read back differs: GDEF", "%.300s\nwant %.300s", a, b)
		}
	}
}

func infos(c *h.Case, what string, got, want *gtab.Info) {
	if (got == nil) != (want == nil) {
		c.Violation("font read back differs: "+what, "got %v, want %v", got, want)
		return
	}
	if want == nil {
		return
	}
	dump := func(x *gtab.Info) string {
		// the script and language tags are the subject of C08 and C14
		res := append(gdump.ScriptData(x.ScriptList), gdump.Features(x.FeatureList)...)
		return strings.Join(append(res, gdump.Lookups(x.LookupList)...), "\n")
	}
	a, b := dump(got), dump(want)
	if a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		c.Violation("font read back differs: "+what, "%.200s\nwant %.200s", a[max(0, i-50):], b[max(0, i-50):])
	}
	c.Count(what+" tables compared", 1)
}
