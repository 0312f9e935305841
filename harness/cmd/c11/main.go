// Check C11: TrueType glyph data round-trips and decodes as the
// specification says.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

// spec is a glyph as the harness knows it.
type spec struct {
	empty bool
	bbox  [4]int
	cc    [][]raw.Point
	instr []byte
	comps []raw.Component
	body  []byte // simple glyphs: everything after the header
}

func (s *spec) simple() bool { return !s.empty && s.comps == nil }

func (s *spec) fullBody() []byte {
	if s.comps == nil {
		return s.body
	}
	var b []byte
	for _, c := range s.comps {
		b = raw.A16(b, c.Flags, c.GID)
		b = append(b, c.Args...)
	}
	if s.instr != nil {
		b = raw.A16(b, len(s.instr))
		b = append(b, s.instr...)
	}
	return b
}

func (s *spec) glyph() *glyf.Glyph {
	if s.empty {
		return nil
	}
	g := &glyf.Glyph{Rect16: funit.Rect16{LLx: funit.Int16(s.bbox[0]), LLy: funit.Int16(s.bbox[1]), URx: funit.Int16(s.bbox[2]), URy: funit.Int16(s.bbox[3])}}
	if s.comps != nil {
		d := glyf.CompositeGlyph{Instructions: clone(s.instr)}
		for _, c := range s.comps {
			d.Components = append(d.Components, glyf.GlyphComponent{Flags: glyf.ComponentFlag(c.Flags), GlyphIndex: glyph.ID(c.GID), Data: clone(c.Args)})
		}
		g.Data = d
	} else {
		g.Data = glyf.SimpleGlyph{NumContours: int16(len(s.cc)), Encoded: clone(s.body)}
	}
	return g
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// opts controls the generator.
type opts struct {
	n       int
	scale   int
	maxC    int
	maxP    int
	maxInst int
	pEmpty  int // of 10
	pComp   int // of 10
	xyOnly  bool
	acyclic bool
	onFirst bool
}

func gen(rng *rand.Rand, o *opts) []*spec {
	res := make([]*spec, o.n)
	for i := range res {
		s := &spec{}
		res[i] = s
		if rng.IntN(10) < o.pEmpty {
			s.empty = true
			continue
		}
		for j := range s.bbox {
			s.bbox[j] = fgen.Pick(rng, 0, 1, -1, 32767, -32768, rng.IntN(2000)-500, int(int16(rng.Uint32())), 256, -256, 255)
		}
		instr := func() []byte {
			n := 0
			switch rng.IntN(4) {
			case 0:
			case 1:
				n = rng.IntN(o.maxInst + 1)
			default:
				n = rng.IntN(min(o.maxInst, 8) + 1)
			}
			return fgen.Bytes(rng, n)
		}
		if rng.IntN(10) < o.pComp && (!o.acyclic || i > 0) {
			has := rng.IntN(3) == 0
			n := 1 + rng.IntN(5)
			if rng.IntN(20) == 0 {
				n = 1 + rng.IntN(60)
			}
			if o.acyclic {
				n = min(n, 3)
			}
			s.comps = fgen.Components(rng, n, has, func() int {
				if o.acyclic {
					return rng.IntN(i)
				}
				if rng.IntN(4) == 0 {
					return rng.IntN(65536)
				}
				return rng.IntN(o.n)
			}, o.xyOnly)
			if has {
				s.instr = instr()
			}
			continue
		}
		nc := rng.IntN(o.maxC + 1)
		if rng.IntN(6) > 0 {
			nc = max(nc, 1)
		}
		s.cc = fgen.Contours(rng, nc, o.maxP, o.scale)
		if nc == 0 && rng.IntN(3) == 0 {
			s.body = nil // no data needed after the header
		} else {
			s.instr = instr()
			s.body = fgen.EncodeSimple(rng, s.cc, s.instr)
		}
	}
	return res
}

func (s *spec) String() string {
	switch {
	case s.empty:
		return "empty"
	case s.comps != nil:
		return fmt.Sprintf("composite of %d, %d instruction bytes", len(s.comps), len(s.instr))
	default:
		return fmt.Sprintf("%d contours, %d bytes", len(s.cc), len(s.body))
	}
}

func kind(s *spec) string {
	switch {
	case s.empty:
		return "empty"
	case s.comps != nil:
		return "composite"
	case len(s.cc) == 0:
		return "zero contours"
	default:
		return "simple"
	}
}

// same compares a decoded glyph with the specification.
func same(c *h.Case, where string, i int, g *glyf.Glyph, s *spec) bool {
	c.Count("decoded: "+kind(s), 1)
	if s.empty {
		if g != nil {
			c.Violation("empty glyph not empty", "%s: glyph %d is empty but decodes to %+v", where, i, g)
			return false
		}
		return true
	}
	if g == nil {
		c.Violation("glyph lost", "%s: glyph %d (%s) decodes to nil", where, i, s)
		return false
	}
	bb := [4]int{int(g.LLx), int(g.LLy), int(g.URx), int(g.URy)}
	if bb != s.bbox {
		c.Violation("bounding box changed", "%s: glyph %d: %v instead of %v", where, i, bb, s.bbox)
	}
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		if s.comps != nil {
			c.Violation("glyph type changed", "%s: glyph %d", where, i)
			return false
		}
		if int(d.NumContours) != len(s.cc) || !bytes.Equal(d.Encoded, s.body) {
			c.Violation("simple glyph changed", "%s: glyph %d: %d contours, %d bytes; want %s\n got %x\nwant %x", where, i, d.NumContours, len(d.Encoded), s, h.Trunc(d.Encoded), h.Trunc(s.body))
		}
	case glyf.CompositeGlyph:
		if s.comps == nil {
			c.Violation("glyph type changed", "%s: glyph %d", where, i)
			return false
		}
		if len(d.Components) != len(s.comps) {
			c.Violation("components changed", "%s: glyph %d: %d instead of %d", where, i, len(d.Components), len(s.comps))
			return false
		}
		for k, x := range d.Components {
			y := s.comps[k]
			if int(x.Flags) != y.Flags || int(x.GlyphIndex) != y.GID || !bytes.Equal(x.Data, y.Args) {
				c.Violation("components changed", "%s: glyph %d component %d: %+v instead of %+v", where, i, k, x, y)
			}
		}
		if !bytes.Equal(d.Instructions, s.instr) {
			c.Violation("composite instructions changed", "%s: glyph %d: %x instead of %x", where, i, h.Trunc(d.Instructions), h.Trunc(s.instr))
		}
	default:
		c.Violation("glyph type changed", "%s: glyph %d has data %T", where, i, g.Data)
	}
	return !c.Failed()
}

// checkAccess compares Decode, Components and FixComponents with the spec.
func checkAccess(c *h.Case, i int, g *glyf.Glyph, s *spec) {
	ids := g.Components()
	if len(ids) != len(s.comps) {
		c.Violation("component list", "glyph %d (%s): Components() has %d entries", i, s, len(ids))
		return
	}
	for k, id := range ids {
		if int(id) != s.comps[k].GID {
			c.Violation("component list", "glyph %d: Components()[%d] is %d, want %d", i, k, id, s.comps[k].GID)
		}
	}
	if s.empty {
		if x := g.FixComponents(map[glyph.ID]glyph.ID{0: 1}); x != nil {
			c.Violation("component rewriting", "FixComponents of an empty glyph is %v", x)
		}
		return
	}
	m := map[glyph.ID]glyph.ID{0: 0}
	for _, x := range s.comps {
		m[glyph.ID(x.GID)] = glyph.ID(c.Rng.Uint32())
	}
	g2 := g.FixComponents(m)
	if g2 == nil {
		c.Violation("component rewriting", "glyph %d: FixComponents returns nil", i)
		return
	}
	s2 := *s
	s2.comps = nil
	for _, x := range s.comps {
		x.GID = int(m[glyph.ID(x.GID)])
		s2.comps = append(s2.comps, x)
	}
	same(c, "FixComponents", i, g2, &s2)
	same(c, "after FixComponents", i, g, s) // the original is unchanged
	c.Count("composites rewritten", min(1, len(s.comps)))

	d, ok := g.Data.(glyf.SimpleGlyph)
	if !ok {
		return
	}
	var info *glyf.GlyphInfo
	var err error
	if !c.Guard("SimpleGlyph.Decode", func() { info, err = d.Decode() }) {
		return
	}
	if err != nil {
		c.Violation("valid outline rejected", "glyph %d (%s): %v\n%x", i, s, err, h.Trunc(s.body))
		return
	}
	if !bytes.Equal(info.Instructions, s.instr) {
		c.Violation("instructions misread", "glyph %d: %x instead of %x", i, h.Trunc(info.Instructions), h.Trunc(s.instr))
	}
	if len(info.Contours) != len(s.cc) {
		c.Violation("contours misread", "glyph %d: %d instead of %d contours", i, len(info.Contours), len(s.cc))
		return
	}
	for k, cc := range info.Contours {
		if len(cc) != len(s.cc[k]) {
			c.Violation("contours misread", "glyph %d contour %d: %d instead of %d points", i, k, len(cc), len(s.cc[k]))
			return
		}
		for j, p := range cc {
			q := s.cc[k][j]
			if int(p.X) != q.X || int(p.Y) != q.Y || p.OnCurve != q.On {
				c.Violation("points misread", "glyph %d contour %d point %d: %v instead of %v\n%x", i, k, j, p, q, h.Trunc(s.body))
				return
			}
		}
		c.Count("points decoded", len(cc))
	}
	c.Count("outlines decoded", 1)
}

// checkEncoded verifies glyf and loca tables produced by the library.
func checkEncoded(c *h.Case, enc *glyf.Encoded, ss []*spec) bool {
	offs, err := raw.ParseLoca(enc.LocaData, int(enc.LocaFormat), len(enc.GlyfData))
	if err != nil {
		c.Violation("bad loca table", "format %d, %d glyphs, %d bytes: %v", enc.LocaFormat, len(ss), len(enc.GlyfData), err)
		return false
	}
	if len(offs) != len(ss)+1 {
		c.Violation("bad loca table", "%d entries for %d glyphs", len(offs), len(ss))
		return false
	}
	c.Count(fmt.Sprintf("loca format %d", enc.LocaFormat), 1)
	c.Max("glyf bytes", len(enc.GlyfData))
	for i, s := range ss {
		a, b := offs[i], offs[i+1]
		if a%2 != 0 {
			c.Violation("bad loca table", "offset %d of glyph %d is odd", a, i)
			return false
		}
		d := enc.GlyfData[a:b]
		if s.empty {
			if len(d) != 0 {
				c.Violation("empty glyph not empty", "glyph %d is written as %x", i, h.Trunc(d))
				return false
			}
			continue
		}
		nc := len(s.cc)
		if s.comps != nil {
			nc = -1
		}
		want := raw.A16(nil, nc, s.bbox[0], s.bbox[1], s.bbox[2], s.bbox[3])
		want = append(want, s.fullBody()...)
		if len(d) < len(want) || !bytes.Equal(d[:len(want)], want) {
			c.Violation("glyph data written wrong", "glyph %d (%s)\n got %x\nwant %x", i, s, h.Trunc(d), h.Trunc(want))
			return false
		}
		if len(d)-len(want) > 3 || bytes.Count(d[len(want):], []byte{0}) != len(d)-len(want) {
			c.Violation("bad padding", "glyph %d (%s): %d bytes of padding %x", i, s, len(d)-len(want), h.Trunc(d[len(want):]))
			return false
		}
	}
	return true
}

func roundTrip(c *h.Case, ss []*spec) *glyf.Encoded {
	gg := make(glyf.Glyphs, len(ss))
	for i, s := range ss {
		gg[i] = s.glyph()
	}
	var enc, enc2 *glyf.Encoded
	if !c.Guard("Glyphs.Encode", func() { enc = gg.Encode(); enc2 = gg.Encode() }) {
		return nil
	}
	c.NonTrivial(enc.GlyfData, enc.LocaData)
	if !reflect.DeepEqual(enc, enc2) {
		c.Violation("encoding not deterministic", "%d glyphs", len(ss))
	}
	for i, s := range ss {
		if !same(c, "encoder input", i, gg[i], s) {
			return nil
		}
	}
	if !checkEncoded(c, enc, ss) {
		return nil
	}
	var gg2 glyf.Glyphs
	var err error
	if !c.Guard("glyf.Decode", func() { gg2, err = glyf.Decode(enc) }) {
		return nil
	}
	if err != nil {
		c.Violation("own encoding rejected", "%d glyphs, %d bytes: %v", len(ss), len(enc.GlyfData), err)
		return nil
	}
	if len(gg2) != len(ss) {
		c.Violation("number of glyphs changed", "%d instead of %d", len(gg2), len(ss))
		return nil
	}
	for i, s := range ss {
		if !same(c, "round trip", i, gg2[i], s) {
			return nil
		}
		// nil-ness of the instructions decides whether a length is written
		if s.comps != nil && (gg2[i].Data.(glyf.CompositeGlyph).Instructions == nil) != (s.instr == nil) {
			c.Violation("composite instructions changed", "glyph %d: nil-ness", i)
		}
	}
	c.Eval(1)
	for i, s := range ss {
		if i < 3000 || c.Rng.IntN(20) == 0 {
			checkAccess(c, i, gg2[i], s)
		}
		if c.Failed() {
			return nil
		}
	}
	return enc
}

func small(c *h.Case) {
	o := &opts{n: 1 + c.Rng.IntN(12), scale: fgen.Pick(c.Rng, 300, 2000, 32767), maxC: 1 + c.Rng.IntN(6), maxP: 1 + c.Rng.IntN(20), maxInst: 40, pEmpty: c.Rng.IntN(4), pComp: c.Rng.IntN(6)}
	ss := gen(c.Rng, o)
	c.Sample("%d glyphs: %s", len(ss), ss[len(ss)-1])
	roundTrip(c, ss)
}

func boundary(c *h.Case) {
	rng := c.Rng
	// total size near the limits of the short loca format
	target := fgen.Pick(rng, 0xFFFF, 0x10000, 0x1FFFE, 0x20000) + 2*(rng.IntN(7)-3)
	var ss []*spec
	total := 0
	for total < target-40 {
		o := &opts{n: 1, scale: 2000, maxC: 4, maxP: 300, maxInst: fgen.Pick(rng, 10, 1000, 20000), pEmpty: 1, pComp: 1}
		s := gen(rng, o)[0]
		if !s.empty {
			l := (10 + len(s.fullBody()) + 1) &^ 1
			if total+l > target-14 {
				break
			}
			total += l
		}
		ss = append(ss, s)
	}
	// fill up with one or two glyphs
	for rest := target - total; rest >= 12; rest = target - total {
		body := min(rest-10, 60000)
		if r := rest - 10 - body; r > 0 && r < 12 {
			body -= 12
		}
		s := &spec{bbox: [4]int{1, 2, 3, 4}, instr: fgen.Bytes(rng, body-2)}
		s.body = append(raw.A16(nil, body-2), s.instr...)
		ss = append(ss, s)
		total += 10 + body
	}
	for k := rng.IntN(3); k > 0; k-- {
		ss = append(ss, &spec{empty: true})
	}
	c.Sample("%d glyphs, %d bytes", len(ss), total)
	roundTrip(c, ss)
}

func many(c *h.Case) {
	n := fgen.Pick(c.Rng, 65535, 65534, 32768, 1+c.Rng.IntN(65535))
	o := &opts{n: n, scale: 2000, maxC: 2, maxP: 6, maxInst: 4, pEmpty: c.Rng.IntN(11), pComp: 2}
	if o.pEmpty == 10 && c.Rng.IntN(2) == 0 {
		o.pEmpty = 3
	}
	c.Max("glyphs", n)
	roundTrip(c, gen(c.Rng, o))
}

func huge(c *h.Case) {
	// large outlines: many contours, many points, long instructions
	rng := c.Rng
	o := &opts{n: 2, scale: 32767, maxC: 1, maxP: 8, maxInst: 10}
	ss := gen(rng, o)
	s := ss[0]
	*s = spec{bbox: [4]int{-32768, -32768, 32767, 32767}}
	switch rng.IntN(3) {
	case 0:
		s.cc = fgen.Contours(rng, 1+rng.IntN(3), 20000, 32767)
	case 1:
		s.cc = fgen.Contours(rng, 1+rng.IntN(30000), 2, 32767)
	case 2:
		s.cc = fgen.Contours(rng, 1, 10, 32767)
		s.instr = fgen.Bytes(rng, fgen.Pick(rng, 65535, 65534, 32768, rng.IntN(65536)))
	}
	if s.instr == nil {
		s.instr = []byte{}
	}
	s.body = fgen.EncodeSimple(rng, s.cc, s.instr)
	c.Max("bytes in one glyph", len(s.body))
	roundTrip(c, ss)
}

// foreign: glyf/loca tables as found in files, with padding and gaps.
func foreign(c *h.Case) {
	rng := c.Rng
	o := &opts{n: 1 + rng.IntN(8), scale: fgen.Pick(rng, 300, 2000, 32767), maxC: 1 + rng.IntN(6), maxP: 1 + rng.IntN(20), maxInst: 40, pEmpty: rng.IntN(4), pComp: rng.IntN(4)}
	ss := gen(rng, o)
	format := rng.IntN(2)
	align := fgen.Pick(rng, 1, 2, 4)
	if format == 0 {
		align = max(align, 2)
	}
	var data []byte
	offs := []int{0}
	for _, s := range ss {
		if !s.empty {
			nc := len(s.cc)
			if s.comps != nil {
				nc = -1
				if rng.IntN(5) == 0 {
					nc = -1 - rng.IntN(32767)
				}
			}
			data = raw.A16(data, nc, s.bbox[0], s.bbox[1], s.bbox[2], s.bbox[3])
			data = append(data, s.fullBody()...)
			if rng.IntN(3) == 0 && !(s.comps == nil && len(s.body) == 0) {
				// excess bytes after the glyph
				k := rng.IntN(6)
				if s.comps != nil && s.instr == nil {
					k &^= 1
				}
				data = append(data, make([]byte, k)...)
			}
			pad := 0
			for len(data)%align != 0 {
				data = append(data, 0)
				pad++
			}
			if s.comps == nil && len(s.body) == 0 && pad >= 2 {
				s.body = []byte{0, 0} // indistinguishable from an instruction count
			}
		}
		offs = append(offs, len(data))
	}
	if rng.IntN(4) == 0 {
		data = append(data, make([]byte, 2*rng.IntN(10))...) // unused bytes at the end
	}
	var loca []byte
	for _, x := range offs {
		if format == 0 {
			loca = raw.A16(loca, x/2)
		} else {
			loca = raw.A32(loca, uint32(x))
		}
	}
	c.NonTrivial(data, loca)
	c.Sample("%d glyphs, %d bytes, loca format %d, alignment %d", len(ss), len(data), format, align)
	d0, l0 := clone(data), clone(loca)
	var gg glyf.Glyphs
	var err error
	if !c.Guard("glyf.Decode", func() {
		gg, err = glyf.Decode(&glyf.Encoded{GlyfData: data, LocaData: loca, LocaFormat: int16(format)})
	}) {
		return
	}
	if err != nil {
		c.Violation("valid tables rejected", "%v", err)
		return
	}
	if len(gg) != len(ss) {
		c.Violation("number of glyphs", "%d instead of %d", len(gg), len(ss))
		return
	}
	for i, s := range ss {
		if !same(c, "decoded", i, gg[i], s) {
			return
		}
		checkAccess(c, i, gg[i], s)
	}
	if !bytes.Equal(d0, data) || !bytes.Equal(l0, loca) {
		c.Violation("decoder changed its input", "")
	}
	c.Eval(1)
	if c.Failed() {
		return
	}
	var enc *glyf.Encoded
	if c.Guard("Glyphs.Encode", func() { enc = gg.Encode() }) {
		checkEncoded(c, enc, ss)
	}
}

// third lets golang.org/x/image load the encoded outlines.
func third(c *h.Case) {
	rng := c.Rng
	o := &opts{n: 1 + rng.IntN(10), scale: fgen.Pick(rng, 300, 2000, 8000), maxC: 1 + rng.IntN(5), maxP: 1 + rng.IntN(12), maxInst: 20, pEmpty: rng.IntN(3), pComp: rng.IntN(4), xyOnly: true, acyclic: true}
	ss := gen(rng, o)
	if rng.IntN(6) == 0 {
		s := &spec{instr: fgen.Bytes(rng, 60000)}
		s.body = append(raw.A16(nil, len(s.instr)), s.instr...)
		ss = append(ss, s, s, s)
	}
	enc := roundTrip(c, ss)
	if enc == nil {
		return
	}
	upm := 1024
	m := raw.Min{NumGlyphs: len(ss), UnitsPerEm: upm, LocaFormat: int(enc.LocaFormat)}
	tables := m.Tables()
	tables["glyf"] = enc.GlyfData
	tables["loca"] = enc.LocaData
	f, err := xsfnt.Parse(raw.Build(0x00010000, tables, rng))
	if err != nil {
		c.Violation("third party rejects the tables", "%v", err)
		return
	}
	if f.NumGlyphs() != len(ss) {
		c.Violation("third party disagrees", "%d glyphs", f.NumGlyphs())
	}
	var buf xsfnt.Buffer
	for i, s := range ss {
		if s.empty || s.comps != nil {
			// composite outlines are covered by C03
			continue
		}
		ok := true
		for _, cc := range s.cc {
			if len(cc) == 1 && !cc[0].On {
				ok = false
			}
		}
		if !ok {
			continue
		}
		got, err := f.LoadGlyph(&buf, xsfnt.GlyphIndex(i), fixed.Int26_6(upm), nil)
		if err != nil {
			if len(s.body) > 60000 {
				continue // x/image has a size limit
			}
			c.Violation("third party rejects the tables", "glyph %d (%s): %v", i, s, err)
			return
		}
		// the outline as the library sees it
		d := s.glyph().Data.(glyf.SimpleGlyph)
		info, err := d.Decode()
		if err != nil {
			c.Violation("valid outline rejected", "%v", err)
			return
		}
		var cc [][]raw.Point
		for _, ct := range info.Contours {
			var pp []raw.Point
			for _, p := range ct {
				pp = append(pp, raw.Point{X: int(p.X), Y: int(p.Y), On: p.OnCurve})
			}
			cc = append(cc, pp)
		}
		want := raw.Segments(cc)
		if len(got) != len(want) {
			c.Violation("third party disagrees", "glyph %d: %d segments, want %d\n%v\n%v\n%v", i, len(got), len(want), got, want, s.cc)
			return
		}
		for k, g := range got {
			w := want[k]
			op := "MLQC"[g.Op]
			n := map[byte]int{'M': 1, 'L': 1, 'Q': 2, 'C': 3}[op]
			bad := op != w.Op
			for j := 0; j < n && !bad; j++ {
				dx, dy := float64(g.Args[j].X)-w.Arg[j][0], -float64(g.Args[j].Y)-w.Arg[j][1]
				bad = dx > 1 || dx < -1 || dy > 1 || dy < -1
			}
			if bad {
				c.Violation("third party disagrees", "glyph %d segment %d: %v, want %v", i, k, g, w)
				return
			}
		}
		c.Count("outlines agreed with x/image", 1)
		c.Eval(1)
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C11",
		Level: "exploration",
		Rule:  "random glyph sets are encoded, the emitted bytes compared with an independent encoding of the same glyphs, decoded again, and every outline compared point by point with the generator's contours and with golang.org/x/image; hand-made tables exercise every legal flag/delta form, padding and alignment. Non-trivial: distinct glyf/loca pairs",
		Assumptions: []string{
			"glyph values are consistent: contour data is well formed and unpadded, instructions are present exactly if the last component has WE_HAVE_INSTRUCTIONS",
		},
		Groups: []h.Group{
			{Name: "small", Quick: 12000, Run: small},
			{Name: "foreign", Quick: 12000, Run: foreign},
			{Name: "third", Quick: 6000, Run: third},
			{Name: "boundary", Quick: 160, Run: boundary},
			{Name: "huge", Quick: 160, Run: huge},
			{Name: "many", Quick: 24, Thorough: 240, Run: many},
		},
	})
}
