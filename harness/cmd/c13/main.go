// C13: CFF structures and numbers survive write and read.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"verif/cffref"
	"verif/fgen"
	"verif/h"
	"verif/t2"
)

// near9 compares to nine significant digits.
func near9(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 5.0001e-9*math.Max(math.Abs(a), math.Abs(b))+1e-320
}

func nearW(a, b float64) bool { return math.Abs(a-b) <= 1.0001/65536 }

type fdInfo struct {
	priv *type1.PrivateDict
	m    matrix.Matrix
}

// summary is what must be preserved, independent of representation.
type summary struct {
	info   type1.FontInfo
	cid    bool
	names  []string
	cids   []int
	enc    []int
	fd     []int
	priv   []*type1.PrivateDict
	mats   []matrix.Matrix
	ros    cid.SystemInfo
	widths []float64
}

func fromFont(f *cff.Font) *summary {
	s := &summary{info: *f.FontInfo, cid: f.ROS != nil, priv: f.Private}
	for i, g := range f.Glyphs {
		s.names = append(s.names, g.Name)
		s.widths = append(s.widths, g.Width)
		s.fd = append(s.fd, f.FDSelect(glyph.ID(i)))
	}
	if s.cid {
		s.ros = *f.ROS
		for _, c := range f.GIDToCID {
			s.cids = append(s.cids, int(c))
		}
		s.mats = f.FontMatrices
	} else {
		for _, g := range f.Encoding {
			s.enc = append(s.enc, int(g))
		}
	}
	return s
}

func privOf(d cffref.Dict) *type1.PrivateDict {
	p := &type1.PrivateDict{
		BlueScale: d.Float(cffref.OpBlueScale, 0.039625),
		BlueShift: int32(d.Int(cffref.OpBlueShift, 7)),
		BlueFuzz:  int32(d.Int(cffref.OpBlueFuzz, 1)),
		StdHW:     d.Float(cffref.OpStdHW, 0),
		StdVW:     d.Float(cffref.OpStdVW, 0),
		ForceBold: d.Int(cffref.OpForceBold, 0) != 0,
	}
	delta := func(op int) (res []funit.Int16) {
		pos := 0.0
		for _, n := range d[op] {
			pos += n.Val()
			if pos != math.Trunc(pos) || pos < -32768 || pos > 32767 {
				panic(fmt.Sprint("blue value ", pos))
			}
			res = append(res, funit.Int16(pos))
		}
		return res
	}
	p.BlueValues = delta(cffref.OpBlueValues)
	p.OtherBlues = delta(cffref.OpOtherBlues)
	return p
}

func matOf(d cffref.Dict, def matrix.Matrix) matrix.Matrix {
	v := d[cffref.OpFontMatrix]
	if len(v) == 0 {
		return def
	}
	if len(v) != 6 {
		panic(fmt.Sprint("font matrix ", v))
	}
	var m matrix.Matrix
	for i, x := range v {
		m[i] = x.Val()
	}
	return m
}

var defMat = matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}

// fromRef describes what the independent parser sees in the bytes.
func fromRef(c *h.Case, data []byte) (s *summary, ref *cffref.Font, err error) {
	ref, err = cffref.Parse(data)
	if err != nil {
		return nil, nil, err
	}
	err2, _ := h.Catch(func() {
		s = &summary{cid: ref.IsCID, fd: ref.FDSelect}
		t := ref.Top
		s.info = type1.FontInfo{
			FontName: ref.Name, Version: ref.Str(cffref.OpVersion), Notice: ref.Str(cffref.OpNotice), Copyright: ref.Str(cffref.OpCopyright),
			FullName: ref.Str(cffref.OpFullName), FamilyName: ref.Str(cffref.OpFamilyName), Weight: ref.Str(cffref.OpWeight),
			ItalicAngle: t.Float(cffref.OpItalicAngle, 0), IsFixedPitch: t.Int(cffref.OpIsFixedPitch, 0) != 0,
			UnderlinePosition: funit.Float64(t.Float(cffref.OpUnderlinePosition, -100)), UnderlineThickness: funit.Float64(t.Float(cffref.OpUnderlineThickness, 50)),
		}
		if ref.IsCID {
			s.info.FontMatrix = matOf(t, matrix.Identity)
			s.cids = ref.Charset
			ros := t[cffref.OpROS]
			if len(ros) != 3 {
				panic("ROS operands")
			}
			sup := ros[2].Int
			if !ros[2].IsInt {
				sup = int(math.Round(ros[2].F))
			}
			a, _ := ref.SID(ros[0].Int)
			b, _ := ref.SID(ros[1].Int)
			s.ros = cid.SystemInfo{Registry: a, Ordering: b, Supplement: int32(sup)}
			cnt := t.Int(cffref.OpCIDCount, 8720)
			for _, x := range ref.Charset {
				if x >= cnt {
					panic(fmt.Sprintf("CID %d with CIDCount %d", x, cnt))
				}
			}
		} else {
			s.info.FontMatrix = matOf(t, defMat)
			for i := range ref.CharStrings {
				s.names = append(s.names, ref.GlyphName(i))
			}
			s.enc = append(s.enc, ref.Encoding[:]...)
		}
		for _, fd := range ref.FDs {
			s.priv = append(s.priv, privOf(fd.Private))
			if ref.IsCID {
				s.mats = append(s.mats, matOf(fd.Dict, defMat))
			}
		}
		for i, code := range ref.CharStrings {
			p := ref.FDs[ref.FDSelect[i]].Private
			in := &t2.Interp{Subrs: ref.FDs[ref.FDSelect[i]].Subrs, GSubrs: ref.GSubrs, Default: p.Float(cffref.OpDefaultWidthX, 0), Nominal: p.Float(cffref.OpNominalWidthX, 0)}
			r, e := in.Run(code)
			if e != nil {
				panic(fmt.Sprint("charstring ", i, ": ", e))
			}
			s.widths = append(s.widths, r.Width)
		}
	})
	if err2 != nil {
		return nil, nil, fmt.Errorf("%v", err2)
	}
	return s, ref, nil
}

func diffMat(a, b matrix.Matrix) bool {
	for i := range a {
		if !near9(a[i], b[i]) {
			return true
		}
	}
	return false
}

// diff returns a description of the first difference.
func diff(got, want *summary) string {
	if got.cid != want.cid {
		return fmt.Sprintf("CID-keyed: %v, want %v", got.cid, want.cid)
	}
	a, b := got.info, want.info
	for _, x := range []struct{ n, a, b string }{{"FontName", a.FontName, b.FontName}, {"Version", a.Version, b.Version}, {"Notice", a.Notice, b.Notice},
		{"Copyright", a.Copyright, b.Copyright}, {"FullName", a.FullName, b.FullName}, {"FamilyName", a.FamilyName, b.FamilyName}, {"Weight", a.Weight, b.Weight}} {
		if x.a != x.b {
			return fmt.Sprintf("%s: %q, want %q", x.n, x.a, x.b)
		}
	}
	for _, x := range []struct {
		n    string
		a, b float64
	}{{"ItalicAngle", a.ItalicAngle, b.ItalicAngle}, {"UnderlinePosition", float64(a.UnderlinePosition), float64(b.UnderlinePosition)}, {"UnderlineThickness", float64(a.UnderlineThickness), float64(b.UnderlineThickness)}} {
		// normalising the angle costs a few bits
		if !near9(x.a, x.b) && !(x.n == "ItalicAngle" && math.Abs(x.a-x.b) < 1e-12) {
			return fmt.Sprintf("%s: %v, want %v", x.n, x.a, x.b)
		}
	}
	if a.IsFixedPitch != b.IsFixedPitch {
		return "IsFixedPitch"
	}
	if diffMat(a.FontMatrix, b.FontMatrix) {
		return fmt.Sprintf("FontMatrix: %v, want %v", a.FontMatrix, b.FontMatrix)
	}
	if len(got.widths) != len(want.widths) {
		return fmt.Sprintf("%d glyphs, want %d", len(got.widths), len(want.widths))
	}
	for i := range got.widths {
		if !want.cid && got.names[i] != want.names[i] {
			return fmt.Sprintf("name of glyph %d: %q, want %q", i, got.names[i], want.names[i])
		}
		if want.cid && got.cids[i] != want.cids[i] {
			return fmt.Sprintf("CID of glyph %d: %d, want %d", i, got.cids[i], want.cids[i])
		}
		if got.fd[i] != want.fd[i] {
			return fmt.Sprintf("FD of glyph %d: %d, want %d", i, got.fd[i], want.fd[i])
		}
		if !nearW(got.widths[i], want.widths[i]) {
			return fmt.Sprintf("width of glyph %d: %.8f, want %.8f", i, got.widths[i], want.widths[i])
		}
	}
	if !want.cid && want.enc != nil {
		if len(got.enc) != 256 {
			return fmt.Sprintf("encoding of length %d", len(got.enc))
		}
		for c := range got.enc {
			if got.enc[c] != want.enc[c] {
				return fmt.Sprintf("encoding of code %d: %d, want %d", c, got.enc[c], want.enc[c])
			}
		}
	}
	if want.cid && got.ros != want.ros {
		return fmt.Sprintf("ROS %v, want %v", got.ros, want.ros)
	}
	if len(got.priv) != len(want.priv) || len(got.mats) != len(want.mats) {
		return fmt.Sprintf("%d private dicts, %d matrices, want %d %d", len(got.priv), len(got.mats), len(want.priv), len(want.mats))
	}
	for i := range got.priv {
		p, q := got.priv[i], want.priv[i]
		if fmt.Sprint(p.BlueValues) != fmt.Sprint(q.BlueValues) || fmt.Sprint(p.OtherBlues) != fmt.Sprint(q.OtherBlues) {
			return fmt.Sprintf("blues of FD %d: %v %v, want %v %v", i, p.BlueValues, p.OtherBlues, q.BlueValues, q.OtherBlues)
		}
		if p.BlueShift != q.BlueShift || p.BlueFuzz != q.BlueFuzz || p.ForceBold != q.ForceBold || !near9(p.BlueScale, q.BlueScale) || !near9(p.StdHW, q.StdHW) || !near9(p.StdVW, q.StdVW) {
			return fmt.Sprintf("private dict of FD %d: %v, want %v", i, *p, *q)
		}
	}
	for i := range got.mats {
		if diffMat(got.mats[i], want.mats[i]) {
			return fmt.Sprintf("matrix of FD %d: %v, want %v", i, got.mats[i], want.mats[i])
		}
	}
	return ""
}

// encodable reports whether the encoding can be represented.
func encodable(f *cff.Font) bool {
	codes := 0
	first := false
	for _, g := range f.Encoding {
		if g != 0 {
			codes++
			first = first || g == 1
		}
	}
	names := map[string]bool{}
	for _, g := range f.Glyphs {
		if names[g.Name] {
			return false
		}
		names[g.Name] = true
	}
	return codes <= 255 || first
}

func predefined(f *cff.Font, std map[int]int) bool {
	rev := map[string]int{}
	for i, g := range f.Glyphs {
		rev[g.Name] = i
	}
	for c := 0; c < 256; c++ {
		want := 0
		if sid, ok := std[c]; ok {
			want = rev[cffref.StdStrings[sid]]
		}
		if int(f.Encoding[c]) != want {
			return false
		}
	}
	return true
}

func roundTrip(c *h.Case, f *cff.Font) {
	want := fromFont(f)
	var buf bytes.Buffer
	var err error
	if !c.Guard("cff.Font.Write", func() { err = f.Write(&buf) }) {
		return
	}
	n := len(f.Glyphs)
	if err != nil {
		switch {
		case !want.cid && n > 65000:
			c.Count("refused: too many strings", 1)
		case !want.cid && !encodable(f) && !predefined(f, cffref.StdEncoding) && !predefined(f, cffref.ExpertEncoding()):
			c.Count("refused: encoding", 1)
		default:
			c.Violation("font refused", "%d glyphs, cid %v: %v", n, want.cid, err)
		}
		return
	}
	ref, rf, err := fromRef(c, buf.Bytes())
	if err != nil {
		c.Violation("output is not valid CFF", "%v", err)
		return
	}
	if rf.Extent > buf.Len() {
		c.Violation("extent", "data extends to %d of %d", rf.Extent, buf.Len())
	}
	if d := diff(ref, want); d != "" {
		c.Violation("bytes differ from the font", "%s", d)
		return
	}
	var f2 *cff.Font
	if !c.Guard("cff.Read", func() { f2, err = cff.Read(bytes.NewReader(buf.Bytes())) }) {
		return
	}
	if err != nil {
		c.Violation("cff.Read rejects the output", "%v", err)
		return
	}
	if d := diff(fromFont(f2), want); d != "" {
		c.Violation("font differs after reading", "%s", d)
		return
	}
	c.Count(fmt.Sprintf("charset format %d", rf.CharsetFmt), 1)
	if want.cid {
		c.Count(fmt.Sprintf("FDSelect format %d", rf.FDSelectFmt), 1)
		c.Max("private dicts", len(rf.FDs))
	} else {
		c.Count(fmt.Sprintf("encoding format %d", rf.EncodingFmt), 1)
	}
	c.Count(fmt.Sprintf("offset size %d", rf.OffSize), 1)
	if want.cid && rf.FirstOp != cffref.OpROS {
		c.Violation("ROS operator", "the first operator in the top DICT of a CID-keyed font is %d", rf.FirstOp)
	}
	// The offset size in the header must suffice for all absolute offsets.
	for _, op := range []int{15, 16, 17, 18, 1236, 1237} {
		if v := rf.Top[op]; len(v) > 0 {
			if x := float64(v[len(v)-1].Int); x >= math.Pow(256, float64(rf.OffSize)) {
				c.Violation("offset size in the header", "operator %d: %g, offSize %d", op, x, rf.OffSize)
			}
		}
	}
	c.Max("glyphs", n)
	c.Max("bytes", buf.Len())
	c.Eval(1)
	c.NonTrivial(buf.Bytes())
	c.Sample("%d glyphs, cid %v, %d FDs, %d bytes, charset format %d", n, want.cid, len(rf.FDs), buf.Len(), rf.CharsetFmt)
}

func fonts(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(60)
	switch rng.IntN(8) {
	case 0:
		n = 1 + rng.IntN(3)
	case 1:
		n = fgen.Pick(rng, 229, 230, 255, 256, 257, 258, 300, 166, 87, 88)
	}
	roundTrip(c, fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: n, CID: rng.IntN(2) == 0, Wild: true, Simple: rng.IntN(2) == 0}))
}

func bigFonts(c *h.Case) {
	rng := c.Rng
	n := fgen.Pick(rng, 500, 1000, 2000, 5000, 1241, 4096, 8721)
	if c.Index%8 == 0 {
		n = fgen.Pick(rng, 65535, 65534, 32768, 65100, 64000, 20000)
	}
	roundTrip(c, fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: n, CID: rng.IntN(2) == 0 || n > 65000 && rng.IntN(4) > 0, Simple: true}))
}

// offsets grows the font so that section offsets cross the size classes of
// DICT integers and INDEX offsets.
func offsets(c *h.Case) {
	rng := c.Rng
	f := fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: 1 + rng.IntN(4), CID: rng.IntN(3) == 0, Simple: true})
	target := fgen.Pick(rng, 107, 108, 255, 256, 257, 1131, 1132, 32767, 32768, 65535, 65536)
	if c.Index%200 == 7 {
		target = 1 << 24
	}
	// each lineto with large coordinates is a few bytes
	var buf bytes.Buffer
	f.Write(&buf)
	size := buf.Len()
	pad := target - size + rng.IntN(41) - 20
	switch rng.IntN(3) {
	case 0: // long strings: shifts everything
		if pad > 0 {
			if pad < 60000 {
				f.FontInfo.Notice = strings.Repeat("x", pad)
			} else {
				f.FontInfo.Notice = strings.Repeat("y", pad)
			}
		}
	case 1: // large charstrings
		g := f.Glyphs[0]
		g.MoveTo(0, 0)
		for i := 0; i < pad; i += 5 {
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpLineTo, Args: []float64{float64(i % 7 * 1000), float64(i % 11 * 500)}})
		}
		if len(g.Cmds) > 20000 {
			g.Cmds = g.Cmds[:20000]
		}
	case 2:
		f.FontInfo.FontName = strings.Repeat("N", max(1, min(pad, 127)))
		f.FontInfo.Copyright = strings.Repeat("c", max(0, pad-127))
	}
	roundTrip(c, f)
}

// ----- reading hand-made files -----

// realText returns a real number operand within the range of float64.
func realText(rng *rand.Rand) string {
	for {
		s := realText1(rng)
		if !math.IsInf(exactVal(s), 0) {
			return s
		}
	}
}

func realText1(rng *rand.Rand) string {
	switch rng.IntN(5) {
	case 0:
		return strconv.FormatFloat(fgen.Float(rng), 'g', -1, 64)
	case 1:
		return strconv.FormatFloat(fgen.Float(rng), 'e', rng.IntN(12), 64)
	case 2:
		return fgen.Pick(rng, "0.140541e-3", "-2.25", ".5", "-.5", "5.", "0", "00.10", "1e3", "1e-3", "-0.0", "100e-2", "0.001", "1.0e0", "000123", "12345678901234567890", ".000000001", "1e308", "-1e-308", "4.9e-324")
	case 3:
		s := ""
		if rng.IntN(2) == 0 {
			s = "-"
		}
		s += strconv.Itoa(rng.IntN(100000)) + "." + strconv.Itoa(rng.IntN(1000000))
		if rng.IntN(2) == 0 {
			s += fgen.Pick(rng, "e", "e-") + strconv.Itoa(rng.IntN(200))
		}
		return s
	default:
		x := rng.NormFloat64() * 100
		return strconv.FormatFloat(x, 'f', rng.IntN(10), 64)
	}
}

func exactVal(s string) float64 {
	// independent of strconv's float parser
	r, ok := new(big.Rat).SetString(normal(s))
	if !ok {
		panic("bad real " + s)
	}
	x, _ := r.Float64()
	return x
}

func normal(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	m, e, _ := strings.Cut(s, "e")
	if strings.HasPrefix(m, ".") {
		m = "0" + m
	}
	m = strings.TrimSuffix(m, ".")
	if e != "" {
		m += "e" + e
	}
	if neg {
		m = "-" + m
	}
	return m
}

func encIntForm(rng *rand.Rand, v int) []byte {
	// redundant forms are allowed
	switch {
	case rng.IntN(3) == 0:
		return []byte{29, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case rng.IntN(3) == 0 && v >= -32768 && v <= 32767:
		return []byte{28, byte(v >> 8), byte(v)}
	default:
		return cffref.EncInt(v)
	}
}

func numbers(c *h.Case) {
	rng := c.Rng
	b := cffref.Build{Name: "T", CharStrings: [][]byte{{14}}, FDs: []cffref.BuildFD{{}}, OffSize: rng.IntN(5), Pad: rng.IntN(4)}
	num := func() (float64, cffref.Raw) {
		if rng.IntN(3) == 0 {
			v := fgen.Pick(rng, 0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, 32768, -32768, -32769, 65535, 65536, math.MaxInt32, math.MinInt32, rng.IntN(4000)-2000, int(int32(rng.Uint32())))
			return float64(v), cffref.Raw(encIntForm(rng, v))
		}
		s := realText(rng)
		return exactVal(s), cffref.Raw(cffref.EncReal(s))
	}
	// font matrix
	var m [6]float64
	var args []any
	for i := range m {
		v, raw := num()
		m[i] = v
		args = append(args, raw)
	}
	b.Top = append(b.Top, cffref.Entry{Op: cffref.OpFontMatrix, Args: args})
	up, raw := num()
	b.Top = append(b.Top, cffref.Entry{Op: cffref.OpUnderlinePosition, Args: []any{raw}})
	ut, raw := num()
	b.Top = append(b.Top, cffref.Entry{Op: cffref.OpUnderlineThickness, Args: []any{raw}})
	i1 := int(int32(rng.Uint32()))
	i2 := fgen.Pick(rng, 0, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, 32768, -32768, -32769, math.MaxInt32, math.MinInt32)
	hw := math.Abs(math.Mod(exactVal(realText(rng)), 10000))
	hws := strconv.FormatFloat(hw, 'g', -1, 64)
	var blues []float64
	var bargs []any
	pos := 0
	frac := 0.0 // sum of the fractional parts of the deltas so far
	for k := rng.IntN(8); k > 0; k-- {
		for j := 0; j < 2; j++ {
			p := rng.IntN(65536) - 32768
			if rng.IntN(2) == 0 {
				p = max(-32768, min(32767, pos+rng.IntN(200)))
			}
			switch rng.IntN(6) {
			case 0: // an integer, coded as a real
				t := fgen.Pick(rng, "%d", "%d.0", "%d.", "%de0", "%d.00e0", "%d0e-1")
				bargs = append(bargs, cffref.Raw(cffref.EncReal(fmt.Sprintf(t, p-pos))))
			case 1: // a fraction
				d := float64(rng.IntN(8)-4) / 16
				frac += d
				bargs = append(bargs, cffref.Raw(cffref.EncReal(strconv.FormatFloat(float64(p-pos)+d, 'f', -1, 64))))
			default:
				bargs = append(bargs, cffref.Raw(encIntForm(rng, p-pos)))
			}
			pos = p
			blues = append(blues, float64(p)+frac)
		}
	}
	anyForm := func(v int) cffref.Raw {
		if rng.IntN(4) == 0 { // an integer, coded as a real
			t := fgen.Pick(rng, "%d", "%d.0", "%d.", "%de0", "%d.00e0", "%d0e-1")
			return cffref.Raw(cffref.EncReal(fmt.Sprintf(t, v)))
		}
		return cffref.Raw(encIntForm(rng, v))
	}
	b.FDs[0].Private = []cffref.Entry{
		{Op: cffref.OpBlueShift, Args: []any{anyForm(i1)}},
		{Op: cffref.OpBlueFuzz, Args: []any{anyForm(i2)}},
		{Op: cffref.OpStdHW, Args: []any{cffref.Raw(cffref.EncReal(hws))}},
	}
	if len(bargs) > 0 {
		b.FDs[0].Private = append(b.FDs[0].Private, cffref.Entry{Op: cffref.OpBlueValues, Args: bargs})
	}
	var f *cff.Font
	var err error
	data := b.Bytes()
	if !c.Guard("cff.Read", func() { f, err = cff.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("valid font rejected", "%v (matrix %v)", err, m)
		return
	}
	eq := func(what string, got, want float64) {
		if got != want && !near9(got, want) {
			c.Violation("number misread", "%s: read %v, want %v", what, got, want)
		}
	}
	for i := range m {
		eq(fmt.Sprintf("FontMatrix[%d]", i), f.FontMatrix[i], m[i])
	}
	eq("UnderlinePosition", float64(f.UnderlinePosition), up)
	eq("UnderlineThickness", float64(f.UnderlineThickness), ut)
	eq("BlueShift", float64(f.Private[0].BlueShift), float64(i1))
	eq("BlueFuzz", float64(f.Private[0].BlueFuzz), float64(i2))
	eq("StdHW", f.Private[0].StdHW, exactVal(hws))
	if len(f.Private[0].BlueValues) != len(blues) {
		c.Violation("number misread", "BlueValues %v, want %v", f.Private[0].BlueValues, blues)
	} else {
		for i := range blues {
			// Fractional positions are rounded.
			if got := float64(f.Private[0].BlueValues[i]); math.Abs(got-max(-32768, min(32767, blues[i]))) > 0.5 {
				c.Violation("number misread", "BlueValues[%d] is %v, want %v", i, got, blues[i])
			}
		}
	}
	if c.Failed() {
		return
	}
	// and back again
	var buf bytes.Buffer
	if err := f.Write(&buf); err != nil {
		c.Violation("font refused", "%v", err)
		return
	}
	s, _, err := fromRef(c, buf.Bytes())
	if err != nil {
		c.Violation("output is not valid CFF", "%v", err)
		return
	}
	if d := diff(s, fromFont(f)); d != "" {
		c.Violation("bytes differ from the font", "%s", d)
	}
	c.Eval(1)
	c.NonTrivial(data)
	c.Sample("FontMatrix %v underline %v %v", m, up, ut)
}

// foreign reads structures in all formats the specification allows.
func foreign(c *h.Case) {
	rng := c.Rng
	b := cffref.Build{Name: "T", FDs: []cffref.BuildFD{{}}, OffSize: rng.IntN(5), Pad: rng.IntN(4)}
	n := 1 + rng.IntN(80)
	if rng.IntN(5) == 0 {
		n = 1 + rng.IntN(600)
	}
	mode := rng.IntN(4) // 0: predefined charset
	isCID := mode == 3
	var sids []int
	if mode == 0 {
		b.CharsetID = rng.IntN(3)
		sids = cffref.PredefCharset(b.CharsetID)
		n = 1 + rng.IntN(len(sids))
		sids = sids[:n]
	} else {
		sids = append(sids, 0)
		next := 1 + rng.IntN(20)
		for len(sids) < n {
			run := 1 + rng.IntN(40)
			for ; run > 0 && len(sids) < n; run-- {
				sids = append(sids, next)
				next++
			}
			next += rng.IntN(30)
		}
		for i := 0; !isCID && i <= sids[len(sids)-1]-len(cffref.StdStrings); i++ {
			b.Strings = append(b.Strings, fmt.Sprintf("n%d", i))
		}
		switch rng.IntN(3) {
		case 0:
			b.Charset = []byte{0}
			for _, s := range sids[1:] {
				b.Charset = append(b.Charset, byte(s>>8), byte(s))
			}
		default:
			fmtc := 1 + rng.IntN(2)
			b.Charset = []byte{byte(fmtc)}
			for i := 1; i < n; {
				j := i
				for j+1 < n && sids[j+1] == sids[j]+1 && (fmtc == 2 || j-i < 255) && rng.IntN(50) > 0 {
					j++
				}
				b.Charset = append(b.Charset, byte(sids[i]>>8), byte(sids[i]))
				if fmtc == 2 {
					b.Charset = append(b.Charset, byte((j-i)>>8))
				}
				b.Charset = append(b.Charset, byte(j-i))
				i = j + 1
			}
		}
	}
	for i := 0; i < n; i++ {
		b.CharStrings = append(b.CharStrings, append(t2.EncNum(float64(i%500), 0), 14))
	}
	enc := make([]int, 256)
	if isCID {
		b.CID = true
		b.Strings = []string{"Adobe", "Identity"}
		b.Top = append(b.Top, cffref.Entry{Op: cffref.OpROS, Args: []any{391, 392, fgen.Pick[any](rng, rng.IntN(10), rng.IntN(70000), float64(rng.IntN(3000)))}})
		nfd := fgen.Pick(rng, 1, 2, 3, 255, 256)
		b.FDs = nil
		for i := 0; i < nfd; i++ {
			b.FDs = append(b.FDs, cffref.BuildFD{Private: []cffref.Entry{{Op: cffref.OpNominalWidthX, Args: []any{i}}}})
		}
		fds := fgen.FDSelect(rng, n, nfd)
		if rng.IntN(2) == 0 {
			b.FDSelect = append([]byte{0}, fds...)
		} else {
			var rr []byte
			cnt := 0
			for i := range fds {
				if i == 0 || fds[i] != fds[i-1] || rng.IntN(30) == 0 {
					rr = append(rr, byte(i>>8), byte(i), fds[i])
					cnt++
				}
			}
			b.FDSelect = append(append([]byte{3, byte(cnt >> 8), byte(cnt)}, rr...), byte(n>>8), byte(n))
		}
	} else {
		m := min(n-1, 255)
		if rng.IntN(2) == 0 {
			m = rng.IntN(m + 1)
		}
		switch rng.IntN(4) {
		case 0:
			b.EncodingID = 0
		case 1:
			b.EncodingID = 1
		case 2:
			p := rng.Perm(256)[:m]
			b.Encoding = []byte{0, byte(m)}
			for i, code := range p {
				b.Encoding = append(b.Encoding, byte(code))
				enc[code] = i + 1
			}
		case 3:
			b.Encoding = []byte{1, 0}
			code, g := rng.IntN(40), 1
			for g <= m && code < 256 {
				l := min(1+rng.IntN(20), m-g+1, 256-code)
				b.Encoding = append(b.Encoding, byte(code), byte(l-1))
				b.Encoding[1]++
				for k := 0; k < l; k++ {
					enc[code+k] = g
					g++
				}
				code += l + rng.IntN(10)
			}
			m = g - 1
		}
		if b.Encoding != nil && m > 0 && rng.IntN(2) == 0 {
			b.Encoding[0] |= 128
			pos := len(b.Encoding)
			b.Encoding = append(b.Encoding, 0)
			for code := range enc {
				if enc[code] == 0 && rng.IntN(5) == 0 && b.Encoding[pos] < 255 {
					g := 1 + rng.IntN(m)
					enc[code] = g
					b.Encoding = append(b.Encoding, byte(code), byte(sids[g]>>8), byte(sids[g]))
					b.Encoding[pos]++
				}
			}
		}
	}
	data := b.Bytes()
	want, _, err := fromRef(c, data)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if b.Encoding != nil {
		for i := range enc {
			if want.enc[i] != enc[i] {
				panic("harness: encoding")
			}
		}
	}
	var f *cff.Font
	if !c.Guard("cff.Read", func() { f, err = cff.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("valid font rejected", "%v (%d glyphs, cid %v, charset % x, encoding % x, fdselect % x)", err, n, isCID, clip(b.Charset), clip(b.Encoding), clip(b.FDSelect))
		return
	}
	if d := diff(fromFont(f), want); d != "" {
		c.Violation("structure misread", "%s (charset %d % x, encoding %d % x, fdselect % x)", d, b.CharsetID, clip(b.Charset), b.EncodingID, clip(b.Encoding), clip(b.FDSelect))
		return
	}
	c.NonTrivial(data)
	c.Count("foreign files", 1)
	roundTrip(c, f)
}

func clip(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

func main() {
	h.Main(&h.Check{
		ID:    "C13",
		Level: "exploration",
		Rule: "random simple and CID-keyed fonts are written by cff.Font.Write; the bytes are decoded by an independent CFF parser and by cff.Read and both are compared with the font field by field; " +
			"hand-assembled files exercise every number form and table format on the reading side. Non-trivial: distinct files",
		Assumptions: []string{"TN5176 as implemented by harness/cffref", "strings are valid UTF-8; BlueScale in [0,1] and StdHW/StdVW in [0,10000] (cff.Read clamps them to these ranges)",
			"an encoding which needs more than 255 supplements or a font with more than 65000 custom names may be refused"},
		MemLimitGB: 4,
		Groups: []h.Group{
			{Name: "fonts", Quick: 6000, Run: fonts},
			{Name: "offsets", Quick: 1200, Run: offsets},
			{Name: "numbers", Quick: 20000, Run: numbers},
			{Name: "foreign", Quick: 6000, Run: foreign},
			{Name: "big", Quick: 24, Run: bigFonts},
		},
	})
}
