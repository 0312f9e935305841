// Check C12: metrics and header tables round-trip exactly, derived fields
// match their definitions.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"time"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

func i16(rng *rand.Rand) funit.Int16 {
	switch rng.IntN(5) {
	case 0:
		return fgen.Pick[funit.Int16](rng, 0, 1, -1, 32767, -32768, 32766, -32767, 255, 256, -256)
	case 1:
		return funit.Int16(rng.IntN(65536) - 32768)
	default:
		return funit.Int16(rng.IntN(3000) - 1000)
	}
}

// fillFixed sets values with a constant tail of the given length.
func widths(rng *rand.Rand, n, tail int) []funit.Int16 {
	w := make([]funit.Int16, n)
	big := rng.IntN(3) == 0
	for i := range w {
		if big {
			w[i] = funit.Int16(rng.IntN(32768))
		} else {
			w[i] = funit.Int16(rng.IntN(fgen.Pick(rng, 2, 10, 2000)))
		}
	}
	if rng.IntN(8) == 0 { // runs in the middle
		for i := 1; i < n; i++ {
			if rng.IntN(4) > 0 {
				w[i] = w[i-1]
			}
		}
	}
	if tail > 0 && tail <= n {
		v := w[n-tail]
		for i := n - tail; i < n; i++ {
			w[i] = v
		}
		if tail < n && w[n-tail-1] == v {
			w[n-tail-1] ^= 1
		}
	}
	return w
}

func checkHmtx(c *h.Case, info *hmtx.Info) {
	n := len(info.Widths)
	before := fmt.Sprint(*info)
	var hhea, hm []byte
	if !c.Guard("hmtx.Encode", func() { hhea, hm = info.Encode() }) {
		return
	}
	if fmt.Sprint(*info) != before {
		c.Violation("argument modified", "hmtx.Encode changed its receiver")
	}
	c.NonTrivial(hhea, hm)
	hd, err := raw.ParseHhea(hhea)
	if err != nil {
		c.Violation("hhea malformed", "%v", err)
		return
	}
	aw, lsb, err := raw.ParseHmtx(hm, hd.NumHMetrics, n)
	if err != nil {
		c.Violation("hmtx malformed", "%v", err)
		return
	}
	c.Eval(1)
	for i := range aw {
		want := 0
		if info.LSB != nil {
			want = int(info.LSB[i])
		} else {
			want = int(info.GlyphExtents[i].LLx)
		}
		if aw[i] != int(uint16(info.Widths[i])) || lsb[i] != want {
			c.Violation("hmtx value lost", "glyph %d of %d: encoded %d/%d, want %d/%d (numberOfHMetrics=%d)", i, n, aw[i], lsb[i], uint16(info.Widths[i]), want, hd.NumHMetrics)
			return
		}
	}
	minimal := n
	for minimal > 1 && aw[minimal-1] == aw[minimal-2] {
		minimal--
	}
	if hd.NumHMetrics == minimal {
		c.Count("constant tail compressed", n-minimal)
	}
	if hd.Ascent != int(info.Ascent) || hd.Descent != int(info.Descent) || hd.LineGap != int(info.LineGap) || hd.CaretOffset != int(info.CaretOffset) {
		c.Violation("hhea field", "ascent/descent/lineGap/caretOffset %v, want %v", hd, *info)
	}
	maxW, minL, minR, maxE := 0, math.MaxInt, math.MaxInt, math.MinInt
	for i := range aw {
		maxW = max(maxW, aw[i])
		if info.GlyphExtents == nil {
			minL = min(minL, lsb[i])
			continue
		}
		e := info.GlyphExtents[i]
		if e.IsZero() {
			continue
		}
		ext := lsb[i] + int(e.URx) - int(e.LLx)
		minL = min(minL, lsb[i])
		minR = min(minR, aw[i]-ext)
		maxE = max(maxE, ext)
	}
	derived := func(name string, got, want int) {
		if want == math.MaxInt || want == math.MinInt || want > 32767 || want < -32768 {
			return // no glyphs, or not representable
		}
		if got != want {
			c.Violation("derived "+name, "%s is %d, want %d (%d glyphs)", name, got, want, n)
		}
		c.Eval(1)
	}
	derived("advanceWidthMax", hd.AdvanceWidthMax, maxW)
	if info.GlyphExtents != nil {
		derived("minLeftSideBearing", hd.MinLSB, minL)
		derived("minRightSideBearing", hd.MinRSB, minR)
		derived("xMaxExtent", hd.XMaxExtent, maxE)
	}

	var back *hmtx.Info
	if !c.Guard("hmtx.Decode", func() { back, err = hmtx.Decode(hhea, hm) }) {
		return
	}
	if err != nil {
		c.Violation("round trip", "hmtx.Decode: %v", err)
		return
	}
	if len(back.Widths) != n || len(back.LSB) != n {
		c.Violation("round trip", "%d widths and %d bearings for %d glyphs", len(back.Widths), len(back.LSB), n)
		return
	}
	for i := range aw {
		if back.Widths[i] != info.Widths[i] || int(back.LSB[i]) != lsb[i] {
			c.Violation("round trip", "glyph %d of %d: decoded %d/%d, want %d/%d", i, n, back.Widths[i], back.LSB[i], info.Widths[i], lsb[i])
			return
		}
	}
	if back.Ascent != info.Ascent || back.Descent != info.Descent || back.LineGap != info.LineGap || back.CaretOffset != info.CaretOffset {
		c.Violation("round trip", "hhea fields: %d %d %d %d", back.Ascent, back.Descent, back.LineGap, back.CaretOffset)
	}
}

func genHmtx(rng *rand.Rand, n, tail int) *hmtx.Info {
	info := &hmtx.Info{
		Widths: widths(rng, n, tail),
		Ascent: i16(rng), Descent: i16(rng), LineGap: i16(rng), CaretOffset: i16(rng),
	}
	mode := rng.IntN(4)
	if mode != 0 {
		info.GlyphExtents = make([]funit.Rect16, n)
		wild := rng.IntN(3) == 0
		p := fgen.Pick(rng, 0.0, 0.2, 0.8, 1)
		for i := range info.GlyphExtents {
			if rng.Float64() < p {
				continue
			}
			if wild {
				a, b := i16(rng), i16(rng)
				info.GlyphExtents[i] = funit.Rect16{LLx: min(a, b), URx: max(a, b), LLy: -10, URy: 10}
			} else {
				x := funit.Int16(rng.IntN(1000) - 300)
				if rng.IntN(4) == 0 {
					x = funit.Int16(rng.IntN(1000) - 1200)
				}
				info.GlyphExtents[i] = funit.Rect16{LLx: x, URx: x + funit.Int16(rng.IntN(1200)), LLy: -10, URy: 10}
			}
		}
	}
	if mode <= 1 {
		info.LSB = make([]funit.Int16, n)
		for i := range info.LSB {
			info.LSB[i] = i16(rng)
			if info.GlyphExtents != nil && rng.IntN(2) == 0 {
				info.LSB[i] = info.GlyphExtents[i].LLx
			}
		}
	}
	return info
}

func hmtxSmall(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 10, 60))
	info := genHmtx(rng, n, rng.IntN(n+1))
	c.Count(fmt.Sprintf("extents %v lsb %v", info.GlyphExtents != nil, info.LSB != nil), 1)
	c.Sample("%d glyphs, widths %.60v", n, fmt.Sprint(info.Widths))
	checkHmtx(c, info)
}

// hmtxTails goes through every length of the constant tail for n<=64.
func hmtxTails(c *h.Case) {
	n := c.Index%64 + 1
	for tail := 0; tail <= n; tail++ {
		checkHmtx(c, genHmtx(c.Rng, n, tail))
		c.Count("tail lengths", 1)
	}
}

func hmtxLarge(c *h.Case) {
	rng := c.Rng
	n := fgen.Pick(rng, 65535, 65534, 32767, 32768, 32769, 256, 255, 257, 1+rng.IntN(65535))
	tail := fgen.Pick(rng, 0, 1, 2, n-1, n, n-255, n-256, n/2, rng.IntN(n+1))
	if tail < 0 {
		tail = 0
	}
	c.Max("glyphs", n)
	checkHmtx(c, genHmtx(rng, n, tail))
}

// hmtxForeign decodes hand-made tables, where the tail need not be maximal.
func hmtxForeign(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 10, 300))
	k := 1 + rng.IntN(n)
	v := make([]int, 10)
	for i := range v {
		v[i] = int(i16(rng))
	}
	hhea := raw.A32(nil, 0x00010000)
	hhea = raw.A16(hhea, v[0], v[1], v[2], v[3]&0x7fff, v[4], v[5], v[6])
	rise, run := v[7], v[8]
	hhea = raw.A16(hhea, rise, run, v[9], 0, 0, 0, 0, 0, k)
	var aw, lsb []int
	var data []byte
	for i := 0; i < n; i++ {
		l := int(i16(rng))
		w := 0
		if i < k {
			w = int(uint16(i16(rng)))
			data = raw.A16(data, w)
		} else {
			w = aw[k-1]
		}
		data = raw.A16(data, l)
		aw, lsb = append(aw, w), append(lsb, l)
	}
	c.NonTrivial(hhea, data)
	c.Eval(1)
	h0, d0 := bytes.Clone(hhea), bytes.Clone(data)
	var info *hmtx.Info
	var err error
	if !c.Guard("hmtx.Decode", func() { info, err = hmtx.Decode(hhea, data) }) {
		return
	}
	if err != nil {
		c.Violation("legal table rejected", "%d glyphs, %d long metrics: %v", n, k, err)
		return
	}
	if !bytes.Equal(h0, hhea) || !bytes.Equal(d0, data) {
		c.Violation("argument modified", "hmtx.Decode changed its input")
	}
	if len(info.Widths) != n || len(info.LSB) != n {
		c.Violation("foreign decode", "%d widths, %d bearings, want %d", len(info.Widths), len(info.LSB), n)
		return
	}
	for i := range aw {
		if int(uint16(info.Widths[i])) != aw[i] || int(info.LSB[i]) != lsb[i] {
			c.Violation("foreign decode", "glyph %d: %d/%d, want %d/%d", i, info.Widths[i], info.LSB[i], aw[i], lsb[i])
			return
		}
	}
	if int(info.Ascent) != v[0] || int(info.Descent) != v[1] || int(info.LineGap) != v[2] || int(info.CaretOffset) != v[9] {
		c.Violation("foreign decode", "hhea fields %d %d %d %d, want %v", info.Ascent, info.Descent, info.LineGap, info.CaretOffset, v)
	}
	if rise != 0 || run != 0 {
		checkAngle(c, "decoded caret angle", info.CaretAngle, math.Atan2(float64(rise), float64(run))-math.Pi/2, 3.2e-5)
	}
}

func checkAngle(c *h.Case, what string, got, want, tol float64) bool {
	d := math.Abs(math.Remainder(got-want, 2*math.Pi))
	if !(d <= tol) {
		c.Violation(what, "%s is %.9g, want %.9g", what, got, want)
		return false
	}
	return true
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// caret: caret slopes and angles.
func caret(c *h.Case) {
	rng := c.Rng
	one := []funit.Int16{0}
	for i := 0; i < 8; i++ {
		var rise, run int
		v := func() int {
			return fgen.Pick(rng, 0, 1, -1, 32767, -32767, 32766, rng.IntN(65535)-32767, rng.IntN(2001)-1000, rng.IntN(21)-10)
		}
		rise, run = v(), v()
		if rise == 0 && run == 0 {
			rise = 1
		}
		g := gcd(max(rise, -rise), max(run, -run))
		rise, run = rise/g, run/g
		angle := math.Atan2(float64(rise), float64(run)) - math.Pi/2
		exact := true
		if rng.IntN(3) == 0 {
			exact = false
			angle = (rng.Float64() - 0.5) * fgen.Pick(rng, 0.001, 1, math.Pi, 2*math.Pi)
			if rng.IntN(4) == 0 {
				angle = fgen.Pick(rng, 0, math.Pi/2, -math.Pi/2, math.Pi, math.Pi/4, -math.Pi/4) + (rng.Float64()-0.5)*fgen.Pick(rng, 0, 1e-9, 1e-6, 1e-5, 1e-4)
			}
		}
		info := &hmtx.Info{Widths: one, LSB: one, CaretAngle: angle}
		var hhea, hm []byte
		if !c.Guard("hmtx.Encode", func() { hhea, hm = info.Encode() }) {
			return
		}
		hd, err := raw.ParseHhea(hhea)
		if err != nil {
			c.Violation("hhea malformed", "%v", err)
			return
		}
		c.Eval(1)
		c.NonTrivial(hhea[18:22])
		if hd.CaretRise == 0 && hd.CaretRun == 0 {
			c.Violation("caret slope", "angle %.9g encoded as 0/0", angle)
			return
		}
		if !checkAngle(c, "caret slope", math.Atan2(float64(hd.CaretRise), float64(hd.CaretRun))-math.Pi/2, angle, 3.2e-5) {
			return
		}
		if exact {
			c.Count("exact slopes", 1)
			if hd.CaretRise != rise || hd.CaretRun != run {
				c.Violation("caret slope", "slope %d/%d encoded as %d/%d", rise, run, hd.CaretRise, hd.CaretRun)
				return
			}
		} else {
			c.Count("arbitrary angles", 1)
		}
		back, err := hmtx.Decode(hhea, hm)
		if err != nil {
			c.Violation("round trip", "hmtx.Decode: %v", err)
			return
		}
		tol := 3.2e-5
		if exact {
			tol = 1e-9
		}
		if !checkAngle(c, "caret angle", back.CaretAngle, angle, tol) {
			return
		}
		h2, _ := back.Encode()
		if !bytes.Equal(h2, hhea) {
			c.Violation("caret angle", "re-encoding %d/%d gives different bytes", hd.CaretRise, hd.CaretRun)
			return
		}
	}
}

const epoch1904 = -2082844800

func genTime(rng *rand.Rand) time.Time {
	switch rng.IntN(7) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(epoch1904+int64(fgen.Pick(rng, 1, -1, 2, 1<<31, 1<<32-1, 1<<32, 1<<31-1)), 0)
	case 2:
		return time.Unix(int64(rng.IntN(5)-2), 0).UTC()
	case 3:
		return time.Date(1700+rng.IntN(8000), 1, 1, 0, 0, rng.IntN(1000), 0, time.UTC)
	case 4:
		return time.Unix(rng.Int64N(1<<34)-1<<33, rng.Int64N(1e9))
	default:
		return fgen.Time(rng)
	}
}

// headTable: the "head" table.
func headTable(c *h.Case) {
	rng := c.Rng
	b := func() bool { return rng.IntN(2) == 0 }
	info := &head.Info{
		FontRevision: head.Version(rng.Uint32()),
		HasYBaseAt0:  b(), HasXBaseAt0: b(), IsNonlinear: b(),
		UnitsPerEm: uint16(fgen.Pick(rng, 16, 16384, 1000, 2048, rng.IntN(65536))),
		Created:    genTime(rng), Modified: genTime(rng),
		FontBBox: funit.Rect16{LLx: i16(rng), LLy: i16(rng), URx: i16(rng), URy: i16(rng)},
		IsBold:   b(), IsItalic: b(), HasShadow: b(), IsCondensed: b(), IsExtended: b(),
		LowestRecPPEM: uint16(rng.IntN(65536)), LocaFormat: int16(rng.IntN(2)),
	}
	if info.Created.Unix() == epoch1904 || info.Modified.Unix() == epoch1904 {
		return
	}
	var data []byte
	if !c.Guard("head.Encode", func() { data = info.Encode() }) {
		return
	}
	c.NonTrivial(data)
	c.Eval(1)
	hd, err := raw.ParseHead(data)
	if err != nil {
		c.Violation("head malformed", "%v", err)
		return
	}
	lt := func(t time.Time) int64 {
		if t.IsZero() {
			return 0
		}
		return t.Unix() - epoch1904
	}
	bit := func(v int, i uint) bool { return v>>i&1 != 0 }
	type f struct {
		name      string
		got, want any
	}
	fields := []f{
		{"fontRevision", hd.Revision, uint32(info.FontRevision)},
		{"unitsPerEm", hd.UnitsPerEm, int(info.UnitsPerEm)},
		{"created", hd.Created, lt(info.Created)}, {"modified", hd.Modified, lt(info.Modified)},
		{"bbox", [4]int{hd.XMin, hd.YMin, hd.XMax, hd.YMax}, [4]int{int(info.FontBBox.LLx), int(info.FontBBox.LLy), int(info.FontBBox.URx), int(info.FontBBox.URy)}},
		{"baseline flag", bit(hd.Flags, 0), info.HasYBaseAt0}, {"lsb flag", bit(hd.Flags, 1), info.HasXBaseAt0},
		{"bold", bit(hd.MacStyle, 0), info.IsBold}, {"italic", bit(hd.MacStyle, 1), info.IsItalic}, {"shadow", bit(hd.MacStyle, 4), info.HasShadow},
		{"condensed", bit(hd.MacStyle, 5), info.IsCondensed}, {"extended", bit(hd.MacStyle, 6), info.IsExtended},
		{"lowestRecPPEM", hd.LowestRec, int(info.LowestRecPPEM)}, {"indexToLocFormat", hd.LocaFormat, int(info.LocaFormat)},
	}
	for _, x := range fields {
		if !reflect.DeepEqual(x.got, x.want) {
			c.Violation("head field "+x.name, "%s is %v, want %v", x.name, x.got, x.want)
		}
	}
	var back *head.Info
	if !c.Guard("head.Read", func() { back, err = head.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("round trip", "head.Read: %v", err)
		return
	}
	sec := func(t time.Time) time.Time { return t.Truncate(0).Add(-time.Duration(t.Nanosecond())) }
	if !back.Created.Equal(sec(info.Created)) || !back.Modified.Equal(sec(info.Modified)) || back.Created.IsZero() != info.Created.IsZero() {
		c.Violation("head time", "times %v %v, want %v %v", back.Created, back.Modified, info.Created, info.Modified)
	}
	a, bb := *back, *info
	a.Created, a.Modified, bb.Created, bb.Modified = time.Time{}, time.Time{}, time.Time{}, time.Time{}
	if a != bb {
		c.Violation("round trip", "head: %+v, want %+v", a, bb)
	}
	// version strings
	v := info.FontRevision
	r := v.Round()
	if r.Round() != r {
		c.Violation("version", "Round not idempotent for %08x", v)
	}
	if d := int64(r) - int64(v); v < 0xFFFF0000 && (d > 40 || d < -40) {
		c.Violation("version", "%08x rounds to %08x", v, r)
	}
	if w, err := head.VersionFromString("Version " + r.String()); v < 0xFFFF0000 && (err != nil || w.Round() != r) {
		c.Violation("version", "%08x -> %q -> %08x (%v)", r, r.String(), w, err)
	}
}

// maxpTable: the "maxp" table.
func maxpTable(c *h.Case) {
	rng := c.Rng
	info := &maxp.Info{NumGlyphs: fgen.Pick(rng, 1, 2, 255, 256, 65535, 1+rng.IntN(65535))}
	u := func() uint16 { return uint16(fgen.Pick(rng, 0, 1, 255, 256, 65535, rng.IntN(65536))) }
	if rng.IntN(8) > 0 {
		info.TTF = &maxp.TTFInfo{}
		v := reflect.ValueOf(info.TTF).Elem()
		for i := 0; i < v.NumField(); i++ {
			v.Field(i).SetUint(uint64(u()))
		}
	}
	var data []byte
	if !c.Guard("maxp.Encode", func() { data = info.Encode() }) {
		return
	}
	c.NonTrivial(data)
	c.Eval(1)
	want := raw.A32(nil, 0x00005000)
	if info.TTF != nil {
		want = raw.A32(nil, 0x00010000)
	}
	want = raw.A16(want, info.NumGlyphs)
	if t := info.TTF; t != nil {
		for _, x := range []uint16{t.MaxPoints, t.MaxContours, t.MaxCompositePoints, t.MaxCompositeContours, t.MaxZones, t.MaxTwilightPoints,
			t.MaxStorage, t.MaxFunctionDefs, t.MaxInstructionDefs, t.MaxStackElements, t.MaxSizeOfInstructions, t.MaxComponentElements, t.MaxComponentDepth} {
			want = raw.A16(want, int(x))
		}
	}
	if !bytes.Equal(data, want) {
		c.Violation("maxp layout", "encoded %x, want %x", data, want)
		return
	}
	var back *maxp.Info
	var err error
	if !c.Guard("maxp.Read", func() { back, err = maxp.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil || !reflect.DeepEqual(back, info) {
		c.Violation("round trip", "maxp: %+v %v, want %+v", back, err, info)
	}
}

func genOS2(c *h.Case, rng *rand.Rand) *os2.Info {
	b := func() bool { return rng.IntN(2) == 0 }
	pos := func() funit.Int16 { return max(0, i16(rng)) }
	info := &os2.Info{
		WeightClass: os2.Weight(rng.IntN(65536)), WidthClass: os2.Width(fgen.Pick(rng, 1+rng.IntN(9), rng.IntN(65536))),
		IsRegular: b(), IsOblique: b(),
		FirstCharIndex: uint16(rng.IntN(65536)), LastCharIndex: uint16(fgen.Pick(rng, 0xFFFF, 0xFFFE, rng.IntN(65536))),
		Ascent: i16(rng), Descent: i16(rng), LineGap: i16(rng), WinAscent: i16(rng), WinDescent: i16(rng),
		CapHeight: pos(), XHeight: pos(), AvgGlyphWidth: i16(rng),
		SubscriptXSize: i16(rng), SubscriptYSize: i16(rng), SubscriptXOffset: i16(rng), SubscriptYOffset: i16(rng),
		SuperscriptXSize: i16(rng), SuperscriptYSize: i16(rng), SuperscriptXOffset: i16(rng), SuperscriptYOffset: i16(rng),
		StrikeoutSize: i16(rng), StrikeoutPosition: i16(rng),
		FamilyClass:      int16(i16(rng)),
		Vendor:           string(fgen.Bytes(rng, 4)),
		CodePageRange:    os2.CodePageRange(rng.Uint64()),
		PermUse:          fgen.Pick(rng, os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted),
		PermNoSubsetting: b(), PermOnlyBitmap: b(),
	}
	if !info.IsRegular {
		info.IsBold, info.IsItalic = b(), b()
	}
	if rng.IntN(2) == 0 {
		info.Vendor = "    "
	}
	copy(info.Panose[:], fgen.Bytes(rng, 10))
	for i := range info.UnicodeRange {
		info.UnicodeRange[i] = rng.Uint32()
	}
	if info.LastCharIndex == 0xFFFF {
		info.UnicodeRange[1] |= 1 << 25
	} else {
		info.UnicodeRange[1] &^= 1 << 25
	}
	// Setting and clearing individual bits.
	ur, model := info.UnicodeRange, info.UnicodeRange
	for range 8 {
		bit, set := rng.IntN(128), rng.IntN(2) == 0
		if set && rng.IntN(2) == 0 {
			ur.Set(os2.UnicodeRangeBit(bit))
		} else {
			ur.Bool(os2.UnicodeRangeBit(bit), set)
		}
		model[bit/32] &^= 1 << (bit % 32)
		if set {
			model[bit/32] |= 1 << (bit % 32)
		}
	}
	if ur != model {
		c.Violation("UnicodeRange", "%x instead of %x", ur, model)
	}
	if rng.IntN(3) == 0 {
		// Set the bits one by one.
		want := info.CodePageRange & os2.CodePageRange(rng.Uint64()) & os2.CodePageRange(rng.Uint64())
		info.CodePageRange = 0
		for i := range 64 {
			if want>>i&1 != 0 {
				info.CodePageRange.Set(os2.CodePage(i))
			}
		}
		if info.CodePageRange != want {
			c.Violation("CodePageRange.Set", "%x instead of %x", info.CodePageRange, want)
		}
	}
	// the textual forms
	for w := os2.Width(1); w <= 9; w++ {
		if x := os2.WidthFromString(w.String()); x != w {
			c.Violation("WidthFromString", "%q becomes %d instead of %d", w.String(), x, w)
		}
	}
	w := os2.Weight(rng.IntN(1001))
	if x := os2.WeightFromString(w.String()); x != w {
		c.Violation("WeightFromString", "%q becomes %d instead of %d", w.String(), x, w)
	}
	if x := w.Rounded(); x%100 != 0 || x < 100 || x > 900 || w >= 100 && w <= 900 && max(x, w)-min(x, w) > 50 {
		c.Violation("Weight.Rounded", "%d becomes %d", w, x)
	}
	return info
}

// os2Table: the "OS/2" table.
func os2Table(c *h.Case) {
	rng := c.Rng
	info := genOS2(c, rng)
	var data []byte
	if !c.Guard("os2.Encode", func() { data = info.Encode() }) {
		return
	}
	c.NonTrivial(data)
	c.Eval(1)
	o, err := raw.ParseOS2(data)
	if err != nil {
		c.Violation("OS/2 malformed", "%v", err)
		return
	}
	bit := func(v int, i uint) bool { return v>>i&1 != 0 }
	perm := map[os2.Permissions]int{os2.PermInstall: 0, os2.PermRestricted: 2, os2.PermView: 4, os2.PermEdit: 8}
	type f struct {
		name      string
		got, want any
	}
	n := func(x funit.Int16) int { return int(x) }
	fields := []f{
		{"usWeightClass", o.Weight, int(info.WeightClass)}, {"usWidthClass", o.Width, int(info.WidthClass)},
		{"fsType usage", o.Type & 0xF, perm[info.PermUse]}, {"fsType no subsetting", bit(o.Type, 8), info.PermNoSubsetting}, {"fsType bitmap", bit(o.Type, 9), info.PermOnlyBitmap},
		{"fsType reserved", o.Type &^ 0x30F, 0},
		{"fsSelection italic", bit(o.Selection, 0), info.IsItalic}, {"fsSelection bold", bit(o.Selection, 5), info.IsBold},
		{"fsSelection regular", bit(o.Selection, 6), info.IsRegular}, {"fsSelection oblique", bit(o.Selection, 9), info.IsOblique},
		{"first", o.First, int(info.FirstCharIndex)}, {"last", o.Last, int(info.LastCharIndex)},
		{"typo", [3]int{o.Ascender, o.Descender, o.LineGap}, [3]int{n(info.Ascent), n(info.Descent), n(info.LineGap)}},
		{"win", [2]int{o.WinAscent, o.WinDescent}, [2]int{int(uint16(info.WinAscent)), int(uint16(info.WinDescent))}},
		{"heights", [2]int{o.CapHeight, o.XHeight}, [2]int{n(info.CapHeight), n(info.XHeight)}},
		{"xAvgCharWidth", o.AvgWidth, n(info.AvgGlyphWidth)},
		{"sub/superscript", o.SubSup, [10]int{n(info.SubscriptXSize), n(info.SubscriptYSize), n(info.SubscriptXOffset), n(info.SubscriptYOffset),
			n(info.SuperscriptXSize), n(info.SuperscriptYSize), n(info.SuperscriptXOffset), n(info.SuperscriptYOffset), n(info.StrikeoutSize), n(info.StrikeoutPosition)}},
		{"family class", o.FamilyClass, int(info.FamilyClass)}, {"panose", o.Panose, info.Panose}, {"vendor", o.Vendor, info.Vendor},
		{"unicode range", o.Unicode, [4]uint32(info.UnicodeRange)},
		{"code pages", o.CodePage, [2]uint32{uint32(info.CodePageRange), uint32(info.CodePageRange >> 32)}},
	}
	for _, x := range fields {
		if !reflect.DeepEqual(x.got, x.want) {
			c.Violation("OS/2 field "+x.name, "%s is %v, want %v", x.name, x.got, x.want)
		}
	}
	var back *os2.Info
	if !c.Guard("os2.Read", func() { back, err = os2.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil || !reflect.DeepEqual(back, info) {
		c.Violation("round trip", "OS/2: %+v %v, want %+v", back, err, info)
		return
	}

	// older and newer versions of the table
	v := rng.IntN(6)
	old := bytes.Clone(data)
	old[1] = byte(v)
	switch v {
	case 0:
		old = old[:fgen.Pick(rng, 78, 68)]
	case 1:
		old = old[:86]
	case 5:
		old = raw.A16(old, rng.IntN(65536), rng.IntN(65536))
	}
	if !c.Guard("os2.Read", func() { back, err = os2.Read(bytes.NewReader(old)) }) {
		return
	}
	if err != nil {
		c.Violation("legal table rejected", "OS/2 version %d, %d bytes: %v", v, len(old), err)
		return
	}
	want := *info
	if v < 2 {
		want.CodePageRange = back.CodePageRange
		want.XHeight, want.CapHeight = 0, 0
	}
	if len(old) == 68 {
		want.Ascent, want.Descent, want.LineGap, want.WinAscent, want.WinDescent = 0, 0, 0, 0, 0
	}
	if v < 3 {
		want.PermNoSubsetting, want.PermOnlyBitmap = false, false
	}
	if v <= 3 {
		want.IsOblique = false
	}
	c.Count(fmt.Sprintf("OS/2 version %d", v), 1)
	if !reflect.DeepEqual(back, &want) {
		c.Violation("OS/2 version", "version %d: %+v, want %+v", v, back, &want)
	}
}

// postTable: the header of the "post" table.
func postTable(c *h.Case) {
	rng := c.Rng
	info := &post.Info{
		ItalicAngle:       float64(int32(rng.Uint32())) / 65536,
		UnderlinePosition: i16(rng), UnderlineThickness: i16(rng), IsFixedPitch: rng.IntN(2) == 0,
	}
	if rng.IntN(2) == 0 {
		info.ItalicAngle = fgen.Pick(rng, 0, -12, -9.5, -32768, 32767, 1.0/65536, -1.0/65536, 90, float64(rng.IntN(60*65536)-30*65536)/65536)
	}
	if rng.IntN(2) == 0 {
		info.Names = fgen.GlyphNames(rng, 1+rng.IntN(20), false)
	}
	var data []byte
	if !c.Guard("post.Encode", func() { data = info.Encode() }) {
		return
	}
	c.NonTrivial(data)
	c.Eval(1)
	p, err := raw.ParsePost(data)
	if err != nil {
		c.Violation("post malformed", "%v", err)
		return
	}
	if float64(p.ItalicAngle)/65536 != info.ItalicAngle || p.UPos != int(info.UnderlinePosition) || p.UThick != int(info.UnderlineThickness) || (p.Fixed != 0) != info.IsFixedPitch {
		c.Violation("post field", "%+v, want %+v", p, info)
	}
	back, err := post.Read(bytes.NewReader(data))
	if err != nil {
		c.Violation("round trip", "post: %v", err)
		return
	}
	if !reflect.DeepEqual(back, info) {
		c.Violation("round trip", "post: %+v, want %+v", back, info)
	}
	// any non-zero value means "monospaced"
	foreign := bytes.Clone(data)
	copy(foreign[12:], raw.A32(nil, fgen.Pick[uint32](rng, 0x100, 0x10000, 0xFFFFFFFF, 1)))
	back, err = post.Read(bytes.NewReader(foreign))
	if err != nil || !back.IsFixedPitch {
		c.Violation("post field", "isFixedPitch %x not understood (%v)", foreign[12:16], err)
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C12",
		Level: "exploration",
		Rule:  "random Info values are encoded, the bytes read back at the offsets given in the specification and through the library; derived fields of tables and of complete written fonts are recomputed by the harness from widths and outlines; query methods are compared with an independent evaluation of the outlines. Non-trivial: distinct encoded tables or fonts",
		Assumptions: []string{
			"a derived field whose true value does not fit the field is not judged",
			"1904-01-01 00:00:00 UTC is the representation of an unset time",
			"OS/2: UnicodeRange bit 57 reflects LastCharIndex==0xFFFF; IsRegular excludes IsBold and IsItalic; heights are not negative; vendor IDs have four bytes",
			"caret angles which are not multiples of a 16-bit slope are compared with tolerance 3.2e-5 rad; font widths which are not integers are compared with hmtx up to one unit",
		},
		Groups: []h.Group{
			{Name: "hmtx", Quick: 20000, Run: hmtxSmall},
			{Name: "tails", Quick: 128, Run: hmtxTails},
			{Name: "large", Quick: 200, Run: hmtxLarge},
			{Name: "foreign", Quick: 8000, Run: hmtxForeign},
			{Name: "caret", Quick: 1500, Run: caret},
			{Name: "head", Quick: 20000, Run: headTable},
			{Name: "maxp", Quick: 10000, Run: maxpTable},
			{Name: "os2", Quick: 20000, Run: os2Table},
			{Name: "post", Quick: 10000, Run: postTable},
			{Name: "font", Quick: 3000, Run: font},
		},
	})
}
