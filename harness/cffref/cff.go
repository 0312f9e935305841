// Package cffref is a minimal independent reader and writer for CFF data,
// written from Adobe Technical Note 5176.
package cffref

import (
	"fmt"
	"math"
	"strconv"
)

// Num is a DICT operand.
type Num struct {
	IsInt bool
	Int   int
	F     float64
	Text  string // the digits of a real number
}

func (n Num) String() string {
	if n.IsInt {
		return strconv.Itoa(n.Int)
	}
	return n.Text
}

// Dict maps operators (12 x = 1200+x) to operands.
type Dict map[int][]Num

// DICT operators.
const (
	OpVersion            = 0
	OpNotice             = 1
	OpFullName           = 2
	OpFamilyName         = 3
	OpWeight             = 4
	OpFontBBox           = 5
	OpCopyright          = 1200
	OpIsFixedPitch       = 1201
	OpItalicAngle        = 1202
	OpUnderlinePosition  = 1203
	OpUnderlineThickness = 1204
	OpPaintType          = 1205
	OpCharstringType     = 1206
	OpFontMatrix         = 1207
	OpCharset            = 15
	OpEncoding           = 16
	OpCharStrings        = 17
	OpPrivate            = 18
	OpROS                = 1230
	OpCIDCount           = 1234
	OpFDArray            = 1236
	OpFDSelect           = 1237
	OpBlueValues         = 6
	OpOtherBlues         = 7
	OpStdHW              = 10
	OpStdVW              = 11
	OpSubrs              = 19
	OpDefaultWidthX      = 20
	OpNominalWidthX      = 21
	OpBlueScale          = 1209
	OpBlueShift          = 1210
	OpBlueFuzz           = 1211
	OpForceBold          = 1214
)

// FD is a font DICT with its private dictionary.
type FD struct {
	Dict    Dict
	Private Dict
	Subrs   [][]byte
}

// Font is a parsed CFF font.
type Font struct {
	Name        string
	Top         Dict
	Strings     []string
	GSubrs      [][]byte
	CharStrings [][]byte
	IsCID       bool
	Charset     []int // SID or CID per glyph
	CharsetFmt  int   // 0..2, or -1-offset for predefined
	Encoding    [256]int
	EncodingFmt int
	FDs         []FD
	FDSelect    []int
	FDSelectFmt int
	FirstOp     int // first operator of the top DICT
	Extent      int // end of the last structure which was read
	OffSize     int
}

type reader struct {
	data []byte
	pos  int
	max  int
}

type parseError string

func bad(format string, args ...any) { panic(parseError(fmt.Sprintf(format, args...))) }

func (r *reader) u8() int {
	if r.pos < 0 || r.pos >= len(r.data) {
		bad("read past the end at %d", r.pos)
	}
	x := int(r.data[r.pos])
	r.pos++
	if r.pos > r.max {
		r.max = r.pos
	}
	return x
}
func (r *reader) u16() int { a := r.u8(); return a<<8 | r.u8() }
func (r *reader) uN(n int) int {
	x := 0
	for i := 0; i < n; i++ {
		x = x<<8 | r.u8()
	}
	return x
}
func (r *reader) bytes(n int) []byte {
	if n < 0 || r.pos < 0 || r.pos+n > len(r.data) {
		bad("read of %d bytes at %d past the end", n, r.pos)
	}
	b := r.data[r.pos : r.pos+n]
	r.pos += n
	if r.pos > r.max {
		r.max = r.pos
	}
	return b
}

func (r *reader) index() [][]byte {
	n := r.u16()
	if n == 0 {
		return nil
	}
	os := r.u8()
	if os < 1 || os > 4 {
		bad("INDEX offSize %d", os)
	}
	offs := make([]int, n+1)
	for i := range offs {
		offs[i] = r.uN(os)
		if i == 0 && offs[0] != 1 {
			bad("first INDEX offset is %d", offs[0])
		}
		if i > 0 && offs[i] < offs[i-1] {
			bad("INDEX offsets decrease")
		}
	}
	res := make([][]byte, n)
	for i := range res {
		res[i] = r.bytes(offs[i+1] - offs[i])
	}
	return res
}

// ParseDict decodes DICT data.
func ParseDict(data []byte) (d Dict, err error) {
	defer func() {
		if x := recover(); x != nil {
			if pe, ok := x.(parseError); ok {
				err = fmt.Errorf("%s", string(pe))
				return
			}
			panic(x)
		}
	}()
	r := &reader{data: data}
	d = Dict{}
	var ops []Num
	for r.pos < len(data) {
		b := r.u8()
		switch {
		case b <= 21:
			op := b
			if b == 12 {
				op = 1200 + r.u8()
			}
			if _, dup := d[op]; dup {
				bad("duplicate operator %d", op)
			}
			d[op] = ops
			ops = nil
		case b == 28:
			ops = append(ops, Num{IsInt: true, Int: int(int16(r.u16()))})
		case b == 29:
			ops = append(ops, Num{IsInt: true, Int: int(int32(r.uN(4)))})
		case b == 30:
			s := ""
		loop:
			for {
				x := r.u8()
				for _, n := range []int{x >> 4, x & 15} {
					switch {
					case n < 10:
						s += string(rune('0' + n))
					case n == 10:
						s += "."
					case n == 11:
						s += "E"
					case n == 12:
						s += "E-"
					case n == 14:
						s += "-"
					case n == 15:
						break loop
					default:
						bad("reserved nibble")
					}
				}
			}
			f, e := strconv.ParseFloat(s, 64)
			if e != nil && !math.IsInf(f, 0) {
				bad("malformed real %q", s)
			}
			ops = append(ops, Num{F: f, Text: s})
		case b >= 32 && b <= 246:
			ops = append(ops, Num{IsInt: true, Int: b - 139})
		case b >= 247 && b <= 250:
			ops = append(ops, Num{IsInt: true, Int: (b-247)*256 + r.u8() + 108})
		case b >= 251 && b <= 254:
			ops = append(ops, Num{IsInt: true, Int: -(b-251)*256 - r.u8() - 108})
		default:
			bad("reserved DICT byte %d", b)
		}
		if len(ops) > 48 {
			bad("more than 48 operands")
		}
	}
	if len(ops) > 0 {
		bad("operands without operator")
	}
	for k := range ops {
		if ops[k].IsInt {
			ops[k].F = float64(ops[k].Int)
		}
	}
	return d, nil
}

// Val returns the numeric value.
func (n Num) Val() float64 {
	if n.IsInt {
		return float64(n.Int)
	}
	return n.F
}

// Float returns the value of a one-operand operator.
func (d Dict) Float(op int, def float64) float64 {
	v, ok := d[op]
	if !ok {
		return def
	}
	if len(v) != 1 {
		bad("operator %d has %d operands", op, len(v))
	}
	return v[0].Val()
}

// Int returns the value of a one-operand integer operator.
func (d Dict) Int(op int, def int) int {
	v, ok := d[op]
	if !ok {
		return def
	}
	if len(v) != 1 || !v[0].IsInt {
		bad("operator %d has operands %v", op, v)
	}
	return v[0].Int
}

// SID returns the string for sid.
func (f *Font) SID(sid int) (string, bool) {
	if sid >= 0 && sid < len(StdStrings) {
		return StdStrings[sid], true
	}
	sid -= len(StdStrings)
	if sid >= 0 && sid < len(f.Strings) {
		return f.Strings[sid], true
	}
	return "", false
}

// Str returns the string value of a top dict operator.
func (f *Font) Str(op int) string {
	v, ok := f.Top[op]
	if !ok {
		return ""
	}
	if len(v) != 1 || !v[0].IsInt {
		return fmt.Sprintf("?%v", v)
	}
	s, ok := f.SID(v[0].Int)
	if !ok {
		return fmt.Sprintf("?SID%d", v[0].Int)
	}
	return s
}

// GlyphName returns the name of a glyph in a simple font.
func (f *Font) GlyphName(gid int) string {
	s, ok := f.SID(f.Charset[gid])
	if !ok {
		return fmt.Sprintf("?SID%d", f.Charset[gid])
	}
	return s
}

func expand(rr [][2]int) []int {
	var res []int
	for _, r := range rr {
		for i := r[0]; i <= r[1]; i++ {
			res = append(res, i)
		}
	}
	return res
}

// PredefCharset returns the SIDs of a predefined charset (0, 1, 2).
func PredefCharset(i int) []int {
	switch i {
	case 0:
		return expand([][2]int{{0, 228}})
	case 1:
		return expand(expertRanges)
	default:
		return expand(expertSubsetRanges)
	}
}

// ExpertEncoding maps codes to SIDs.
func ExpertEncoding() map[int]int {
	res := map[int]int{}
	for _, x := range expertEnc {
		res[x[0]] = x[1]
	}
	return res
}

// Parse reads a CFF font.  It is strict: anything which does not follow the
// specification is an error.
func Parse(data []byte) (f *Font, err error) {
	defer func() {
		if x := recover(); x != nil {
			if pe, ok := x.(parseError); ok {
				err = fmt.Errorf("%s", string(pe))
				return
			}
			panic(x)
		}
	}()
	r := &reader{data: data}
	f = &Font{}
	if r.u8() != 1 {
		bad("major version")
	}
	r.u8()
	hdr := r.u8()
	f.OffSize = r.u8()
	if hdr < 4 || f.OffSize < 1 || f.OffSize > 4 {
		bad("header %d %d", hdr, f.OffSize)
	}
	r.pos = hdr
	names := r.index()
	if len(names) != 1 {
		bad("%d fonts", len(names))
	}
	f.Name = string(names[0])
	tops := r.index()
	if len(tops) != 1 {
		bad("%d top dicts", len(tops))
	}
	for _, s := range r.index() {
		f.Strings = append(f.Strings, string(s))
	}
	f.GSubrs = r.index()
	mk := func(b []byte) Dict {
		d, e := ParseDict(b)
		if e != nil {
			bad("%v", e)
		}
		return d
	}
	f.Top = mk(tops[0])
	f.FirstOp = firstOp(tops[0])
	r.pos = f.Top.Int(OpCharStrings, -1)
	f.CharStrings = r.index()
	n := len(f.CharStrings)
	if n == 0 {
		bad("no charstrings")
	}
	_, f.IsCID = f.Top[OpROS]
	private := func(d Dict) (Dict, [][]byte) {
		v := d[OpPrivate]
		if len(v) != 2 || !v[0].IsInt || !v[1].IsInt {
			bad("Private %v", v)
		}
		r.pos = v[1].Int
		pd := mk(r.bytes(v[0].Int))
		var subrs [][]byte
		if o, ok := pd[OpSubrs]; ok {
			if len(o) != 1 || !o[0].IsInt {
				bad("Subrs %v", o)
			}
			r.pos = v[1].Int + o[0].Int
			subrs = r.index()
		}
		return pd, subrs
	}
	if f.IsCID {
		r.pos = f.Top.Int(OpFDArray, -1)
		for _, b := range r.index() {
			d := mk(b)
			pd, subrs := private(d)
			f.FDs = append(f.FDs, FD{d, pd, subrs})
		}
		r.pos = f.Top.Int(OpFDSelect, -1)
		f.FDSelectFmt = r.u8()
		f.FDSelect = make([]int, n)
		switch f.FDSelectFmt {
		case 0:
			for i := range f.FDSelect {
				f.FDSelect[i] = r.u8()
			}
		case 3:
			m := r.u16()
			first := r.u16()
			if first != 0 || m == 0 {
				bad("FDSelect first %d, %d ranges", first, m)
			}
			for i := 0; i < m; i++ {
				fd := r.u8()
				next := r.u16()
				if next <= first || next > n {
					bad("FDSelect range %d..%d", first, next)
				}
				for k := first; k < next; k++ {
					f.FDSelect[k] = fd
				}
				first = next
			}
			if first != n {
				bad("FDSelect sentinel %d for %d glyphs", first, n)
			}
		default:
			bad("FDSelect format %d", f.FDSelectFmt)
		}
		for i, fd := range f.FDSelect {
			if fd >= len(f.FDs) {
				bad("FDSelect of glyph %d is %d of %d", i, fd, len(f.FDs))
			}
		}
	} else {
		pd, subrs := private(f.Top)
		f.FDs = []FD{{f.Top, pd, subrs}}
		f.FDSelect = make([]int, n)
	}

	co := f.Top.Int(OpCharset, 0)
	if co <= 2 {
		if f.IsCID && n > 1 {
			bad("predefined charset %d in a CID-keyed font", co)
		}
		cs := PredefCharset(co)
		if n > len(cs) {
			bad("%d glyphs with predefined charset %d", n, co)
		}
		f.Charset = cs[:n]
		f.CharsetFmt = -1 - co
	} else {
		r.pos = co
		f.CharsetFmt = r.u8()
		f.Charset = []int{0}
		switch f.CharsetFmt {
		case 0:
			for len(f.Charset) < n {
				f.Charset = append(f.Charset, r.u16())
			}
		case 1, 2:
			for len(f.Charset) < n {
				first := r.u16()
				left := r.uN(f.CharsetFmt)
				if first+left > 65535 {
					bad("charset range %d+%d", first, left)
				}
				for k := 0; k <= left; k++ {
					f.Charset = append(f.Charset, first+k)
				}
			}
			if len(f.Charset) != n {
				bad("charset covers %d of %d glyphs", len(f.Charset), n)
			}
		default:
			bad("charset format %d", f.CharsetFmt)
		}
	}

	if !f.IsCID {
		rev := map[int]int{}
		for g, s := range f.Charset {
			if _, dup := rev[s]; !dup {
				rev[s] = g
			}
		}
		eo := f.Top.Int(OpEncoding, 0)
		f.EncodingFmt = -1 - eo
		switch {
		case eo == 0:
			for code, sid := range StdEncoding {
				if g, ok := rev[sid]; ok {
					f.Encoding[code] = g
				}
			}
		case eo == 1:
			for code, sid := range ExpertEncoding() {
				if g, ok := rev[sid]; ok {
					f.Encoding[code] = g
				}
			}
		default:
			r.pos = eo
			ff := r.u8()
			f.EncodingFmt = ff
			seen := map[int]bool{}
			set := func(code, g int) {
				if seen[code] {
					bad("code %d encoded twice", code)
				}
				seen[code] = true
				if g >= n {
					bad("encoded glyph %d of %d", g, n)
				}
				f.Encoding[code] = g
			}
			switch ff & 127 {
			case 0:
				m := r.u8()
				for g := 1; g <= m; g++ {
					set(r.u8(), g)
				}
			case 1:
				m := r.u8()
				g := 1
				for i := 0; i < m; i++ {
					first := r.u8()
					left := r.u8()
					for k := 0; k <= left; k++ {
						if first+k > 255 {
							bad("encoding range")
						}
						set(first+k, g)
						g++
					}
				}
			default:
				bad("encoding format %d", ff)
			}
			if ff&128 != 0 {
				m := r.u8()
				for i := 0; i < m; i++ {
					code := r.u8()
					sid := r.u16()
					g, ok := rev[sid]
					if !ok {
						bad("supplement for unknown SID %d", sid)
					}
					set(code, g)
				}
			}
		}
	}
	f.Extent = r.max
	return f, nil
}

// StdEncoding maps codes to SIDs (Adobe standard encoding).
var StdEncoding = func() map[int]int {
	res := map[int]int{}
	put := func(code, sid, n int) {
		for i := 0; i < n; i++ {
			res[code+i] = sid + i
		}
	}
	put(32, 1, 95)
	put(161, 96, 15)
	put(177, 111, 4)
	put(182, 115, 8)
	put(191, 123, 1)
	put(193, 124, 8)
	put(202, 132, 2)
	put(205, 134, 4)
	put(225, 138, 1)
	put(227, 139, 1)
	put(232, 140, 4)
	put(241, 144, 1)
	put(245, 145, 1)
	put(248, 146, 4)
	return res
}()

// ----- writer -----

// Entry is an operator with its operands; operands are int or float64 or Raw.
type Entry struct {
	Op   int
	Args []any
}

// Raw is pre-encoded operand bytes.
type Raw []byte

// Int5 is an int which is always encoded in 5 bytes.
type Int5 int

// EncReal encodes the text of a real number as nibbles.
func EncReal(s string) []byte {
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			nib = append(nib, c-'0')
		case c == '.':
			nib = append(nib, 10)
		case c == '-':
			nib = append(nib, 14)
		case c == 'e' || c == 'E':
			if i+1 < len(s) && s[i+1] == '-' {
				nib = append(nib, 12)
				i++
			} else {
				nib = append(nib, 11)
				if i+1 < len(s) && s[i+1] == '+' {
					i++
				}
			}
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	res := []byte{30}
	for i := 0; i < len(nib); i += 2 {
		res = append(res, nib[i]<<4|nib[i+1])
	}
	return res
}

// EncInt encodes an integer operand.
func EncInt(x int) []byte {
	switch {
	case x >= -107 && x <= 107:
		return []byte{byte(x + 139)}
	case x >= 108 && x <= 1131:
		x -= 108
		return []byte{byte(247 + x>>8), byte(x)}
	case x >= -1131 && x <= -108:
		x = -x - 108
		return []byte{byte(251 + x>>8), byte(x)}
	case x >= -32768 && x <= 32767:
		return []byte{28, byte(x >> 8), byte(x)}
	default:
		return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
	}
}

// EncDict encodes a DICT.
func EncDict(ee []Entry) []byte {
	var b []byte
	for _, e := range ee {
		for _, a := range e.Args {
			switch a := a.(type) {
			case int:
				b = append(b, EncInt(a)...)
			case Int5:
				b = append(b, 29, byte(a>>24), byte(a>>16), byte(a>>8), byte(a))
			case float64:
				b = append(b, EncReal(strconv.FormatFloat(a, 'g', -1, 64))...)
			case Raw:
				b = append(b, a...)
			default:
				panic("bad operand")
			}
		}
		if e.Op >= 1200 {
			b = append(b, 12, byte(e.Op-1200))
		} else {
			b = append(b, byte(e.Op))
		}
	}
	return b
}

// EncIndex encodes an INDEX; offSize 0 means as small as possible.
func EncIndex(items [][]byte, offSize int) []byte {
	if len(items) == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, x := range items {
		total += len(x)
	}
	need := 1
	for total >= 1<<(8*need) {
		need++
	}
	if offSize < need {
		offSize = need
	}
	b := []byte{byte(len(items) >> 8), byte(len(items)), byte(offSize)}
	put := func(o int) {
		for k := offSize - 1; k >= 0; k-- {
			b = append(b, byte(o>>(8*k)))
		}
	}
	o := 1
	put(o)
	for _, x := range items {
		o += len(x)
		put(o)
	}
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

// BuildFD describes a font DICT to be written.
type BuildFD struct {
	Dict    []Entry
	Private []Entry
	Subrs   [][]byte
}

// Build describes a CFF font to be written.
type Build struct {
	Name        string
	Top         []Entry // without offsets
	Strings     []string
	GSubrs      [][]byte
	CharStrings [][]byte
	Charset     []byte // nil: use CharsetID
	CharsetID   int
	Encoding    []byte // nil: use EncodingID
	EncodingID  int
	CID         bool
	FDs         []BuildFD // simple: exactly one
	FDSelect    []byte
	OffSize     int // for all INDEXes
	Pad         int // unused bytes between structures
}

// Bytes returns the encoded font.
func (w *Build) Bytes() []byte {
	layout := func(offs map[string]int) ([]byte, map[string]int) {
		no := map[string]int{}
		var b []byte
		b = append(b, 1, 0, 4, 4)
		b = append(b, EncIndex([][]byte{[]byte(w.Name)}, w.OffSize)...)
		top := append([]Entry{}, w.Top...)
		if w.Charset != nil {
			top = append(top, Entry{OpCharset, []any{Int5(offs["charset"])}})
		} else if w.CharsetID != 0 {
			top = append(top, Entry{OpCharset, []any{w.CharsetID}})
		}
		if w.Encoding != nil {
			top = append(top, Entry{OpEncoding, []any{Int5(offs["encoding"])}})
		} else if w.EncodingID != 0 {
			top = append(top, Entry{OpEncoding, []any{w.EncodingID}})
		}
		top = append(top, Entry{OpCharStrings, []any{Int5(offs["charstrings"])}})
		if w.CID {
			top = append(top, Entry{OpFDArray, []any{Int5(offs["fdarray"])}}, Entry{OpFDSelect, []any{Int5(offs["fdselect"])}})
		} else {
			top = append(top, Entry{OpPrivate, []any{Int5(offs["psize0"]), Int5(offs["private0"])}})
		}
		b = append(b, EncIndex([][]byte{EncDict(top)}, w.OffSize)...)
		var ss [][]byte
		for _, s := range w.Strings {
			ss = append(ss, []byte(s))
		}
		b = append(b, EncIndex(ss, w.OffSize)...)
		b = append(b, EncIndex(w.GSubrs, w.OffSize)...)
		mark := func(name string) {
			b = append(b, make([]byte, w.Pad)...)
			no[name] = len(b)
		}
		if w.Charset != nil {
			mark("charset")
			b = append(b, w.Charset...)
		}
		if w.Encoding != nil {
			mark("encoding")
			b = append(b, w.Encoding...)
		}
		if w.CID {
			mark("fdselect")
			b = append(b, w.FDSelect...)
			mark("fdarray")
			var dd [][]byte
			for i, fd := range w.FDs {
				d := append([]Entry{}, fd.Dict...)
				d = append(d, Entry{OpPrivate, []any{Int5(offs[fmt.Sprint("psize", i)]), Int5(offs[fmt.Sprint("private", i)])}})
				dd = append(dd, EncDict(d))
			}
			b = append(b, EncIndex(dd, w.OffSize)...)
		}
		mark("charstrings")
		b = append(b, EncIndex(w.CharStrings, w.OffSize)...)
		for i, fd := range w.FDs {
			p := append([]Entry{}, fd.Private...)
			if fd.Subrs != nil {
				p = append(p, Entry{OpSubrs, []any{Int5(offs[fmt.Sprint("psize", i)])}})
			}
			pb := EncDict(p)
			mark(fmt.Sprint("private", i))
			no[fmt.Sprint("psize", i)] = len(pb)
			b = append(b, pb...)
			if fd.Subrs != nil {
				b = append(b, EncIndex(fd.Subrs, w.OffSize)...)
			}
		}
		return b, no
	}
	_, offs := layout(map[string]int{})
	b, _ := layout(offs)
	return b
}

// firstOp returns the first operator of a well-formed DICT.
func firstOp(data []byte) int {
	for i := 0; i < len(data); i++ {
		switch b := int(data[i]); {
		case b == 12 && i+1 < len(data):
			return 1200 + int(data[i+1])
		case b <= 21:
			return b
		case b == 28:
			i += 2
		case b == 29:
			i += 4
		case b == 30:
			for i++; i < len(data) && data[i]&15 != 15 && data[i]>>4 != 15; i++ {
			}
		case b >= 247:
			i++
		}
	}
	return -1
}
