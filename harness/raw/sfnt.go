// Package raw contains independent readers and writers for sfnt containers
// and for the binary tables inside them.  Nothing in here uses the library
// under test.
package raw

import (
	"fmt"
	"math/rand/v2"
	"sort"
)

func U16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }
func I16(b []byte, i int) int { return int(int16(U16(b, i))) }
func U32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

func A16(b []byte, v ...int) []byte {
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func A32(b []byte, v ...uint32) []byte {
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

// Checksum is the sfnt checksum of the zero-padded data.
func Checksum(b []byte) uint32 {
	var s uint32
	for i, x := range b {
		s += uint32(x) << (24 - 8*(i%4))
	}
	return s
}

// Build assembles an sfnt file.
func Build(scaler uint32, tables map[string][]byte, rng *rand.Rand) []byte {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	order := append([]string(nil), tags...)
	if rng != nil {
		rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	n := len(tags)
	es := 0
	for 2<<es <= n {
		es++
	}
	out := A32(nil, scaler)
	out = A16(out, n, 16<<es, es, 16*n-(16<<es))
	pos := 12 + 16*n
	offs := map[string]int{}
	for _, t := range order {
		offs[t] = pos
		pos += (len(tables[t]) + 3) &^ 3
	}
	headOff := -1
	for _, t := range tags {
		d := append([]byte(nil), tables[t]...)
		if t == "head" && len(d) >= 12 {
			copy(d[8:12], []byte{0, 0, 0, 0})
			headOff = offs[t]
		}
		out = append(out, t...)
		out = A32(out, Checksum(d), uint32(offs[t]), uint32(len(d)))
	}
	for _, t := range order {
		out = append(out, tables[t]...)
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
	}
	if headOff >= 0 {
		copy(out[headOff+8:], []byte{0, 0, 0, 0})
		copy(out[headOff+8:], A32(nil, 0xB1B0AFBA-Checksum(out)))
	}
	return out
}

// Rec is an entry of the table directory.
type Rec struct {
	Tag              string
	Sum, Offset, Len uint32
}

// File is a parsed container.
type File struct {
	Scaler uint32
	Recs   []Rec
	Data   []byte
}

// Table returns the bytes of a table, nil if missing.
func (f *File) Table(tag string) []byte {
	for _, r := range f.Recs {
		if r.Tag == tag {
			return f.Data[r.Offset : r.Offset+r.Len : r.Offset+r.Len]
		}
	}
	return nil
}

func (f *File) Has(tag string) bool {
	for _, r := range f.Recs {
		if r.Tag == tag {
			return true
		}
	}
	return false
}

// Check parses a container and returns everything which violates the
// OpenType rules for the table directory.
func Check(data []byte) (f *File, problems []string) {
	bad := func(format string, a ...any) { problems = append(problems, fmt.Sprintf(format, a...)) }
	if len(data) < 12 {
		bad("file has only %d bytes", len(data))
		return nil, problems
	}
	f = &File{Scaler: U32(data, 0), Data: data}
	n := U16(data, 4)
	if len(data) < 12+16*n {
		bad("directory of %d tables does not fit into %d bytes", n, len(data))
		return nil, problems
	}
	es := 0
	for 2<<es <= n {
		es++
	}
	if n > 0 {
		if sr := U16(data, 6); sr != 16<<es {
			bad("searchRange %d for %d tables", sr, n)
		}
		if x := U16(data, 8); x != es {
			bad("entrySelector %d for %d tables", x, n)
		}
		if x := U16(data, 10); x != 16*n-(16<<es) {
			bad("rangeShift %d for %d tables", x, n)
		}
	}
	prev := ""
	type span struct{ a, b uint64 }
	var spans []span
	end := uint64(12 + 16*n)
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		r := Rec{Tag: string(data[p : p+4]), Sum: U32(data, p+4), Offset: U32(data, p+8), Len: U32(data, p+12)}
		if i > 0 && r.Tag <= prev {
			bad("tags not sorted: %q after %q", r.Tag, prev)
		}
		for j := 0; j < 4; j++ {
			if r.Tag[j] < 0x20 || r.Tag[j] > 0x7e {
				bad("tag %q not printable", r.Tag)
			}
		}
		prev = r.Tag
		a, b := uint64(r.Offset), uint64(r.Offset)+uint64(r.Len)
		if a%4 != 0 {
			bad("table %q at odd offset %d", r.Tag, a)
		}
		if a < uint64(12+16*n) || b > uint64(len(data)) {
			bad("table %q [%d,%d) outside file of %d bytes", r.Tag, a, b, len(data))
			return nil, problems
		}
		spans = append(spans, span{a, (b + 3) &^ 3})
		end = max(end, (b+3)&^3)
		d := data[a:b]
		if r.Tag == "head" && len(d) >= 12 {
			d = append([]byte(nil), d...)
			copy(d[8:], []byte{0, 0, 0, 0})
		}
		if s := Checksum(d); s != r.Sum {
			bad("table %q checksum %08x, directory says %08x", r.Tag, s, r.Sum)
		}
		for j := b; j < (b+3)&^3 && j < uint64(len(data)); j++ {
			if data[j] != 0 {
				bad("padding after table %q is not zero", r.Tag)
			}
		}
		f.Recs = append(f.Recs, r)
	}
	sort.Slice(spans, func(i, j int) bool {
		return spans[i].a < spans[j].a || spans[i].a == spans[j].a && spans[i].b < spans[j].b
	})
	for i := 1; i < len(spans); i++ {
		if spans[i].a < spans[i-1].b {
			bad("tables overlap at offset %d", spans[i].a)
		}
	}
	if uint64(len(data)) != end {
		bad("file has %d bytes, the padded tables end at %d", len(data), end)
	}
	if f.Has("head") && len(f.Table("head")) >= 12 {
		if s := Checksum(data); s != 0xB1B0AFBA {
			bad("file checksum is %08x", s)
		}
	}
	return f, problems
}

// Min describes a minimal font for third-party readers.
type Min struct {
	NumGlyphs  int
	UnitsPerEm int
	LocaFormat int
	CFF        bool
}

// Tables returns head, hhea, hmtx, maxp, post (format 3) and an empty cmap.
func (m *Min) Tables() map[string][]byte {
	head := A32(nil, 0x00010000, 0x00010000, 0, 0x5F0F3CF5)
	head = A16(head, 0, m.UnitsPerEm)
	head = append(head, make([]byte, 16)...)
	head = A16(head, 0, 0, 0, 0, 0, 8, 2, m.LocaFormat, 0)
	hhea := A16(A32(nil, 0x00010000), 800, -200, 0, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, 1)
	hmtx := A16(nil, 1000, 0)
	hmtx = append(hmtx, make([]byte, 2*(m.NumGlyphs-1))...)
	var maxp []byte
	if m.CFF {
		maxp = A16(A32(nil, 0x00005000), m.NumGlyphs)
	} else {
		maxp = append(A16(A32(nil, 0x00010000), m.NumGlyphs), make([]byte, 26)...)
	}
	post := append(A32(nil, 0x00030000), make([]byte, 28)...)
	var cmap []byte
	cmap = A16(cmap, 0, 1, 3, 1)
	cmap = A32(cmap, 12)
	cmap = A16(cmap, 4, 24, 0, 2, 2, 0, 0, 0xffff, 0, 0xffff, 1, 0)
	return map[string][]byte{"head": head, "hhea": hhea, "hmtx": hmtx, "maxp": maxp, "post": post, "cmap": cmap}
}
