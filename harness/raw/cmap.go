package raw

import (
	"fmt"
	"math/bits"
)

// CmapRecord is an encoding record of a "cmap" table.
type CmapRecord struct {
	Platform, Encoding, Offset int
	Format, Length, Language   int
	Data                       []byte
}

// ParseCmap reads the header of a cmap table and checks that it follows the
// specification.
func ParseCmap(b []byte) ([]CmapRecord, error) {
	if len(b) < 4 || U16(b, 0) != 0 {
		return nil, fmt.Errorf("bad cmap header")
	}
	n := U16(b, 2)
	if len(b) < 4+8*n {
		return nil, fmt.Errorf("cmap header truncated")
	}
	var res []CmapRecord
	for i := 0; i < n; i++ {
		r := CmapRecord{Platform: U16(b, 4+8*i), Encoding: U16(b, 6+8*i), Offset: int(U32(b, 8+8*i))}
		if r.Offset < 4+8*n || r.Offset+6 > len(b) {
			return nil, fmt.Errorf("record %d: bad offset %d", i, r.Offset)
		}
		d := b[r.Offset:]
		r.Format = U16(d, 0)
		switch r.Format {
		case 0, 2, 4, 6:
			r.Length, r.Language = U16(d, 2), U16(d, 4)
		case 8, 10, 12, 13:
			if len(d) < 12 {
				return nil, fmt.Errorf("record %d: truncated", i)
			}
			r.Length, r.Language = int(U32(d, 4)), int(U32(d, 8))
		case 14:
			r.Length = int(U32(d, 2))
		default:
			return nil, fmt.Errorf("record %d: format %d", i, r.Format)
		}
		if r.Length > len(d) {
			return nil, fmt.Errorf("record %d: length %d exceeds table", i, r.Length)
		}
		r.Data = d[:r.Length]
		if i > 0 {
			p := res[i-1]
			a := [3]int{p.Platform, p.Encoding, p.Language}
			q := [3]int{r.Platform, r.Encoding, r.Language}
			if q[0] < a[0] || q[0] == a[0] && (q[1] < a[1] || q[1] == a[1] && q[2] <= a[2]) {
				return nil, fmt.Errorf("records %d and %d not in order: %v %v", i-1, i, a, q)
			}
		}
		res = append(res, r)
	}
	return res, nil
}

// Format4 is a parsed format 4 subtable.
type Format4 struct {
	d []byte
	n int
}

// ParseFormat4 checks the structure of a format 4 subtable.
func ParseFormat4(d []byte, strict bool) (*Format4, error) {
	if len(d) < 24 || U16(d, 0) != 4 {
		return nil, fmt.Errorf("format 4: too short")
	}
	if U16(d, 2) != len(d) {
		return nil, fmt.Errorf("format 4: length %d, have %d bytes", U16(d, 2), len(d))
	}
	if U16(d, 6)%2 != 0 || U16(d, 6) == 0 {
		return nil, fmt.Errorf("format 4: segCountX2=%d", U16(d, 6))
	}
	n := U16(d, 6) / 2
	if len(d) < 16+8*n {
		return nil, fmt.Errorf("format 4: %d segments do not fit into %d bytes", n, len(d))
	}
	f := &Format4{d, n}
	if strict {
		e := bits.Len(uint(n)) - 1
		if U16(d, 8) != 2<<e || U16(d, 10) != e || U16(d, 12) != 2*n-2<<e {
			return nil, fmt.Errorf("format 4: search fields %d %d %d for %d segments", U16(d, 8), U16(d, 10), U16(d, 12), n)
		}
		if U16(d, 14+2*n) != 0 {
			return nil, fmt.Errorf("format 4: reservedPad not zero")
		}
	}
	prev := -1
	for i := 0; i < n; i++ {
		s, e := f.seg(i)
		if s > e || s <= prev {
			return nil, fmt.Errorf("format 4: segment %d is %04x-%04x after %04x", i, s, e, prev)
		}
		prev = e
	}
	if prev != 0xFFFF {
		return nil, fmt.Errorf("format 4: last segment ends at %04x", prev)
	}
	if s, _ := f.seg(n - 1); s != 0xFFFF && strict {
		return nil, fmt.Errorf("format 4: last segment starts at %04x", s)
	}
	return f, nil
}

func (f *Format4) seg(i int) (start, end int) {
	return U16(f.d, 16+2*f.n+2*i), U16(f.d, 14+2*i)
}

// Lookup finds the glyph for a 16-bit code, as described in the specification.
func (f *Format4) Lookup(c int) (int, error) {
	for i := 0; i < f.n; i++ {
		s, e := f.seg(i)
		if e < c {
			continue
		}
		if s > c {
			return 0, nil
		}
		delta := U16(f.d, 16+4*f.n+2*i)
		pos := 16 + 6*f.n + 2*i
		ro := U16(f.d, pos)
		if ro == 0 {
			return (c + delta) & 0xFFFF, nil
		}
		p := pos + ro + 2*(c-s)
		if p+2 > len(f.d) {
			return 0, fmt.Errorf("format 4: glyph index for code %04x outside the table", c)
		}
		g := U16(f.d, p)
		if g != 0 {
			g = (g + delta) & 0xFFFF
		}
		return g, nil
	}
	return 0, nil
}

// Map returns all 65536 glyph indices.
func (f *Format4) Map() ([]uint16, error) {
	res := make([]uint16, 65536)
	for i := 0; i < f.n; i++ {
		s, e := f.seg(i)
		delta := U16(f.d, 16+4*f.n+2*i)
		pos := 16 + 6*f.n + 2*i
		ro := U16(f.d, pos)
		for c := s; c <= e; c++ {
			if ro == 0 {
				res[c] = uint16(c + delta)
				continue
			}
			p := pos + ro + 2*(c-s)
			if p+2 > len(f.d) {
				return nil, fmt.Errorf("format 4: glyph index for code %04x outside the table", c)
			}
			if g := U16(f.d, p); g != 0 {
				res[c] = uint16(g + delta)
			}
		}
	}
	return res, nil
}

// ParseFormat12 decodes a format 12 subtable.
func ParseFormat12(d []byte) (map[int]int, error) {
	if len(d) < 16 || U16(d, 0) != 12 || U16(d, 2) != 0 {
		return nil, fmt.Errorf("format 12: bad header")
	}
	if int(U32(d, 4)) != len(d) {
		return nil, fmt.Errorf("format 12: length %d, have %d", U32(d, 4), len(d))
	}
	n := int(U32(d, 12))
	if len(d) != 16+12*n {
		return nil, fmt.Errorf("format 12: %d groups in %d bytes", n, len(d))
	}
	res := map[int]int{}
	prev := -1
	for i := 0; i < n; i++ {
		s, e, g := int(U32(d, 16+12*i)), int(U32(d, 20+12*i)), int(U32(d, 24+12*i))
		if s > e || s <= prev {
			return nil, fmt.Errorf("format 12: group %d is %x-%x after %x", i, s, e, prev)
		}
		prev = e
		for c := s; c <= e; c++ {
			if x := g + c - s; x > 0xFFFF {
				return nil, fmt.Errorf("format 12: glyph %x", x)
			} else if x != 0 {
				res[c] = x
			}
		}
	}
	return res, nil
}
