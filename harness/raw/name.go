package raw

import (
	"errors"
	"fmt"
)

// NameRec is a record of the name table.
type NameRec struct {
	Platform, Encoding, Language, Name int
	Offset                             int
	Data                               []byte
}

// ParseName decodes a version 0 name table.
func ParseName(b []byte) ([]NameRec, error) {
	if len(b) < 6 {
		return nil, errors.New("name: too short")
	}
	if U16(b, 0) != 0 {
		return nil, fmt.Errorf("name: version %d", U16(b, 0))
	}
	n, st := U16(b, 2), U16(b, 4)
	if 6+12*n > len(b) || st < 6+12*n || st > len(b) {
		return nil, fmt.Errorf("name: bad storage offset %d for %d records in %d bytes", st, n, len(b))
	}
	var res []NameRec
	for i := 0; i < n; i++ {
		q := b[6+12*i:]
		r := NameRec{Platform: U16(q, 0), Encoding: U16(q, 2), Language: U16(q, 4), Name: U16(q, 6)}
		l, o := U16(q, 8), U16(q, 10)
		if st+o+l > len(b) {
			return nil, fmt.Errorf("name: record %d outside the table", i)
		}
		r.Offset = o
		r.Data = b[st+o : st+o+l]
		if i > 0 {
			p := res[i-1]
			a := [4]int{p.Platform, p.Encoding, p.Language, p.Name}
			c := [4]int{r.Platform, r.Encoding, r.Language, r.Name}
			less := false
			for k := range a {
				if a[k] != c[k] {
					less = a[k] < c[k]
					break
				}
			}
			if !less {
				return nil, fmt.Errorf("name: records %v and %v not sorted", a, c)
			}
		}
		res = append(res, r)
	}
	return res, nil
}

// ParsePostNames decodes the names in a post table, given the standard names.
func ParsePostNames(b []byte, std []string, n int) ([]string, error) {
	if len(b) < 32 {
		return nil, errors.New("post: too short")
	}
	switch v := U32(b, 0); v {
	case 0x10000:
		if len(b) != 32 {
			return nil, errors.New("post: excess data")
		}
		if n != 258 {
			return nil, errors.New("post: format 1 needs 258 glyphs")
		}
		return std, nil
	case 0x30000:
		if len(b) != 32 {
			return nil, errors.New("post: excess data")
		}
		return nil, nil
	case 0x20000:
		if len(b) < 34 || U16(b, 32) != n || len(b) < 34+2*n {
			return nil, errors.New("post: wrong glyph count")
		}
		var ss []string
		for p := 34 + 2*n; p < len(b); {
			l := int(b[p])
			if p+1+l > len(b) {
				return nil, errors.New("post: truncated string")
			}
			ss = append(ss, string(b[p+1:p+1+l]))
			p += 1 + l
		}
		res := make([]string, n)
		for i := range res {
			x := U16(b, 34+2*i)
			if x < 258 {
				res[i] = std[x]
			} else if x-258 < len(ss) {
				res[i] = ss[x-258]
			} else {
				return nil, fmt.Errorf("post: glyph %d: string %d missing", i, x-258)
			}
		}
		return res, nil
	default:
		return nil, fmt.Errorf("post: version %08x", v)
	}
}
