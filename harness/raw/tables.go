package raw

import "fmt"

// Hhea is a decoded "hhea" table.
type Hhea struct {
	Ascent, Descent, LineGap         int
	AdvanceWidthMax                  int
	MinLSB, MinRSB, XMaxExtent       int
	CaretRise, CaretRun, CaretOffset int
	NumHMetrics                      int
}

// ParseHhea decodes and checks a "hhea" table.
func ParseHhea(b []byte) (*Hhea, error) {
	if len(b) != 36 {
		return nil, fmt.Errorf("hhea length %d", len(b))
	}
	if U32(b, 0) != 0x00010000 {
		return nil, fmt.Errorf("hhea version %08x", U32(b, 0))
	}
	for i := 24; i < 34; i += 2 {
		if U16(b, i) != 0 {
			return nil, fmt.Errorf("hhea reserved field at %d is %d", i, U16(b, i))
		}
	}
	return &Hhea{
		Ascent: I16(b, 4), Descent: I16(b, 6), LineGap: I16(b, 8),
		AdvanceWidthMax: U16(b, 10),
		MinLSB:          I16(b, 12), MinRSB: I16(b, 14), XMaxExtent: I16(b, 16),
		CaretRise: I16(b, 18), CaretRun: I16(b, 20), CaretOffset: I16(b, 22),
		NumHMetrics: U16(b, 34),
	}, nil
}

// ParseHmtx decodes a "hmtx" table.
func ParseHmtx(b []byte, numH, n int) (aw, lsb []int, err error) {
	if numH < 1 || numH > n {
		return nil, nil, fmt.Errorf("numberOfHMetrics=%d for %d glyphs", numH, n)
	}
	if want := 4*numH + 2*(n-numH); len(b) != want {
		return nil, nil, fmt.Errorf("hmtx length %d, want %d", len(b), want)
	}
	for i := 0; i < n; i++ {
		if i < numH {
			aw = append(aw, U16(b, 4*i))
			lsb = append(lsb, I16(b, 4*i+2))
		} else {
			aw = append(aw, aw[numH-1])
			lsb = append(lsb, I16(b, 4*numH+2*(i-numH)))
		}
	}
	return
}

// Head is a decoded "head" table.
type Head struct {
	Revision               uint32
	Flags                  int
	UnitsPerEm             int
	Created, Modified      int64
	XMin, YMin, XMax, YMax int
	MacStyle, LowestRec    int
	DirHint, LocaFormat    int
}

// ParseHead decodes and checks a "head" table.
func ParseHead(b []byte) (*Head, error) {
	if len(b) != 54 {
		return nil, fmt.Errorf("head length %d", len(b))
	}
	if U32(b, 0) != 0x00010000 || U32(b, 12) != 0x5F0F3CF5 || U16(b, 52) != 0 {
		return nil, fmt.Errorf("bad constants in head table")
	}
	i64 := func(i int) int64 { return int64(uint64(U32(b, i))<<32 | uint64(U32(b, i+4))) }
	return &Head{
		Revision: U32(b, 4), Flags: U16(b, 16), UnitsPerEm: U16(b, 18), Created: i64(20), Modified: i64(28),
		XMin: I16(b, 36), YMin: I16(b, 38), XMax: I16(b, 40), YMax: I16(b, 42), MacStyle: U16(b, 44), LowestRec: U16(b, 46),
		DirHint: I16(b, 48), LocaFormat: I16(b, 50),
	}, nil
}

// OS2 is a decoded "OS/2" table.
type OS2 struct {
	Version, AvgWidth, Weight, Width, Type int
	SubSup                                 [10]int // subscript, superscript, strikeout
	FamilyClass                            int
	Panose                                 [10]byte
	Unicode                                [4]uint32
	Vendor                                 string
	Selection, First, Last                 int
	Ascender, Descender, LineGap           int
	WinAscent, WinDescent                  int
	CodePage                               [2]uint32
	XHeight, CapHeight                     int
	DefaultChar, BreakChar, MaxContext     int
}

// ParseOS2 decodes an "OS/2" table (versions 2 to 4).
func ParseOS2(b []byte) (*OS2, error) {
	if len(b) != 96 {
		return nil, fmt.Errorf("OS/2 length %d", len(b))
	}
	o := &OS2{Version: U16(b, 0), AvgWidth: I16(b, 2), Weight: U16(b, 4), Width: U16(b, 6), Type: U16(b, 8), FamilyClass: I16(b, 30)}
	for i := range o.SubSup {
		o.SubSup[i] = I16(b, 10+2*i)
	}
	copy(o.Panose[:], b[32:42])
	for i := range o.Unicode {
		o.Unicode[i] = U32(b, 42+4*i)
	}
	o.Vendor = string(b[58:62])
	o.Selection, o.First, o.Last = U16(b, 62), U16(b, 64), U16(b, 66)
	o.Ascender, o.Descender, o.LineGap = I16(b, 68), I16(b, 70), I16(b, 72)
	o.WinAscent, o.WinDescent = U16(b, 74), U16(b, 76)
	o.CodePage = [2]uint32{U32(b, 78), U32(b, 82)}
	o.XHeight, o.CapHeight = I16(b, 86), I16(b, 88)
	o.DefaultChar, o.BreakChar, o.MaxContext = U16(b, 90), U16(b, 92), U16(b, 94)
	if o.Version < 2 || o.Version > 4 {
		return nil, fmt.Errorf("OS/2 version %d", o.Version)
	}
	return o, nil
}

// Post is the header of a "post" table.
type Post struct {
	Version      uint32
	ItalicAngle  int32
	UPos, UThick int
	Fixed        uint32
}

// ParsePost decodes the header of a "post" table.
func ParsePost(b []byte) (*Post, error) {
	if len(b) < 32 {
		return nil, fmt.Errorf("post length %d", len(b))
	}
	return &Post{Version: U32(b, 0), ItalicAngle: int32(U32(b, 4)), UPos: I16(b, 8), UThick: I16(b, 10), Fixed: U32(b, 12)}, nil
}
