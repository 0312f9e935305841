package raw

import (
	"errors"
	"fmt"
)

// Point is a point of a TrueType contour.
type Point struct {
	X, Y int
	On   bool
}

// Component is one component of a composite glyph.
type Component struct {
	Flags, GID int
	Args       []byte
}

// Glyph is a decoded glyph description.
type Glyph struct {
	NumContours  int
	BBox         [4]int // LLx, LLy, URx, URy
	Contours     [][]Point
	Instructions []byte
	Components   []Component
	Body         []byte // the bytes after the header, without padding
	Used         int    // bytes used, the rest is padding
}

// ParseGlyph decodes the bytes of one glyph, nil for an empty glyph.
func ParseGlyph(d []byte) (*Glyph, error) {
	if len(d) == 0 {
		return nil, nil
	}
	if len(d) < 10 {
		return nil, errors.New("short header")
	}
	g := &Glyph{NumContours: I16(d, 0)}
	for i := range g.BBox {
		g.BBox[i] = I16(d, 2+2*i)
	}
	p := 10
	need := func(n int) error {
		if p+n > len(d) {
			return fmt.Errorf("need %d bytes at %d of %d", n, p, len(d))
		}
		return nil
	}
	if g.NumContours < 0 {
		flags := 0
		for {
			if err := need(4); err != nil {
				return nil, err
			}
			flags = U16(d, p)
			c := Component{Flags: flags, GID: U16(d, p+2)}
			p += 4
			n := 2
			if flags&1 != 0 {
				n = 4
			}
			switch {
			case flags&8 != 0:
				n += 2
			case flags&0x40 != 0:
				n += 4
			case flags&0x80 != 0:
				n += 8
			}
			if err := need(n); err != nil {
				return nil, err
			}
			c.Args = d[p : p+n]
			p += n
			g.Components = append(g.Components, c)
			if flags&0x20 == 0 {
				break
			}
		}
		if flags&0x100 != 0 {
			if err := need(2); err != nil {
				return nil, err
			}
			n := U16(d, p)
			p += 2
			if err := need(n); err != nil {
				return nil, err
			}
			g.Instructions = d[p : p+n]
			p += n
		}
		g.Body, g.Used = d[10:p], p
		return g, nil
	}
	if g.NumContours == 0 && len(d) < 12 {
		g.Body, g.Used = nil, 10
		return g, nil
	}
	if err := need(2*g.NumContours + 2); err != nil {
		return nil, err
	}
	ends := make([]int, g.NumContours)
	np := 0
	for i := range ends {
		ends[i] = U16(d, p) + 1
		if ends[i] < np {
			return nil, errors.New("contour ends decrease")
		}
		np = ends[i]
		p += 2
	}
	n := U16(d, p)
	p += 2
	if err := need(n); err != nil {
		return nil, err
	}
	g.Instructions = d[p : p+n]
	p += n
	var flags []byte
	for len(flags) < np {
		if err := need(1); err != nil {
			return nil, err
		}
		f := d[p]
		p++
		r := 1
		if f&8 != 0 {
			if err := need(1); err != nil {
				return nil, err
			}
			r += int(d[p])
			p++
		}
		for ; r > 0; r-- {
			flags = append(flags, f)
		}
	}
	if len(flags) > np {
		return nil, errors.New("flags overrun")
	}
	pts := make([]Point, np)
	for axis := 0; axis < 2; axis++ {
		short, same := byte(2<<axis), byte(16<<axis)
		v := 0
		for i, f := range flags {
			switch {
			case f&short != 0:
				if err := need(1); err != nil {
					return nil, err
				}
				if f&same != 0 {
					v += int(d[p])
				} else {
					v -= int(d[p])
				}
				p++
			case f&same == 0:
				if err := need(2); err != nil {
					return nil, err
				}
				v += I16(d, p)
				p += 2
			}
			if axis == 0 {
				pts[i].X = v
			} else {
				pts[i].Y = v
			}
			pts[i].On = f&1 != 0
		}
	}
	start := 0
	for _, e := range ends {
		g.Contours = append(g.Contours, pts[start:e])
		start = e
	}
	g.Body, g.Used = d[10:p], p
	return g, nil
}

// ParseLoca decodes a loca table.
func ParseLoca(loca []byte, format, glyfLen int) ([]int, error) {
	var offs []int
	switch format {
	case 0:
		if len(loca)%2 != 0 {
			return nil, errors.New("odd loca length")
		}
		for i := 0; i < len(loca); i += 2 {
			offs = append(offs, 2*U16(loca, i))
		}
	case 1:
		if len(loca)%4 != 0 {
			return nil, errors.New("odd loca length")
		}
		for i := 0; i < len(loca); i += 4 {
			offs = append(offs, int(U32(loca, i)))
		}
	default:
		return nil, fmt.Errorf("loca format %d", format)
	}
	for i, o := range offs {
		if i > 0 && o < offs[i-1] {
			return nil, fmt.Errorf("loca offset %d decreases: %d < %d", i, o, offs[i-1])
		}
		if o > glyfLen {
			return nil, fmt.Errorf("loca offset %d is %d, glyf table has %d bytes", i, o, glyfLen)
		}
	}
	return offs, nil
}

// Seg is a path segment ('M', 'L', 'Q', 'C').
type Seg struct {
	Op  byte
	Arg [3][2]float64
}

// Segments converts contours to path segments, starting each contour at its
// first on-curve point.
func Segments(cc [][]Point) []Seg {
	var res []Seg
	for _, c := range cc {
		n := len(c)
		if n == 0 {
			continue
		}
		// insert the implied points
		type pt struct {
			x, y float64
			on   bool
		}
		var full []pt
		for i, p := range c {
			full = append(full, pt{float64(p.X), float64(p.Y), p.On})
			q := c[(i+1)%n]
			if !p.On && !q.On {
				full = append(full, pt{float64(p.X+q.X) / 2, float64(p.Y+q.Y) / 2, true})
			}
		}
		s := -1
		for i, p := range full {
			if p.on {
				s = i
				break
			}
		}
		if s < 0 {
			continue
		}
		m := len(full)
		at := func(i int) pt { return full[(s+i)%m] }
		res = append(res, Seg{Op: 'M', Arg: [3][2]float64{{at(0).x, at(0).y}}})
		for i := 1; i <= m; i++ {
			p := at(i)
			if p.on {
				// a line back to the start closes the contour
				res = append(res, Seg{Op: 'L', Arg: [3][2]float64{{p.x, p.y}}})
				continue
			}
			q := at(i + 1)
			res = append(res, Seg{Op: 'Q', Arg: [3][2]float64{{p.x, p.y}, {q.x, q.y}}})
			i++
		}
	}
	return res
}
