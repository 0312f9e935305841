package main

import (
	"bytes"
	"fmt"

	"verif/foreign"
	"verif/h"
	"verif/raw"
)

// where names the first table which differs.
func where(a, b []byte) string {
	fa, _ := raw.Check(a)
	fb, _ := raw.Check(b)
	if fa == nil || fb == nil {
		return "container"
	}
	for _, r := range fa.Recs {
		x, y := bytes.Clone(fa.Table(r.Tag)), bytes.Clone(fb.Table(r.Tag))
		if r.Tag == "head" && len(x) > 12 && len(y) > 12 {
			copy(x[8:], y[8:12])
		}
		if !bytes.Equal(x, y) {
			return r.Tag
		}
	}
	return "directory"
}

func diffFiles(a, b []byte) string {
	t := where(a, b)
	fa, _ := raw.Check(a)
	fb, _ := raw.Check(b)
	if fa == nil || fb == nil {
		return fmt.Sprintf("%d and %d bytes", len(a), len(b))
	}
	x, y := fa.Table(t), fb.Table(t)
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	s := max(0, i-4)
	return fmt.Sprintf("table %q, %d and %d bytes, position %d: %x and %x", t, len(x), len(y), i, h.Trunc(x[min(s, len(x)):]), h.Trunc(y[min(s, len(y)):]))
}

// foreignFiles reads files which the library has not written in this form.
func foreignFiles(c *h.Case) {
	rng := c.Rng
	b, n := foreign.Base(rng)
	if b == nil {
		return
	}
	foreignN(c, b, n, 1+rng.IntN(4))
}

func realfont(c *h.Case) {
	realFonts := foreign.Real()
	b := realFonts[c.Index%len(realFonts)]
	k := c.Rng.IntN(4)
	if c.Index < len(realFonts) {
		k = 0
	}
	foreignN(c, b, foreign.NumGlyphs(b), k)
}

func foreignN(c *h.Case, b []byte, n, changes int) {
	data, what := foreign.Mutate(c.Rng, b, n, changes)
	if data == nil {
		return
	}
	g, err := read(c, what, data)
	if err != nil {
		if err == errPanic {
			return
		}
		c.Count("rejected", 1)
		return
	}
	c.Count("accepted", 1)
	c.NonTrivial(data)
	c.Sample("%s", what)
	fixedPoint(c, what, g)
}

func main() {
	h.Main(&h.Check{
		ID:    "C01",
		Level: "exploration",
		Rule:  "random fonts are written, read back and compared field by field with their normal form; constructed, real and structurally mutated files which the reader accepts are put through two write/read cycles and all generations compared value by value and byte by byte; every font is written twice, on different dates (local time zones 26 hours apart). Non-trivial: distinct files accepted by the reader",
		Assumptions: []string{
			"normal form: times in whole seconds, italic angle in 1/65536 degree, flags made consistent (IsItalic if the italic angle is not 0 or IsOblique; IsBold if the subfamily name says so; IsRegular only without these), CapHeight/XHeight 0 replaced by the height of H/x, standard ligatures added to proportional fonts without GSUB, empty cvt/fpgm/prep/gasp tables dropped",
			"font dictionary numbers are compared to 9 significant digits, coordinates and widths to 1/65536",
		},
		Groups: []h.Group{
			{Name: "constructed", Quick: 3000, Run: constructed},
			{Name: "foreign", Quick: 9000, Run: foreignFiles},
			{Name: "real", Quick: 300, Run: realfont},
			{Name: "large", Quick: 6, Thorough: 60, Run: large},
		},
	})
}
