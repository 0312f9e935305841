// Package foreign generates font files which differ in structure from the
// files written by the library.
package foreign

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/kern"

	"verif/fgen"
	"verif/raw"
)

var realFonts [][]byte

// Real returns the installed real fonts.
func Real() [][]byte {
	if realFonts != nil {
		return realFonts
	}
	realFonts = append(realFonts, goregular.TTF, gobolditalic.TTF, gomono.TTF, gosmallcaps.TTF)
	matches, _ := filepath.Glob("/root/go/pkg/mod/golang.org/x/image@*/font/testdata/*.[ot]tf")
	sort.Strings(matches)
	for _, m := range matches {
		if b, err := os.ReadFile(m); err == nil && len(b) < 200000 {
			realFonts = append(realFonts, b)
		}
	}
	return realFonts
}

// TableMap splits a file.
func TableMap(data []byte) (uint32, map[string][]byte) {
	f, _ := raw.Check(data)
	if f == nil {
		return 0, nil
	}
	m := map[string][]byte{}
	for _, r := range f.Recs {
		m[r.Tag] = bytes.Clone(f.Table(r.Tag))
	}
	return f.Scaler, m
}

// Base returns the file of a random font.
func Base(rng *rand.Rand) ([]byte, int) {
	kind := rng.IntN(fgen.NumKinds)
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: 1 + rng.IntN(fgen.Pick(rng, 3, 12, 40)), Layout: rng.IntN(3) == 0, XYOnly: rng.IntN(2) == 0,
		IntWidths: rng.IntN(2) == 0, Matrix: rng.IntN(2) == 0, NoCmap: rng.IntN(10) == 0})
	if f.CreationTime.IsZero() {
		f.ModificationTime = f.ModificationTime.AddDate(2000, 0, 0)
	}
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		return nil, 0
	}
	return buf.Bytes(), f.NumGlyphs()
}

func put16(b []byte, pos, v int) {
	if pos >= 0 && pos+2 <= len(b) {
		b[pos], b[pos+1] = byte(v>>8), byte(v)
	}
}

func words(rng *rand.Rand) int {
	return fgen.Pick(rng, 0, 1, 2, 3, 0xFFFF, 0x7FFF, 0x8000, rng.IntN(65536), rng.IntN(65536), rng.IntN(256), rng.IntN(20))
}

// Change applies one structural change to the tables.
func Change(rng *rand.Rand, m map[string][]byte, n int) string {
	if len(m) == 0 {
		return "-"
	}
	switch k := rng.IntN(21); k {
	case 19: // number of glyphs
		k := fgen.Pick(rng, 0, 0, 1, rng.IntN(n+1))
		put16(m["maxp"], 4, k)
		if l := m["loca"]; len(l) > 0 && len(m["head"]) == 54 {
			m["loca"] = l[:min(len(l), (k+1)*(2<<(m["head"][51]&1)))]
		}
		if rng.IntN(2) == 0 {
			delete(m, "hmtx")
			delete(m, "hhea")
		}
		return "number of glyphs"
	case 20: // blank glyphs
		if l := m["loca"]; len(l) > 0 {
			m["loca"] = make([]byte, len(l))
			if rng.IntN(2) == 0 {
				m["glyf"] = []byte{}
			}
		}
		return "blank glyphs"
	case 0, 1, 2: // drop a table
		var tt []string
		for t := range m {
			tt = append(tt, t)
		}
		sort.Strings(tt)
		t := fgen.Pick(rng, tt...)
		if rng.IntN(3) > 0 {
			t = fgen.Pick(rng, "OS/2", "name", "post", "cmap", "hmtx", "hhea", "GSUB", "GPOS", "GDEF", "head", "maxp")
		}
		delete(m, t)
		if (t == "hmtx" || t == "hhea") && rng.IntN(2) == 0 {
			delete(m, "hmtx")
			delete(m, "hhea")
		}
		return "drop " + t
	case 3: // drop several tables
		for _, t := range []string{"OS/2", "name", "post", "cmap", "hmtx", "hhea", "head", "maxp", "GSUB", "GPOS"} {
			if rng.IntN(2) == 0 {
				delete(m, t)
			}
		}
		if _, ok := m["CFF "]; ok && rng.IntN(2) == 0 {
			for t := range m {
				if t != "CFF " {
					delete(m, t)
				}
			}
		}
		return "drop many"
	case 4, 5: // change fields
		t := fgen.Pick(rng, "head", "hhea", "OS/2", "post", "maxp", "hmtx", "name")
		for i := 1 + rng.IntN(3); i > 0; i-- {
			if len(m[t]) > 2 {
				put16(m[t], 2*rng.IntN(len(m[t])/2), words(rng))
			}
		}
		return "fields of " + t
	case 6: // name table
		m["name"] = nameTable(rng)
		return "name"
	case 7: // post table
		m["post"] = postTable(rng, n)
		return "post"
	case 8: // kern table
		delete(m, "GPOS")
		m["kern"] = kernTable(rng, n)
		return "kern"
	case 9: // CFF data
		if _, ok := m["CFF "]; ok {
			m["CFF "] = cffTable(rng, n)
			return "CFF"
		}
		return "-"
	case 10: // OS/2 length and version
		if o := m["OS/2"]; len(o) >= 78 {
			put16(o, 0, rng.IntN(6))
			if rng.IntN(2) == 0 {
				m["OS/2"] = o[:fgen.Pick(rng, 68, 78, 78, 86, len(o))]
			}
		}
		return "OS/2"
	case 11: // cmap
		m["cmap"] = cmapTable(rng, n)
		return "cmap"
	case 12: // bytes of any table
		var tt []string
		for t, b := range m {
			if len(b) > 0 {
				tt = append(tt, t)
			}
		}
		sort.Strings(tt)
		if len(tt) == 0 {
			return "-"
		}
		t := fgen.Pick(rng, tt...)
		b := m[t]
		for i := 1 + rng.IntN(4); i > 0; i-- {
			b[rng.IntN(len(b))] = fgen.Pick(rng, 0, 1, 255, 128, byte(rng.Uint32()))
		}
		return "bytes of " + t
	case 13: // layout bytes
		t := fgen.Pick(rng, "GSUB", "GPOS", "GDEF")
		if b := m[t]; len(b) > 2 {
			for i := 1 + rng.IntN(4); i > 0; i-- {
				put16(b, 2*rng.IntN(len(b)/2), fgen.Pick(rng, rng.IntN(len(b)), words(rng), rng.IntN(n+1), rng.IntN(8)))
			}
		}
		return "words of " + t
	case 14: // hmtx shape
		if hh := m["hhea"]; len(hh) == 36 {
			nh := raw.U16(hh, 34)
			k := rng.IntN(nh + 2)
			put16(hh, 34, k)
		}
		return "numberOfHMetrics"
	case 15: // style bits
		put16(m["OS/2"], 62, rng.IntN(1024))
		put16(m["head"], 44, rng.IntN(4))
		if rng.IntN(2) == 0 {
			put16(m["OS/2"], 4, fgen.Pick(rng, 0, 1, 250, 400, 500, 600, 700, 800, 900, 950, 1000, 1001, 65535))
			put16(m["OS/2"], 6, rng.IntN(12))
		}
		return "style"
	case 16: // version
		if b := m["head"]; len(b) > 8 {
			put16(b, 4, fgen.Pick(rng, 0, 1, 65535, rng.IntN(65536)))
			put16(b, 6, fgen.Pick(rng, 0, 1, 65535, 65534, 65503, 32768, rng.IntN(65536)))
		}
		if rng.IntN(2) == 0 {
			delete(m, "name")
		}
		return "version"
	case 17: // dates
		if b := m["head"]; len(b) >= 36 {
			for i := 20; i < 36; i += 2 {
				if rng.IntN(2) == 0 {
					put16(b, i, words(rng))
				}
			}
		}
		return "dates"
	default: // extra tables
		m[fgen.Pick(rng, "cvt ", "fpgm", "prep", "gasp", "DSIG", "kern", "VDMX", "CFF2", "glyf")] = fgen.Bytes(rng, rng.IntN(20))
		return "extra"
	}
}

var families = []string{"Test", "Bold", "Test Bold Italic", "", "Größe", "日本", "Regular", "Semi Bold"}

func nameTable(rng *rand.Rand) []byte {
	var recs []byte
	var store []byte
	cnt := 0
	type rec struct{ p, e, l, n int }
	var rr []rec
	add := func(p, e, l, n int, s string) {
		for _, r := range rr {
			if r == (rec{p, e, l, n}) {
				return
			}
		}
		rr = append(rr, rec{p, e, l, n})
		var b []byte
		if p == 1 {
			for _, r := range s {
				b = append(b, byte(r))
			}
		} else {
			for _, r := range s {
				if r > 0xFFFF {
					r = 0xFFFD
				}
				b = raw.A16(b, int(r))
			}
		}
		recs = raw.A16(recs, p, e, l, n, len(b), len(store))
		store = append(store, b...)
		cnt++
	}
	lang := fgen.Pick(rng, 0x409, 0x409, 0x407, 0x809, 0x411, rng.IntN(0x500))
	mode := rng.IntN(4)
	id := func(p, e, l int) {
		add(p, e, l, 1, fgen.Pick(rng, families...))
		add(p, e, l, 2, fgen.Pick(rng, "Regular", "Bold", "Italic", "Bold Italic", "Semi Bold", "Extra Bold", "Condensed Bold", "Oblique", "bold", ""))
		add(p, e, l, 5, fgen.Pick(rng, "Version 1.234", "Version 1.2345", "1.5", "Version 70000.5", "Version 65535.9996", "1.", "x", "Version 1e10", "Version 99999999999999999999.0", "Version 0.0005", "2.000;hello", "Version 65535.9999999", "1"))
		for _, n := range []int{0, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 25} {
			if rng.IntN(2) == 0 {
				add(p, e, l, n, fgen.UniText(rng))
			}
		}
	}
	if mode != 1 {
		id(1, 0, fgen.Pick(rng, 0, 0, 2, rng.IntN(150)))
	}
	if mode != 0 {
		id(3, fgen.Pick(rng, 1, 1, 1, 10, 0), lang)
		if rng.IntN(3) == 0 {
			id(3, 1, rng.IntN(0x1000))
		}
	}
	out := raw.A16(nil, 0, cnt, 6+len(recs))
	out = append(out, recs...)
	return append(out, store...)
}

func postTable(rng *rand.Rand, n int) []byte {
	v := fgen.Pick[uint32](rng, 0x10000, 0x20000, 0x20000, 0x20000, 0x30000, 0x25000, 0x40000)
	out := raw.A32(nil, v, fgen.Pick(rng, 0, rng.Uint32(), 0xFFF40000), uint32(words(rng))<<16|uint32(words(rng)), uint32(rng.IntN(2)), 0, 0, 0, 0)
	if v != 0x20000 {
		return append(out, fgen.Bytes(rng, fgen.Pick(rng, 0, 0, n, 10))...)
	}
	m := fgen.Pick(rng, n, n, n, n, n+1, max(0, n-1), 0, 1, rng.IntN(2*n+1))
	out = raw.A16(out, m)
	var store []byte
	k := 0
	for i := 0; i < m; i++ {
		x := rng.IntN(258)
		if rng.IntN(2) == 0 {
			x = 258 + k
			k++
			s := fgen.Pick(rng, "A", "", ".notdef", "x.alt", fmt.Sprintf("n%d", i), "A", "\xff\xfe", string(fgen.Bytes(rng, rng.IntN(256))))
			store = append(append(store, byte(len(s))), s...)
		}
		out = raw.A16(out, x)
	}
	return append(out, store...)
}

func kernTable(rng *rand.Rand, n int) []byte {
	m := kern.Info{}
	for i := rng.IntN(fgen.Pick(rng, 3, 50, 300)); i > 0; i-- {
		m[glyph.Pair{Left: glyph.ID(rng.IntN(n)), Right: glyph.ID(rng.IntN(n))}] = funit.Int16(words(rng))
	}
	if rng.IntN(6) == 0 { // dense
		for i := 0; i < 90; i++ {
			for j := 0; j < 90; j++ {
				m[glyph.Pair{Left: glyph.ID(i), Right: glyph.ID(j)}] = funit.Int16(1 + i + j)
			}
		}
	}
	if rng.IntN(30) == 0 { // many pairs, several subtables
		out := raw.A16(nil, 0, 4)
		for k := 0; k < 4; k++ {
			np := 8000
			out = raw.A16(out, 0, 14+6*np, 1, np, 6<<12, 12, 6*(np-1<<12))
			for i := 0; i < np; i++ {
				out = raw.A16(out, k*3000+i/100, (i%100)*7, 1+i%500)
			}
		}
		return out
	}
	return m.Encode()
}

func cmapTable(rng *rand.Rand, n int) []byte {
	t, _ := fgen.CmapTable(rng, n)
	b := t.Encode()
	if rng.IntN(3) == 0 {
		for i := 1 + rng.IntN(3); i > 0; i-- {
			put16(b, 2*rng.IntN(len(b)/2), words(rng))
		}
	}
	if rng.IntN(4) == 0 { // trimmed table
		first, cnt := rng.IntN(200), 1+rng.IntN(40)
		b = raw.A16(nil, 0, 1, fgen.Pick(rng, 1, 3, 0), fgen.Pick(rng, 0, 1, 3))
		b = raw.A32(b, 12)
		b = raw.A16(b, 6, 10+2*cnt, 0, first, cnt)
		for i := 0; i < cnt; i++ {
			b = raw.A16(b, rng.IntN(n+1))
		}
	}
	return b
}

func cffTable(rng *rand.Rand, n int) []byte {
	if rng.IntN(2) == 0 && n > 0 && n < 3000 {
		return RawCFF(rng, n)
	}
	f := fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: n, CID: rng.IntN(2) == 0, Wild: rng.IntN(3) == 0, IntWidths: rng.IntN(3) == 0})
	f.Version = fgen.Pick(rng, "1.234", "70000.5", "Version 2.5", "", "1.0005", "99999999999.5", "65535.9999")
	if rng.IntN(2) == 0 {
		s := fgen.Pick(rng, "\xff\xfe", "caf\xe9", "a\x00b", "\xed\xa0\x80", "日本", "ﬁ\xc3")
		switch rng.IntN(5) {
		case 0:
			f.FamilyName = s
		case 1:
			f.Copyright = s
		case 2:
			f.Notice = s
		case 3:
			f.FullName = s
		case 4:
			f.Weight = s
		}
	}
	if rng.IntN(2) == 0 {
		f.Weight = fgen.Pick(rng, "Bold", "Black", "Regular", "SemiBold", "Extra Bold", "Light", "Thin", "Medium", "Ultra", "", "550")
	}
	buf := &bytes.Buffer{}
	if err := f.Write(buf); err != nil {
		return nil
	}
	return buf.Bytes()
}

// Mutate applies structural changes to the tables of a file.
func Mutate(rng *rand.Rand, b []byte, n, changes int) ([]byte, string) {
	scaler, m := TableMap(b)
	what := "file"
	for i := 0; i < changes; i++ {
		what += ", " + Change(rng, m, n)
	}
	if rng.IntN(8) == 0 && scaler == 0x00010000 {
		scaler = 0x74727565
	}
	if len(m) == 0 {
		return nil, what
	}
	data := raw.Build(scaler, m, rng)
	if rng.IntN(20) == 0 {
		i := rng.IntN(min(len(data), 300))
		data[i] ^= 1 << rng.IntN(8)
	}
	return data, what
}

// File returns a random file with random structural changes.
func File(rng *rand.Rand) ([]byte, string) {
	b, n := Base(rng)
	if b == nil {
		return nil, ""
	}
	return Mutate(rng, b, n, 1+rng.IntN(4))
}

// NumGlyphs returns the number of glyphs according to the "maxp" table.
func NumGlyphs(b []byte) int {
	f, _ := raw.Check(b)
	return raw.U16(f.Table("maxp"), 4)
}
