package main

import (
	"bytes"
	"math/rand/v2"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/parser"

	"verif/cffref"
	"verif/fgen"
	"verif/foreign"
	"verif/raw"
	"verif/t2"
)

var _ = parser.New

// ----- valid inputs -----

func seedFont(rng *rand.Rand) input {
	n := fgen.Pick(rng, 0, 0, 0, rng.IntN(400))
	switch rng.IntN(12) {
	case 0:
		return input{a: fgen.Pick(rng, foreign.Real()...), n: n}
	case 1, 2, 3, 4:
		b, _ := foreign.File(rng)
		return input{a: b, n: n}
	}
	b, _ := foreign.Base(rng)
	return input{a: b, n: n}
}

func seedTable(tag string) func(rng *rand.Rand) input {
	return func(rng *rand.Rand) input {
		for i := 0; i < 20; i++ {
			in := seedFont(rng)
			_, m := foreign.TableMap(in.a)
			if b, ok := m[tag]; ok {
				return input{a: b, n: rng.IntN(100)}
			}
		}
		return input{a: fgen.Bytes(rng, rng.IntN(100))}
	}
}

// cffPrograms returns a font with random charstrings and subroutines.
func cffPrograms(rng *rand.Rand) []byte {
	loc := t2.NewSubrTable(rng, rng.IntN(8))
	glob := t2.NewSubrTable(rng, rng.IntN(8))
	w := &cffref.Build{Name: "T", OffSize: rng.IntN(5)}
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 8, 8, 40))
	for i := 0; i < n; i++ {
		g := &t2.Gen{Rng: rng}
		var code []byte
		func() {
			defer func() { recover() }()
			code = t2.Join(t2.Subroutinize(rng, g.Program(), loc, glob, 0))
		}()
		if code == nil {
			code = []byte{14}
		}
		w.CharStrings = append(w.CharStrings, code)
	}
	w.GSubrs = glob.Data
	fd := cffref.BuildFD{Subrs: loc.Data}
	w.FDs = []cffref.BuildFD{fd}
	w.Charset = foreign.Charset(rng, n)
	if rng.IntN(2) == 0 {
		w.CID = true
		w.Top = append(w.Top, cffref.Entry{Op: cffref.OpROS, Args: []any{391, 391, 0}})
		w.Strings = []string{"Adobe"}
		for i := rng.IntN(4); i > 0; i-- {
			w.FDs = append(w.FDs, cffref.BuildFD{Subrs: loc.Data})
		}
		w.FDSelect = foreign.FDSelect(rng, n, len(w.FDs))
	} else if rng.IntN(2) == 0 {
		w.Encoding = foreign.Encoding(rng, n)
	}
	return w.Bytes()
}

func seedCFF(rng *rand.Rand) input {
	if rng.IntN(3) == 0 {
		return input{a: cffPrograms(rng)}
	}
	if rng.IntN(2) == 0 {
		return seedTable("CFF ")(rng)
	}
	f := fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: 1 + rng.IntN(fgen.Pick(rng, 3, 20, 300)), CID: rng.IntN(2) == 0, Wild: rng.IntN(3) == 0})
	buf := &bytes.Buffer{}
	if f.Write(buf) != nil {
		return input{a: cffPrograms(rng)}
	}
	return input{a: buf.Bytes()}
}

// seedCmapSub returns a cmap subtable.
func seedCmapSub(rng *rand.Rand) input {
	for i := 0; i < 20; i++ {
		if rng.IntN(3) == 0 {
			m := fgen.CMap(rng, 1+rng.IntN(300))
			if s := fgen.Subtable(rng, m); s != nil {
				return input{a: s.Encode(0)}
			}
		}
		in := seedTable("cmap")(rng)
		recs, err := raw.ParseCmap(in.a)
		if err != nil || len(recs) == 0 {
			continue
		}
		off := raw.U32(in.a, 4+8*rng.IntN(len(recs))+4)
		if int(off) < len(in.a) {
			return input{a: in.a[off:]}
		}
	}
	return input{a: fgen.Bytes(rng, rng.IntN(100))}
}

func seedGlyf(rng *rand.Rand) input {
	for i := 0; i < 20; i++ {
		in := seedFont(rng)
		_, m := foreign.TableMap(in.a)
		if m["glyf"] == nil || len(m["head"]) < 54 {
			continue
		}
		return input{a: m["glyf"], b: m["loca"], n: int(m["head"][51])}
	}
	return input{a: fgen.Bytes(rng, rng.IntN(100)), b: make([]byte, 8)}
}

func seedSimple(rng *rand.Rand) input {
	nc := 1 + rng.IntN(5)
	cc := fgen.Contours(rng, nc, fgen.Pick(rng, 3, 10, 100), fgen.Pick(rng, 10, 300, 20000))
	var instr []byte
	if rng.IntN(2) == 0 {
		instr = fgen.Bytes(rng, rng.IntN(20))
	}
	b := fgen.EncodeSimple(rng, cc, instr)
	if len(b) < 10 {
		return input{n: 0}
	}
	return input{a: b[10:], n: raw.I16(b, 0)}
}

func someGids(rng *rand.Rand) []glyph.ID {
	var res []glyph.ID
	x := rng.IntN(20)
	for i := 1 + rng.IntN(fgen.Pick(rng, 3, 20)); i > 0; i-- {
		res = append(res, glyph.ID(x))
		x += 1 + rng.IntN(fgen.Pick(rng, 1, 1, 5, 900))
	}
	return res
}

func seedGtab(gsub bool) func(rng *rand.Rand) input {
	return func(rng *rand.Rand) (in input) {
		defer func() {
			if r := recover(); r != nil {
				in = input{a: fgen.Bytes(rng, rng.IntN(100))}
			}
		}()
		gg := &fgen.Gtab{Rng: rng, Gids: someGids(rng), MarkSets: rng.IntN(3), AllowEmptyCov: rng.IntN(2) == 0, BadLookups: rng.IntN(2) == 0, Wide: rng.IntN(3) == 0, ZeroAnchors: rng.IntN(2) == 0}
		kinds := fgen.GposKinds
		if gsub {
			kinds = fgen.GsubKinds
		}
		if rng.IntN(2) == 0 {
			k := rng.IntN(len(kinds))
			kinds = kinds[k : k+1]
		}
		info := gg.Info(1+rng.IntN(4), kinds, fgen.Tags)
		return input{a: info.Encode()}
	}
}

func seedGdef(rng *rand.Rand) input {
	gg := &fgen.Gtab{Rng: rng, Gids: someGids(rng), MarkSets: rng.IntN(4)}
	for i := 0; i < 20; i++ {
		if t := gg.Gdef(); t != nil {
			return input{a: t.Encode()}
		}
	}
	return input{a: raw.A16(nil, 1, 0, 0, 0, 0, 0)}
}

func prefixed(rng *rand.Rand, b []byte) input {
	if rng.IntN(3) == 0 {
		n := rng.IntN(30)
		return input{a: append(fgen.Bytes(rng, n), b...), n: n}
	}
	return input{a: b}
}

func seedCov(rng *rand.Rand) input {
	gg := &fgen.Gtab{Rng: rng, Gids: someGids(rng)}
	return prefixed(rng, gg.Cov().Encode())
}

func seedClass(rng *rand.Rand) input {
	gg := &fgen.Gtab{Rng: rng, Gids: someGids(rng)}
	return prefixed(rng, gg.Class(1+rng.IntN(5)).Append(nil))
}

func seedHmtx(rng *rand.Rand) input {
	for i := 0; i < 20; i++ {
		in := seedFont(rng)
		_, m := foreign.TableMap(in.a)
		if m["hhea"] != nil {
			return input{a: m["hhea"], b: m["hmtx"]}
		}
	}
	return input{a: make([]byte, 36), b: make([]byte, 8)}
}

func seedKern(rng *rand.Rand) input {
	info := kern.Info{}
	for i := rng.IntN(30); i > 0; i-- {
		info[glyph.Pair{Left: glyph.ID(rng.IntN(100)), Right: glyph.ID(rng.IntN(100))}] = funit.Int16(rng.IntN(200) - 100)
	}
	return input{a: info.Encode()}
}

// ----- expensive inputs -----

// logn returns a random number up to n.
func logn(rng *rand.Rand, n int) int {
	if n <= 1 {
		return n
	}
	switch rng.IntN(3) {
	case 0:
		return n
	case 1:
		return n - rng.IntN(min(n, 4))
	}
	x := 1
	for x < n && rng.IntN(4) > 0 {
		x *= 2 + rng.IntN(4)
	}
	return min(x, n)
}

func rep16(b []byte, v, n int) []byte {
	for ; n > 0; n-- {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

func repeat(b []byte, n int) []byte { return bytes.Repeat(b, n) }

// bigCov is a coverage table with many glyphs, which is short if possible.
func bigCov(rng *rand.Rand) []byte {
	switch rng.IntN(4) {
	case 0:
		n := logn(rng, 2000)
		b := raw.A16(nil, 1, n)
		for i := 0; i < n; i++ {
			b = raw.A16(b, i)
		}
		return b
	case 1:
		return raw.A16(nil, 2, 2, 0, 0x7FFF, 0, 0x8000, 0xFFFF, 0x8000)
	}
	return raw.A16(nil, 2, 1, 0, logn(rng, 0xFFFF), 0)
}

func bigClass(rng *rand.Rand) []byte {
	if rng.IntN(3) == 0 {
		return raw.A16(nil, 2, 2, 0, 0x7FFF, 1, 0x8000, 0xFFFF, rng.IntN(65536))
	}
	return raw.A16(nil, 2, 1, 0, logn(rng, 0xFFFF), fgen.Pick(rng, 1, 2, 0xFFFF))
}

func hostileCov(rng *rand.Rand) (input, string) {
	if rng.IntN(3) == 0 {
		n := logn(rng, 65535)
		b := raw.A16(nil, 2, n)
		for i := 0; i < n; i++ {
			b = raw.A16(b, i, i, i)
		}
		return input{a: b}, "one range per glyph"
	}
	if rng.IntN(3) == 0 {
		b := raw.A16(nil, 1, 65535)
		return input{a: rep16(b, rng.IntN(3), 65535)}, "repeated glyphs"
	}
	return prefixed(rng, bigCov(rng)), "big coverage table"
}

func hostileClass(rng *rand.Rand) (input, string) {
	switch rng.IntN(4) {
	case 0:
		n := logn(rng, 65535)
		b := raw.A16(nil, 2, n)
		for i := 0; i < n; i++ {
			b = raw.A16(b, i, i, i)
		}
		return input{a: b}, "one range per glyph"
	case 1:
		n := logn(rng, 65535)
		return input{a: rep16(raw.A16(nil, 1, 0, n), 0xFFFF, n)}, "format 1"
	case 2:
		return input{a: rep16(raw.A16(nil, 2, 65535), 0, 3*65535)}, "many empty ranges"
	}
	return prefixed(rng, bigClass(rng)), "big class definition table"
}

func hostileGdef(rng *rand.Rand) (input, string) {
	n := logn(rng, 65535)
	cl := bigClass(rng)
	b := raw.A16(nil, 1, 2, 14, 0, 0, fgen.Pick(rng, 14, 0), 14+len(cl))
	b = append(b, cl...)
	base := len(b)
	b = raw.A16(b, 1, n)
	cov := bigCov(rng)
	for i := 0; i < n; i++ {
		b = raw.A32(b, uint32(4+4*n))
	}
	_ = base
	return input{a: append(b, cov...)}, "many mark glyph sets share one coverage table"
}

func hostileName(rng *rand.Rand) (input, string) {
	n := logn(rng, 5400)
	l := logn(rng, 0xFFFF)
	b := raw.A16(nil, rng.IntN(2), n, 6+12*n+2)
	plat := rng.IntN(3)
	for i := 0; i < n; i++ {
		p := plat
		if p == 2 {
			p = rng.IntN(2)
		}
		off := 0
		if rng.IntN(3) == 0 {
			off = rng.IntN(20)
		}
		if p == 0 {
			b = raw.A16(b, 3, fgen.Pick(rng, 0, 1, 10), 0x409+i%8*0x400, i/8, l&^1, off)
		} else {
			b = raw.A16(b, 1, 0, i%20, i/20, l, off)
		}
	}
	b = raw.A16(b, 0)
	return input{a: append(b, repeat([]byte{0, byte(65 + rng.IntN(20))}, 0x8010)...)}, "many records share one string"
}

func hostilePost(rng *rand.Rand) (input, string) {
	n := logn(rng, 65535)
	b := make([]byte, 32)
	copy(b, []byte{0, 2, 0, 0})
	b = raw.A16(b, n)
	k := rng.IntN(4)
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			b = raw.A16(b, 258)
		case 1:
			b = raw.A16(b, 258+i)
		case 2:
			b = raw.A16(b, 257)
		default:
			b = raw.A16(b, rng.IntN(65536))
		}
	}
	m := logn(rng, 65535)
	s := append([]byte{255}, bytes.Repeat([]byte{'x'}, 255)...)
	if rng.IntN(2) == 0 {
		s = []byte{fgen.Pick(rng, byte(0), 1), 'a'}[:1+rng.IntN(2)]
	}
	return input{a: append(b, bytes.Repeat(s, m)...)}, "many names"
}

func hostileKern(rng *rand.Rand) (input, string) {
	n := logn(rng, 65535)
	b := raw.A16(nil, 0, n)
	for i := 0; i < n && len(b) < 3*mb; i++ {
		k := logn(rng, 10)
		if rng.IntN(100) == 0 {
			k = logn(rng, 65535)
		}
		b = raw.A16(b, 0, (14+6*k)&0xFFFF, fgen.Pick(rng, 1, 1, 9, 2, 0), k, 0, 0, 0)
		for j := 0; j < k; j++ {
			b = raw.A16(b, i, j, 1)
		}
	}
	return input{a: b}, "many subtables"
}

func hostileHeader(rng *rand.Rand) (input, string) {
	n := fgen.Pick(rng, 280, 281, 300, 4095, 65535, 279)
	b := raw.A32(nil, 0x00010000)
	b = raw.A16(b, n, 0, 0, 0)
	if rng.IntN(3) > 0 {
		n = fgen.Pick(rng, 280, 279, 1, 100)
	}
	step, size := fgen.Pick(rng, 0, 4, 4), fgen.Pick(rng, 0, 4, 4)
	for i := 0; i < n; i++ {
		b = append(b, 'a', byte('a'+i%26), byte('a'+i/26%26), byte('a'+i/676%26))
		b = raw.A32(b, 0, uint32(12+16*n+step*i), uint32(size))
	}
	b = append(b, make([]byte, fgen.Pick(rng, 4*n, 4*n, 4*n+1000, rng.IntN(4*n+10)))...)
	if rng.IntN(3) == 0 {
		b = append(b, make([]byte, mb)...)
	}
	return input{a: b}, "many tables"
}

func hostileCmapSub(rng *rand.Rand) (input, string) {
	switch rng.IntN(6) {
	case 0, 1:
		// format 12
		n := logn(rng, fgen.Pick(rng, 1, 10, 1000, 100000))
		b := raw.A16(nil, 12, 0)
		b = raw.A32(b, uint32(16+12*n), 0, uint32(n))
		step := fgen.Pick(rng, uint32(1), 2, 655, 65535, 65536, 0x1000000, 0x7FFFFFFF, 0xFFFFFFFF)
		x := uint32(fgen.Pick(rng, 0, 0, 0xFFFF0000, 0xFFFFFFF0, 0x10000))
		for i := 0; i < n; i++ {
			b = raw.A32(b, x, x+step-1, uint32(rng.IntN(3)))
			x += step
		}
		return input{a: b}, "format 12"
	case 2:
		n := logn(rng, fgen.Pick(rng, 10, 4000, 32767))
		b := raw.A16(nil, 4, (16+8*n)&0xFFFF, 0, 2*n, 0, 0, 0)
		k := rng.IntN(4)
		put := func(fn func(i int) int) {
			for i := 0; i < n; i++ {
				b = raw.A16(b, fn(i))
			}
		}
		end := func(i int) int {
			switch k {
			case 0:
				return 0xFFFF
			case 1:
				return 0xFFFF - n + 1 + i
			}
			return (i + 1) * 65535 / n
		}
		put(end)
		b = raw.A16(b, 0)
		put(func(i int) int {
			if k == 0 || k == 3 {
				return 0
			}
			if i == 0 {
				return 0
			}
			return end(i-1) + 1
		})
		put(func(i int) int { return rng.IntN(3) })
		ro := fgen.Pick(rng, 0, 2, 0xFFFE, 0xFFFF)
		put(func(i int) int { return ro })
		return input{a: append(b, make([]byte, rng.IntN(70000))...)}, "format 4"
	case 3:
		n := logn(rng, 65535)
		b := raw.A16(nil, 6, (10+2*n)&0xFFFF, 0, fgen.Pick(rng, 0, 0xFFFF, 65535-n), n)
		return input{a: rep16(b, 1, n)}, "format 6"
	case 4:
		b := raw.A16(nil, fgen.Pick(rng, 0, 2, 8, 10, 13, 14, 6, 4), rng.IntN(70000))
		return input{a: append(b, fgen.Bytes(rng, rng.IntN(300))...)}, "other format"
	}
	// format 2: high byte mapping
	b := raw.A16(nil, 2, 6+512+8*256+1000, 0)
	for i := 0; i < 256; i++ {
		b = raw.A16(b, 8*(i%fgen.Pick(rng, 1, 256)))
	}
	for i := 0; i < 256; i++ {
		b = raw.A16(b, rng.IntN(256), rng.IntN(257), 0, rng.IntN(1000))
	}
	return input{a: append(b, make([]byte, 1000)...)}, "format 2"
}

func hostileCmap(rng *rand.Rand) (input, string) {
	n := logn(rng, fgen.Pick(rng, 20, 65535))
	sub, what := hostileCmapSub(rng)
	b := raw.A16(nil, 0, n)
	apart := rng.IntN(2) == 0 && len(sub.a)*n < 4*mb
	off := 4 + 8*n
	for i := 0; i < n; i++ {
		b = raw.A16(b, i>>8, i&0xFF)
		b = raw.A32(b, uint32(off))
		if apart {
			off += len(sub.a)
		}
	}
	if apart {
		return input{a: append(b, repeat(sub.a, n)...)}, "many subtables, " + what
	}
	return input{a: append(b, sub.a...)}, "shared subtable, " + what
}

func hostileSimple(rng *rand.Rand) (input, string) {
	nc := fgen.Pick(rng, 1, 1, 2, 100, 32767)
	var b []byte
	np := fgen.Pick(rng, 65536, 65535, 32768, 1000)
	for i := 0; i < nc; i++ {
		e := np - 1
		if rng.IntN(2) == 0 || nc > 1 {
			e = (i + 1) * np / nc
			e = max(e-1, 0)
		}
		b = raw.A16(b, e)
	}
	b = raw.A16(b, fgen.Pick(rng, 0, 0, 65535))
	fl := byte(fgen.Pick(rng, 0x38, 0x39, 0x08, 0x0E, 0x3E)) // repeated
	for i := 0; i < np; i += 256 {
		b = append(b, fl, 255)
	}
	b = append(b, make([]byte, rng.IntN(2*np))...)
	return input{a: b, n: nc}, "many points"
}

func hostileGlyf(rng *rand.Rand) (input, string) {
	n := logn(rng, 65535)
	var g []byte
	what := ""
	switch rng.IntN(5) {
	case 0:
		s, w := hostileSimple(rng)
		g = append(raw.A16(nil, s.n, 0, 0, 0, 0), s.a...)
		what = w
		n = logn(rng, 50)
	case 1: // components
		g = raw.A16(nil, 0xFFFF, 0, 0, 0, 0)
		k := logn(rng, 1000)
		for i := 0; i < k; i++ {
			fl := 0x0020
			if i == k-1 {
				fl = 0x0100
			}
			g = raw.A16(g, fl, rng.IntN(n), 0)
		}
		if rng.IntN(2) == 0 {
			g = raw.A16(g, 0xFFFF)
		}
		n = logn(rng, 4*mb/len(g))
		what = "many components"
	case 2:
		what = "empty glyphs"
	case 3: // endless chain
		g = raw.A16(nil, 0xFFFF, 0, 0, 0, 0, 0x0023, 1, 0, 0)
		what = "unfinished components"
	case 4:
		g = make([]byte, fgen.Pick(rng, 1, 9, 10, 11, 12))
		what = "short glyphs"
	}
	if len(g)&1 != 0 {
		g = append(g, 0)
	}
	n = min(n, 65535)
	var loca []byte
	share := rng.IntN(3) == 0
	total := 0
	for i := 0; i <= n; i++ {
		loca = raw.A32(loca, uint32(total))
		if share && i > 0 && i < n || total > 6*mb {
			continue
		}
		total += len(g)
	}
	return input{a: repeat(g, total/max(len(g), 1)), b: loca, n: 1}, what
}

func hostileCFF(rng *rand.Rand) (input, string) {
	w := &cffref.Build{Name: "T"}
	num := func(n int) []byte { return t2.EncNum(float64(n), 0) }
	call := func(i, n int, op byte) []byte { return append(num(i-t2.Bias(n)), op) }
	n := 1
	what := ""
	w.FDs = []cffref.BuildFD{{}}
	end := []byte{14}
	body := fgen.Pick(rng,
		append(append([]byte{}, bytes.Repeat([]byte{140}, 48)...), 5),                                   // rlineto
		append(append([]byte{}, bytes.Repeat([]byte{140}, 48)...), 8),                                   // rrcurveto
		append(append([]byte{}, bytes.Repeat([]byte{140}, 48)...), 6),                                   // hlineto
		append(append([]byte{}, bytes.Repeat([]byte{140}, 48)...), 18),                                  // hstemhm
		[]byte{139, 139, 12, 18, 12, 18}, []byte{139, 22}, []byte{139, 139, 21}, []byte{12, 23, 12, 18}, // drop, moveto, random
		append(append([]byte{}, bytes.Repeat([]byte{140}, 40)...), 138, 12, 30, 14))
	start := []byte{139, 22} // hmoveto
	switch rng.IntN(8) {
	case 0, 1: // nested subroutines
		depth := 1 + rng.IntN(10)
		fan := logn(rng, 2000)
		op := byte(29)
		var subrs [][]byte
		for i := 0; i < depth; i++ {
			var s []byte
			if i == depth-1 {
				s = repeat(body, logn(rng, 100))
			} else {
				s = repeat(call(i+1, depth, op), fan)
			}
			subrs = append(subrs, append(s, 11))
		}
		w.GSubrs = subrs
		w.CharStrings = [][]byte{append(append(start, call(0, depth, op)...), 14)}
		n = logn(rng, 65535)
		for len(w.CharStrings) < n {
			w.CharStrings = append(w.CharStrings, w.CharStrings[0])
		}
		what = "nested subroutines"
	case 2: // many glyphs use one long subroutine
		s := append(repeat(body, logn(rng, 65000/len(body))), 11)
		w.FDs[0].Subrs = [][]byte{s}
		n = logn(rng, 65535)
		for i := 0; i < n; i++ {
			w.CharStrings = append(w.CharStrings, append(append(start[:2:2], call(0, 1, 10)...), 14))
		}
		what = "long subroutine, many glyphs"
	case 3: // many font DICTs share the private dictionary and the subroutines
		k := logn(rng, 256)
		w.CID = true
		var subrs [][]byte
		for i := logn(rng, 65535); i > 0; i-- {
			subrs = append(subrs, []byte{11})
		}
		w.FDs[0].Subrs = subrs
		w.CharStrings = [][]byte{end}
		w.FDSelect = []byte{0, 0}
		w.Charset = []byte{0}
		w.Top = append(w.Top, cffref.Entry{Op: cffref.OpROS, Args: []any{391, 391, 0}})
		w.Strings = []string{"Adobe"}
		b := w.Bytes()
		// find the private dictionary
		f, err := cffref.Parse(b)
		_ = f
		if err == nil && k > 1 {
			// append a new FDArray, where all entries are the same
			return shareFD(rng, w, k), "shared private dictionary"
		}
		return input{a: b}, "private dictionary"
	case 4: // huge private dictionary
		w.CharStrings = [][]byte{end}
		b := w.Bytes()
		return input{a: bigNumbers(rng, b)}, "large numbers in the DICTs"
	case 5: // many empty glyphs
		n = 65535
		for i := 0; i < n; i++ {
			w.CharStrings = append(w.CharStrings, end)
		}
		what = "many glyphs"
	case 6: // many strings
		w.CharStrings = [][]byte{end}
		for i := logn(rng, 65000); i > 0; i-- {
			w.Strings = append(w.Strings, "")
		}
		w.Strings = append(w.Strings, string(make([]byte, logn(rng, 100000))))
		what = "many strings"
	case 7: // a long charstring
		w.CharStrings = [][]byte{append(append(start, repeat(body, logn(rng, 4*mb/len(body)))...), 14)}
		what = "long charstring"
	}
	if !w.CID && rng.IntN(3) > 0 {
		w.CID = true
		w.Top = append(w.Top, cffref.Entry{Op: cffref.OpROS, Args: []any{391, 391, 0}})
		w.Strings = append([]string{"Adobe"}, w.Strings...)
		w.FDSelect = raw.A16([]byte{3}, 1, 0)
		w.FDSelect = raw.A16(append(w.FDSelect, 0), n)
	}
	w.Charset = raw.A16([]byte{2}, 1, max(n-2, 0))
	return input{a: w.Bytes()}, what
}

// shareFD makes k font DICTs which use the same private dictionary.
func shareFD(rng *rand.Rand, w *cffref.Build, k int) input {
	f := w.FDs[0]
	w.FDs = nil
	for i := 0; i < k; i++ {
		w.FDs = append(w.FDs, cffref.BuildFD{})
	}
	w.FDs[k-1] = f
	b := w.Bytes()
	// All font DICTs have the same length.  The last one is correct.
	top := bytes.LastIndex(b, []byte{18}) // Private operator
	for i := len(b) - 1; i > 0; i-- {
		if b[i] == 18 && i > 10 && b[i-10] == 29 && b[i-5] == 29 {
			top = i
			break
		}
	}
	if top < 11 {
		return input{a: b}
	}
	good := bytes.Clone(b[top-10 : top+1])
	for i := 11; i < len(b); i++ {
		if b[i] == 18 && b[i-10] == 29 && b[i-5] == 29 {
			copy(b[i-10:], good)
		}
	}
	return input{a: b}
}

// bigNumbers replaces 5-byte integers in a CFF font.
func bigNumbers(rng *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	for i := 0; i+5 <= len(b); i++ {
		if b[i] == 29 && rng.IntN(3) == 0 {
			v := fgen.Pick(rng, 0x7FFFFFFF, 0x10000000, 0x80000000, 0xFFFFFFFF, len(b), len(b)-1, 0, 1, 0x00FFFFFF)
			b[i+1], b[i+2], b[i+3], b[i+4] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	}
	return b
}

// amp makes a subtable where a lot of data is shared.
func amp(rng *rand.Rand, gsub bool) (int, []byte, string) {
	n := logn(rng, fgen.Pick(rng, 10, 1000, 32000))
	m := logn(rng, fgen.Pick(rng, 10, 1000, 32000))
	k := logn(rng, fgen.Pick(rng, 3, 50, 1000))
	cov := bigCov(rng)
	cl := bigClass(rng)
	ctx, chain := 7, 8
	if gsub {
		ctx, chain = 5, 6
	}
	// set lays out: head, n offsets to the same set, set, coverage
	set := func(tp int, head func(covOff int) []byte, covPos int, set []byte) (int, []byte) {
		b := head(0)
		off := len(b) + 2*n
		b = rep16(b, off, n)
		b = append(b, set...)
		b[covPos], b[covPos+1] = byte(len(b)>>8), byte(len(b))
		return tp, append(b, cov...)
	}
	rules := func(rule []byte) []byte {
		return append(rep16(raw.A16(nil, m), 2+2*m, m), rule...)
	}
	simple := func(int) []byte { return raw.A16(nil, 1, 0, n) }
	if gsub {
		switch rng.IntN(14) {
		case 0:
			return 1, append(raw.A16(nil, 1, 6, 1), cov...), "1.1"
		case 1:
			b := rep16(raw.A16(nil, 2, 6+2*n, n), 1, n)
			return 1, append(b, cov...), "1.2"
		case 2:
			tp, b := set(2, simple, 2, rep16(raw.A16(nil, m), 1, m))
			return tp, b, "2.1"
		case 3:
			tp, b := set(3, simple, 2, rep16(raw.A16(nil, m), 1, m))
			return tp, b, "3.1"
		case 4, 5:
			tp, b := set(4, simple, 2, rules(rep16(raw.A16(nil, 1, k+1), 1, k)))
			return tp, b, "4.1"
		case 6:
			b := rep16(raw.A16(nil, 1, 8+2*k+2*k+2*n+2, k), 8+4*k+2*n+2, k)
			b = rep16(raw.A16(b, k), 8+4*k+2*n+2, k)
			b = rep16(raw.A16(b, n), 1, n)
			b[2], b[3] = byte(len(b)>>8), byte(len(b))
			for i := 0; i < k; i++ {
				o := 6 + 2*i
				b[o], b[o+1] = byte(len(b)>>8), byte(len(b))
				o += 2*k + 2
				b[o], b[o+1] = byte(len(b)>>8), byte(len(b))
			}
			return 8, append(b, cov...), "8.1"
		}
	} else {
		switch rng.IntN(18) {
		case 0:
			return 1, append(raw.A16(nil, 1, 6, 0), cov...), "1.1"
		case 1:
			return 1, append(raw.A16(nil, 2, 8, 0, logn(rng, 65535)), cov...), "1.2"
		case 2:
			b := rep16(raw.A16(nil, 2, 8+2*n, 4, n), 1, n)
			return 1, append(b, cov...), "1.2"
		case 3, 4:
			vf := fgen.Pick(rng, 0, 4)
			var pairs []byte
			pairs = raw.A16(nil, m)
			for i := 0; i < m; i++ {
				pairs = raw.A16(pairs, i)
				if vf != 0 {
					pairs = raw.A16(pairs, 7)
				}
			}
			tp, b := set(2, func(int) []byte { return raw.A16(nil, 1, 0, vf, 0, n) }, 2, pairs)
			return tp, b, "2.1"
		case 5, 6:
			x := logn(rng, 65535)
			y := fgen.Pick(rng, 0, 65535/max(x, 1), 1)
			b := raw.A16(nil, 2, 16, fgen.Pick(rng, 0, 0, 4), 0, 16+len(cov), 16+len(cov), x, y)
			return 2, append(append(b, cov...), cl...), "2.2"
		case 7:
			b := rep16(raw.A16(nil, 1, 0, n), 6+4*n, 2*n)
			b = raw.A16(b, 1, 5, 5)
			b[2], b[3] = byte(len(b)>>8), byte(len(b))
			return 3, append(b, cov...), "3.1"
		case 8, 9, 10: // mark to base/ligature/mark
			tp := 4 + rng.IntN(3)
			marks := n / 2
			bases := fgen.Pick(rng, n, 1, 0)
			cols := fgen.Pick(rng, 1, 0, k)
			b := raw.A16(nil, 1, 0, 0, cols, 12, 0)
			b = raw.A16(b, marks)
			for i := 0; i < marks; i++ {
				b = raw.A16(b, 0, 2+4*marks)
			}
			b = raw.A16(b, 1, 0, 0)
			b[10], b[11] = byte(len(b)>>8), byte(len(b))
			if tp == 5 {
				b = rep16(raw.A16(b, bases), 2+2*bases, bases)
				b = rep16(raw.A16(b, m), 2+2*m*cols, m*min(cols, 30))
			} else {
				b = rep16(raw.A16(b, bases), 2+2*bases*cols, min(bases*cols, 60000))
			}
			b = raw.A16(b, 1, 0, 0)
			b[2], b[3], b[4], b[5] = byte(len(b)>>8), byte(len(b)), byte(len(b)>>8), byte(len(b))
			return tp, append(b, cov...), "marks"
		}
	}
	act := fgen.Pick(rng, 0, 1, k)
	switch rng.IntN(6) {
	case 0:
		tp, b := set(ctx, simple, 2, rules(rep16(raw.A16(nil, k+1, act), 0, k+2*act)))
		return tp, b, "context 1"
	case 1:
		tp, b := set(ctx, func(int) []byte { return raw.A16(nil, 2, 0, 0, n) }, 2, rules(rep16(raw.A16(nil, k+1, act), 0, k+2*act)))
		b = bytes.Clone(b)
		b[4], b[5] = byte(len(b)>>8), byte(len(b))
		return tp, append(b, cl...), "context 2"
	case 2:
		b := rep16(raw.A16(nil, 3, n, act), 6+2*n+4*act, n)
		b = rep16(b, 0, 2*act)
		return ctx, append(b, cov...), "context 3"
	case 3:
		rule := rep16(raw.A16(nil, k), 0, k)
		rule = rep16(raw.A16(rule, k+1), 0, k)
		rule = rep16(raw.A16(rule, k), 0, k)
		rule = rep16(raw.A16(rule, act), 0, 2*act)
		tp, b := set(chain, simple, 2, rules(rule))
		return tp, b, "chained context 1"
	case 4:
		rule := rep16(raw.A16(nil, k), 0, k)
		rule = rep16(raw.A16(rule, k+1), 0, k)
		rule = rep16(raw.A16(rule, k), 0, k)
		rule = rep16(raw.A16(rule, act), 0, 2*act)
		tp, b := set(chain, func(int) []byte { return raw.A16(nil, 2, 0, 0, 0, 0, n) }, 2, rules(rule))
		b = bytes.Clone(b)
		for i := 4; i < 10; i += 2 {
			b[i], b[i+1] = byte(len(b)>>8), byte(len(b))
		}
		return tp, append(b, cl...), "chained context 2"
	}
	x := n / 3
	end := 2 + 3*(2+2*x) + 2 + 4*act
	b := raw.A16(nil, 3)
	for i := 0; i < 3; i++ {
		b = rep16(raw.A16(b, x), end, x)
	}
	b = rep16(raw.A16(b, act), 0, 2*act)
	return chain, append(b, cov...), "chained context 3"
}

func hostileGtab(gsub bool) func(rng *rand.Rand) (input, string) {
	return func(rng *rand.Rand) (input, string) {
		what := ""
		// script list
		var scripts []byte
		if rng.IntN(4) == 0 {
			n := logn(rng, fgen.Pick(rng, 5, 10000))
			k := logn(rng, fgen.Pick(rng, 5, 5000))
			f := logn(rng, fgen.Pick(rng, 5, 10000))
			scripts = raw.A16(nil, n)
			for i := 0; i < n; i++ {
				scripts = append(scripts, []byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676%26), 'a' + byte(i/17576)}...)
				if rng.IntN(3) == 0 {
					copy(scripts[len(scripts)-4:], fgen.Pick(rng, "latn", "arab", "DFLT", "cyrl"))
				}
				scripts = raw.A16(scripts, 2+6*n)
			}
			scripts = raw.A16(scripts, 4+6*k, k)
			for i := 0; i < k; i++ {
				scripts = append(scripts, fgen.Pick(rng, "DEU ", "NLD ", "TRK ", "AAAA", string([]byte{'A' + byte(i%26), 'A' + byte(i/26%26), 'A' + byte(i/676%26), ' '}))...)
				scripts = raw.A16(scripts, 4+6*k)
			}
			scripts = rep16(raw.A16(scripts, 0, 0xFFFF, f), 1, f)
			what = "big script list, "
		} else {
			scripts = raw.A16(nil, 0)
		}
		// feature list
		var feats []byte
		if rng.IntN(4) == 0 {
			n := logn(rng, fgen.Pick(rng, 5, 10000))
			k := logn(rng, fgen.Pick(rng, 5, 10000))
			feats = raw.A16(nil, n)
			for i := 0; i < n; i++ {
				feats = append(feats, "liga"...)
				feats = raw.A16(feats, 2+6*n)
			}
			feats = rep16(raw.A16(feats, 0, k), 0, k)
			what += "big feature list, "
		} else {
			feats = raw.A16(nil, 0)
		}
		b := raw.A16(nil, 1, 0, 10, 10+len(scripts), 10+len(scripts)+len(feats))
		b = append(append(b, scripts...), feats...)
		// lookup list: nl lookups share nt lookup tables with ns subtables
		tp, st, name := amp(rng, gsub)
		total := fgen.Pick(rng, 1, 1, 10, 1000, 6000, 7000)
		nl := logn(rng, total)
		ns := max(1, total/max(nl, 1)-1)
		b = rep16(raw.A16(b, nl), 2+2*nl, nl)
		ext := rng.IntN(3) == 0
		if ext {
			e := 9
			if gsub {
				e = 7
			}
			b = rep16(raw.A16(b, e, 0, ns), 6+2*ns, ns)
			b = raw.A16(b, 1, tp)
			b = raw.A32(b, 8)
		} else {
			b = rep16(raw.A16(b, tp, 0, ns), 6+2*ns, ns)
		}
		b = append(b, st...)
		if rng.IntN(20) == 0 {
			b = append(b, make([]byte, logn(rng, 4*mb))...)
		}
		return input{a: b}, what + "shared subtable " + name
	}
}

func hostileFont(rng *rand.Rand) (input, string) {
	b, _ := foreign.Base(rng)
	scaler, m := foreign.TableMap(b)
	if m == nil {
		return input{}, "nothing"
	}
	what := ""
	set := func(tag string, fn func(rng *rand.Rand) (input, string)) {
		in, w := fn(rng)
		m[tag] = in.a
		what += tag + ": " + w + "; "
	}
	for k := 1 + rng.IntN(2); k > 0; k-- {
		switch rng.IntN(9) {
		case 0:
			set("GSUB", hostileGtab(true))
		case 1:
			set("GPOS", hostileGtab(false))
		case 2:
			set("GDEF", hostileGdef)
		case 3:
			set("cmap", hostileCmap)
		case 4:
			set("name", hostileName)
		case 5:
			set("post", hostilePost)
		case 6:
			delete(m, "GPOS")
			set("kern", hostileKern)
		case 7:
			if m["CFF "] != nil {
				set("CFF ", hostileCFF)
				f, err := cffref.Parse(m["CFF "])
				if err == nil && len(m["maxp"]) >= 6 {
					n := len(f.CharStrings)
					m["maxp"][4], m["maxp"][5] = byte(n>>8), byte(n)
					delete(m, "hmtx")
					delete(m, "hhea")
				}
			}
		case 8:
			if m["glyf"] != nil && len(m["maxp"]) >= 6 && len(m["head"]) >= 54 {
				in, w := hostileGlyf(rng)
				m["glyf"], m["loca"] = in.a, in.b
				n := len(in.b)/4 - 1
				m["maxp"][4], m["maxp"][5] = byte(n>>8), byte(n)
				m["head"][50], m["head"][51] = 0, 1
				what += "glyf: " + w + "; "
				if rng.IntN(2) == 0 {
					delete(m, "hmtx")
					delete(m, "hhea")
				} else if len(m["hhea"]) >= 36 {
					m["hmtx"] = make([]byte, 4*n)
					m["hhea"][34], m["hhea"][35] = byte(n>>8), byte(n)
				}
			}
		}
	}
	return input{a: raw.Build(scaler, m, rng)}, what
}
