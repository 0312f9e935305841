package foreign

import (
	"math/rand/v2"
	"strconv"

	"verif/cffref"
	"verif/fgen"
	"verif/raw"
	"verif/t2"
)

// off returns v, or (rarely) a slightly wrong value.
func off(rng *rand.Rand, v int) int {
	if rng.IntN(25) > 0 {
		return v
	}
	return max(0, fgen.Pick(rng, v+1, v-1, v+2, v/2, 0, 2*v, 0xFF, 0xFFFF))
}

// Charset returns an encoded charset for n glyphs, which is nearly always valid.
func Charset(rng *rand.Rand, n int) []byte {
	f := rng.IntN(3)
	b := []byte{byte(off(rng, f))}
	x := 1 + rng.IntN(fgen.Pick(rng, 1, 390, 300))
	for i := 1; i < n; {
		k := 1
		if f > 0 {
			k = min(1+rng.IntN(10), n-i)
		}
		b = raw.A16(b, off(rng, x))
		if f == 1 {
			b = append(b, byte(off(rng, k-1)))
		} else if f == 2 {
			b = raw.A16(b, off(rng, k-1))
		}
		i += k
		x += k + rng.IntN(2)
	}
	return b
}

// FDSelect returns an encoded FDSelect structure, which is nearly always valid.
func FDSelect(rng *rand.Rand, n, k int) []byte {
	if rng.IntN(3) == 0 {
		b := []byte{byte(off(rng, 0))}
		for i := off(rng, n); i > 0; i-- {
			b = append(b, byte(off(rng, rng.IntN(k))))
		}
		return b
	}
	var rr []byte
	m := 0
	for i := 0; i < n; m++ {
		rr = append(raw.A16(rr, off(rng, i)), byte(off(rng, rng.IntN(k))))
		i += 1 + rng.IntN(fgen.Pick(rng, 2, n))
	}
	b := raw.A16([]byte{byte(off(rng, 3))}, off(rng, m))
	return raw.A16(append(b, rr...), off(rng, n))
}

// Encoding returns an encoding with at most n-1 codes.
func Encoding(rng *rand.Rand, n int) []byte {
	f := rng.IntN(2)
	sup := rng.IntN(3) == 0
	b := []byte{byte(f)}
	if sup {
		b[0] |= 0x80
	}
	if rng.IntN(20) == 0 {
		b[0] = byte(rng.IntN(256))
	}
	b = append(b, 0)
	code := rng.IntN(30)
	for i := 1; i < n; b[1]++ {
		b = append(b, byte(off(rng, code)))
		k := 1
		if f == 1 {
			k = min(1+rng.IntN(9), n-i)
			b = append(b, byte(off(rng, k-1)))
		}
		i += k
		code += k + rng.IntN(2)
	}
	b[1] = byte(off(rng, int(b[1])))
	if sup {
		k := rng.IntN(3)
		b = append(b, byte(off(rng, k)))
		for ; k > 0; k-- {
			b = raw.A16(append(b, byte(200+k)), off(rng, rng.IntN(300)))
		}
	}
	return b
}

// digits rounds x to nine significant digits.
func digits(x float64) float64 {
	y, _ := strconv.ParseFloat(strconv.FormatFloat(x, 'g', 9, 64), 64)
	return y
}

// RawCFF returns a hand-assembled CFF font with n glyphs, which is nearly
// always valid.
func RawCFF(rng *rand.Rand, n int) []byte {
	loc := t2.NewSubrTable(rng, rng.IntN(8))
	glob := t2.NewSubrTable(rng, rng.IntN(8))
	w := &cffref.Build{Name: "Test", OffSize: rng.IntN(5), Pad: rng.IntN(4)}
	inexact := rng.IntN(4) == 0
	for i := 0; i < n; i++ {
		code := append(t2.EncNum(float64(i%700), 0), 14)
		if i < 10 || rng.IntN(n) < 10 {
			g := &t2.Gen{Rng: rng, Inexact: inexact}
			func() {
				defer func() { recover() }()
				code = t2.Join(t2.Subroutinize(rng, g.Program(), loc, glob, 0))
			}()
		}
		w.CharStrings = append(w.CharStrings, code)
	}
	w.GSubrs = glob.Data
	num := func(v int) any {
		switch rng.IntN(6) {
		case 0:
			return float64(v)
		case 1:
			return digits(float64(v) + float64(rng.IntN(1000))/1000)
		}
		return v
	}
	matrix := func() cffref.Entry {
		k := fgen.Pick(rng, 1, 0.001, 0.001, 1/2048., digits(rng.Float64()))
		return cffref.Entry{Op: cffref.OpFontMatrix, Args: []any{k, 0, fgen.Pick(rng, 0, digits(k*rng.Float64())), k, 0, fgen.Pick(rng, 0, digits(rng.Float64()*10))}}
	}
	private := func() []cffref.Entry {
		var p []cffref.Entry
		deltas := func(op, k int) {
			if rng.IntN(3) > 0 {
				return
			}
			var a []any
			for i := 2 * rng.IntN(k+1); i > 0; i-- {
				a = append(a, num(rng.IntN(40)))
			}
			p = append(p, cffref.Entry{Op: op, Args: a})
		}
		deltas(6, 7)
		deltas(7, 5)
		deltas(8, 7)
		deltas(9, 5)
		for _, op := range []int{10, 11, 1210, 1211, 1209, 20, 21} {
			if rng.IntN(3) > 0 {
				continue
			}
			a := []any{num(rng.IntN(600))}
			if op == 1209 {
				a = []any{fgen.Pick(rng, 0.039625, 0.0375, 0.5, digits(rng.Float64()), 0)}
			}
			if op == 20 || op == 21 {
				// widths are compared to the precision of a charstring
				a = []any{fgen.Pick[any](rng, rng.IntN(600), float64(rng.IntN(600)), float64(rng.IntN(600))+float64(rng.IntN(256))/256)}
			}
			p = append(p, cffref.Entry{Op: op, Args: a})
		}
		if rng.IntN(4) == 0 {
			p = append(p, cffref.Entry{Op: 1214, Args: []any{rng.IntN(2)}}) // ForceBold
		}
		return p
	}
	str := func(s string) int {
		w.Strings = append(w.Strings, s)
		return 390 + len(w.Strings)
	}
	if rng.IntN(2) == 0 {
		w.CID = true
		ro := str(fgen.Pick(rng, "Adobe", "", "X"))
		w.Top = append(w.Top, cffref.Entry{Op: cffref.OpROS, Args: []any{ro, str("Identity"), num(rng.IntN(10))}})
	}
	for _, op := range []int{0, 1, 1200, 2, 3, 4} { // strings
		if rng.IntN(3) == 0 {
			w.Top = append(w.Top, cffref.Entry{Op: op, Args: []any{str(fgen.Pick(rng, "abc", "Test (x)", "", "1.5", "Bold"))}})
		}
	}
	for _, op := range []int{1201, 1202, 1203, 1204} { // isFixedPitch, ItalicAngle, UnderlinePosition, UnderlineThickness
		if rng.IntN(3) == 0 {
			v := any(rng.IntN(2))
			if op != 1201 {
				v = num(rng.IntN(200) - 100)
			}
			w.Top = append(w.Top, cffref.Entry{Op: op, Args: []any{v}})
		}
	}
	if rng.IntN(3) == 0 {
		w.Top = append(w.Top, matrix())
	}
	if rng.IntN(3) == 0 {
		w.Top = append(w.Top, cffref.Entry{Op: 5, Args: []any{0, num(-10), num(100), 100}}) // FontBBox
	}
	w.FDs = []cffref.BuildFD{{Subrs: loc.Data, Private: private()}}
	if w.CID {
		for i := rng.IntN(4); i > 0; i-- {
			w.FDs = append(w.FDs, cffref.BuildFD{Subrs: loc.Data, Private: private()})
		}
		for i := range w.FDs {
			if rng.IntN(2) == 0 {
				w.FDs[i].Dict = append(w.FDs[i].Dict, matrix())
			}
			if rng.IntN(3) == 0 {
				w.FDs[i].Dict = append(w.FDs[i].Dict, cffref.Entry{Op: 1238, Args: []any{str("FD")}})
			}
		}
		w.FDSelect = FDSelect(rng, n, len(w.FDs))
		switch {
		case n > 1 && rng.IntN(4) == 0:
			// a range which ends near the largest CID
			first := max(0, 65537-n+rng.IntN(5)-2)
			w.Charset = raw.A16([]byte{2}, first, n-2)
		default:
			w.Charset = Charset(rng, n)
		}
	} else {
		switch rng.IntN(4) {
		case 0:
			w.CharsetID = fgen.Pick(rng, 0, 0, 1, 2)
		default:
			w.Charset = Charset(rng, n)
			for len(w.Strings) < 2*n+10 && len(w.Strings) < 2000 {
				w.Strings = append(w.Strings, fgen.Pick(rng, "x", "x", "x", "uni")+string(rune('A'+rng.IntN(26)))+string(rune('a'+len(w.Strings)%26))+string(rune('a'+len(w.Strings)/26)))
			}
		}
		if rng.IntN(2) == 0 {
			w.Encoding = Encoding(rng, n)
		} else {
			w.EncodingID = rng.IntN(2)
		}
	}
	return w.Bytes()
}
