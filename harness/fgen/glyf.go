package fgen

import (
	"math/rand/v2"

	"verif/raw"
)

// Contours returns random contours such that all coordinates and all
// coordinate differences fit into 16 bits.
func Contours(rng *rand.Rand, nc, maxPts, scale int) [][]raw.Point {
	var res [][]raw.Point
	x, y := 0, 0
	onBias := rng.IntN(5)
	step := func(v int) int {
		var d int
		switch rng.IntN(8) {
		case 0, 1:
			d = 0
		case 2:
			d = Pick(rng, 1, -1, 254, 255, 256, 257, -254, -255, -256, -257)
		case 3:
			d = rng.IntN(2*scale+1) - scale
		case 4, 5:
			d = rng.IntN(511) - 255
		case 6:
			if scale > 10000 {
				d = Pick(rng, 32767, -32768, 32766, -32767, -32767-v, 32767-v, -v)
				break
			}
			fallthrough
		default:
			d = rng.IntN(1001) - 500
		}
		d = max(-32768, min(32767, d))
		if w := v + d; w < -scale-1 || w > scale {
			return v
		}
		return v + d
	}
	for i := 0; i < nc; i++ {
		n := 1 + rng.IntN(maxPts)
		var c []raw.Point
		for j := 0; j < n; j++ {
			if !(rng.IntN(20) == 0 && j > 0) {
				x, y = step(x), step(y)
			}
			c = append(c, raw.Point{X: x, Y: y, On: rng.IntN(5) < onBias || onBias == 0 && j == 0})
		}
		res = append(res, c)
	}
	return res
}

// EncodeSimple encodes contours as the body of a simple glyph (the part
// after the header), choosing randomly among the legal encodings.
func EncodeSimple(rng *rand.Rand, cc [][]raw.Point, instr []byte) []byte {
	var out []byte
	var pts []raw.Point
	for _, c := range cc {
		pts = append(pts, c...)
		out = raw.A16(out, len(pts)-1)
	}
	out = raw.A16(out, len(instr))
	out = append(out, instr...)
	style := rng.IntN(3) // 0: tight, 1: long everywhere, 2: random
	reserved := byte(0)
	if rng.IntN(4) == 0 {
		reserved = byte(rng.IntN(4)) << 6
	}
	var flags, xs, ys []byte
	px, py := 0, 0
	enc := func(d int, short, same byte, buf []byte) (byte, []byte) {
		long := style == 1 || style == 2 && rng.IntN(3) == 0
		if d == 0 && !long && !(style == 2 && rng.IntN(3) == 0) {
			return same, buf
		}
		if d >= -255 && d <= 255 && !long {
			switch {
			case d > 0 || d == 0 && rng.IntN(2) == 0:
				return short | same, append(buf, byte(d))
			default:
				return short, append(buf, byte(-d))
			}
		}
		return 0, raw.A16(buf, d)
	}
	for _, p := range pts {
		var fx, fy byte
		fx, xs = enc(p.X-px, 2, 16, xs)
		fy, ys = enc(p.Y-py, 4, 32, ys)
		f := fx | fy | reserved&^0x40
		if len(flags) == 0 {
			f |= reserved & 0x40
		}
		if p.On {
			f |= 1
		}
		flags = append(flags, f)
		px, py = p.X, p.Y
	}
	rep := rng.IntN(3)
	for i := 0; i < len(flags); {
		n := 1
		for i+n < len(flags) && flags[i+n] == flags[i] && n < 256 {
			n++
		}
		switch {
		case rep == 0 && n > 2:
		case rep == 1:
			n = 1 + rng.IntN(n)
		default:
			n = 1
		}
		if n > 1 || rep == 1 && rng.IntN(5) == 0 {
			out = append(out, flags[i]|8, byte(n-1))
		} else {
			out = append(out, flags[i])
		}
		i += n
	}
	out = append(out, xs...)
	return append(out, ys...)
}

// Components returns random component records; pick chooses glyph indices.
func Components(rng *rand.Rand, n int, instr bool, pick func() int, xyOnly bool) []raw.Component {
	res := make([]raw.Component, n)
	for i := range res {
		var f int
		size := 2
		if rng.IntN(2) == 0 {
			f |= 1
			size = 4
		}
		if xyOnly || rng.IntN(3) > 0 {
			f |= 2
		}
		switch rng.IntN(5) {
		case 0:
			f |= 8
			size += 2
		case 1:
			f |= 0x40
			size += 4
		case 2:
			f |= 0x80
			size += 8
		}
		for _, b := range []int{4, 0x200, 0x400} {
			if rng.IntN(4) == 0 {
				f |= b
			}
		}
		switch rng.IntN(6) {
		case 0:
			f |= 0x800
		case 1:
			f |= 0x1000
		}
		if rng.IntN(5) == 0 {
			f |= Pick(rng, 0x10, 0x2000, 0x4000, 0x8000, rng.IntN(16)<<12&0xE000) // reserved
		}
		if rng.IntN(20) == 0 {
			f |= 0x1800 // contradictory
		}
		if i < n-1 {
			f |= 0x20
		}
		if instr && (i == n-1 || rng.IntN(2) == 0) {
			f |= 0x100
		}
		args := make([]byte, size)
		for j := range args {
			args[j] = byte(rng.Uint32())
			if rng.IntN(4) == 0 {
				args[j] = 0
			}
		}
		res[i] = raw.Component{Flags: f, GID: pick(), Args: args}
	}
	return res
}

// Bytes returns n random bytes.
func Bytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rng.Uint32())
	}
	return b
}
