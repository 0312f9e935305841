// Package mut mutates binary data.
package mut

import (
	"bytes"
	"math/rand/v2"

	"verif/fgen"
)

// Word returns an interesting 16-bit value.
func Word(rng *rand.Rand, n int) int {
	return fgen.Pick(rng, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 14, 0xFF, 0x100, 0xFFFF, 0xFFFE, 0x7FFF, 0x8000, 0xC000,
		n&0xFFFF, (n-1)&0xFFFF, (n+1)&0xFFFF, (n/2)&0xFFFF, rng.IntN(65536), rng.IntN(65536), rng.IntN(256), rng.IntN(256), rng.IntN(n+1)&0xFFFF, rng.IntN(n+1)&0xFFFF)
}

// Bytes returns a copy of data with k random changes.
func Bytes(rng *rand.Rand, data []byte, k int) []byte {
	b := bytes.Clone(data)
	for ; k > 0; k-- {
		b = one(rng, b)
	}
	return b
}

// pos chooses a position, preferring the start of the data.
func pos(rng *rand.Rand, n int) int {
	if n <= 1 {
		return 0
	}
	switch rng.IntN(3) {
	case 0:
		return rng.IntN(min(n, 40))
	case 1:
		return rng.IntN(min(n, 400))
	}
	return rng.IntN(n)
}

func one(rng *rand.Rand, b []byte) []byte {
	n := len(b)
	if n == 0 {
		return fgen.Bytes(rng, rng.IntN(8))
	}
	p := pos(rng, n)
	switch rng.IntN(20) {
	case 0:
		b[p] ^= 1 << rng.IntN(8)
	case 1:
		b[p] = byte(rng.IntN(256))
	case 2: // truncate
		b = b[:p]
	case 3: // append
		b = append(b, fgen.Bytes(rng, rng.IntN(40))...)
	case 4: // remove a few bytes
		q := min(n, p+1+rng.IntN(8))
		b = append(b[:p:p], b[q:]...)
	case 5: // insert a few bytes
		x := fgen.Bytes(rng, 1+rng.IntN(8))
		b = append(append(bytes.Clone(b[:p]), x...), b[p:]...)
	case 6: // copy a block
		q := rng.IntN(n)
		l := 1 + rng.IntN(min(64, n))
		copy(b[p:], bytes.Clone(b[q:min(n, q+l)]))
	case 7: // fill a block
		v := fgen.Pick(rng, 0, 0xFF, 1, rng.IntN(256))
		for q := p; q < min(n, p+1+rng.IntN(16)); q++ {
			b[q] = byte(v)
		}
	case 8: // 32-bit value
		p &^= 1
		if p+4 <= n {
			v := fgen.Pick(rng, 0, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x00010000, 0x0000FFFF, 0xFFFF0000, n, n-1, rng.IntN(1<<32), rng.IntN(n+1))
			b[p], b[p+1], b[p+2], b[p+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	default:
		if rng.IntN(4) != 0 {
			p &^= 1
		}
		if p+2 <= n {
			v := int(b[p])<<8 | int(b[p+1])
			switch rng.IntN(4) {
			case 0:
				v += rng.IntN(9) - 4
			case 1:
				q := rng.IntN(n)
				if q+2 <= n {
					v = int(b[q])<<8 | int(b[q+1])
				}
			case 2:
				v *= 2
			default:
				v = Word(rng, n)
			}
			b[p], b[p+1] = byte(v>>8), byte(v)
		}
	}
	return b
}
