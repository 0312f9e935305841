// Check C09: character maps encode and decode faithfully and select the right
// subtable.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/encoding/charmap"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

var pick = fgen.Pick[int]

// gen4 fills a map with runs and gaps.
func gen4(rng *rand.Rand, size int) map[int]int {
	m := map[int]int{}
	c := pick(rng, 0, 1, 32, rng.IntN(65536), 0xFF00, 0xFFF0, 0xFFFE)
	if size > 2000 {
		c = 0
	}
	style := rng.IntN(6)
	gid := rng.IntN(65536)
	maxRun := pick(rng, 2, 4, 6, 12, 40)
	for len(m) < size && c <= 0xFFFF {
		run := 1 + rng.IntN(maxRun)
		switch k := rng.IntN(6); {
		case style == 0 || style < 4 && k == 0: // constant delta
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = gid & 0xFFFF
				gid++
				c++
			}
		case style == 1 || k == 1: // random
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = rng.IntN(65536)
				c++
			}
		case k == 2: // constant gid
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = gid & 0xFFFF
				c++
			}
			gid++
		case k == 3: // descending
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = gid & 0xFFFF
				gid--
				c++
			}
		case k == 4: // alternating gaps
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = gid & 0xFFFF
				gid += 1 + rng.IntN(2)
				c += 1 + rng.IntN(2)
			}
		default: // explicit zeros
			for i := 0; i < run && c <= 0xFFFF; i++ {
				m[c] = 0
				c++
			}
		}
		switch rng.IntN(5) {
		case 0, 1:
		case 2:
			c += rng.IntN(4)
		case 3:
			c += rng.IntN(9)
		default:
			if size <= 2000 {
				c += rng.IntN(pick(rng, 10, 300, 5000))
			}
		}
		if rng.IntN(4) == 0 {
			gid = rng.IntN(65536)
		}
		if rng.IntN(8) == 0 {
			gid = pick(rng, 0xFFFE, 0xFFFF, 1, 0xFFF0)
		}
		if size > 2000 && rng.IntN(4) > 0 {
			maxRun = pick(rng, 2, 5, 9, 30)
		}
	}
	for _, x := range []int{0xFFFF, 0xFFFE, 0xFFFD, 0} {
		if rng.IntN(6) == 0 {
			m[x] = rng.IntN(65536)
		}
	}
	return m
}

// bound returns an upper bound for the size of the smallest format 4 subtable.
func bound(m map[int]int) int {
	var keys []int
	for k, v := range m {
		if v != 0 && k != 0xFFFF {
			keys = append(keys, k)
		}
	}
	sort.Ints(keys)
	delta := 1
	for i, k := range keys {
		if i == 0 || k != keys[i-1]+1 || m[k] != (m[keys[i-1]]+1)&0xFFFF {
			delta++
		}
	}
	b := 16 + 8*delta
	if len(keys) > 0 {
		b = min(b, 16+16+2*(keys[len(keys)-1]-keys[0]+1))
	}
	return b
}

func check4(c *h.Case, m map[int]int) []byte {
	rng := c.Rng
	s := cmap.Format4{}
	for k, v := range m {
		s[uint16(k)] = glyph.ID(v)
	}
	lang := uint16(pick(rng, 0, 0, 1, 255, 256, 65535, rng.IntN(65536)))
	var data []byte
	r, _ := h.Catch(func() { data = s.Encode(lang) })
	if r != nil {
		if b := bound(m); b <= 65535 {
			c.Violation("format 4 refused", "mapping with %d entries fits into %d bytes, but Encode panics: %v", len(m), b, r)
		} else {
			c.Count("format 4 mappings refused", 1)
		}
		return nil
	}
	if len(s) != len(m) {
		c.Violation("argument modified", "Encode changed the mapping")
	}
	c.NonTrivial(data)
	c.Max("format 4 bytes", len(data))
	f, err := raw.ParseFormat4(data, true)
	if err != nil {
		c.Violation("format 4 malformed", "%d entries: %v", len(m), err)
		return nil
	}
	if raw.U16(data, 4) != int(lang) {
		c.Violation("language lost", "language %d, want %d", raw.U16(data, 4), lang)
	}
	mm, err := f.Map()
	if err != nil {
		c.Violation("format 4 malformed", "%d entries: %v", len(m), err)
		return nil
	}
	nd, nv := 0, 0
	segs := raw.U16(data, 6) / 2
	for i := 0; i < segs; i++ {
		if raw.U16(data, 16+6*segs+2*i) == 0 {
			nd++
		} else {
			nv++
		}
	}
	c.Count("delta segments", nd)
	c.Count("value segments", nv)
	var want [65536]uint16
	for k, v := range m {
		want[k] = uint16(v)
	}
	for code := 0; code < 65536; code++ {
		if mm[code] != want[code] {
			c.Violation("format 4 encoding", "code %04x encodes to glyph %d, want %d (%d entries)", code, mm[code], want[code], len(m))
			return nil
		}
	}
	c.Eval(65536)
	tab := cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 1}: data}
	if data2 := tab.Encode(); c.Guard("cmap.Decode", func() { tab, err = cmap.Decode(data2) }) && err != nil {
		c.Violation("round trip", "cmap.Decode: %v", err)
		return nil
	}
	var sub cmap.Subtable
	if !c.Guard("Get", func() { sub, err = tab.Get(cmap.Key{PlatformID: 3, EncodingID: 1}) }) {
		return nil
	}
	if err != nil {
		c.Violation("round trip", "Get: %v (%d entries)", err, len(m))
		return nil
	}
	sameLookups(c, "format 4", sub, m, mm)
	return data
}

// sameLookups compares a decoded subtable with the model.
func sameLookups(c *h.Case, what string, sub cmap.Subtable, m map[int]int, _ []uint16) bool {
	rng := c.Rng
	ok := true
	var want [65536]glyph.ID
	for k, v := range m {
		if k < 65536 {
			want[k] = glyph.ID(v)
		}
	}
	for code := rune(0); code < 65536 && ok; code++ {
		if g := sub.Lookup(code); g != want[code] {
			c.Violation(what+" lookup", "code %04x gives glyph %d, want %d", code, g, want[code])
			ok = false
		}
	}
	try := func(code rune) {
		if ok {
			if g := sub.Lookup(code); int(g) != m[int(code)] {
				c.Violation(what+" lookup", "code %04x gives glyph %d, want %d", code, g, m[int(code)])
				ok = false
			}
		}
	}
	r, _ := h.Catch(func() {
		for _, x := range []rune{0x10000, 0x10041, 0x1FFFF, 0x10FFFF, 0x110000, -1} {
			try(x)
		}
		k := 0
		for code := range m {
			if k++; k > 300 {
				break
			}
			try(rune(code))
			try(rune(code) + 1)
			try(rune(code) - 1)
			try(rune(code) ^ 0x10000)
			try(rune(code&0xFFFF) + rune(1+rng.IntN(16))<<16)
		}
	})
	if r != nil {
		c.Violation("panic in Lookup", "%v", r)
		return false
	}
	if rng.IntN(300) == 0 {
		for code := rune(0x10000); code <= 0x10FFFF && ok; code++ {
			try(code)
		}
		c.Count("full code space sweeps", 1)
	}
	c.Eval(65536)
	// code range
	lo, hi := -1, -1
	for k, v := range m {
		if v != 0 {
			if lo < 0 || k < lo {
				lo = k
			}
			hi = max(hi, k)
		}
	}
	if _, is0 := sub.(*cmap.Format0); !is0 && hi >= 0 && ok {
		a, b := sub.CodeRange()
		if int(a) > lo || int(b) < hi {
			c.Violation("code range", "%s: code range %x-%x, mapping covers %x-%x", what, a, b, lo, hi)
		}
	}
	return ok
}

func small4(c *h.Case) {
	m := gen4(c.Rng, pick(c.Rng, 0, 1, 2, 5, 10, 30, 100, 400))
	c.Sample("%d entries", len(m))
	check4(c, m)
}

// tiny4: all patterns over a few neighbouring codes.
func tiny4(c *h.Case) {
	rng := c.Rng
	base := pick(rng, 0, 1, 100, 0xFFF0, 0xFFF4, 0xFFF8, 0x8000)
	n := 4 + rng.IntN(9)
	m := map[int]int{}
	for i := 0; i < n; i++ {
		if base+i > 0xFFFF {
			break
		}
		switch rng.IntN(4) {
		case 0:
		case 1:
			m[base+i] = 50 + i
		case 2:
			m[base+i] = 70 + i
		case 3:
			m[base+i] = 7
		}
	}
	check4(c, m)
}

func dense4(c *h.Case) {
	rng := c.Rng
	size := pick(rng, 3000, 8000, 16000, 30000, 32000, 32500, 40000, 65536)
	m := gen4(rng, size)
	if rng.IntN(3) == 0 {
		m = map[int]int{}
		n := pick(rng, 32750, 32740, 32760, 32730, 32700, 30000, 32751, 32752, 32755)
		off := rng.IntN(30000)
		for i := 0; i < n; i++ {
			m[off+i] = rng.IntN(65536)
		}
	}
	if rng.IntN(6) == 0 { // everything mapped
		m = map[int]int{}
		d := rng.IntN(65536)
		for i := 0; i < 65536; i++ {
			m[i] = (i + d) & 0xFFFF
		}
	}
	if rng.IntN(6) == 0 { // isolated codes near the maximum number of segments
		m = map[int]int{}
		n := pick(rng, 8180, 8188, 8189, 8190, 8191, 8192, 8100)
		for i := 0; i < n; i++ {
			m[i*8] = 1 + rng.IntN(60000)
		}
	}
	c.Sample("%d entries, bound %d", len(m), bound(m))
	check4(c, m)
}

func check12(c *h.Case, m map[int]int) {
	rng := c.Rng
	s := cmap.Format12{}
	for k, v := range m {
		s[uint32(k)] = glyph.ID(v)
	}
	lang := uint16(pick(rng, 0, 0, 1, 256, 65535))
	var data []byte
	if !c.Guard("Format12.Encode", func() { data = s.Encode(lang) }) {
		return
	}
	c.NonTrivial(data)
	c.Max("format 12 bytes", len(data))
	mm, err := raw.ParseFormat12(data)
	if err != nil {
		c.Violation("format 12 malformed", "%v", err)
		return
	}
	if raw.U32(data, 8) != uint32(lang) {
		c.Violation("language lost", "language %d, want %d", raw.U32(data, 8), lang)
	}
	for k, v := range m {
		if mm[k] != v {
			c.Violation("format 12 encoding", "code %x encodes to %d, want %d", k, mm[k], v)
			return
		}
	}
	for k, v := range mm {
		if m[k] != v {
			c.Violation("format 12 encoding", "code %x encodes to %d, want %d", k, v, m[k])
			return
		}
	}
	c.Eval(len(m))
	tab := cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 10}: data}
	data2 := tab.Encode()
	var sub cmap.Subtable
	if !c.Guard("cmap.Decode", func() {
		tab, err = cmap.Decode(data2)
		if err == nil {
			sub, err = tab.Get(cmap.Key{PlatformID: 3, EncodingID: 10})
		}
	}) {
		return
	}
	if err != nil {
		c.Violation("round trip", "format 12 with %d entries: %v", len(m), err)
		return
	}
	sameLookups(c, "format 12", sub, m, nil)
}

func gen12(rng *rand.Rand, size int) map[int]int {
	m := map[int]int{}
	for len(m) < size {
		c := rng.IntN(0x110000)
		switch rng.IntN(5) {
		case 0:
			c = rng.IntN(0x10000)
		case 1:
			c = pick(rng, 0, 0xFFF8, 0xFFFF, 0x10000, 0x10FFFF, 0x10FFF0, 0x1F600)
		}
		run := 1 + rng.IntN(pick(rng, 2, 10, 300))
		if size > 5000 {
			run = 1 + rng.IntN(5000)
		}
		gid := pick(rng, rng.IntN(65536), rng.IntN(200), 0xFFF0, 0xFFFF, 1)
		mode := rng.IntN(4)
		for i := 0; i < run && c+i <= 0x10FFFF && len(m) < size; i++ {
			switch mode {
			case 0, 1:
				m[c+i] = (gid + i) & 0xFFFF
			case 2:
				m[c+i] = gid
			case 3:
				m[c+i] = rng.IntN(65536)
			}
		}
	}
	return m
}

func small12(c *h.Case) {
	m := gen12(c.Rng, pick(c.Rng, 0, 1, 2, 5, 20, 100, 1000))
	c.Sample("%d entries", len(m))
	check12(c, m)
}

func dense12(c *h.Case) {
	m := gen12(c.Rng, pick(c.Rng, 65536, 65535, 30000, 10000))
	c.Sample("%d entries", len(m))
	check12(c, m)
}

// foreign: subtables as found in files.
func foreign(c *h.Case) {
	rng := c.Rng
	type want struct {
		data []byte
		m    map[int]int
		desc string
	}
	var w want
	m := map[int]int{}
	mac := rng.IntN(3) == 0
	key := cmap.Key{PlatformID: 3, EncodingID: 1}
	if mac {
		key = cmap.Key{PlatformID: 1, EncodingID: 0}
	}
	code := func(x int) int {
		if mac {
			return int(charmap.Macintosh.DecodeByte(byte(x)))
		}
		return x
	}
	set := func(x, g int) {
		if g != 0 {
			m[code(x)] = g
		}
	}
	switch rng.IntN(5) {
	case 0:
		w.desc = "format 0"
		d := raw.A16(nil, 0, 262, 0)
		for i := 0; i < 256; i++ {
			g := rng.IntN(256)
			if rng.IntN(3) == 0 {
				g = 0
			}
			d = append(d, byte(g))
			if !mac {
				if g != 0 {
					m[i] = g
				}
			} else {
				set(i, g)
			}
		}
		w.data = d
	case 1:
		w.desc = "format 6"
		first := pick(rng, 0, 32, rng.IntN(65536), 65535, 0xFF00)
		n := min(rng.IntN(pick(rng, 2, 10, 256, 2000)), 65536-first)
		if mac {
			first = rng.IntN(256)
			n = rng.IntN(256 - first + 1)
		}
		d := raw.A16(nil, 6, 10+2*n, 0, first, n)
		for i := 0; i < n; i++ {
			g := pick(rng, 0, rng.IntN(65536), rng.IntN(100), i+1)
			d = raw.A16(d, g)
			set(first+i, g)
		}
		if rng.IntN(8) == 0 { // excess zero, seen in the wild
			d = raw.A16(d, 0)
			copy(d[2:], raw.A16(nil, len(d)))
		}
		w.data = d
	case 2:
		w.desc = "format 12"
		mac = false
		key = cmap.Key{PlatformID: 3, EncodingID: 10}
		n := rng.IntN(pick(rng, 2, 10, 100))
		d := raw.A16(nil, 12, 0)
		d = raw.A32(d, uint32(16+12*n), 0, uint32(n))
		c0, total := 0, 0
		for i := 0; i < n; i++ {
			c0 += rng.IntN(pick(rng, 1, 3, 5000))
			l := 1 + rng.IntN(pick(rng, 1, 10, 500))
			g := rng.IntN(65536 - l)
			if rng.IntN(5) == 0 {
				g = pick(rng, 0, 1, 65536-l)
			}
			d = raw.A32(d, uint32(c0), uint32(c0+l-1), uint32(g))
			for k := 0; k < l; k++ {
				if g+k != 0 {
					m[c0+k] = g + k
				}
			}
			c0 += l
			total += l
		}
		w.data = d
	default:
		w.desc = "format 4"
		maxCode := 0xFFFF
		if mac {
			maxCode = 255
		}
		type seg struct{ s, e, delta, ro int }
		var segs []seg
		pos := rng.IntN(pick(rng, 1, 100, 5000))
		n := rng.IntN(pick(rng, 2, 6, 40))
		for i := 0; i < n; i++ {
			pos += rng.IntN(pick(rng, 1, 3, 600))
			l := 1 + rng.IntN(pick(rng, 1, 6, 60))
			if pos+l > maxCode {
				break
			}
			segs = append(segs, seg{s: pos, e: pos + l - 1, delta: pick(rng, 0, rng.IntN(65536), 1, 65535)})
			pos += l
		}
		segs = append(segs, seg{s: 0xFFFF, e: 0xFFFF, delta: 1})
		if !mac && rng.IntN(6) == 0 && len(segs) > 1 {
			// last segment may be an ordinary one which ends at 0xFFFF
			s := &segs[len(segs)-1]
			s.s = max(0xFFFF-rng.IntN(20), segs[len(segs)-2].e+1)
			s.delta = rng.IntN(65536)
		} else if rng.IntN(6) == 0 && !mac {
			segs[len(segs)-1].delta = rng.IntN(65536)
		}
		var arr []int
		k := len(segs)
		for i := range segs {
			s := &segs[i]
			if s.s == 0xFFFF || rng.IntN(2) == 0 {
				continue
			}
			l := s.e - s.s + 1
			var p int
			if len(arr) >= l && rng.IntN(3) == 0 { // share
				p = rng.IntN(len(arr) - l + 1)
			} else {
				if rng.IntN(6) == 0 {
					arr = append(arr, rng.IntN(65536))
				}
				p = len(arr)
				for j := 0; j < l; j++ {
					arr = append(arr, pick(rng, 0, rng.IntN(65536), rng.IntN(300), 65535))
				}
			}
			s.ro = 2 * (k - i + p)
		}
		e := 0
		for 2<<e <= k {
			e++
		}
		d := raw.A16(nil, 4, 16+8*k+2*len(arr), 0, 2*k, 2<<e, e, 2*k-2<<e)
		for _, s := range segs {
			d = raw.A16(d, s.e)
		}
		d = raw.A16(d, 0)
		for _, s := range segs {
			d = raw.A16(d, s.s)
		}
		for _, s := range segs {
			d = raw.A16(d, s.delta)
		}
		for _, s := range segs {
			d = raw.A16(d, s.ro)
		}
		d = raw.A16(d, arr...)
		for i, s := range segs {
			for x := s.s; x <= s.e; x++ {
				g := (x + s.delta) & 0xFFFF
				if s.ro != 0 {
					g = arr[s.ro/2-(k-i)+x-s.s]
					if g != 0 {
						g = (g + s.delta) & 0xFFFF
					}
				}
				if mac && x > 255 {
					continue
				}
				set(x, g)
			}
		}
		if f, err := raw.ParseFormat4(d, false); err != nil {
			panic(err)
		} else if !mac {
			for i := 0; i < 50; i++ {
				x := rng.IntN(65536)
				if len(segs) > 1 && i%2 == 0 {
					s := segs[rng.IntN(len(segs))]
					x = s.s + rng.IntN(s.e-s.s+1)
				}
				if g, err := f.Lookup(x); err != nil || g != m[x] {
					panic("harness: inconsistent format 4 decoders")
				}
			}
		}
		w.data = d
	}
	c.NonTrivial(w.data)
	c.Count(fmt.Sprintf("%s mac=%v", w.desc, mac), 1)
	c.Sample("%s, %d bytes, mac=%v, %d codes", w.desc, len(w.data), mac, len(m))
	hdr := raw.A16(nil, 0, 1, int(key.PlatformID), int(key.EncodingID))
	hdr = raw.A32(hdr, 12)
	data := append(hdr, w.data...)
	orig := bytes.Clone(data)
	var tab cmap.Table
	var sub cmap.Subtable
	var err error
	if !c.Guard("decode", func() {
		tab, err = cmap.Decode(data)
		if err == nil {
			sub, err = tab.Get(key)
		}
	}) {
		return
	}
	if err != nil {
		c.Violation("legal subtable rejected", "%s: %v", w.desc, err)
		return
	}
	if !bytes.Equal(data, orig) {
		c.Violation("argument modified", "decoding changed the input")
	}
	if _, is0 := sub.(*cmap.Format0); mac && is0 && w.desc == "format 0" {
		// fall through: lookups must still follow the Mac Roman encoding
	}
	sameLookups(c, w.desc, sub, m, nil)
	if best, err := tab.GetBest(); err != nil {
		c.Violation("GetBest", "%s, key %v: %v", w.desc, key, err)
	} else if !reflect.DeepEqual(best, sub) {
		c.Violation("GetBest", "%s, key %v: GetBest and Get differ", w.desc, key)
	}
}

// table: sets of keys.
func table(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(pick(rng, 2, 6, 14))
	ss := cmap.Table{}
	var pool [][]byte
	mk := func(lang uint16) []byte {
		switch rng.IntN(5) {
		case 0:
			f := &cmap.Format0{}
			copy(f.Data[:], fgen.Bytes(rng, 256))
			return f.Encode(lang)
		case 1:
			f := cmap.Format12{}
			for k, v := range gen12(rng, rng.IntN(20)) {
				f[uint32(k)] = glyph.ID(v)
			}
			return f.Encode(lang)
		case 2: // format 6
			k := rng.IntN(5)
			d := raw.A16(nil, 6, 10+2*k, int(lang), rng.IntN(1000), k)
			for i := 0; i < k; i++ {
				d = raw.A16(d, rng.IntN(100))
			}
			return d
		case 3: // other formats
			switch pick(rng, 2, 10, 13, 14, 8) {
			case 2:
				d := raw.A16(nil, 2, 6+512+8, int(lang))
				d = append(d, make([]byte, 512)...)
				return raw.A16(d, 0, 0, 0, 0)
			case 10:
				d := raw.A16(nil, 10, 0)
				d = raw.A32(d, 22, uint32(lang), 65, 1)
				return raw.A16(d, 7)
			case 13:
				d := raw.A16(nil, 13, 0)
				return raw.A32(d, 28, uint32(lang), 1, 65, 70, 3)
			case 8:
				d := raw.A16(nil, 8, 0)
				d = raw.A32(d, 8208+12, uint32(lang))
				d = append(d, make([]byte, 8192)...)
				return raw.A32(d, 1, 65, 70, 3)
			default:
				d := raw.A16(nil, 14)
				return raw.A32(d, 10, 0)
			}
		default:
			f := cmap.Format4{}
			for k, v := range gen4(rng, rng.IntN(20)) {
				f[uint16(k)] = glyph.ID(v)
			}
			return f.Encode(lang)
		}
	}
	for i := 0; i < n; i++ {
		key := cmap.Key{PlatformID: uint16(pick(rng, 0, 1, 3, 3, rng.IntN(5))), EncodingID: uint16(pick(rng, 0, 1, 3, 4, 10, rng.IntN(65536)))}
		if key.PlatformID == 1 {
			key.Language = uint16(pick(rng, 0, 0, 1, 12, 65535, rng.IntN(65536)))
		}
		var data []byte
		if len(pool) > 0 && rng.IntN(3) == 0 {
			data = pool[rng.IntN(len(pool))]
		} else {
			data = mk(key.Language)
		}
		pool = append(pool, data)
		// the language is part of the data
		if key.PlatformID == 1 {
			rec := raw.U16(data, 0)
			switch {
			case rec >= 8 && rec <= 13:
				key.Language = uint16(raw.U16(data, 10))
			case rec == 14:
				key.Language = 0
			default:
				key.Language = uint16(raw.U16(data, 4))
			}
		}
		ss[key] = data
	}
	before := fmt.Sprint(ss)
	var enc []byte
	if !c.Guard("Table.Encode", func() { enc = ss.Encode() }) {
		return
	}
	if fmt.Sprint(ss) != before {
		c.Violation("argument modified", "Table.Encode changed the table")
	}
	c.NonTrivial(enc)
	c.Eval(1)
	c.Sample("%d keys, %d bytes", len(ss), len(enc))
	recs, err := raw.ParseCmap(enc)
	if err != nil {
		// platforms other than 1 may share the encoding id with different languages
		c.Violation("cmap table malformed", "%v", err)
		return
	}
	if len(recs) != len(ss) {
		c.Violation("cmap table", "%d records for %d keys", len(recs), len(ss))
		return
	}
	uniq := map[string]int{}
	total := 4 + 8*len(ss)
	for _, r := range recs {
		k := cmap.Key{PlatformID: uint16(r.Platform), EncodingID: uint16(r.Encoding)}
		if r.Platform == 1 {
			k.Language = uint16(r.Language)
		}
		if !bytes.Equal(ss[k], r.Data) {
			c.Violation("cmap table", "data for %v wrong", k)
			return
		}
		if o, ok := uniq[string(r.Data)]; ok && o != r.Offset {
			c.Count("identical subtables stored twice", 1)
		} else if !ok {
			uniq[string(r.Data)] = r.Offset
			total += len(r.Data)
		} else {
			c.Count("shared subtables", 1)
		}
	}
	if len(enc) > total {
		c.Violation("shared subtables not shared", "table has %d bytes, want %d", len(enc), total)
	}
	var back cmap.Table
	if !c.Guard("cmap.Decode", func() { back, err = cmap.Decode(enc) }) {
		return
	}
	if err != nil {
		c.Violation("round trip", "cmap.Decode: %v", err)
		return
	}
	if len(back) != len(ss) {
		c.Violation("round trip", "%d keys, want %d", len(back), len(ss))
		return
	}
	for k, d := range ss {
		if !bytes.Equal(back[k], d) {
			c.Violation("round trip", "key %v lost or changed", k)
			return
		}
	}
	enc2 := back.Encode()
	if !bytes.Equal(enc, enc2) {
		c.Violation("round trip", "re-encoding gives different bytes")
	}
	for i := 0; i < 3; i++ {
		if !bytes.Equal(ss.Encode(), enc) {
			c.Violation("not deterministic", "Table.Encode gives different bytes")
			return
		}
	}
}

// best: the choice of subtable.
func best(c *h.Case) {
	rng := c.Rng
	type cand struct {
		p, e  uint16
		level int // 3 full, 2 BMP, 1 legacy
	}
	cands := []cand{{3, 10, 3}, {0, 4, 3}, {3, 1, 2}, {0, 3, 2}, {1, 0, 1}}
	ss := cmap.Table{}
	want := 0
	levels := map[int]int{}
	for i, x := range cands {
		if rng.IntN(2) == 0 {
			continue
		}
		gid := glyph.ID(10 + i)
		var d []byte
		switch {
		case rng.IntN(6) == 0: // present but not supported
			d = raw.A16(nil, 14)
			d = raw.A32(d, 10, 0)
			ss[cmap.Key{PlatformID: x.p, EncodingID: x.e}] = d
			continue
		case x.level == 3 || rng.IntN(3) == 0 && x.p != 1:
			d = cmap.Format12{'A': gid}.Encode(0)
		case x.p == 1 && rng.IntN(2) == 0:
			f := &cmap.Format0{}
			f.Data['A'] = byte(gid)
			d = f.Encode(0)
		default:
			d = cmap.Format4{'A': gid}.Encode(0)
		}
		ss[cmap.Key{PlatformID: x.p, EncodingID: x.e}] = d
		levels[int(gid)] = x.level
		want = max(want, x.level)
	}
	// other subtables which must not be chosen
	if rng.IntN(2) == 0 {
		ss[cmap.Key{PlatformID: 1, EncodingID: uint16(1 + rng.IntN(30))}] = cmap.Format4{'A': 99}.Encode(0)
	}
	if rng.IntN(3) == 0 {
		ss[cmap.Key{PlatformID: 3, EncodingID: uint16(2 + rng.IntN(5))}] = cmap.Format4{'A': 99}.Encode(0)
	}
	c.Eval(1)
	c.NonTrivial([]byte(fmt.Sprint(len(ss), ss)))
	var sub cmap.Subtable
	var err error
	if !c.Guard("GetBest", func() { sub, err = ss.GetBest() }) {
		return
	}
	if want == 0 {
		if err == nil {
			c.Violation("GetBest", "found a subtable in %v", ss)
		}
		return
	}
	if err != nil {
		c.Violation("GetBest", "nothing found: %v", err)
		return
	}
	g := int(sub.Lookup('A'))
	c.Count(fmt.Sprintf("chosen %v", cands[max(0, min(4, g-10))]), 1)
	if levels[g] != want {
		c.Violation("GetBest", "chose glyph %d of level %d, want level %d", g, levels[g], want)
	}
	// the same through a font file
	keys := make([]cmap.Key, 0)
	for k := range ss {
		keys = append(keys, k)
	}
	for _, k := range keys {
		if s, err := ss.GetNoLang(k.PlatformID, k.EncodingID); err == nil && s.Lookup('A') == 0 {
			c.Violation("GetNoLang", "key %v: lookup of 'A' fails", k)
		}
	}
}

// install: Font.InstallCMap.
func install(c *h.Case) {
	rng := c.Rng
	var m map[int]int
	var s cmap.Subtable
	if rng.IntN(2) == 0 {
		m = gen4(rng, 1+rng.IntN(40))
		f := cmap.Format4{}
		for k, v := range m {
			f[uint16(k)] = glyph.ID(v)
		}
		s = f
	} else {
		m = gen12(rng, 1+rng.IntN(40))
		f := cmap.Format12{}
		for k, v := range m {
			f[uint32(k)] = glyph.ID(v)
		}
		s = f
	}
	f := &sfnt.Font{}
	if !c.Guard("InstallCMap", func() { f.InstallCMap(s) }) {
		return
	}
	full := false
	for k := range m {
		if k > 0xFFFF {
			full = true
		}
	}
	c.Eval(1)
	c.NonTrivial([]byte(fmt.Sprint(m)))
	want := map[cmap.Key]bool{{PlatformID: 0, EncodingID: 3}: true, {PlatformID: 3, EncodingID: 1}: true}
	if full {
		want = map[cmap.Key]bool{{PlatformID: 0, EncodingID: 4}: true, {PlatformID: 3, EncodingID: 10}: true}
	}
	for k := range f.CMapTable {
		if !want[k] {
			c.Violation("InstallCMap", "key %v for a mapping with full=%v", k, full)
		}
	}
	if len(f.CMapTable) != len(want) {
		c.Violation("InstallCMap", "%d subtables", len(f.CMapTable))
	}
	sub, err := f.CMapTable.GetBest()
	if err != nil {
		c.Violation("InstallCMap", "GetBest: %v", err)
		return
	}
	sameLookups(c, "installed cmap", sub, m, nil)
}

// third: golang.org/x/image reads the encoded tables.
func third(c *h.Case) {
	rng := c.Rng
	n := 65535
	var m map[int]int
	f := &sfnt.Font{}
	if rng.IntN(2) == 0 {
		m = gen4(rng, 1+rng.IntN(200))
		s := cmap.Format4{}
		for k, v := range m {
			s[uint16(k)] = glyph.ID(v)
		}
		f.InstallCMap(s)
	} else {
		m = gen12(rng, 1+rng.IntN(200))
		s := cmap.Format12{}
		for k, v := range m {
			s[uint32(k)] = glyph.ID(v)
		}
		f.InstallCMap(s)
	}
	min := &raw.Min{NumGlyphs: n, UnitsPerEm: 1000, LocaFormat: 0}
	tables := min.Tables()
	tables["glyf"] = []byte{0, 0}
	tables["loca"] = make([]byte, 2*(n+1))
	tables["cmap"] = f.CMapTable.Encode()
	data := raw.Build(0x00010000, tables, rng)
	xf, err := xsfnt.Parse(data)
	if err != nil {
		c.Count("x/image: "+err.Error(), 1)
		return
	}
	c.NonTrivial(tables["cmap"])
	var buf xsfnt.Buffer
	try := func(code int) {
		g, err := xf.GlyphIndex(&buf, rune(code))
		if err != nil {
			if m[code] != 0xFFFF {
				c.Violation("third party disagrees", "code %x: %v", code, err)
			}
			return
		}
		if int(g) != m[code] && m[code] != 0xFFFF {
			c.Violation("third party disagrees", "code %x: x/image finds glyph %d, want %d", code, g, m[code])
		}
		c.Count("lookups agreed with x/image", 1)
	}
	for code := range m {
		try(code)
		if code < 0x10FFFF {
			try(code + 1)
		}
		if code > 0 {
			try(code - 1)
		}
		if c.Failed() {
			return
		}
	}
	c.Eval(1)
}

func main() {
	h.Main(&h.Check{
		ID:    "C09",
		Level: "exploration",
		Rule:  "random character maps are encoded; the emitted bytes are decoded by an independent implementation of the specification and by the library, and every code point is compared with the generating map; hand-made subtables in formats 0, 4, 6 and 12 and tables with arbitrary key sets are read back. Non-trivial: distinct encoded subtables/tables",
		Assumptions: []string{
			"the language of a cmap.Key is the one stored in the subtable for Macintosh subtables, and 0 otherwise",
			"subtables for (1,0) use the Mac Roman encoding (reference: golang.org/x/text charmap.Macintosh)",
		},
		Groups: []h.Group{
			{Name: "small4", Quick: 4000, Run: small4},
			{Name: "tiny4", Quick: 5000, Run: tiny4},
			{Name: "dense4", Quick: 24, Thorough: 240, Run: dense4},
			{Name: "small12", Quick: 1500, Run: small12},
			{Name: "dense12", Quick: 30, Run: dense12},
			{Name: "foreign", Quick: 5000, Run: foreign},
			{Name: "table", Quick: 4000, Run: table},
			{Name: "best", Quick: 3000, Run: best},
			{Name: "install", Quick: 1500, Run: install},
			{Name: "third", Quick: 400, Run: third},
		},
	})
}
