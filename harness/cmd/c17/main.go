// C17: the buffered reader behaves like a random-access view of its input.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"seehuhn.de/go/sfnt/parser"

	"verif/h"
)

// shortReader is a ReadSeekSizer over data which returns short reads.
type shortReader struct {
	data []byte
	pos  int64
	mode int
	rng  *rand.Rand

	faults int
}

var errTemporary = errors.New("temporary fault")

func (s *shortReader) Size() int64 { return int64(len(s.data)) }
func (s *shortReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		s.pos = off
	case io.SeekCurrent:
		s.pos += off
	case io.SeekEnd:
		s.pos = int64(len(s.data)) + off
	}
	return s.pos, nil
}
func (s *shortReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if s.mode == 5 && s.rng.IntN(4) == 0 {
		// a temporary fault, possibly after some data
		n = 0
		if s.rng.IntN(2) == 0 {
			n = copy(p[:1+s.rng.IntN(len(p))], s.data[s.pos:])
		}
		s.pos += int64(n)
		s.faults++
		return n, errTemporary
	}
	switch s.mode {
	case 1: // one byte at a time
		n = 1
	case 2, 5: // random chunk
		n = 1 + s.rng.IntN(len(p))
	case 3: // random chunk, data together with EOF, sometimes nothing at all
		n = 1 + s.rng.IntN(min(len(p), 300))
		if s.rng.IntN(8) == 0 {
			return 0, nil
		}
	case 4: // stops at multiples of 512
		n = min(n, int(512-s.pos%512))
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += int64(n)
	if s.mode >= 2 && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

type op struct {
	kind int
	arg  int64
}

const (
	opSeek = iota
	opDiscard
	opU8
	opU16
	opI16
	opU32
	opSlice
	opBytes
	opRead
	opPos
	nOps
)

var opName = []string{"SeekPos", "Discard", "ReadUint8", "ReadUint16", "ReadInt16", "ReadUint32", "ReadUint16Slice", "ReadBytes", "Read", "Pos"}

func (o op) String() string {
	switch o.kind {
	case opSeek, opDiscard, opBytes, opRead:
		return fmt.Sprintf("%s(%d)", opName[o.kind], o.arg)
	}
	return opName[o.kind]
}

// run executes the operations against the parser and the model.
func run(c *h.Case, data []byte, mode int, ops []op) {
	var r parser.ReadSeekSizer
	sr := &shortReader{}
	if mode == 0 {
		r = bytes.NewReader(data)
	} else if mode == 6 {
		before := c.Rng.IntN(3000)
		outer := make([]byte, before+len(data)+c.Rng.IntN(3000))
		copy(outer[before:], data)
		r = io.NewSectionReader(bytes.NewReader(outer), int64(before), int64(len(data)))
	} else {
		sr = &shortReader{data: data, mode: mode, rng: c.Rng}
		r = sr
	}
	p := parser.New(r)
	size := int64(len(data))
	pos := int64(0)
	refills := false
	for i, o := range ops {
		bad := func(format string, args ...any) {
			c.Violation("parser:"+opName[o.kind], "input length %d, reader mode %d, ops %v, step %d (model position %d): %s",
				len(data), mode, ops, i, pos, fmt.Sprintf(format, args...))
		}
		avail := size - pos
		if avail < 0 {
			avail = 0
		}
		start := pos
		failed := false
		faults := sr.faults
		// fixed checks a read of n bytes
		checkErr := func(n int64, err error) (ok bool) {
			want := avail >= n
			if err != nil && sr.faults > faults && errors.Is(err, errTemporary) {
				failed = true
				c.Count("temporary faults reported", 1)
				return false
			}
			if want && err != nil {
				bad("unexpected error %v", err)
				return false
			}
			if !want && err == nil {
				bad("no error although the read passes the end of the input")
				return false
			}
			if !want {
				if !errors.Is(err, io.ErrUnexpectedEOF) {
					bad("error is %v instead of ErrUnexpectedEOF", err)
					return false
				}
				failed = true
				c.Count("eof errors seen", 1)
			}
			return want
		}
		switch o.kind {
		case opSeek:
			if err := p.SeekPos(o.arg); err != nil {
				bad("error %v", err)
				return
			}
			pos = o.arg
		case opDiscard:
			if err := p.Discard(int(o.arg)); err != nil {
				bad("error %v", err)
				return
			}
			pos += o.arg
		case opU8:
			v, err := p.ReadUint8()
			if checkErr(1, err) {
				if v != data[pos] {
					bad("got %#x want %#x", v, data[pos])
				}
				pos++
			}
		case opU16, opI16:
			var v uint16
			var err error
			if o.kind == opU16 {
				v, err = p.ReadUint16()
			} else {
				var w int16
				w, err = p.ReadInt16()
				v = uint16(w)
			}
			if checkErr(2, err) {
				want := uint16(data[pos])<<8 | uint16(data[pos+1])
				if v != want {
					bad("got %#x want %#x", v, want)
				}
				pos += 2
			}
		case opU32:
			v, err := p.ReadUint32()
			if checkErr(4, err) {
				want := uint32(data[pos])<<24 | uint32(data[pos+1])<<16 | uint32(data[pos+2])<<8 | uint32(data[pos+3])
				if v != want {
					bad("got %#x want %#x", v, want)
				}
				pos += 4
			}
		case opSlice:
			v, err := p.ReadUint16Slice()
			need := int64(2)
			n := 0
			if avail >= 2 {
				n = int(data[pos])<<8 | int(data[pos+1])
				need = 2 + 2*int64(n)
			}
			if checkErr(need, err) {
				if len(v) != n {
					bad("got %d values, want %d", len(v), n)
					return
				}
				for k, x := range v {
					q := pos + 2 + 2*int64(k)
					want := uint16(data[q])<<8 | uint16(data[q+1])
					if x != want {
						bad("element %d: got %#x want %#x", k, x, want)
						return
					}
				}
				pos += need
			}
		case opBytes:
			b, err := p.ReadBytes(int(o.arg))
			if o.arg == 0 && pos > size {
				failed = true
				break // reading nothing beyond the end: not specified
			}
			if checkErr(o.arg, err) {
				if !bytes.Equal(b, data[pos:pos+o.arg]) {
					bad("wrong data (%d bytes returned)", len(b))
					return
				}
				pos += o.arg
			}
		case opRead:
			buf := make([]byte, o.arg)
			n, err := p.Read(buf)
			if o.arg == 0 && pos > size {
				failed = true
				break
			}
			if checkErr(o.arg, err) {
				if n != len(buf) {
					bad("returned %d", n)
				}
				if !bytes.Equal(buf, data[pos:pos+o.arg]) {
					bad("wrong data")
					return
				}
				pos += o.arg
			} else if failed {
				if n < 0 || int64(n) > avail || n >= len(buf) {
					bad("failed read reports %d bytes, %d were available", n, avail)
				} else if n > 0 && !bytes.Equal(buf[:n], data[pos:pos+int64(n)]) {
					bad("failed read returned wrong partial data")
				}
				if got := p.Pos(); !c.Failed() && got != pos+int64(n) {
					bad("failed read reports %d bytes but the position moved from %d to %d", n, pos, got)
				}
			}
		}
		if c.Failed() {
			return
		}
		got := p.Pos()
		if failed {
			// a failed read consumed some prefix of the input (possibly none)
			if got < start || got > max(start, size) {
				bad("position %d after a failed read", got)
				return
			}
			pos = got
		} else if got != pos {
			bad("Pos() = %d, want %d", got, pos)
			return
		}
		if s := p.Size(); s != size {
			bad("Size() = %d, want %d", s, size)
			return
		}
		if pos > 1024 || pos < start {
			refills = true
		}
	}
	c.Count("operations checked", len(ops))
	if refills {
		c.NonTrivial(len(data), mode, fmt.Sprint(ops))
	}
}

var lengths = []int{0, 1, 2, 3, 5, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 2050, 3071, 3072, 3073, 4096, 5000}

func mkData(rng *rand.Rand, n int) []byte {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(rng.Uint32())
	}
	// plant small slice counts at places where the exhaustive sequences look
	for _, q := range []int{0, 1, 2, 1020, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 3072} {
		if q+1 < n {
			data[q] = 0
			if rng.IntN(3) == 0 {
				data[q] = byte(rng.IntN(3))
			}
		}
	}
	return data
}

func alphabet(n int) []op {
	s := int64(n)
	a := []op{
		{opSeek, 0}, {opSeek, 1}, {opSeek, 1022}, {opSeek, 1023}, {opSeek, 1024}, {opSeek, 1025}, {opSeek, 2047},
		{opSeek, max(0, s-1)}, {opSeek, s}, {opSeek, s + 1}, {opSeek, max(0, s-4)},
		{opDiscard, 1}, {opDiscard, 1023}, {opDiscard, 1024},
		{opU8, 0}, {opU16, 0}, {opU32, 0}, {opSlice, 0},
		{opBytes, 0}, {opBytes, 2}, {opBytes, 1023}, {opBytes, 1024},
		{opRead, 3}, {opRead, 1024}, {opRead, 1025}, {opRead, 2049},
		{opI16, 0},
	}
	return a
}

func main() {
	seqLen := 3
	_ = seqLen
	h.Main(&h.Check{
		ID:    "C17",
		Level: "exploration",
		Rule: "a case is (input, reader kind, operation sequence), checked after every operation against a byte-slice model; " +
			"non-trivial: the sequence leaves the first buffer or moves backwards; group exh enumerates all sequences of length 3 (thorough: 4) over the boundary alphabet",
		Assumptions: []string{
			"the underlying reader obeys the io.Reader contract",
			"a read during which the underlying reader reports a temporary fault may fail with that fault (without losing or misplacing data for later reads)",
		},
		MemLimitGB: 4,
		Groups: []h.Group{
			{Name: "exh", Quick: len(lengths) * 3 * 27, Thorough: len(lengths) * 3 * 27, Run: func(c *h.Case) {
				// one case: fixed length, reader kind and first operation
				n := lengths[c.Index%len(lengths)]
				k := c.Index / len(lengths)
				mode := []int{0, 1, 4}[k%3]
				k /= 3
				a := alphabet(n)
				data := mkData(c.Rng, n)
				depth := 3
				if c.Tier == "thorough" && mode != 1 {
					depth = 4
				}
				ops := make([]op, depth)
				ops[0] = a[k]
				var rec func(i int)
				cnt := 0
				rec = func(i int) {
					if c.Failed() {
						return
					}
					if i == depth {
						run(c, data, mode, ops)
						cnt++
						return
					}
					for _, o := range a {
						ops[i] = o
						rec(i + 1)
					}
				}
				rec(1)
				c.Eval(cnt)
				if k == 3 {
					c.Sample("length %d, reader mode %d, first op %v: %d sequences", n, mode, a[k], cnt)
				}
			}},
			{Name: "random", Quick: 60000, Thorough: 3000000, Run: func(c *h.Case) {
				rng := c.Rng
				n := lengths[rng.IntN(len(lengths))]
				if rng.IntN(2) == 0 {
					n = rng.IntN(5001)
				}
				data := mkData(rng, n)
				mode := rng.IntN(7)
				m := 1 + rng.IntN(60)
				ops := make([]op, m)
				small := rng.IntN(2) == 0
				for i := range ops {
					o := op{kind: rng.IntN(nOps)}
					switch o.kind {
					case opSeek:
						switch rng.IntN(5) {
						case 0:
							o.arg = int64(max(0, 1024*rng.IntN(5)-2+rng.IntN(5)))
						case 1:
							o.arg = int64(max(0, n-2+rng.IntN(5)))
						case 2:
							o.arg = int64(rng.Uint64N(1 << 40))
						default:
							o.arg = int64(rng.IntN(n + 1))
						}
					case opDiscard:
						o.arg = int64(rng.IntN(20))
						if rng.IntN(3) == 0 {
							o.arg = int64(rng.IntN(1100))
						}
					case opBytes:
						o.arg = int64(rng.IntN(1025))
						if small {
							o.arg = int64(rng.IntN(40))
						}
						if rng.IntN(10) == 0 {
							o.arg = 1024 - int64(rng.IntN(2))
						}
					case opRead:
						o.arg = int64(rng.IntN(3000))
						if small {
							o.arg = int64(rng.IntN(60))
						}
						if rng.IntN(10) == 0 {
							o.arg = 1024 * int64(1+rng.IntN(3))
						}
					}
					ops[i] = o
				}
				run(c, data, mode, ops)
				c.Sample("length %d, reader mode %d: %v", n, mode, ops)
			}},
			{Name: "random-sequential", Quick: 4000, Run: func(c *h.Case) {
				// long runs of fixed-size reads with hardly any seeks
				rng := c.Rng
				n := rng.IntN(5001)
				data := mkData(rng, n)
				ops := make([]op, 1500)
				for i := range ops {
					ops[i] = op{kind: opU8 + rng.IntN(4)}
					switch rng.IntN(60) {
					case 0:
						ops[i] = op{opSeek, int64(rng.IntN(n + 1))}
					case 1:
						ops[i] = op{opBytes, int64(rng.IntN(1025))}
					case 2:
						ops[i] = op{opDiscard, int64(rng.IntN(100))}
					}
				}
				run(c, data, rng.IntN(7), ops)
			}},
		},
	})
}
