// C02: decoders are total on untrusted bytes.
package main

import (
	"fmt"
	"math/rand/v2"
	"runtime/metrics"
	"syscall"

	"verif/fgen"
	"verif/h"
	"verif/mut"
)

// ----- the monitor -----

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)*1e-6
}

func allocated() int {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return int(s[0].Value.Uint64())
}

// A call may use cpuFixed seconds and cpuByte seconds per byte.
const (
	cpuFixed = 15.0
	cpuByte  = 30e-6
)

type outcome struct {
	ok    bool
	err   string
	alloc int
	cpu   float64
}

// shape removes the digits from an error message.
func shape(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s) && len(b) < 80; i++ {
		if s[i] >= '0' && s[i] <= '9' {
			if len(b) == 0 || b[len(b)-1] != '#' {
				b = append(b, '#')
			}
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

// probe calls a decoder, and the accessors for what it returns.
func probe(c *h.Case, d *decoder, in input, what string) (o outcome) {
	c.Eval(1)
	c.Count("bytes decoded", in.size())
	c.Max("largest input", in.size())
	var use func(u user)
	var err error
	a, t := allocated(), cpuSeconds()
	if !c.Guard(d.name, func() { use, err = d.decode(in) }) {
		c.Count("panics "+d.name, 1)
		o.err = "panic"
		return
	}
	o.cpu = cpuSeconds() - t
	o.alloc = allocated() - a
	limit := d.allocs + d.perByte*in.size()
	c.Max("allocation, percent of limit: "+d.name, o.alloc*100/limit)
	c.Max("KiB allocated: "+d.name, o.alloc/1024)
	c.Max("CPU milliseconds: "+d.name, int(o.cpu*1000))
	if o.alloc > limit {
		c.Violation("allocations:"+d.name, "%s (%s): %d bytes allocated for an input of %d bytes, the limit is %d", d.name, what, o.alloc, in.size(), limit)
	}
	if max := cpuFixed + cpuByte*float64(in.size()); o.cpu > max {
		c.Violation("time:"+d.name, "%s (%s): %.1f s of CPU time for an input of %d bytes, the limit is %.1f s", d.name, what, o.cpu, in.size(), max)
	}
	if err != nil {
		o.err = shape(err.Error())
		c.Count("rejected: "+d.name, 1)
		c.NonTrivial(d.name, o.err)
		if use != nil {
			c.Count("value and error", 1)
		}
		return
	}
	o.ok = true
	c.Count("accepted: "+d.name, 1)
	c.NonTrivial(d.name, in.a, in.b, in.n)
	if o.cpu > 0.5 && c.Rng.IntN(4) > 0 {
		c.Count("large values not used any further", 1)
		return
	}
	t = cpuSeconds()
	use(func(name string, fn func()) {
		c.Count("accessor calls", 1)
		c.Guard(d.name+"/"+name, fn)
	})
	c.Max("CPU milliseconds, accessors: "+d.name, int((cpuSeconds()-t)*1000))
	return
}

// ----- workloads -----

// change mutates an input.
func change(rng *rand.Rand, d *decoder, in input, k int) input {
	switch {
	case d.two && rng.IntN(3) == 0:
		in.b = mut.Bytes(rng, in.b, k)
	default:
		in.a = mut.Bytes(rng, in.a, k)
	}
	if rng.IntN(10) == 0 {
		in.n = fgen.Pick(rng, 0, 1, 2, in.n+1, rng.IntN(65536))
		if d.name == "coverage" || d.name == "coverage set" || d.name == "classdef" {
			in.n = rng.IntN(len(in.a) + 2)
		}
	}
	return in
}

func pick(c *h.Case) *decoder { return decoders[c.Index%len(decoders)] }

func mutations(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	n := 150
	if d.name == "sfnt" || d.name == "header" {
		n = 25
	}
	for i := 0; i < n; {
		in := d.seed(rng)
		if len(in.a) > 200000 {
			n = min(n, 10)
		}
		if o := probe(c, d, in, "not changed"); o.ok {
			c.Count("unchanged inputs accepted: "+d.name, 1)
		}
		for j := 0; j < 10 && i < n; j++ {
			i++
			probe(c, d, change(rng, d, in, 1+rng.IntN(6)), "mutated")
			if c.Failed() {
				return
			}
		}
	}
	c.Sample("%s: %d mutated inputs", d.name, n)
}

// small returns a short valid input.
func small(rng *rand.Rand, d *decoder, limit int) input {
	best := d.seed(rng)
	for i := 0; i < 30 && best.size() > limit; i++ {
		in := d.seed(rng)
		if in.size() < best.size() {
			best = in
		}
	}
	return best
}

func truncations(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	in := small(rng, d, 1500)
	step := 1 + len(in.a)/1500
	for i := rng.IntN(step); i < len(in.a); i += step {
		x := in
		// there is no spare capacity to read from
		x.a = append(make([]byte, 0, i), in.a[:i]...)
		probe(c, d, x, "truncated")
		if c.Failed() {
			return
		}
	}
	if d.two {
		for i := 0; i < len(in.b) && i < 1000; i++ {
			x := in
			x.b = append(make([]byte, 0, i), in.b[:i]...)
			probe(c, d, x, "truncated")
			if c.Failed() {
				return
			}
		}
	}
	c.Sample("%s: prefixes of %d bytes", d.name, in.size())
}

func words(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	limit := 500
	if d.name == "sfnt" {
		limit = 2000
	}
	in := small(rng, d, limit)
	t := cpuSeconds()
	step := 1
	if 12*in.size() > 8000 {
		step = 1 + 12*in.size()/8000
	}
	try := func(data []byte, fn func(b []byte) input) {
		for p := rng.IntN(step); p < len(data); p += step {
			if cpuSeconds()-t > 10 {
				return
			}
			for k := 0; k < 12; k++ {
				b := append(make([]byte, 0, len(data)), data...)
				old := 0
				if p+2 <= len(b) {
					old = int(b[p])<<8 | int(b[p+1])
				}
				v := 0
				switch k {
				case 0:
				case 1:
					v = 0xFFFF
				case 2:
					v = 0x7FFF
				case 3:
					v = 0x8000
				case 4:
					v = old + 1
				case 5:
					v = old - 1
				case 6:
					v = len(data)
				case 7:
					v = len(data) - 2
				case 8:
					v = 2 * old
				default:
					v = mut.Word(rng, len(data))
				}
				if p+2 <= len(b) {
					b[p], b[p+1] = byte(v>>8), byte(v)
				} else {
					b[p] = byte(v)
				}
				probe(c, d, fn(b), "changed word")
				if c.Failed() {
					return
				}
			}
		}
	}
	try(in.a, func(b []byte) input { x := in; x.a = b; return x })
	if d.two && !c.Failed() && len(in.b) < 1000 {
		try(in.b, func(b []byte) input { x := in; x.b = b; return x })
	}
	c.Sample("%s: changed words in %d bytes", d.name, in.size())
}

func random(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	for i := 0; i < 300; i++ {
		n := rng.IntN(1 << rng.IntN(12))
		in := input{a: fgen.Bytes(rng, n), n: rng.IntN(fgen.Pick(rng, 2, 10, 70000))}
		if rng.IntN(2) == 0 { // small words
			for j := 0; j+1 < n; j += 2 {
				in.a[j] = 0
				if rng.IntN(2) == 0 {
					in.a[j+1] &= 15
				}
			}
		}
		if d.two {
			in.b = fgen.Bytes(rng, rng.IntN(1<<rng.IntN(12)))
		}
		if rng.IntN(2) == 0 {
			// keep the start of a valid table
			s := small(rng, d, 3000)
			k := rng.IntN(min(len(s.a), 60) + 1)
			copy(in.a, s.a[:k])
			if d.two && rng.IntN(3) > 0 {
				in.b = s.b
			}
			in.n = s.n
		}
		probe(c, d, in, "random")
		if c.Failed() {
			return
		}
	}
	c.Sample("%s: random data", d.name)
}

var hostiles []*decoder

func init() {
	for _, d := range decoders {
		if d.hostile != nil {
			hostiles = append(hostiles, d)
			switch d.name {
			case "GSUB", "GPOS", "cff", "sfnt":
				hostiles = append(hostiles, d, d)
			}
		}
	}
}

func expensive(c *h.Case) {
	rng := c.Rng
	d := hostiles[c.Index%len(hostiles)]
	t := cpuSeconds()
	for i := 0; i < 6; i++ {
		in, what := d.hostile(rng)
		if rng.IntN(4) == 0 {
			in = change(rng, d, in, 1+rng.IntN(3))
			what += ", mutated"
		}
		o := probe(c, d, in, what)
		c.Count("expensive inputs", 1)
		if o.ok {
			c.Count("expensive inputs accepted", 1)
		}
		if i == 0 {
			c.Sample("%s: %s: %d bytes, %d allocated, %.2f s, error %q", d.name, what, in.size(), o.alloc, o.cpu, o.err)
		}
		if c.Failed() || cpuSeconds()-t > 15 {
			return
		}
	}
}

// climb looks for inputs which use more and more memory.
func climb(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	in := small(rng, d, 3000)
	best := probe(c, d, in, "valid")
	n := 200
	if d.name == "sfnt" {
		n = 40
	}
	t := cpuSeconds()
	up := 0
	for i := 0; i < n && cpuSeconds()-t < 10; i++ {
		next := change(rng, d, in, 1+rng.IntN(3))
		o := probe(c, d, next, "climbing")
		if c.Failed() {
			return
		}
		if o.alloc > best.alloc && next.size() < 2*mb {
			in, best = next, o
			up++
		}
	}
	c.Count("climbing steps", up)
	c.Sample("%s: %d steps, %d bytes allocated for %d bytes", d.name, up, best.alloc, in.size())
}

// large decodes several megabytes.
func large(c *h.Case) {
	rng := c.Rng
	d := pick(c)
	n := rng.IntN(6 * mb)
	pat := fgen.Bytes(rng, 2*(1+rng.IntN(20)))
	s := small(rng, d, 3000)
	var b []byte
	what := ""
	switch rng.IntN(4) {
	case 0:
		what = "padded table"
		b = append(append(b, s.a...), make([]byte, n)...)
	case 1:
		what = "repeated table"
		for len(b) < n && len(s.a) > 0 {
			b = append(b, s.a...)
		}
	case 2:
		what = "pattern after the start of a table"
		b = append(b, s.a[:rng.IntN(min(len(s.a), 40)+1)]...)
		fallthrough
	default:
		what += "pattern"
		for len(b) < n {
			b = append(b, pat...)
		}
	}
	in := s
	in.a = b
	if d.two && rng.IntN(2) == 0 {
		in.a, in.b = s.a, b
	}
	o := probe(c, d, in, what)
	c.Sample("%s: %s: %d bytes, %d allocated, %.2f s, error %q", d.name, what, in.size(), o.alloc, o.cpu, o.err)
}

func main() {
	nd := len(decoders)
	h.Main(&h.Check{
		ID:    "C02",
		Level: "exploration",
		Rule: fmt.Sprintf("For each of the %d decoders and each input: the call returns (no panic, no crash of the process, no hang), "+
			"allocates at most A+B*len bytes and uses at most %g s + %g µs*len of CPU time; no accessor panics on the decoded value", nd, cpuFixed, cpuByte*1e6),
		Assumptions: []string{
			"the constants A and B are fixed for each decoder; they reflect that layout tables and CFF fonts have a budget of work in the library",
			"memory is counted as the total of all allocations during the call",
			"accessors are only called with glyph indices in range",
			"hand-made values are not judged, only what a decoder returns",
		},
		Groups: []h.Group{
			{Name: "mutations", Quick: 60 * nd, Run: mutations},
			{Name: "truncations", Quick: 4 * nd, Run: truncations},
			{Name: "words", Quick: 6 * nd, Run: words},
			{Name: "random", Quick: 4 * nd, Run: random},
			{Name: "expensive", Quick: 14 * len(hostiles), Run: expensive},
			{Name: "climb", Quick: 4 * nd, Run: climb},
			{Name: "large", Quick: 6 * nd, Run: large},
		},
		MemLimitGB: 7,
		CPULimit:   60,
	})
}
