// Command c18 checks that I/O faults and truncation surface as errors, with
// accurate byte counts.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/header"

	"verif/fdump"
	"verif/fgen"
	"verif/foreign"
	"verif/h"
	"verif/raw"
)

// An output is one of the functions which write files.
type output struct {
	name  string
	count bool // the number of bytes is reported
	write func(w io.Writer) (int64, error)
}

func outputs(c *h.Case, f *sfnt.Font) []output {
	res := []output{{"Write", true, f.Write}}
	switch f.Outlines.(type) {
	case *cff.Outlines:
		res = append(res, output{"WriteOpenTypeCFFPDF", false, func(w io.Writer) (int64, error) { return 0, f.WriteOpenTypeCFFPDF(w) }},
			output{"cff.Write", false, func(w io.Writer) (int64, error) { return 0, f.AsCFF().Write(w) }})
	default:
		extra := fgen.Bytes(c.Rng, c.Rng.IntN(10))
		res = append(res, output{"WriteTrueTypePDF", true, func(w io.Writer) (int64, error) { return f.WriteTrueTypePDF(w) }},
			output{"WriteTrueTypePDF with tables", true, func(w io.Writer) (int64, error) { return f.WriteTrueTypePDF(w, "test", extra, "zzzz", []byte{}) }})
	}
	return res
}

func randomFont(c *h.Case, maxGlyphs int) *sfnt.Font {
	rng := c.Rng
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: 1 + rng.IntN(maxGlyphs), Layout: rng.IntN(4) == 0, XYOnly: rng.IntN(2) == 0,
		IntWidths: rng.IntN(2) == 0, PlainCFF: rng.IntN(2) == 0, NoCmap: rng.IntN(8) == 0})
	for f.CreationTime.IsZero() && f.ModificationTime.IsZero() {
		f.CreationTime = fgen.Time(rng)
	}
	return f
}

// reference writes to a writer without faults.
func reference(c *h.Case, o output) ([]byte, bool) {
	buf := &bytes.Buffer{}
	var n int64
	var err error
	if !c.Guard(o.name, func() { n, err = o.write(buf) }) {
		return nil, false
	}
	if err != nil {
		c.Count("refused", 1)
		if o.count && n != int64(buf.Len()) {
			c.Violation("byte count of a refused font", "%s: %d, %d bytes written", o.name, n, buf.Len())
		}
		return nil, false
	}
	if o.count && n != int64(buf.Len()) {
		c.Violation("byte count", "%s: %d, file has %d bytes", o.name, n, buf.Len())
		return nil, false
	}
	return buf.Bytes(), true
}

// attempt writes to a faulty writer.
func attempt(c *h.Case, o output, ref []byte, w *faultWriter) bool {
	var n int64
	var err error
	what := fmt.Sprintf("%s, %s, %d of %d bytes", o.name, modeNames[w.mode], w.limit, len(ref))
	if !c.Guard(what, func() { n, err = o.write(w) }) {
		return false
	}
	c.Eval(1)
	switch {
	case w.failed && err == nil:
		c.Violation("write error lost: "+modeNames[w.mode], "%s: no error, count %d, %d bytes accepted", what, n, len(w.accepted))
	case !w.failed && err != nil && !(w.mode == lateErr && w.limit <= len(ref)):
		c.Violation("error without a fault", "%s: %v", what, err)
	case o.count && n != int64(len(w.accepted)):
		c.Violation("byte count after a fault", "%s: count %d, %d bytes accepted", what, n, len(w.accepted))
	case w.mode != onceErr && !bytes.HasPrefix(ref, w.accepted):
		c.Violation("wrong bytes written", "%s", what)
	case err == nil && len(w.accepted) != len(ref):
		c.Violation("incomplete file without error", "%s: %d bytes", what, len(w.accepted))
	case w.mode == onceErr && w.failed && w.after > 0:
		// A single failure must not leave a hole in the file.
		c.Violation("writing continues after an error", "%s: %d more calls", what, w.after)
	default:
		if w.failed {
			c.Count("write faults: "+modeNames[w.mode], 1)
		} else {
			c.Count("writes without fault", 1)
		}
		return true
	}
	return false
}

// A recorder notes where the individual calls to Write end.
type recorder struct {
	pos  int
	ends []int
}

func (r *recorder) Write(p []byte) (int, error) {
	r.pos += len(p)
	r.ends = append(r.ends, r.pos)
	return len(p), nil
}

func writeFaults(c *h.Case, f *sfnt.Font, all bool) {
	for _, o := range outputs(c, f) {
		ref, ok := reference(c, o)
		if !ok {
			continue
		}
		c.NonTrivial(o.name, ref)
		rec := &recorder{}
		o.write(rec)
		c.Count("calls to Write", len(rec.ends))
		points := map[int]bool{}
		for _, e := range rec.ends {
			for d := -4; d <= 4; d++ {
				points[e+d] = true
			}
		}
		for d := 0; d < 16; d++ {
			points[d] = true
		}
		for i := 0; i < 100; i++ {
			points[c.Rng.IntN(len(ref)+1)] = true
		}
		if all {
			// every position, up to a bound on the total amount of data
			step := stride(len(ref))
			for k := 0; k < len(ref); k += step {
				points[k] = true
			}
		}
		var kk []int
		for k := range points {
			if k >= 0 && k <= len(ref)+4 {
				kk = append(kk, k)
			}
		}
		sort.Ints(kk)
		c.Count("fault points (writing)", len(kk))
		for mode := 0; mode < numModes; mode++ {
			step := 1
			if all && mode > 0 {
				step = 1 + len(kk)/200
			}
			for i := c.Rng.IntN(step); i < len(kk); i += step {
				if !attempt(c, o, ref, &faultWriter{limit: kk[i], mode: mode}) && c.Failed() {
					return
				}
			}
		}
		again, ok := reference(c, o)
		if ok && !bytes.Equal(again, ref) {
			c.Violation("faults change later files", "%s", o.name)
		}
	}
}

// stride returns the distance between fault points: every byte of files up to
// about 2000 bytes, fewer positions in longer files, where a single run takes
// longer.
func stride(n int) int { return 1 + n/max(100, 4_000_000/(n+1)) }

func writing(c *h.Case) {
	f := randomFont(c, 6)
	writeFaults(c, f, true)
}

func writingLarge(c *h.Case) {
	rng := c.Rng
	if real := foreign.Real(); c.Index < len(real) {
		f, err := sfnt.Read(bytes.NewReader(real[c.Index]))
		if err != nil {
			c.Count("real font rejected", 1)
			return
		}
		writeFaults(c, f, false)
		return
	}
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: 100 + rng.IntN(1500), Layout: rng.IntN(2) == 0})
	for f.CreationTime.IsZero() && f.ModificationTime.IsZero() {
		f.CreationTime = fgen.Time(rng)
	}
	writeFaults(c, f, false)
}

// containers writes arbitrary tables.
func containers(c *h.Case) {
	rng := c.Rng
	tables := map[string][]byte{}
	for i := 1 + rng.IntN(12); i > 0; i-- {
		name := fgen.Pick(rng, "head", "glyf", "loca", "abcd", "name", fmt.Sprintf("t%03d", rng.IntN(1000)))
		tables[name] = fgen.Bytes(rng, rng.IntN(fgen.Pick(rng, 2, 6, 40, 300)))
		if rng.IntN(8) == 0 {
			tables[name] = []byte{}
		}
	}
	o := output{"header.Write", true, func(w io.Writer) (int64, error) { return header.Write(w, header.ScalerTypeTrueType, tables) }}
	ref, ok := reference(c, o)
	if !ok {
		return
	}
	c.NonTrivial(ref)
	for k := 0; k <= len(ref)+2; k++ {
		for mode := 0; mode < numModes; mode++ {
			if !attempt(c, o, ref, &faultWriter{limit: k, mode: mode}) && c.Failed() {
				return
			}
		}
	}
	end := dataEnd(ref)
	for k := 0; k < len(ref); k++ {
		var err error
		if !c.Guard("header.Read", func() { _, err = header.Read(bytes.NewReader(ref[:k])) }) {
			return
		}
		if err == nil && k < end {
			c.Violation("truncated container accepted", "%d of %d bytes", k, len(ref))
		}
		s := newSource(ref)
		s.from = k
		if !c.Guard("header.Read", func() { _, err = header.Read(s) }) {
			return
		}
		if err == nil && k < end {
			c.Violation("read error lost", "header.Read, fault at %d of %d bytes", k, len(ref))
		}
		c.Eval(2)
	}
}

// systemWriters uses destinations provided by the operating system.
func systemWriters(c *h.Case) {
	rng := c.Rng
	f := randomFont(c, 30)
	for _, o := range outputs(c, f) {
		ref, ok := reference(c, o)
		if !ok {
			continue
		}
		c.NonTrivial(o.name, ref)
		check := func(dest string, n, accepted int64, err error, fault bool) {
			c.Eval(1)
			c.Count(dest, 1)
			if fault && err == nil {
				c.Violation("write error lost: "+dest, "%s: no error, count %d", o.name, n)
			}
			if !fault && err != nil {
				c.Violation("error without a fault: "+dest, "%s: %v", o.name, err)
			}
			if o.count && accepted >= 0 && n != accepted {
				c.Violation("byte count after a fault: "+dest, "%s: count %d, %d bytes accepted", o.name, n, accepted)
			}
		}
		var n int64
		var err error

		if w, e := os.OpenFile("/dev/full", os.O_WRONLY, 0); e == nil {
			if !c.Guard(o.name, func() { n, err = o.write(w) }) {
				return
			}
			w.Close()
			check("full device", n, 0, err, true)
		}

		dir, e := os.MkdirTemp("", "c18.")
		if e == nil {
			name := filepath.Join(dir, "font")
			if w, e := os.Create(name); e == nil {
				if c.Guard(o.name, func() { n, err = o.write(w) }) {
					w.Close()
					st, _ := os.Stat(name)
					check("file", n, st.Size(), err, false)
					if b, _ := os.ReadFile(name); !bytes.Equal(b, ref) {
						c.Violation("wrong bytes written", "%s to a file", o.name)
					}
					if c.Guard(o.name, func() { n, err = o.write(w) }) {
						check("closed file", n, 0, err, true)
					}
				}
				if r, e := os.Open(name); e == nil {
					if c.Guard(o.name, func() { n, err = o.write(r) }) {
						check("file opened for reading", n, 0, err, true)
					}
					r.Close()
				}
			}
			os.RemoveAll(dir)
		}

		// an unbuffered pipe where the reader stops after k bytes
		for i := 0; i < 6; i++ {
			k := rng.IntN(len(ref) + 1)
			var pr io.ReadCloser
			var pw io.WriteCloser
			dest := "pipe"
			if i%2 == 0 {
				pr, pw = io.Pipe()
			} else {
				a, b := net.Pipe()
				pr, pw = a, b
				dest = "connection"
			}
			done := make(chan int64)
			go func() {
				m, _ := io.CopyN(io.Discard, pr, int64(k))
				pr.Close()
				done <- m
			}()
			if !c.Guard(o.name, func() { n, err = o.write(pw) }) {
				return
			}
			pw.Close()
			m := <-done
			if k == len(ref) {
				m = int64(len(ref))
			}
			check(dest, n, m, err, k < len(ref))
		}
	}
}

// dataEnd returns the end of the last non-empty table, without padding.
func dataEnd(data []byte) int {
	end := 0
	for i := 0; i < raw.U16(data, 4); i++ {
		rec := data[12+16*i:]
		if l := int(raw.U32(rec, 12)); l > 0 {
			end = max(end, int(raw.U32(rec, 8))+l)
		}
	}
	return end
}

type reading struct {
	ref  []fdump.Item
	data []byte
	end  int
}

// judge evaluates the result of reading from a faulty source.
func (r *reading) judge(c *h.Case, what string, key string, mustFail bool, run func() (*sfnt.Font, error)) bool {
	var f *sfnt.Font
	var err error
	if !c.Guard(what, func() { f, err = run() }) {
		return false
	}
	c.Eval(1)
	if err != nil {
		c.Count(key+": rejected", 1)
		if f != nil {
			c.Violation(key+": font and error", "%s: %v", what, err)
			return false
		}
		return true
	}
	if f == nil {
		c.Violation(key+": no font and no error", "%s", what)
		return false
	}
	if mustFail {
		c.Violation(key+": accepted", "%s", what)
		return false
	}
	c.Count(key+": accepted", 1)
	if p, msg := fdump.Diff(fdump.Font(f), r.ref, nil); p != "" {
		c.Violation(key+": different font", "%s: %s", what, msg)
		return false
	}
	return true
}

func (r *reading) run(c *h.Case, step int) {
	rng := c.Rng
	data, n := r.data, len(r.data)

	// truncated files
	for k := rng.IntN(step); k < n; k += step {
		cut := data[:k:k]
		must := k < r.end
		if !r.judge(c, fmt.Sprintf("first %d of %d bytes", k, n), "truncated", must, func() (*sfnt.Font, error) { return sfnt.Read(bytes.NewReader(cut)) }) {
			return
		}
		s := newSource(data)
		s.from = k
		s.partial = k%2 == 0
		if k%7 == 0 {
			s.err = io.ErrUnexpectedEOF
		}
		short := newSource(cut)
		short.eofAtEnd = true
		if !r.judge(c, fmt.Sprintf("first %d of %d bytes, EOF with the last bytes", k, n), "truncated", must, func() (*sfnt.Font, error) { return sfnt.Read(short) }) {
			return
		}
		if !r.judge(c, fmt.Sprintf("fault at offset %d of %d bytes", k, n), "failing reader", must, func() (*sfnt.Font, error) { return sfnt.Read(s) }) {
			return
		}
		if must && !s.hit {
			c.Violation("rejected without touching the fault", "fault at offset %d of %d bytes", k, n)
			return
		}
	}

	// the same for streams
	for i := 0; i < 400; i++ {
		k := rng.IntN(n + 1)
		if i < 20 {
			k = max(0, r.end-i)
		}
		st := &stream{data: data[:k:k], fail: -1, rng: rng, style: rng.IntN(3), withErr: rng.IntN(2) == 0}
		what := fmt.Sprintf("stream of %d from %d bytes", k, n)
		key := "truncated stream"
		must := k < r.end
		if i%2 == 0 {
			st.data = data
			st.fail = k
			st.err = errInjected
			if rng.IntN(4) == 0 {
				st.err = io.ErrUnexpectedEOF
			}
			key = "failing stream"
			what = fmt.Sprintf("stream failing at offset %d of %d bytes", k, n)
		}
		if !r.judge(c, what, key, must, func() (*sfnt.Font, error) { return sfnt.Read(st) }) {
			return
		}
	}
}

// ranges makes single ranges and single calls fail.
func (r *reading) ranges(c *h.Case) {
	rng := c.Rng
	data, n := r.data, len(r.data)
	probe := newSource(data)
	if _, err := sfnt.Read(probe); err != nil {
		c.Violation("file rejected by a second kind of reader", "%v", err)
		return
	}
	c.Max("calls of ReadAt", probe.calls)
	probe = newSource(data)
	probe.eofAtEnd = true
	f, err := sfnt.Read(probe)
	if err != nil {
		c.Violation("file rejected by a reader which returns EOF with the last bytes", "%v", err)
		return
	}
	if p, msg := fdump.Diff(fdump.Font(f), r.ref, nil); p != "" {
		c.Violation("different font from a reader which returns EOF with the last bytes", "%s", msg)
		return
	}
	for k := 0; k < probe.calls; k++ {
		if probe.calls > 300 && rng.IntN(probe.calls) > 300 {
			continue
		}
		s := newSource(data)
		s.failCall = k
		if rng.IntN(4) == 0 {
			s.err = io.ErrUnexpectedEOF
		}
		if !r.judge(c, fmt.Sprintf("call %d of %d fails", k, probe.calls), "failing call", false, func() (*sfnt.Font, error) { return sfnt.Read(s) }) {
			return
		}
	}
	file, _ := raw.Check(data)
	var at []int
	if file != nil {
		for _, rec := range file.Recs {
			o, l := int(rec.Offset), int(rec.Len)
			at = append(at, o, o+l-1, o+l-2, o+l/2, o+l*3/4)
		}
	}
	for i := 0; i < 100; i++ {
		at = append(at, rng.IntN(n))
	}
	for _, k := range at {
		if k < 0 || k >= n {
			continue
		}
		s := newSource(data)
		s.from, s.to = k, k+fgen.Pick(rng, 1, 1, 2, 16, 512)
		s.partial = rng.IntN(2) == 0
		if rng.IntN(4) == 0 {
			s.err = io.ErrUnexpectedEOF
		}
		if !r.judge(c, fmt.Sprintf("bad range [%d, %d) of %d bytes", s.from, s.to, n), "bad range", false, func() (*sfnt.Font, error) { return sfnt.Read(s) }) {
			return
		}
	}
}

func newReading(c *h.Case, data []byte) *reading {
	var f *sfnt.Font
	var err error
	if !c.Guard("Read", func() { f, err = sfnt.Read(bytes.NewReader(bytes.Clone(data))) }) {
		return nil
	}
	if err != nil {
		c.Count("not readable", 1)
		return nil
	}
	c.NonTrivial(data)
	return &reading{ref: fdump.Font(f), data: data, end: dataEnd(data)}
}

func readingSmall(c *h.Case) {
	f := randomFont(c, 8)
	buf := &bytes.Buffer{}
	var err error
	if !c.Guard("Write", func() { _, err = f.Write(buf) }) || err != nil {
		c.Count("refused", 1)
		return
	}
	if r := newReading(c, buf.Bytes()); r != nil {
		r.run(c, 1+len(r.data)/6000)
		r.ranges(c)
	}
}

// readingForeign uses files which are put together from different tables.
func readingForeign(c *h.Case) {
	data, what := foreign.File(c.Rng)
	if data == nil {
		return
	}
	if f, errs := raw.Check(data); f == nil || len(errs) > 0 && strings.Contains(fmt.Sprint(errs), "overlap") {
		return
	}
	if r := newReading(c, data); r != nil {
		c.Sample("%s", what)
		r.run(c, 1+len(data)/1000)
		r.ranges(c)
	}
}

func readingReal(c *h.Case) {
	fonts := foreign.Real()
	data := fonts[c.Index%len(fonts)]
	if r := newReading(c, data); r != nil {
		step := 1
		if c.Tier == "quick" {
			step = 1 + len(data)/3000
		}
		r.run(c, step)
		r.ranges(c)
	}
}

// files on disk
func files(c *h.Case) {
	f := randomFont(c, 20)
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		return
	}
	r := newReading(c, buf.Bytes())
	if r == nil {
		return
	}
	dir, err := os.MkdirTemp("", "c18.")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "font")
	for i := 0; i < 30; i++ {
		k := c.Rng.IntN(len(r.data) + 1)
		if i < 8 {
			k = max(0, r.end-i)
		}
		if os.WriteFile(name, r.data[:k], 0o600) != nil {
			return
		}
		what := fmt.Sprintf("file with %d of %d bytes", k, len(r.data))
		if !r.judge(c, what, "truncated file", k < r.end, func() (*sfnt.Font, error) { return sfnt.ReadFile(name) }) {
			return
		}
		if !r.judge(c, what, "truncated file", k < r.end, func() (*sfnt.Font, error) {
			fd, err := os.Open(name)
			if err != nil {
				return nil, err
			}
			defer fd.Close()
			return sfnt.Read(io.MultiReader(fd))
		}) {
			return
		}
	}
	r.judge(c, "missing file", "missing file", true, func() (*sfnt.Font, error) { return sfnt.ReadFile(filepath.Join(dir, "none")) })
	r.judge(c, "directory", "missing file", true, func() (*sfnt.Font, error) { return sfnt.ReadFile(dir) })
	r.judge(c, "closed file", "missing file", true, func() (*sfnt.Font, error) {
		fd, err := os.Open(name)
		if err != nil {
			return nil, err
		}
		fd.Close()
		return sfnt.Read(fd)
	})
}

// bare reads CFF data outside of sfnt files.
func bare(c *h.Case) {
	rng := c.Rng
	cf := fgen.CFFFont(rng, &fgen.CFFOpts{NumGlyphs: 1 + rng.IntN(6), CID: c.Index%2 == 0, Limit: 2000})
	buf := &bytes.Buffer{}
	var err error
	if !c.Guard("cff.Write", func() { err = cf.Write(buf) }) || err != nil {
		c.Count("refused", 1)
		return
	}
	data := buf.Bytes()
	o := output{"cff.Write", false, func(w io.Writer) (int64, error) { return 0, cf.Write(w) }}
	step := stride(len(data))
	for k := 0; k <= len(data); k += step {
		if !attempt(c, o, data, &faultWriter{limit: k, mode: k % numModes}) && c.Failed() {
			return
		}
	}
	var ref *cff.Font
	if !c.Guard("cff.Read", func() { ref, err = cff.Read(bytes.NewReader(data)) }) || err != nil {
		c.Count("not readable", 1)
		return
	}
	want := fdump.Any(ref)
	c.NonTrivial(data)
	try := func(what, key string, must bool, s *source) bool {
		var f *cff.Font
		var err error
		if !c.Guard(what, func() { f, err = cff.Read(s) }) {
			return false
		}
		c.Eval(1)
		if err != nil {
			c.Count(key+": rejected", 1)
			return true
		}
		if must {
			c.Violation(key+": accepted", "%s", what)
			return false
		}
		c.Count(key+": accepted", 1)
		if p, msg := fdump.Diff(fdump.Any(f), want, nil); p != "" {
			c.Violation(key+": different font", "%s: %s", what, msg)
			return false
		}
		return true
	}
	for k := 0; k < len(data); k++ {
		if k%step != 0 && k+10 < len(data) {
			continue
		}
		if !try(fmt.Sprintf("first %d of %d bytes", k, len(data)), "truncated CFF", true, newSource(data[:k:k])) {
			return
		}
		s := newSource(data)
		s.from = k
		s.partial = k%2 == 0
		if !try(fmt.Sprintf("fault at offset %d of %d bytes", k, len(data)), "failing CFF reader", true, s) {
			return
		}
		s = newSource(data)
		s.from, s.to = k, k+1
		s.partial = k%2 == 0
		if !try(fmt.Sprintf("bad byte %d of %d bytes", k, len(data)), "bad range in CFF", false, s) {
			return
		}
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C18",
		Level: "fault_enumeration",
		Rule:  "constructed, mutated and real fonts are written through every output function to writers which fail after k bytes in five ways (and to full devices, closed files and pipes), and read back from files, streams and random-access readers which are cut short at k, fail at offsets >= k, fail in a single range or in a single call; k runs over all positions of files up to 2000 bytes, and over all call boundaries and a regular sample of longer files. Non-trivial: distinct files",
		Assumptions: []string{
			"a fault is in reach if it lies before the end of the last non-empty table; for single bad ranges and single failing calls (where the bytes need not matter) a successful read must give exactly the font read without faults",
			"a writer which accepts fewer bytes than offered without reporting an error counts as failing",
		},
		Groups: []h.Group{
			{Name: "writing", Quick: 60, Run: writing},
			{Name: "writing-large", Quick: 24, Thorough: 200, Run: writingLarge},
			{Name: "containers", Quick: 200, Run: containers},
			{Name: "system-writers", Quick: 60, Run: systemWriters},
			{Name: "reading", Quick: 60, Run: readingSmall},
			{Name: "foreign", Quick: 300, Run: readingForeign},
			{Name: "real", Quick: 10, Thorough: 40, Run: readingReal},
			{Name: "files", Quick: 60, Run: files},
			{Name: "bare-cff", Quick: 60, Run: bare},
		},
	})
}
