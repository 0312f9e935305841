// Command c16 checks the concurrent use of fonts.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"

	"verif/fgen"
	"verif/foreign"
	"verif/h"
	"verif/raw"
)

// ----- race reports -----

var (
	logPos  int64
	nErrors int
)

// races returns the new reports of the race detector.
func races() []string {
	n := raceErrors()
	if n == nErrors {
		return nil
	}
	nErrors = n
	name := fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACE_LOG"), os.Getpid())
	fd, err := os.Open(name)
	if err != nil {
		return []string{"race reported, but " + err.Error()}
	}
	defer fd.Close()
	fd.Seek(logPos, 0)
	buf := &bytes.Buffer{}
	k, _ := buf.ReadFrom(fd)
	logPos += k
	var res []string
	for _, s := range strings.Split(buf.String(), "==================") {
		if strings.Contains(s, "DATA RACE") {
			res = append(res, s)
		}
	}
	if len(res) == 0 {
		res = append(res, "race reported, but no details are available")
	}
	return res
}

// site finds the location of the first access in library code.
func site(report string) string {
	ll := strings.Split(report, "\n")
	for i, l := range ll {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "seehuhn.de/go/sfnt") && i+1 < len(ll) {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "seehuhn.de/go/sfnt")
		}
	}
	return "unknown"
}

// ----- runs -----

func result(o op, f *sfnt.Font) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return o.run(f)
}

type event struct {
	start, end time.Time
	op         int
	got        string
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		s = s[max(0, i-40):]
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	return fmt.Sprintf("...%q instead of ...%q", cut(a), cut(b))
}

// run checks a font.  The function mk must return a new, independent copy of
// the font for every call.
func run(c *h.Case, what string, mk func() *sfnt.Font) {
	rng := c.Rng
	first := mk()
	if first == nil || first.NumGlyphs() == 0 {
		c.Count("unusable fonts", 1)
		return
	}
	ops := makeOps(rng, first)
	pristine, nodes := fingerprint(first)
	// changed checks whether a font has been modified
	changed := func(f *sfnt.Font, who string) bool {
		if h, _ := fingerprint(f); h == pristine {
			return false
		}
		c.Violation("modified", "%s: %s changed the font: %s", what, who, diffText(dump(f), dump(mk())))
		return true
	}
	var reused *sfnt.Font
	if nodes > 100000 {
		// too slow to make a new copy for every call
		reused = mk()
		c.Count("large fonts", 1)
	}

	want := make([]string, len(ops))
	same := make([]bool, len(ops))
	// alone runs every operation alone
	alone := func() bool {
		for i, o := range ops {
			f := reused
			if f == nil {
				f = mk()
			}
			want[i] = result(o, f)
			same[i] = true
			if reused == nil && rng.IntN(2) == 0 && result(o, mk()) != want[i] {
				same[i] = false
				c.Count("not reproducible alone: "+o.name, 1)
			}
			if strings.HasPrefix(want[i], "panic:") {
				c.Count("operations which panic: "+o.name, 1)
			}
			if reused == nil && changed(f, o.name) {
				return false
			}
		}
		return reused == nil || !changed(reused, "a call")
	}
	// Things which are set up during the first call are only seen to be
	// shared if the first call is one of the concurrent calls.
	concurrentFirst := c.Group == "cold" || rng.IntN(2) == 0
	if concurrentFirst {
		c.Count("runs where the concurrent calls come first", 1)
	} else if !alone() {
		return
	}

	// Run the operations concurrently, on a new copy of the font.
	shared := mk()
	sp := &sparer{ptrs: map[uintptr]bool{}}
	if rng.IntN(3) > 0 {
		sp.walk("font", reflect.ValueOf(shared), 0)
		if h, _ := fingerprint(shared); h != pristine {
			panic("sparer changed the font")
		}
		c.Count("fonts with spare capacity in all slices", 1)
	}
	procs := fgen.Pick(rng, 1, 2, 2, 4, 4, 8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	n := 2 + rng.IntN(7)
	todo := make([][]int, n)
	focus := rng.IntN(len(ops))
	mode := rng.IntN(3)
	for i := range todo {
		for k := 1 + rng.IntN(6); k > 0; k-- {
			j := rng.IntN(len(ops))
			if mode == 0 && rng.IntN(2) == 0 {
				j = focus // many calls of the same kind
			}
			todo[i] = append(todo[i], j)
		}
		if mode == 1 {
			// the same operations in a different order
			todo[i] = rng.Perm(len(ops))[:min(len(ops), 6)]
		}
	}
	spin := make([]int, n)
	for i := range spin {
		spin[i] = rng.IntN(3)
	}
	events := make([][]event, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range todo {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ee []event
			<-start
			for _, j := range todo[i] {
				for k := 0; k < spin[i]; k++ {
					runtime.Gosched()
				}
				e := event{op: j, start: time.Now()}
				e.got = result(ops[j], shared)
				e.end = time.Now()
				ee = append(ee, e)
			}
			events[i] = ee
		}()
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(old)

	for _, r := range races() {
		c.Violation("race:"+site(r), "%s: %s", what, r)
	}

	if concurrentFirst && !alone() {
		return
	}

	// compare the results
	for i, ee := range events {
		for _, e := range ee {
			c.Eval(1)
			o := ops[e.op]
			c.Count("concurrent calls: "+o.name, 1)
			if same[e.op] && e.got != want[e.op] {
				if result(o, mk()) != want[e.op] {
					c.Count("not reproducible alone: "+o.name, 1)
					continue
				}
				c.Violation("result:"+o.name, "%s: goroutine %d of %d: %s returns %s", what, i, n, o.name, diffText(e.got, want[e.op]))
			}
		}
	}
	changed(shared, "concurrent use")
	if msg := sp.check(); msg != "" {
		c.Violation("spare", "%s: %s", what, msg)
	}

	// How did the calls overlap?
	type ev struct {
		t    time.Time
		text string
	}
	var order []ev
	overlaps := 0
	for i, ee := range events {
		for k, e := range ee {
			order = append(order, ev{e.start, fmt.Sprint(i, ".", k, "<")}, ev{e.end, fmt.Sprint(i, ".", k, ">")})
			for i2 := i + 1; i2 < n; i2++ {
				for _, e2 := range events[i2] {
					if e.start.Before(e2.end) && e2.start.Before(e.end) {
						overlaps++
						a, b := ops[e.op].name, ops[e2.op].name
						if a > b {
							a, b = b, a
						}
						pairs[a+" / "+b] = true
					}
				}
			}
		}
	}
	slices.SortFunc(order, func(a, b ev) int { return a.t.Compare(b.t) })
	var sig strings.Builder
	for _, x := range order {
		sig.WriteString(x.text)
	}
	c.Count("overlapping pairs of calls", overlaps)
	c.Count(fmt.Sprintf("runs with GOMAXPROCS=%d", procs), 1)
	c.Count("goroutines", n)
	c.Max("kinds of overlapping pairs of calls (per process)", len(pairs))
	if overlaps > 0 {
		c.NonTrivial(what, c.Index, sig.String())
	} else {
		c.Count("runs without overlap", 1)
	}
}

var pairs = map[string]bool{}

// ----- workloads -----

// fresh calls a generator with a reproducible source of random numbers.
func fresh(c *h.Case, gen func(rng *rand.Rand) *sfnt.Font) func() *sfnt.Font {
	a, b := c.Rng.Uint64(), c.Rng.Uint64()
	return func() *sfnt.Font {
		return gen(rand.New(rand.NewPCG(a, b)))
	}
}

func constructed(c *h.Case) {
	kind := c.Index % fgen.NumKinds
	n := 1 + c.Rng.IntN(fgen.Pick(c.Rng, 3, 10, 30))
	layout := c.Rng.IntN(4) > 0
	simple := layout && c.Rng.IntN(3) == 0
	mk := fresh(c, func(rng *rand.Rand) *sfnt.Font {
		f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, Layout: layout && !simple, XYOnly: rng.IntN(2) == 0, Matrix: rng.IntN(3) == 0, NoCmap: rng.IntN(12) == 0, PlainCFF: rng.IntN(2) == 0})
		if simple {
			addLayout(rng, f)
		}
		if out, ok := f.Outlines.(*glyf.Outlines); ok && rng.IntN(4) == 0 {
			out.Names = nil
		} else if ok && len(out.Names) > 0 && rng.IntN(4) == 0 {
			out.Names[rng.IntN(len(out.Names))] = ""
		}
		return f
	})
	what := fmt.Sprintf("constructed, kind %d, %d glyphs", kind, n)
	if c.Group != "cold" && c.Rng.IntN(2) == 0 {
		f := mk()
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			c.Count("fonts which cannot be written", 1)
			return
		}
		mk = reader(buf.Bytes())
		what += ", read back"
	}
	c.Count(fmt.Sprintf("fonts of kind %d", kind), 1)
	run(c, what, mk)
}

// cold runs in a new process, where nothing in the library has been used
// before.
func cold(c *h.Case) {
	switch c.Rng.IntN(4) {
	case 0:
		files(c)
	case 1:
		standardNames(c)
	default:
		constructed(c)
	}
}

func reader(data []byte) func() *sfnt.Font {
	return func() *sfnt.Font {
		var f *sfnt.Font
		var err error
		r, _ := h.Catch(func() { f, err = sfnt.Read(bytes.NewReader(data)) })
		if r != nil || err != nil {
			return nil
		}
		return f
	}
}

// addLayout installs layout tables which are supported by Subset.
func addLayout(rng *rand.Rand, f *sfnt.Font) {
	n := f.NumGlyphs()
	f.Gdef, f.Gsub, f.Gpos = nil, nil, nil
	gg := &fgen.Gtab{Rng: rng}
	for _, i := range rng.Perm(n)[:min(n, fgen.Pick(rng, 3, 6, 14))] {
		gg.Gids = append(gg.Gids, glyph.ID(i))
	}
	var kinds []fgen.Kind
	for _, x := range fgen.GsubKinds {
		if x.Type == 4 {
			kinds = append(kinds, x)
		}
	}
	f.Gsub = gg.Info(1+rng.IntN(4), kinds, fgen.Tags)
	f.Gpos = gg.Info(1+rng.IntN(3), []fgen.Kind{fgen.GposKinds[0]}, fgen.Tags)
	for _, lt := range f.Gpos.LookupList {
		lt.Meta.LookupType = 2
		for i := range lt.Subtables {
			pp := gtab.Gpos2_1{}
			for k := 1 + rng.IntN(20); k > 0; k-- {
				adj := &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(1 + rng.IntN(100))}}
				pp[glyph.Pair{Left: gg.Gid(), Right: gg.Gid()}] = adj
			}
			lt.Subtables[i] = pp
		}
	}
	for _, ll := range []gtab.LookupList{f.Gsub.LookupList, f.Gpos.LookupList} {
		for _, lt := range ll {
			lt.Meta.LookupFlags &= gtab.IgnoreBaseGlyphs | gtab.IgnoreLigatures | gtab.IgnoreMarks
			lt.Meta.MarkFilteringSet = 0
		}
	}
}

// files uses font files which were not written by the library.
func files(c *h.Case) {
	rng := c.Rng
	var data []byte
	what := "real font"
	if rng.IntN(8) == 0 {
		data = fgen.Pick(rng, foreign.Real()...)
	} else {
		data, what = foreign.File(rng)
	}
	mk := reader(data)
	f := mk()
	if f == nil || f.NumGlyphs() > 800 {
		c.Count("unusable fonts", 1)
		return
	}
	if f.NumGlyphs() > 0 && rng.IntN(3) == 0 {
		mk0 := mk
		mk = fresh(c, func(rng *rand.Rand) *sfnt.Font {
			f := mk0()
			addLayout(rng, f)
			return f
		})
	}
	run(c, "file ("+what+")", mk)
}

// standardNames uses fonts which share the standard glyph names.
func standardNames(c *h.Case) {
	n := 258
	mk0 := fresh(c, func(rng *rand.Rand) *sfnt.Font {
		f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: fgen.TrueType, NumGlyphs: n, XYOnly: true})
		fgen.Blank(f)
		return f
	})
	f := mk0()
	// A format 1 post table.  All fonts of this kind use the same glyph names.
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		c.Count("fonts which cannot be written", 1)
		return
	}
	scaler, m := foreign.TableMap(buf.Bytes())
	p := append([]byte(nil), m["post"][:32]...)
	copy(p, []byte{0, 1, 0, 0})
	m["post"] = p
	if info, err := post.Read(bytes.NewReader(p)); err != nil || len(info.Names) != n {
		panic("cannot make a format 1 post table")
	}
	data := raw.Build(scaler, m, c.Rng)
	c.Count("fonts with shared standard names", 1)
	run(c, "standard glyph names", reader(data))
}

// big uses larger fonts, with longer overlaps.
func big(c *h.Case) {
	kind := c.Index % fgen.NumKinds
	n := 200 + c.Rng.IntN(800)
	mk := fresh(c, func(rng *rand.Rand) *sfnt.Font {
		f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, Layout: true, XYOnly: true, PlainCFF: true})
		return f
	})
	run(c, fmt.Sprintf("large, kind %d, %d glyphs", kind, n), mk)
}

func main() {
	if os.Getenv("VERIF_RACE_LOG") == "" {
		// The race detector reads its options when the process starts.
		dir, err := os.MkdirTemp("", "verif-C16-race-")
		if err != nil {
			panic(err)
		}
		log := filepath.Join(dir, "log")
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
		cmd.Env = append(os.Environ(), "VERIF_RACE_LOG="+log,
			"GORACE=log_path="+log+" halt_on_error=0 exitcode=0 history_size=4")
		runtime.LockOSThread()
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err = cmd.Run()
		os.RemoveAll(dir)
		if err != nil && cmd.ProcessState == nil {
			panic(err)
		}
		os.Exit(cmd.ProcessState.ExitCode())
	}
	if !raceEnabled {
		fmt.Println("PROBLEM: c16 must be built with -race")
		os.Exit(3)
	}
	h.Main(&h.Check{
		ID:    "C16",
		Level: "exploration",
		Rule:  "2 to 8 goroutines run sequences of read-only operations on one shared font under the race detector, with yields inside writers and between calls and with 1 to 8 threads; every result is compared with the result of the same call run alone on a copy of the font which was never used before; the font, and the spare capacity of all its slices, must be unchanged afterwards; in half of the runs, and in the runs which use a process of their own, the concurrent calls come first. Non-trivial: distinct orders of the start and end times of all calls, where at least two calls overlap",
		Assumptions: []string{
			"clones and subsets belong to the goroutine which made them: their top-level fields may be changed, and glyph names may be changed via MakeSimple and MakeCIDKeyed on a subset",
			"the race detector finds races between accesses which are executed and not ordered by synchronisation in the observed run",
		},
		Groups: []h.Group{
			{Name: "constructed", Quick: 900, Run: constructed},
			{Name: "files", Quick: 500, Run: files},
			{Name: "names", Quick: 40, Run: standardNames},
			{Name: "big", Quick: 40, Run: big},
			{Name: "cold", Quick: 160, Run: cold, Fresh: true},
		},
		MaxProcs: 4,
	})
}
