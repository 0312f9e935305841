// Command c19 checks the lookup description language.
package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/fgen"
	"verif/gdump"
	"verif/h"
)

// ----- fonts -----

type font struct {
	f      *sfnt.Font
	n      int
	names  []string
	byName map[string]int // number of glyphs with this name
	runes  map[glyph.ID][]rune
	desc   string
}

var keywords = []string{"class", "inputclass", "backtrackclass", "lookaheadclass", "mark", "base", "first", "second", "to", "x", "y", "dx", "dy", "_", "marks", "ligs", "GSUB1", "GSUB4", "GPOS2", "GPOS4"}

func makeFont(rng *rand.Rand) *font {
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 12, 30, 60, 120))
	if rng.IntN(60) == 0 {
		n = fgen.Pick(rng, 65535, 65534, 40000)
	}
	res := &font{n: n, names: make([]string, n), byName: map[string]int{}, runes: map[glyph.ID][]rune{}}
	style := rng.IntN(6)
	good := fgen.GlyphNames(rng, min(n, 400), false)
	for i := range res.names {
		switch style {
		case 0: // no names
		case 1, 2: // letters, like in the tests
			if i > 0 && i <= 26 {
				res.names[i] = string(rune('A' + i - 1))
			} else if i > 0 && i <= 52 {
				res.names[i] = string(rune('a' + i - 27))
			} else if i < len(good) {
				res.names[i] = good[i]
			}
		case 3:
			if i < len(good) {
				res.names[i] = good[i]
			}
		case 4: // trouble
			res.names[i] = fgen.Pick(rng, fgen.Pick(rng, keywords...), fgen.Pick(rng, keywords...), "A-B", "1", "2", "3", strconv.Itoa(rng.IntN(n+2)), "A B", "A", "B", "a*", "é", "日本", ".notdef", ".x", "A.alt", "x1", "", "", "\"", "A\"", "#", "[", "-", "->", "||", "\xff", "a\xffb", "A\n", "a\x00", "1A", "_1", "٣", "a٣")
		case 5: // some names, some duplicates
			if rng.IntN(2) == 0 {
				res.names[i] = fgen.Pick(rng, "A", "B", "C", fmt.Sprintf("g%d", i), fmt.Sprintf("g%d.alt", i), "u"+strconv.FormatInt(int64(0x4E00+i), 16))
			}
		}
	}
	for _, s := range res.names {
		res.byName[s]++
	}
	f := &sfnt.Font{}
	if rng.IntN(2) == 0 {
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n), Names: slices.Clone(res.names)}
		if style == 0 {
			o.Names = nil
		}
		f.Outlines = o
	} else {
		o := &cff.Outlines{}
		for _, s := range res.names {
			o.Glyphs = append(o.Glyphs, &cff.Glyph{Name: s})
		}
		f.Outlines = o
	}
	res.f = f

	if rng.IntN(6) != 0 && n > 1 {
		m := map[rune]glyph.ID{}
		add := func(r rune, g int) {
			if g > 0 && g < n {
				m[r] = glyph.ID(g)
			}
		}
		if style == 1 || style == 2 || rng.IntN(3) == 0 {
			for i := 1; i <= 52 && i < n; i++ {
				if i <= 26 {
					add(rune('A'+i-1), i)
				} else {
					add(rune('a'+i-27), i)
				}
			}
		}
		for k := rng.IntN(30); k > 0; k-- {
			add(fgen.Pick(rng, rune(32+rng.IntN(95)), rune(32+rng.IntN(95)), '"', '\\', 'n', 't', 'r', '\'', '#', '[', rune(rng.IntN(256)), rune(0x4E00+rng.IntN(100)), rune(rng.IntN(0xD800)), rune(0x1F600+rng.IntN(50)), 0, '\n', '\r', '\t', 0xA0, 0xAD, 0x301, 0x200B, 0xFEFF, 0xFFFD, 0xE000, 0x2028, 0x85), rng.IntN(n))
		}
		if rng.IntN(5) == 0 {
			add(fgen.Pick[rune](rng, 0xD800, 0xDFFF), rng.IntN(n))
		}
		bad := rng.IntN(10) == 0
		s := cmap.Format12{}
		for r, g := range m {
			if bad && rng.IntN(4) == 0 {
				s[uint32(r)] = glyph.ID(fgen.Pick(rng, n, n+1, 65535))
				continue
			}
			s[uint32(r)] = g
			if utf8.ValidRune(r) {
				res.runes[g] = append(res.runes[g], r)
			}
		}
		if len(s) > 0 {
			f.InstallCMap(s)
		}
		for g := range res.runes {
			slices.Sort(res.runes[g])
		}
	}
	res.desc = fmt.Sprintf("%d glyphs, names %.800q, characters %.800s", n, fmt.Sprint(res.names[:min(n, 60)]), fmt.Sprint(res.runes))
	return res
}

// usable returns true if the glyph name can be used as an identifier.
func (ft *font) usable(g glyph.ID) bool {
	s := ft.names[g]
	if s == "" || ft.byName[s] != 1 || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return true
}

// ----- lookup lists which can be expressed in the language -----

type gen struct {
	*rand.Rand
	ft   *font
	pool []glyph.ID
}

func newGen(rng *rand.Rand, ft *font) *gen {
	g := &gen{Rand: rng, ft: ft}
	switch rng.IntN(3) {
	case 0: // consecutive glyphs
		a := rng.IntN(ft.n)
		for i := a; i < min(ft.n, a+12); i++ {
			g.pool = append(g.pool, glyph.ID(i))
		}
	case 1: // mapped or named glyphs
		for i := 0; i < ft.n && len(g.pool) < 40; i++ {
			if ft.runes[glyph.ID(i)] != nil || ft.names[i] != "" {
				g.pool = append(g.pool, glyph.ID(i))
			}
		}
	}
	for len(g.pool) == 0 || rng.IntN(4) != 0 && len(g.pool) < 60 {
		g.pool = append(g.pool, glyph.ID(fgen.Pick(rng, rng.IntN(ft.n), rng.IntN(ft.n), ft.n-1, 0)))
	}
	return g
}

func (g *gen) gid() glyph.ID { return g.pool[g.IntN(len(g.pool))] }

// run returns a list of glyphs, often with ranges.
func (g *gen) list(lo int) []glyph.ID {
	var res []glyph.ID
	k := lo + g.IntN(fgen.Pick(g.Rand, 1, 2, 4, 8))
	for len(res) < k {
		x := g.gid()
		res = append(res, x)
		d := fgen.Pick(g.Rand, 0, 0, 0, 1, -1)
		for d != 0 && len(res) < k && int(x)+d >= 0 && int(x)+d < g.ft.n && g.IntN(8) != 0 {
			x = glyph.ID(int(x) + d)
			res = append(res, x)
		}
	}
	return res
}

func (g *gen) set(lo int) []glyph.ID {
	l := g.list(lo)
	slices.Sort(l)
	return slices.Compact(l)
}

func table(gids []glyph.ID) coverage.Table {
	gids = slices.Clone(gids)
	slices.Sort(gids)
	gids = slices.Compact(gids)
	t := coverage.Table{}
	for i, g := range gids {
		t[g] = i
	}
	return t
}

func covset(gids []glyph.ID) coverage.Set {
	t := coverage.Set{}
	for _, g := range gids {
		t[g] = true
	}
	return t
}

func (g *gen) actions() []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for k := g.IntN(4); k > 0; k-- {
		res = append(res, gtab.SeqLookup{
			SequenceIndex:   uint16(fgen.Pick(g.Rand, 0, 1, 2, 65535)),
			LookupListIndex: gtab.LookupIndex(fgen.Pick(g.Rand, 0, 1, 2, 9, 65535)),
		})
	}
	return res
}

func (g *gen) i16() funit.Int16 {
	return funit.Int16(fgen.Pick(g.Rand, 0, 0, 1, -1, 10, -10, 100, -500, 32767, -32768, g.IntN(65536)-32768))
}

func (g *gen) value() *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{XPlacement: g.i16(), YPlacement: g.i16(), XAdvance: g.i16()}
	if g.IntN(3) == 0 || *v == (gtab.GposValueRecord{}) {
		return nil
	}
	return v
}

func (g *gen) pair() *gtab.PairAdjust {
	p := &gtab.PairAdjust{First: g.value()}
	if g.IntN(2) == 0 {
		p.Second = g.value()
	}
	return p
}

// classes returns consecutive, non-empty classes.
func (g *gen) classes() (classdef.Table, int) {
	t := classdef.Table{}
	k := g.IntN(4)
	cls := uint16(1)
	for i := 0; i < k; i++ {
		used := false
		for _, x := range g.list(1) {
			if t[x] == 0 {
				t[x] = cls
				used = true
			}
		}
		if used {
			cls++
		}
	}
	return t, int(cls)
}

func (g *gen) classList(lo, n int) []uint16 {
	var res []uint16
	for k := lo + g.IntN(3); k > 0; k-- {
		res = append(res, uint16(g.IntN(n)))
	}
	return res
}

func (g *gen) sets(lo int) []coverage.Set {
	var res []coverage.Set
	for k := lo + g.IntN(3); k > 0; k-- {
		res = append(res, covset(g.set(g.IntN(6)/5)))
	}
	return res
}

func (g *gen) subtable(kind int, gpos bool) gtab.Subtable {
	rng := g.Rand
	keys := g.set(1)
	if gpos {
		switch kind {
		case 1:
			if rng.IntN(2) == 0 {
				return &gtab.Gpos1_1{Cov: table(g.set(rng.IntN(6))), Adjust: g.value()}
			}
			l := &gtab.Gpos1_2{Cov: table(keys)}
			for range keys {
				l.Adjust = append(l.Adjust, g.value())
			}
			return l
		case 2:
			if rng.IntN(2) == 0 {
				l := gtab.Gpos2_1{}
				for k := 1 + rng.IntN(5); k > 0; k-- {
					l[glyph.Pair{Left: g.gid(), Right: g.gid()}] = g.pair()
				}
				return l
			}
			classes := func() classdef.Table { // empty classes are allowed here
				t, n := g.classes()
				if n > 1 && rng.IntN(3) == 0 {
					for x, c := range t {
						t[x] = c + uint16(rng.IntN(2))*uint16(n)
					}
				}
				return t
			}
			l := &gtab.Gpos2_2{Cov: covset(g.set(rng.IntN(4))), Class1: classes(), Class2: classes()}
			for i := numClasses(l.Class1); i > 0; i-- {
				var row []*gtab.PairAdjust
				for j := numClasses(l.Class2); j > 0; j-- {
					row = append(row, g.pair())
				}
				l.Adjust = append(l.Adjust, row)
			}
			return l
		case 3:
			l := &gtab.Gpos3_1{Cov: table(keys)}
			for range keys {
				l.Records = append(l.Records, gtab.EntryExitRecord{
					Entry: anchor.Table{X: g.i16(), Y: g.i16()},
					Exit:  anchor.Table{X: g.i16(), Y: g.i16()},
				})
			}
			return l
		default:
			l := &gtab.Gpos4_1{MarkCov: table(keys)}
			n := 1 + rng.IntN(min(3, len(keys)))
			for i := range keys {
				cls := i
				if i >= n {
					cls = rng.IntN(n)
				}
				l.MarkArray = append(l.MarkArray, markarray.Record{Class: uint16(cls), Table: anchor.Table{X: g.i16(), Y: g.i16()}})
			}
			rng.Shuffle(len(keys), func(i, j int) {
				l.MarkArray[i], l.MarkArray[j] = l.MarkArray[j], l.MarkArray[i]
			})
			base := g.set(rng.IntN(3))
			l.BaseCov = table(base)
			for range base {
				var row []anchor.Table
				for j := 0; j < n; j++ {
					row = append(row, anchor.Table{X: g.i16(), Y: g.i16()})
				}
				l.BaseArray = append(l.BaseArray, row)
			}
			return l
		}
	}
	switch kind {
	case 1:
		m := map[glyph.ID]glyph.ID{}
		mode := rng.IntN(3)
		d := int(g.gid()) - int(keys[0])
		for _, k := range keys {
			to := int(k) + d
			if mode == 0 || to < 0 || to >= g.ft.n {
				to = int(g.gid())
			}
			if mode == 1 && rng.IntN(6) == 0 {
				to = int(g.gid())
			}
			m[k] = glyph.ID(to)
		}
		delta := m[keys[0]] - keys[0]
		constant := true
		l := &gtab.Gsub1_2{Cov: table(keys)}
		for _, k := range keys {
			constant = constant && m[k]-k == delta
			l.SubstituteGlyphIDs = append(l.SubstituteGlyphIDs, m[k])
		}
		if constant {
			return &gtab.Gsub1_1{Cov: covset(keys), Delta: delta}
		}
		return l
	case 2:
		l := &gtab.Gsub2_1{Cov: table(keys)}
		for range keys {
			l.Repl = append(l.Repl, g.list(1))
		}
		return l
	case 3:
		l := &gtab.Gsub3_1{Cov: table(keys)}
		for range keys {
			l.Alternates = append(l.Alternates, g.set(rng.IntN(4)))
		}
		return l
	case 4:
		l := &gtab.Gsub4_1{Cov: table(keys)}
		for _, k := range keys {
			var ll []gtab.Ligature
			for j := rng.IntN(3); j >= 0; j-- {
				lig := gtab.Ligature{In: g.list(0), Out: g.gid()}
				if rng.IntN(3) == 0 {
					lig.In = nil
				}
				if rng.IntN(4) == 0 {
					lig.Out = min(k+1, glyph.ID(g.ft.n-1))
				}
				ll = append(ll, lig)
			}
			l.Repl = append(l.Repl, ll)
		}
		return l
	case 5:
		switch rng.IntN(3) {
		case 0:
			l := &gtab.SeqContext1{Cov: table(keys)}
			for range keys {
				var rr []*gtab.SeqRule
				for j := rng.IntN(3); j >= 0; j-- {
					rr = append(rr, &gtab.SeqRule{Input: g.list(0), Actions: g.actions()})
				}
				l.Rules = append(l.Rules, rr)
			}
			return l
		case 1:
			l := &gtab.SeqContext2{Cov: table(g.set(rng.IntN(4)))}
			var n int
			l.Input, n = g.classes()
			l.Rules = make([][]*gtab.ClassSeqRule, n)
			for j := rng.IntN(5); j >= 0; j-- {
				c := rng.IntN(n)
				l.Rules[c] = append(l.Rules[c], &gtab.ClassSeqRule{Input: g.classList(0, n), Actions: g.actions()})
			}
			return l
		default:
			return &gtab.SeqContext3{Input: g.sets(1), Actions: g.actions()}
		}
	default:
		switch rng.IntN(3) {
		case 0:
			l := &gtab.ChainedSeqContext1{Cov: table(keys)}
			for range keys {
				var rr []*gtab.ChainedSeqRule
				for j := rng.IntN(3); j >= 0; j-- {
					rr = append(rr, &gtab.ChainedSeqRule{Backtrack: g.list(0), Input: g.list(0), Lookahead: g.list(0), Actions: g.actions()})
				}
				l.Rules = append(l.Rules, rr)
			}
			return l
		case 1:
			l := &gtab.ChainedSeqContext2{Cov: table(g.set(rng.IntN(4)))}
			var n, nb, nl int
			l.Input, n = g.classes()
			l.Backtrack, nb = g.classes()
			l.Lookahead, nl = g.classes()
			l.Rules = make([][]*gtab.ChainedClassSeqRule, n)
			for j := rng.IntN(5); j >= 0; j-- {
				c := rng.IntN(n)
				l.Rules[c] = append(l.Rules[c], &gtab.ChainedClassSeqRule{Backtrack: g.classList(0, nb), Input: g.classList(0, n), Lookahead: g.classList(0, nl), Actions: g.actions()})
			}
			return l
		default:
			return &gtab.ChainedSeqContext3{Backtrack: g.sets(0), Input: g.sets(1), Lookahead: g.sets(0), Actions: g.actions()}
		}
	}
}

func numClasses(t classdef.Table) int {
	n := 1
	for _, c := range t {
		n = max(n, int(c)+1)
	}
	return n
}

func (g *gen) lookups(gpos bool) gtab.LookupList {
	var res gtab.LookupList
	for k := 1 + g.IntN(4); k > 0; k-- {
		kind := 1 + g.IntN(6)
		if gpos {
			kind = 1 + g.IntN(4)
		}
		lt := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(kind)}}
		if g.IntN(2) == 0 {
			for _, f := range []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, gtab.IgnoreBaseGlyphs} {
				if g.IntN(2) == 0 {
					lt.Meta.LookupFlags |= f
				}
			}
		}
		n := 1
		if (gpos || kind >= 5) && g.IntN(2) == 0 {
			n += g.IntN(3)
		}
		for ; n > 0; n-- {
			lt.Subtables = append(lt.Subtables, g.subtable(kind, gpos))
		}
		res = append(res, lt)
	}
	return res
}

// ----- an independent writer for the language -----

type writer struct {
	*rand.Rand
	ft *font
	b  strings.Builder
}

func (w *writer) s(s string) { w.b.WriteString(s) }

func (w *writer) pick(x ...string) { w.b.WriteString(x[w.IntN(len(x))]) }

// gap writes a separator between tokens
func (w *writer) gap() { w.pick(" ", " ", " ", "  ", "\t", " \r", "\u00a0 ") }

// opt writes optional white space
func (w *writer) opt() { w.pick("", " ", " ", "\t") }

// eol writes an optional line break
func (w *writer) eol() {
	w.opt()
	if w.IntN(4) == 0 {
		if w.IntN(3) == 0 {
			w.pick("# comment", "#", "# \"unterminated -> [ || 7", "## \xff")
		}
		w.s("\n")
		w.opt()
	}
}

func (w *writer) quote(r rune) string {
	switch r {
	case '\n':
		return `\n`
	case '\t':
		return fgen.Pick(w.Rand, "\t", `\t`)
	case '\r':
		return fgen.Pick(w.Rand, "\r", `\r`)
	case '"', '\\':
		return `\` + string(r)
	case 'n', 't', 'r', 0:
		return string(r)
	}
	if w.IntN(10) == 0 {
		return `\` + string(r)
	}
	return string(r)
}

func (w *writer) str(gg []glyph.ID) (string, bool) {
	s := `"`
	for _, g := range gg {
		rr := w.ft.runes[g]
		if len(rr) == 0 {
			return "", false
		}
		r := rr[w.IntN(len(rr))]
		if r == 0 {
			return "", false // not supported in strings
		}
		s += w.quote(r)
	}
	return s + `"`, true
}

// glyph returns one glyph.  If head is set, keywords are avoided.
func (w *writer) glyph(g glyph.ID, head bool) string {
	for {
		switch w.IntN(3) {
		case 0:
			if w.ft.usable(g) && !(head && strings.HasSuffix(w.ft.names[g], "class")) {
				return w.ft.names[g]
			}
		case 1:
			if s, ok := w.str([]glyph.ID{g}); ok {
				return s
			}
		default:
			return fgen.Pick(w.Rand, "", "", "", "+", "00") + strconv.Itoa(int(g))
		}
	}
}

// list writes a list of glyphs
func (w *writer) list(gg []glyph.ID, head bool) {
	first := true
	for len(gg) > 0 {
		if !first {
			w.gap()
		}
		// the longest range
		k := 1
		if len(gg) > 1 && (gg[1] == gg[0]+1 || gg[1] == gg[0]-1) {
			d := gg[1] - gg[0]
			for k < len(gg) && gg[k] == gg[k-1]+d {
				k++
			}
		}
		// the longest string
		j := 0
		for j < len(gg) && len(w.ft.runes[gg[j]]) > 0 {
			j++
		}
		switch x := w.IntN(3); {
		case x == 0 && k > 1:
			k = 2 + w.IntN(k-1)
			w.s(w.glyph(gg[0], head && first))
			to := w.glyph(gg[k-1], false)
			if to[0] >= '0' && to[0] <= '9' {
				w.pick(" - ", "- ")
			} else {
				w.pick(" - ", "- ", "-", " -")
			}
			w.s(to)
			gg = gg[k:]
		case x == 1 && j > 1:
			j = 2 + w.IntN(j-1)
			if s, ok := w.str(gg[:j]); ok {
				w.s(s)
				gg = gg[j:]
				break
			}
			fallthrough
		default:
			w.s(w.glyph(gg[0], head && first))
			gg = gg[1:]
		}
		first = false
	}
}

func (w *writer) set(gg []glyph.ID) {
	gg = slices.Clone(gg)
	slices.Sort(gg)
	if w.IntN(3) == 0 {
		w.Shuffle(len(gg), func(i, j int) { gg[i], gg[j] = gg[j], gg[i] })
	}
	if len(gg) > 0 && w.IntN(5) == 0 {
		gg = append(gg, gg[w.IntN(len(gg))])
	}
	w.s("[")
	w.opt()
	w.list(gg, false)
	w.opt()
	w.s("]")
}

func keys[T any](m map[glyph.ID]T) []glyph.ID {
	var res []glyph.ID
	for g := range m {
		res = append(res, g)
	}
	slices.Sort(res)
	return res
}

func (w *writer) arrow() { w.opt(); w.s("->"); w.opt() }

func (w *writer) comma() { w.opt(); w.s(","); w.eol() }

func (w *writer) actions(aa []gtab.SeqLookup) {
	for i, a := range aa {
		if i > 0 {
			w.gap()
		}
		w.s(strconv.Itoa(int(a.LookupListIndex)))
		w.pick("@", " @ ")
		w.s(strconv.Itoa(int(a.SequenceIndex)))
	}
}

func (w *writer) num(x funit.Int16) string {
	if x > 0 && w.IntN(3) == 0 {
		return "+" + strconv.Itoa(int(x))
	}
	return strconv.Itoa(int(x))
}

func (w *writer) value(v *gtab.GposValueRecord) {
	if v == nil {
		w.pick("_", "_", "_", "x+0", "dx+0 y+0")
		return
	}
	var parts []string
	add := func(name string, x funit.Int16) {
		if x != 0 || w.IntN(8) == 0 {
			s := w.num(x)
			if s[0] != '-' && s[0] != '+' {
				s = fgen.Pick(w.Rand, " ", "+") + s
			}
			parts = append(parts, name+s)
		}
	}
	add("x", v.XPlacement)
	add("y", v.YPlacement)
	add("dx", v.XAdvance)
	w.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	w.s(strings.Join(parts, " "))
}

func (w *writer) pair(p *gtab.PairAdjust) {
	w.value(p.First)
	if p.Second != nil || w.IntN(6) == 0 {
		w.pick(" & ", "&")
		w.value(p.Second)
	}
}

func (w *writer) className(i int) string {
	return fgen.Pick(w.Rand, "c", "class", "x", "é.", "_", "GSUB1.") + strconv.Itoa(i)
}

func (w *writer) defs(keyword string, t classdef.Table) (string, []string) {
	n := numClasses(t)
	nn := make([]string, n)
	s := ""
	for c := 1; c < n; c++ {
		nn[c] = w.className(c)
		var gg []glyph.ID
		for _, g := range keys(t) {
			if int(t[g]) == c {
				gg = append(gg, g)
			}
		}
		w2 := &writer{Rand: w.Rand, ft: w.ft}
		w2.set(gg)
		s += keyword + fgen.Pick(w.Rand, " ", "") + ":" + nn[c] + ":" + fgen.Pick(w.Rand, " = ", "=", " ") + w2.b.String() + fgen.Pick(w.Rand, " ", "\n", " # c\n")
		if c < n-1 {
			s += "\x00"
		}
	}
	return s, nn
}

func (w *writer) classList(cc []uint16, nn []string) {
	for _, c := range cc {
		w.opt()
		if c == 0 {
			w.s("::")
		} else {
			w.s(":" + nn[c] + ":")
		}
		w.opt()
	}
}

func rev[T any](x []T) []T {
	x = slices.Clone(x)
	slices.Reverse(x)
	return x
}

// entries writes a comma-separated list in random order.
func (w *writer) entries(gg []glyph.ID, one func(i int, first bool)) {
	perm := make([]int, len(gg))
	for i := range perm {
		perm[i] = i
	}
	if w.IntN(3) == 0 {
		w.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	}
	for k, i := range perm {
		if k > 0 {
			w.comma()
		}
		one(i, k == 0)
	}
}

func (w *writer) subtable(sub gtab.Subtable) {
	switch l := sub.(type) {
	case *gtab.Gsub1_1:
		m := map[glyph.ID]glyph.ID{}
		for g := range l.Cov {
			m[g] = g + l.Delta
		}
		w.single(m)
	case *gtab.Gsub1_2:
		m := map[glyph.ID]glyph.ID{}
		for g, i := range l.Cov {
			m[g] = l.SubstituteGlyphIDs[i]
		}
		w.single(m)
	case *gtab.Gsub2_1:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, _ bool) {
			w.list(gg[i:i+1], false)
			w.arrow()
			w.list(l.Repl[i], false)
		})
	case *gtab.Gsub3_1:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, _ bool) {
			w.list(gg[i:i+1], false)
			w.arrow()
			w.set(l.Alternates[i])
		})
	case *gtab.Gsub4_1:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, _ bool) {
			for j, lig := range l.Repl[i] {
				if j > 0 {
					w.comma()
				}
				w.list(append([]glyph.ID{gg[i]}, lig.In...), false)
				w.arrow()
				w.list([]glyph.ID{lig.Out}, false)
			}
		})
	case *gtab.Gpos1_1:
		w.set(keys(l.Cov))
		w.arrow()
		w.value(l.Adjust)
	case *gtab.Gpos1_2:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, _ bool) {
			w.list(gg[i:i+1], false)
			w.arrow()
			w.value(l.Adjust[i])
		})
	case gtab.Gpos2_1:
		var pp []glyph.Pair
		for p := range l {
			pp = append(pp, p)
		}
		slices.SortFunc(pp, func(a, b glyph.Pair) int { return (int(a.Left)-int(b.Left))<<16 + int(a.Right) - int(b.Right) })
		w.entries(make([]glyph.ID, len(pp)), func(i int, _ bool) {
			w.list([]glyph.ID{pp[i].Left, pp[i].Right}, false)
			w.arrow()
			w.pair(l[pp[i]])
		})
	case *gtab.Gpos2_2:
		w.s("/")
		w.list(keys(l.Cov), false)
		w.s("/")
		w.eol()
		for k, t := range []classdef.Table{l.Class1, l.Class2} {
			w.pick([]string{"first", "second"}[k])
			n := numClasses(t)
			for c := 1; c < n; c++ {
				if c > 1 {
					w.opt()
					w.s(",")
				}
				w.gap()
				var gg []glyph.ID
				for _, g := range keys(t) {
					if int(t[g]) == c {
						gg = append(gg, g)
					}
				}
				w.list(gg, false)
			}
			w.opt()
			w.s(";")
			w.eol()
		}
		for i, row := range l.Adjust {
			for j, p := range row {
				if j > 0 {
					w.s(",")
					w.opt()
				}
				w.pair(p)
			}
			if i < len(l.Adjust)-1 {
				w.pick(";", ",")
				w.eol()
			}
		}
	case *gtab.Gpos3_1:
		gg := keys(l.Cov)
		for i, g := range gg {
			if i > 0 {
				w.s(";")
				w.eol()
			}
			w.list([]glyph.ID{g}, false)
			w.pick(": ", ":", " : ")
			r := l.Records[i]
			w.s(w.num(r.Entry.X) + "," + w.num(r.Entry.Y) + " to " + w.num(r.Exit.X) + " , " + w.num(r.Exit.Y))
		}
	case *gtab.Gpos4_1:
		for i, g := range keys(l.MarkCov) {
			w.s("mark ")
			w.list([]glyph.ID{g}, false)
			w.pick(": ", ":", " : ")
			r := l.MarkArray[i]
			w.s(fmt.Sprintf("%d@", r.Class) + w.num(r.X) + "," + w.num(r.Y))
			w.s(";")
			w.eol()
		}
		for i, g := range keys(l.BaseCov) {
			w.s("base ")
			w.list([]glyph.ID{g}, false)
			w.pick(": ", ":", " : ")
			for j, a := range l.BaseArray[i] {
				if j > 0 {
					w.pick(" ", ", ")
				}
				w.s("@" + w.num(a.X) + "," + w.num(a.Y))
			}
			w.s(";")
			w.eol()
		}
	case *gtab.SeqContext1:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, first bool) {
			for j, r := range l.Rules[i] {
				if j > 0 {
					w.comma()
				}
				w.list(append([]glyph.ID{gg[i]}, r.Input...), first && j == 0)
				w.arrow()
				w.actions(r.Actions)
			}
		})
	case *gtab.SeqContext2:
		defs, nn := w.defs("class", l.Input)
		w.s(strings.ReplaceAll(defs, "\x00", ""))
		w.s("/")
		w.list(keys(l.Cov), false)
		w.s("/")
		first := true
		for c, rr := range l.Rules {
			for _, r := range rr {
				if !first {
					w.comma()
				}
				first = false
				w.classList(append([]uint16{uint16(c)}, r.Input...), nn)
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.SeqContext3:
		for _, s := range l.Input {
			w.set(keys(s))
			w.opt()
		}
		w.arrow()
		w.actions(l.Actions)
	case *gtab.ChainedSeqContext1:
		gg := keys(l.Cov)
		w.entries(gg, func(i int, first bool) {
			for j, r := range l.Rules[i] {
				if j > 0 {
					w.comma()
				}
				w.list(rev(r.Backtrack), first && j == 0)
				w.opt()
				w.s("|")
				w.opt()
				w.list(append([]glyph.ID{gg[i]}, r.Input...), false)
				w.opt()
				w.s("|")
				w.opt()
				w.list(r.Lookahead, false)
				w.arrow()
				w.actions(r.Actions)
			}
		})
	case *gtab.ChainedSeqContext2:
		d1, in := w.defs("inputclass", l.Input)
		d2, bt := w.defs("backtrackclass", l.Backtrack)
		d3, la := w.defs("lookaheadclass", l.Lookahead)
		// definitions of different kinds may be mixed
		var qq [][]string
		for _, d := range []string{d1, d2, d3} {
			if d != "" {
				qq = append(qq, strings.Split(d, "\x00"))
			}
		}
		for len(qq) > 0 {
			k := w.IntN(len(qq))
			w.s(qq[k][0])
			qq[k] = qq[k][1:]
			if len(qq[k]) == 0 {
				qq = slices.Delete(qq, k, k+1)
			}
		}
		w.s("/")
		w.list(keys(l.Cov), false)
		w.s("/")
		first := true
		for c, rr := range l.Rules {
			for _, r := range rr {
				if !first {
					w.comma()
				}
				first = false
				w.classList(rev(r.Backtrack), bt)
				w.s("|")
				w.classList(append([]uint16{uint16(c)}, r.Input...), in)
				w.s("|")
				w.classList(r.Lookahead, la)
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.ChainedSeqContext3:
		for _, s := range rev(l.Backtrack) {
			w.set(keys(s))
			w.opt()
		}
		w.s("|")
		for _, s := range l.Input {
			w.opt()
			w.set(keys(s))
		}
		w.pick("|", " | ")
		for _, s := range l.Lookahead {
			w.opt()
			w.set(keys(s))
		}
		w.arrow()
		w.actions(l.Actions)
	default:
		panic(fmt.Sprintf("unexpected subtable %T", sub))
	}
}

// single writes the rules of a single substitution.
func (w *writer) single(m map[glyph.ID]glyph.ID) {
	gg := keys(m)
	if w.IntN(3) == 0 {
		w.Shuffle(len(gg), func(i, j int) { gg[i], gg[j] = gg[j], gg[i] })
	}
	first := true
	for len(gg) > 0 {
		k := 1 + w.IntN(len(gg))
		if !first {
			w.comma()
		}
		first = false
		var to []glyph.ID
		for _, g := range gg[:k] {
			to = append(to, m[g])
		}
		w.list(gg[:k], false)
		w.arrow()
		w.list(to, false)
		gg = gg[k:]
	}
}

func write(rng *rand.Rand, ft *font, ll gtab.LookupList, gpos bool) string {
	w := &writer{Rand: rng, ft: ft}
	for w.IntN(3) == 0 {
		w.pick("\n", "# comment\n", " ", "\n\n", ";")
	}
	for i, lt := range ll {
		if i > 0 {
			w.pick("\n", "\n", "\n\n\n", " # comment\n", "\n;\n")
		}
		if gpos {
			w.s("GPOS")
		} else {
			w.s("GSUB")
		}
		w.s(strconv.Itoa(int(lt.Meta.LookupType)))
		w.pick(":", ": ", " :", " ")
		w.eol()
		var flags []string
		if lt.Meta.LookupFlags&gtab.IgnoreMarks != 0 {
			flags = append(flags, "marks")
		}
		if lt.Meta.LookupFlags&gtab.IgnoreLigatures != 0 {
			flags = append(flags, "ligs")
		}
		if lt.Meta.LookupFlags&gtab.IgnoreBaseGlyphs != 0 {
			flags = append(flags, "base")
		}
		w.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
		for _, f := range flags {
			w.s("-" + f + " ")
		}
		if len(flags) > 0 {
			w.eol()
		}
		for j, sub := range lt.Subtables {
			if j > 0 {
				w.pick(" ||", "||", "|| ")
				w.eol()
			}
			w.subtable(sub)
		}
	}
	w.pick("", "\n", " ", "\n\n", "\n# end", "\n;")
	return w.b.String()
}

// ----- the monitors -----

func isGpos(sub gtab.Subtable) (gpos, known bool) {
	switch sub.(type) {
	case *gtab.Gpos1_1, *gtab.Gpos1_2, gtab.Gpos2_1, *gtab.Gpos2_2, *gtab.Gpos3_1, *gtab.Gpos4_1:
		return true, true
	case *gtab.Gsub1_1, *gtab.Gsub1_2, *gtab.Gsub2_1, *gtab.Gsub3_1, *gtab.Gsub4_1, *gtab.SeqContext1, *gtab.SeqContext2, *gtab.SeqContext3, *gtab.ChainedSeqContext1, *gtab.ChainedSeqContext2, *gtab.ChainedSeqContext3:
		return false, true
	}
	return false, false
}

func dump(ll gtab.LookupList) string { return strings.Join(gdump.Lookups(ll), "\n") }

func short(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

var stacks []byte

// leaked returns the stacks of goroutines inside the builder package.
func leaked() string {
	if stacks == nil {
		stacks = make([]byte, 1<<20)
	}
	n := runtime.Stack(stacks, true)
	var res []string
	for _, s := range strings.Split(string(stacks[:n]), "\n\n") {
		if strings.Contains(s, "gtab/builder.") {
			res = append(res, s)
		}
	}
	return strings.Join(res, "\n\n")
}

var lineRE = regexp.MustCompile(`^(\d+):`)

// schedule selects a number of processors, and optionally some noise.
func schedule(c *h.Case) func() {
	procs := 1 + c.Index%16
	runtime.GOMAXPROCS(procs)
	if c.Index/16%3 != 0 {
		return func() {}
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < 1+c.Rng.IntN(3); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				runtime.Gosched()
			}
		}()
	}
	c.Count("cases with competing goroutines", 1)
	return func() {
		stop.Store(true)
		wg.Wait()
	}
}

type result struct {
	ll   gtab.LookupList
	err  error
	line int
}

// leaks is the number of leaks found by this process.  Waiting for goroutines
// takes time, so the search stops after a few leaks.
var leaks int

// parse runs builder.Parse with all monitors.
func parse(c *h.Case, ft *font, text string) (*result, bool) {
	base := runtime.NumGoroutine()
	res := &result{}
	r, stack := h.Catch(func() { res.ll, res.err = builder.Parse(ft.f, text) })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "Parse panics: %v; text %q; font: %s\n%s", r, short(text), ft.desc, stack)
		return nil, false
	}
	c.Eval(1)
	c.Count("texts parsed", 1)

	// all goroutines must end
	for i := 0; runtime.NumGoroutine() > base && leaks < 3; i++ {
		if i < 200 {
			runtime.Gosched()
			continue
		}
		time.Sleep(time.Millisecond)
		if i == 230 && leaked() == "" {
			break // some goroutine of the runtime
		}
		if i > 230 {
			time.Sleep(9 * time.Millisecond)
		}
		if i > 430 {
			if s := leaked(); s != "" {
				leaks++
				c.Violation("goroutine", "goroutines are still running after Parse returned (error %v); text %q; font: %s\n%s", res.err, short(text), ft.desc, short(s))
				return nil, false
			}
			break
		}
	}

	if res.err != nil {
		c.Count("texts rejected", 1)
		m := lineRE.FindStringSubmatch(res.err.Error())
		if m == nil {
			c.Violation("no line number", "error %q for text %q; font: %s", res.err, short(text), ft.desc)
			return nil, false
		}
		res.line, _ = strconv.Atoi(m[1])
		if n := strings.Count(text, "\n") + 1; res.line < 1 || res.line > n {
			c.Violation("line number", "error %q for a text with %d lines: %q; font: %s", res.err, n, short(text), ft.desc)
			return nil, false
		}
		if len(res.ll) > 0 {
			c.Count("lookups returned together with an error", 1)
		}
	} else {
		c.Count("texts accepted", 1)
	}
	return res, true
}

// explain describes a lookup list.
func explain(c *h.Case, ft *font, ll gtab.LookupList, gpos bool, text string) (string, bool) {
	var s string
	r, stack := h.Catch(func() {
		f2 := *ft.f
		if gpos {
			f2.Gpos = &gtab.Info{LookupList: ll}
			s = strings.Join(builder.ExplainGpos(&f2), "\n")
		} else {
			f2.Gsub = &gtab.Info{LookupList: ll}
			s = builder.ExplainGsub(&f2)
		}
	})
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "Explain panics: %v; lookups %s; text %q; font: %s\n%s", r, short(dump(ll)), short(text), ft.desc, stack)
		return "", false
	}
	return s, true
}

// roundTrip describes a lookup list and reads the description.
func roundTrip(c *h.Case, ft *font, ll gtab.LookupList, gpos bool, text string) bool {
	want := dump(ll)
	s, ok := explain(c, ft, ll, gpos, text)
	if !ok {
		return false
	}
	if after := dump(ll); after != want {
		c.Violation("modified", "Explain changed the lookups from %s to %s", short(want), short(after))
		return false
	}
	res, ok := parse(c, ft, s)
	if !ok {
		return false
	}
	key := ""
	for _, lt := range ll {
		if len(ll) == 1 {
			key = fmt.Sprintf(" %d %T", lt.Meta.LookupType, lt.Subtables[0])
		}
	}
	if res.err != nil {
		c.Violation("description rejected"+key, "error %q for the description %q of %s; original text %q; font: %s", res.err, short(s), short(want), short(text), ft.desc)
		return false
	}
	if got := dump(res.ll); got != want {
		c.Violation("description means something else"+key, "lookups\n%s\ndescription\n%s\nbecomes\n%s\noriginal text %q; font: %s", short(want), short(s), short(got), short(text), ft.desc)
		return false
	}
	c.Count("lookup lists described and parsed", 1)
	return true
}

func describe(c *h.Case) {
	rng := c.Rng
	ft := makeFont(rng)
	defer schedule(c)()
	for k := 0; k < 8; k++ {
		gpos := rng.IntN(2) == 0
		g := newGen(rng, ft)
		ll := g.lookups(gpos)
		if rng.IntN(2) == 0 {
			ll = ll[:1]
		}
		if !roundTrip(c, ft, ll, gpos, "") {
			return
		}
		for _, lt := range ll {
			for _, sub := range lt.Subtables {
				c.Count(fmt.Sprintf("described: %T", sub), 1)
			}
			c.Count(fmt.Sprintf("flags %x", uint16(lt.Meta.LookupFlags)), 1)
		}
		c.NonTrivial(dump(ll), ft.desc)
	}
}

func meaning(c *h.Case) {
	rng := c.Rng
	ft := makeFont(rng)
	defer schedule(c)()
	for k := 0; k < 8; k++ {
		gpos := rng.IntN(2) == 0
		g := newGen(rng, ft)
		ll := g.lookups(gpos)
		if rng.IntN(2) == 0 {
			ll = ll[:1]
		}
		text := write(rng, ft, ll, gpos)
		res, ok := parse(c, ft, text)
		if !ok {
			return
		}
		want := dump(ll)
		if res.err != nil {
			c.Violation("valid text rejected", "error %q for text\n%s\n(%q) which means\n%s; font: %s", res.err, short(text), short(text), short(want), ft.desc)
			return
		}
		if got := dump(res.ll); got != want {
			c.Violation("wrong meaning", "text\n%s\n(%q)\nmeans\n%s\nbut gives\n%s\nfont: %s", short(text), short(text), short(want), short(got), ft.desc)
			return
		}
		c.NonTrivial(text, ft.desc)
		c.Count("meanings compared", 1)
		if !roundTrip(c, ft, res.ll, gpos, text) {
			return
		}
	}
}

var tokenRE = regexp.MustCompile(`[\pL._][\pL\pN._]*|"(?:[^"\\\n]|\\.)*"|[-+]?[0-9]+|->|\|\||\n|[^\s]`)

var vocabulary = []string{
	"GSUB1", "GSUB2", "GSUB3", "GSUB4", "GSUB5", "GSUB6", "GSUB7", "GPOS1", "GPOS2", "GPOS3", "GPOS4", "GPOS5",
	":", ":", "\n", "\n", "->", "->", "->", "|", "||", ",", ",", ";", "[", "]", "@", "/", "&", "=", "-", "-",
	"A", "B", "C", "M", "x", "y", "dx", "dy", "_", "to", "first", "second", "mark", "base", "class", "inputclass", "backtrackclass", "lookaheadclass",
	"\"A\"", "\"ABC\"", "\"\"", "\"", "\"\\\"", "\"\\", "\"日\"", "0", "1", "2", "3", "17", "-1", "+5", "65535", "65536", "99999999999999999999", "-99999999999999999999", "+", "marks", "ligs", "lig", "::", ":c1:", "#", "# x\n", "$", "\x00", "\xff", "\r", "\u2028", "é", "٣", "1@0", "0-", "- 3", "!",
}

// arbitrary parses text which is probably invalid.
func arbitrary(c *h.Case) {
	rng := c.Rng
	ft := makeFont(rng)
	defer schedule(c)()
	for k := 0; k < 12; k++ {
		var text string
		wantLine := 0
		switch mode := rng.IntN(8); mode {
		case 0: // random bytes
			text = string(fgen.Bytes(rng, rng.IntN(60)))
		case 1, 2: // random tokens
			b := &strings.Builder{}
			if rng.IntN(2) == 0 {
				b.WriteString(vocabulary[rng.IntN(12)] + ": ")
			}
			for i := rng.IntN(fgen.Pick(rng, 5, 20, 80)); i > 0; i-- {
				b.WriteString(fgen.Pick(rng, vocabulary...))
				if rng.IntN(5) != 0 {
					b.WriteByte(' ')
				}
			}
			text = b.String()
		default: // mutation of a valid text
			gpos := rng.IntN(2) == 0
			g := newGen(rng, ft)
			text = write(rng, ft, g.lookups(gpos), gpos)
			loc := tokenRE.FindAllStringIndex(text, -1)
			if len(loc) == 0 {
				continue
			}
			p := loc[rng.IntN(len(loc))]
			q := loc[rng.IntN(len(loc))]
			switch mode {
			case 3: // delete a token
				text = text[:p[0]] + text[p[1]:]
			case 4: // replace a token
				text = text[:p[0]] + fgen.Pick(rng, vocabulary...) + text[p[1]:]
			case 5: // insert or swap a token
				if rng.IntN(2) == 0 {
					text = text[:p[0]] + " " + fgen.Pick(rng, vocabulary...) + " " + text[p[0]:]
				} else if p[1] <= q[0] {
					text = text[:p[0]] + text[q[0]:q[1]] + text[p[1]:q[0]] + text[p[0]:p[1]] + text[q[1]:]
				}
			case 6: // stop early
				if rng.IntN(2) == 0 {
					text = text[:p[rng.IntN(2)]]
				} else {
					text = text[:rng.IntN(len(text)+1)]
				}
			case 7: // a character which is not part of the language
				comment := false // position inside a comment?
				line := text[strings.LastIndex(text[:p[0]], "\n")+1 : p[0]]
				comment = strings.Contains(line, "#") || strings.Contains(text[p[0]:p[1]], "\"")
				quotes := strings.Count(line, "\"")%2 != 0 || strings.Contains(line, "\\")
				text = text[:p[0]] + fgen.Pick(rng, " $ ", " ! ", " % ", " \x01 ", " ( ", " \u00d7 ") + text[p[0]:]
				if !comment && !quotes {
					wantLine = 1 + strings.Count(text[:p[0]], "\n")
				}
			}
			if rng.IntN(20) == 0 {
				i := rng.IntN(len(text) + 1)
				text = text[:i] + string(fgen.Bytes(rng, 1+rng.IntN(3))) + text[i:]
				wantLine = 0
			}
		}
		// ranges are short for a reason: each takes up to 128 kB
		if ft.n > 1000 && strings.Count(text, "-") > 200 {
			continue
		}
		res, ok := parse(c, ft, text)
		if !ok {
			return
		}
		c.NonTrivial(text)
		if wantLine > 0 {
			if res.err == nil {
				c.Violation("invalid character accepted", "text %q; font: %s", short(text), ft.desc)
				return
			}
			if res.line != wantLine {
				c.Violation("wrong line", "error %q, but the invalid character is in line %d of %q; font: %s", res.err, wantLine, short(text), ft.desc)
				return
			}
			c.Count("line numbers compared", 1)
		}
		if res.err != nil || len(res.ll) == 0 {
			continue
		}
		all := map[bool]bool{}
		big := 0
		for _, lt := range res.ll {
			for _, sub := range lt.Subtables {
				gpos, known := isGpos(sub)
				all[gpos] = true
				if !known {
					all[true], all[false] = true, true
				}
				big += len(gdump.Subtable(sub))
			}
		}
		if len(all) != 1 || big > 1<<20 {
			continue
		}
		c.Count("accepted mutants described", 1)
		if !roundTrip(c, ft, res.ll, all[true], text) {
			return
		}
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C19",
		Level: "exploration",
		Rule:  "random lookup lists are described by the library and parsed, and written by an independent writer and parsed; arbitrary texts are parsed. Every call is followed by a search for goroutines of the package. Non-trivial: distinct lookup lists and texts",
		Assumptions: []string{
			"a lookup list can be expressed in the language if it has the form the parser produces (format 1.1 for constant differences, consecutive non-empty classes, no empty rule lists, no vertical advances)",
			"which of several glyphs with the same name an identifier refers to is not judged",
		},
		Groups: []h.Group{
			{Name: "describe", Quick: 4000, Run: describe},
			{Name: "meaning", Quick: 4000, Run: meaning},
			{Name: "arbitrary", Quick: 8000, Run: arbitrary},
		},
	})
}
