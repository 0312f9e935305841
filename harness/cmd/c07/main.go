// Command c07 checks that shaping is safe, terminating, text-conserving and
// independent of the history.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/fgen"
	"verif/foreign"
	"verif/gdump"
	"verif/h"
	"verif/mut"
	"verif/raw"
)

// ----- inspection of lookup lists -----

func stripValue(v *gtab.GposValueRecord) {
	if v != nil {
		v.YAdvance = 0
		v.XPlacementDevOffs, v.YPlacementDevOffs, v.XAdvanceDevOffs, v.YAdvanceDevOffs = 0, 0, 0, 0
	}
}

func stripPair(p *gtab.PairAdjust) {
	if p != nil {
		stripValue(p.First)
		stripValue(p.Second)
	}
}

// strip removes data which is declared to be unimplemented.
func strip(ll gtab.LookupList) {
	for _, lt := range ll {
		for _, sub := range lt.Subtables {
			switch l := sub.(type) {
			case *gtab.Gpos1_1:
				stripValue(l.Adjust)
			case *gtab.Gpos1_2:
				for _, v := range l.Adjust {
					stripValue(v)
				}
			case gtab.Gpos2_1:
				for _, p := range l {
					stripPair(p)
				}
			case *gtab.Gpos2_2:
				for _, row := range l.Adjust {
					for _, p := range row {
						stripPair(p)
					}
				}
			}
		}
	}
}

// growth returns the maximal number of glyphs a single application of a
// lookup can add, without nested actions, and whether there are contextual
// rules.
func growth(lt *gtab.LookupTable) (int, bool) {
	g, ctx := 0, false
	for _, sub := range lt.Subtables {
		switch l := sub.(type) {
		case *gtab.Gsub2_1:
			for _, r := range l.Repl {
				g = max(g, len(r)-1)
			}
		case *gtab.SeqContext1, *gtab.SeqContext2, *gtab.SeqContext3, *gtab.ChainedSeqContext1, *gtab.ChainedSeqContext2, *gtab.ChainedSeqContext3:
			ctx = true
		}
	}
	return g, ctx
}

// bound returns an upper bound for the length of the output.  At every
// position of the input, either one replacement or at most 64 nested
// replacements can be made.
func bound(ll gtab.LookupList, order []gtab.LookupIndex, n int) int {
	all := 0
	for _, lt := range ll {
		g, _ := growth(lt)
		all = max(all, g)
	}
	for _, idx := range order {
		if int(idx) >= len(ll) {
			continue
		}
		g, ctx := growth(ll[idx])
		if ctx {
			g = max(g, 64*all)
		}
		n += n * g
		if n > 1<<30 {
			return 1 << 30
		}
	}
	return n
}

// interesting lists glyphs used in the tables.
func interesting(ll gtab.LookupList, gd *gdef.Table) []glyph.ID {
	seen := map[glyph.ID]bool{}
	cov := func(t coverage.Table) {
		for g := range t {
			if len(seen) < 4000 {
				seen[g] = true
			}
		}
	}
	set := func(t coverage.Set) {
		for g := range t {
			if len(seen) < 4000 {
				seen[g] = true
			}
		}
	}
	cls := func(t classdef.Table) {
		for g := range t {
			if len(seen) < 4000 {
				seen[g] = true
			}
		}
	}
	ids := func(gg []glyph.ID) {
		for _, g := range gg {
			seen[g] = true
		}
	}
	for _, lt := range ll {
		for _, sub := range lt.Subtables {
			switch l := sub.(type) {
			case *gtab.Gsub1_1:
				set(l.Cov)
			case *gtab.Gsub1_2:
				cov(l.Cov)
			case *gtab.Gsub2_1:
				cov(l.Cov)
			case *gtab.Gsub3_1:
				cov(l.Cov)
			case *gtab.Gsub4_1:
				cov(l.Cov)
				for _, rr := range l.Repl {
					for _, r := range rr {
						ids(r.In)
					}
				}
			case *gtab.Gsub8_1:
				cov(l.Input)
				for _, t := range append(slices.Clone(l.Backtrack), l.Lookahead...) {
					cov(t)
				}
			case *gtab.SeqContext1:
				cov(l.Cov)
				for _, rr := range l.Rules {
					for _, r := range rr {
						ids(r.Input)
					}
				}
			case *gtab.SeqContext2:
				cov(l.Cov)
				cls(l.Input)
			case *gtab.SeqContext3:
				for _, t := range l.Input {
					set(t)
				}
			case *gtab.ChainedSeqContext1:
				cov(l.Cov)
				for _, rr := range l.Rules {
					for _, r := range rr {
						ids(r.Backtrack)
						ids(r.Input)
						ids(r.Lookahead)
					}
				}
			case *gtab.ChainedSeqContext2:
				cov(l.Cov)
				cls(l.Input)
				cls(l.Backtrack)
				cls(l.Lookahead)
			case *gtab.ChainedSeqContext3:
				for _, tt := range [][]coverage.Set{l.Backtrack, l.Input, l.Lookahead} {
					for _, t := range tt {
						set(t)
					}
				}
			case *gtab.Gpos1_1:
				cov(l.Cov)
			case *gtab.Gpos1_2:
				cov(l.Cov)
			case gtab.Gpos2_1:
				for p := range l {
					if len(seen) < 4000 {
						ids([]glyph.ID{p.Left, p.Right})
					}
				}
			case *gtab.Gpos2_2:
				set(l.Cov)
				cls(l.Class1)
				cls(l.Class2)
			case *gtab.Gpos3_1:
				cov(l.Cov)
			case *gtab.Gpos4_1:
				cov(l.MarkCov)
				cov(l.BaseCov)
			case *gtab.Gpos5_1:
				cov(l.MarkCov)
				cov(l.LigCov)
			case *gtab.Gpos6_1:
				cov(l.Mark1Cov)
				cov(l.Mark2Cov)
			}
		}
	}
	if gd != nil {
		cls(gd.GlyphClass)
	}
	res := make([]glyph.ID, 0, len(seen))
	for g := range seen {
		res = append(res, g)
	}
	slices.Sort(res)
	return res
}

// ----- glyph sequences -----

// sequence makes a glyph sequence where every character occurs only once.
func sequence(rng *rand.Rand, pool []glyph.ID, maxLen int) []glyph.Info {
	n := rng.IntN(fgen.Pick(rng, 4, 10, 30, 60, 201))
	n = min(n, maxLen)
	if len(pool) > 0 && rng.IntN(3) != 0 {
		k := rng.IntN(len(pool))
		pool = pool[k:min(len(pool), k+1+rng.IntN(4))]
	}
	wild := rng.IntN(4) == 0
	runes := make([]rune, 0, 3*n+1)
	r := rune(0x4E00)
	seq := make([]glyph.Info, n)
	for i := range seq {
		if len(pool) == 0 || wild && rng.IntN(4) == 0 {
			seq[i].GID = glyph.ID(fgen.Pick(rng, 0, 1, 65535, 65534, rng.IntN(65536)))
		} else {
			seq[i].GID = fgen.Pick(rng, pool...)
		}
		k := fgen.Pick(rng, 1, 1, 1, 1, 0, 2, 3)
		l := len(runes)
		for ; k > 0; k-- {
			runes = append(runes, r)
			r++
		}
		seq[i].Text = runes[l:] // the text fields share their memory
		if rng.IntN(3) != 0 {
			seq[i].Advance = funit.Int16(rng.IntN(1000))
		}
	}
	return seq
}

func clone(seq []glyph.Info) []glyph.Info {
	// keep the layout of the memory behind the text fields
	var runes []rune
	for _, g := range seq {
		runes = append(runes, g.Text...)
	}
	res := slices.Clone(seq)
	pos := 0
	for i := range res {
		k := len(res[i].Text)
		res[i].Text = runes[pos : pos+k]
		pos += k
	}
	return res
}

func dump(seq []glyph.Info) string {
	b := &strings.Builder{}
	for _, g := range seq {
		fmt.Fprintf(b, "%d:%x:%d,%d,%d ", g.GID, string(g.Text), g.XOffset, g.YOffset, g.Advance)
	}
	return b.String()
}

func sortedText(seq []glyph.Info) []rune {
	var res []rune
	for _, g := range seq {
		res = append(res, g.Text...)
	}
	slices.Sort(res)
	return res
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// ----- the monitor -----

type tables struct {
	ll   gtab.LookupList
	gdef *gdef.Table
	desc string
}

// apply runs Context.Apply and checks the result.
func (t *tables) apply(c *h.Case, what string, ctx *gtab.Context, order []gtab.LookupIndex, seq []glyph.Info) ([]glyph.Info, bool) {
	in := clone(seq)
	want := sortedText(in)
	var out []glyph.Info
	r, stack := h.Catch(func() { out = ctx.Apply(in) })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "%s: panic: %v; lookups %v, input %s; %s\n%s", what, r, order, short(dump(seq)), t.desc, stack)
		return nil, false
	}
	if got := sortedText(out); !slices.Equal(got, want) {
		c.Violation("text", "%s: text %q became %q; lookups %v, input %s, output %s; %s", what, string(want), string(got), order, short(dump(seq)), short(dump(out)), t.desc)
		return nil, false
	}
	if b := bound(t.ll, order, len(seq)); len(out) > b {
		c.Violation("length", "%s: %d glyphs became %d, limit %d; lookups %v; %s", what, len(seq), len(out), b, order, t.desc)
		return nil, false
	}
	c.Eval(1)
	c.Count("calls to Apply", 1)
	c.Count("input glyphs", len(seq))
	if dump(out) != dump(seq) {
		c.Count("calls which changed the sequence", 1)
	}
	if len(out) != len(seq) {
		c.Count("calls which changed the length", 1)
	}
	c.Max("output length", len(out))
	return out, true
}

// exercise runs several sequences through shared and fresh contexts.
func (t *tables) exercise(c *h.Case) {
	rng := c.Rng
	if len(t.ll) == 0 {
		return
	}
	pool := interesting(t.ll, t.gdef)
	var order []gtab.LookupIndex
	switch rng.IntN(3) {
	case 0:
		for i := range t.ll {
			if i < 20 {
				order = append(order, gtab.LookupIndex(i))
			}
		}
	case 1:
		order = append(order, gtab.LookupIndex(rng.IntN(len(t.ll))))
	default:
		for i := 1 + rng.IntN(6); i > 0; i-- {
			order = append(order, gtab.LookupIndex(rng.IntN(len(t.ll)+rng.IntN(2))))
		}
	}
	for len(order) > 0 && bound(t.ll, order, 20) > 200000 {
		order = order[:len(order)-1]
	}
	if len(order) == 0 {
		c.Count("programs which can grow too much (skipped)", 1)
		return
	}
	maxLen := 200
	for bound(t.ll, order, maxLen) > 200000 {
		maxLen--
	}

	before := ""
	checkTables := rng.IntN(4) == 0 && len(pool) < 500
	if checkTables {
		before = strings.Join(gdump.Lookups(t.ll), "\n") + gdump.Gdef(t.gdef)
	}

	shared := gtab.NewContext(t.ll, t.gdef, slices.Clone(order))
	var seqs [][]glyph.Info
	var results, kept [][]glyph.Info
	var dumps []string
	k := 2 + rng.IntN(5)
	changed := false
	for i := 0; i < k; i++ {
		var seq []glyph.Info
		if i > 0 && rng.IntN(3) == 0 {
			seq = seqs[rng.IntN(len(seqs))]
		} else {
			seq = sequence(rng, pool, maxLen)
		}
		seqs = append(seqs, seq)
		out, ok := t.apply(c, fmt.Sprintf("call %d with the same context", i+1), shared, order, seq)
		if !ok {
			return
		}
		fresh, ok := t.apply(c, "fresh context", gtab.NewContext(t.ll, t.gdef, slices.Clone(order)), order, seq)
		if !ok {
			return
		}
		if dump(out) != dump(fresh) {
			c.Violation("history", "call %d with the same context returned %s, a fresh context %s; lookups %v, input %s; %s", i+1, short(dump(out)), short(dump(fresh)), order, short(dump(seq)), t.desc)
			return
		}
		if dump(out) != dump(seq) {
			changed = true
		}
		results = append(results, out)
		dumps = append(dumps, dump(out))
		kept = append(kept, fresh)
	}
	c.Count("histories", 1)
	for i := range results {
		if dump(results[i]) != dumps[i] || dump(kept[i]) != dumps[i] {
			c.Violation("overwritten", "result %d of %d was changed by a later call; lookups %v; %s", i+1, k, order, t.desc)
			return
		}
	}
	// once more, in the opposite order
	for i := k - 1; i >= 0; i-- {
		out, ok := t.apply(c, "repeated call", shared, order, seqs[i])
		if !ok {
			return
		}
		if dump(out) != dumps[i] {
			c.Violation("history", "repeating call %d with the same context gives %s instead of %s; lookups %v, input %s; %s", i+1, short(dump(out)), short(dumps[i]), order, short(dump(seqs[i])), t.desc)
			return
		}
	}
	if checkTables {
		c.Count("tables compared before and after", 1)
		if after := strings.Join(gdump.Lookups(t.ll), "\n") + gdump.Gdef(t.gdef); after != before {
			c.Violation("tables", "the tables were changed by applying lookups %v; %s", order, t.desc)
		}
	}
	if changed {
		c.NonTrivial(t.desc)
		c.Count("programs with effect", 1)
	}
}

// ----- workloads -----

func allKinds(rng *rand.Rand, gpos bool) []fgen.Kind {
	kinds := fgen.GsubKinds
	if gpos {
		kinds = fgen.GposKinds
	}
	if rng.IntN(3) != 0 {
		return kinds
	}
	var res []fgen.Kind
	for i := 1 + rng.IntN(3); i > 0; i-- {
		res = append(res, fgen.Pick(rng, kinds...))
	}
	return res
}

func context(rng *rand.Rand, gpos bool, ll gtab.LookupList) []*[]gtab.SeqLookup {
	var res []*[]gtab.SeqLookup
	for _, lt := range ll {
		for _, sub := range lt.Subtables {
			switch l := sub.(type) {
			case *gtab.SeqContext1:
				for _, rr := range l.Rules {
					for _, r := range rr {
						res = append(res, &r.Actions)
					}
				}
			case *gtab.SeqContext2:
				for _, rr := range l.Rules {
					for _, r := range rr {
						res = append(res, &r.Actions)
					}
				}
			case *gtab.SeqContext3:
				res = append(res, &l.Actions)
			case *gtab.ChainedSeqContext1:
				for _, rr := range l.Rules {
					for _, r := range rr {
						res = append(res, &r.Actions)
					}
				}
			case *gtab.ChainedSeqContext2:
				for _, rr := range l.Rules {
					for _, r := range rr {
						res = append(res, &r.Actions)
					}
				}
			case *gtab.ChainedSeqContext3:
				res = append(res, &l.Actions)
			}
		}
	}
	return res
}

// bad turns a table into something only a careless font producer would make,
// but which the reader accepts.
func bad(rng *rand.Rand, ll gtab.LookupList) {
	classes := func(t classdef.Table) {
		for g := range t {
			if rng.IntN(6) == 0 {
				t[g] = uint16(fgen.Pick(rng, 5, 20, 65535))
			}
		}
	}
	for _, lt := range ll {
		if rng.IntN(4) == 0 {
			lt.Meta.LookupFlags |= gtab.UseMarkFilteringSet
			lt.Meta.MarkFilteringSet = uint16(fgen.Pick(rng, 0, 1, 3, 100, 65535))
		}
		for _, sub := range lt.Subtables {
			if rng.IntN(2) == 0 {
				continue
			}
			switch l := sub.(type) {
			case *gtab.Gsub2_1:
				for i := range l.Repl {
					if rng.IntN(3) == 0 {
						l.Repl[i] = nil
					}
				}
			case *gtab.Gsub3_1:
				for i := range l.Alternates {
					if rng.IntN(3) == 0 {
						l.Alternates[i] = nil
					}
				}
			case *gtab.Gsub4_1:
				for i := range l.Repl {
					if rng.IntN(3) == 0 {
						l.Repl[i] = nil
					}
				}
			case *gtab.SeqContext1:
				for i := range l.Rules {
					if rng.IntN(3) == 0 {
						l.Rules[i] = nil
					}
				}
			case *gtab.SeqContext2:
				classes(l.Input)
				if len(l.Rules) > 0 && rng.IntN(3) == 0 {
					l.Rules = l.Rules[:rng.IntN(len(l.Rules))]
				}
			case *gtab.ChainedSeqContext1:
				for i := range l.Rules {
					if rng.IntN(3) == 0 {
						l.Rules[i] = nil
					}
				}
			case *gtab.ChainedSeqContext2:
				classes(l.Input)
				classes(l.Backtrack)
				classes(l.Lookahead)
				if len(l.Rules) > 0 && rng.IntN(3) == 0 {
					l.Rules = l.Rules[:rng.IntN(len(l.Rules))]
				}
			case *gtab.Gpos2_2:
				classes(l.Class1)
				classes(l.Class2)
			case *gtab.Gpos4_1:
				badMarks(rng, l.MarkArray)
			case *gtab.Gpos5_1:
				badMarks(rng, l.MarkArray)
			case *gtab.Gpos6_1:
				badMarks(rng, l.Mark1Array)
			}
		}
	}
}

func badMarks(rng *rand.Rand, mm []markarray.Record) {
	for i := range mm {
		if rng.IntN(3) == 0 {
			mm[i].Class = uint16(fgen.Pick(rng, 1, 2, 3, 10, 65535))
		}
	}
}

// structures builds tables directly.
func structures(c *h.Case) {
	rng := c.Rng
	gpos := rng.IntN(3) == 0
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 6, 20))
	base := fgen.Pick(rng, 0, 1, 500, 65536-n)
	var gids []glyph.ID
	for i := 0; i < n; i++ {
		gids = append(gids, glyph.ID(base+i))
	}
	g := &fgen.Gtab{Rng: rng, Gids: gids, DeepIdx: true, BadLookups: true, AllowEmptyCov: true, ZeroAnchors: true, MaxSeq: fgen.Pick(rng, 2, 3, 5)}
	gd := g.Gdef()
	ll := g.Lookups(1+rng.IntN(6), allKinds(rng, gpos))
	if rng.IntN(2) == 0 {
		bad(rng, ll)
		c.Count("programs with invalid data", 1)
	}
	if rng.IntN(3) == 0 {
		// more actions than the budget allows, self-referential rules
		for _, aa := range context(rng, gpos, ll) {
			k := rng.IntN(fgen.Pick(rng, 3, 70, 100))
			for ; k > 0; k-- {
				*aa = append(*aa, gtab.SeqLookup{SequenceIndex: uint16(fgen.Pick(rng, 0, 0, 0, 1, 2, rng.IntN(5), 65535)), LookupListIndex: gtab.LookupIndex(rng.IntN(len(ll)))})
			}
		}
		c.Count("programs with many actions", 1)
	}
	if rng.IntN(20) == 0 {
		// long sequences
		for _, lt := range ll {
			for _, sub := range lt.Subtables {
				if l, ok := sub.(*gtab.Gsub2_1); ok && len(l.Repl) > 0 {
					l.Repl[rng.IntN(len(l.Repl))] = g.GidSlice(rng.IntN(400))
				}
			}
		}
	}
	strip(ll)
	t := &tables{ll: ll, gdef: gd, desc: "constructed: " + short(strings.Join(gdump.Lookups(ll), " // ")) + " GDEF " + short(gdump.Gdef(gd))}
	t.exercise(c)
}

// corrupt reads mutated tables.
func corrupt(c *h.Case) {
	rng := c.Rng
	gpos := rng.IntN(3) == 0
	n := 1 + rng.IntN(fgen.Pick(rng, 4, 8, 30))
	base := fgen.Pick(rng, 0, 1, 500, 65536-n)
	var gids []glyph.ID
	for i := 0; i < n; i++ {
		gids = append(gids, glyph.ID(base+i))
	}
	g := &fgen.Gtab{Rng: rng, Gids: gids, DeepIdx: true, BadLookups: true, AllowEmptyCov: true, ZeroAnchors: true, MaxSeq: fgen.Pick(rng, 2, 3, 5)}
	gd := g.Gdef()
	typ := gtab.Type(gtab.TypeGsub)
	if gpos {
		typ = gtab.TypeGpos
	}
	info := g.Info(1+rng.IntN(5), allKinds(rng, gpos), fgen.Tags)
	data := info.Encode()
	for try := 0; try < 8; try++ {
		mutated := mut.Bytes(rng, data, rng.IntN(fgen.Pick(rng, 2, 4, 12)))
		info2, err := gtab.Read(bytes.NewReader(mutated), typ)
		if err != nil {
			c.Count("mutated tables rejected by the reader", 1)
			continue
		}
		c.Count("mutated tables accepted by the reader", 1)
		gd2 := gd
		if gd != nil && rng.IntN(2) == 0 {
			x, err := gdef.Read(bytes.NewReader(mut.Bytes(rng, gd.Encode(), 1+rng.IntN(4))))
			if err == nil {
				gd2 = x
				c.Count("mutated GDEF tables accepted by the reader", 1)
			}
		}
		strip(info2.LookupList)
		t := &tables{ll: info2.LookupList, gdef: gd2, desc: fmt.Sprintf("%v table %x", typ, h.Trunc(mutated))}
		t.exercise(c)
		if c.Failed() {
			return
		}
		selection(c, info2, typ, mutated)
		if c.Failed() {
			return
		}
	}
}

// selection checks that the choice of lookups does not depend on anything
// but the tables.
func selection(c *h.Case, info *gtab.Info, typ gtab.Type, data []byte) {
	rng := c.Rng
	features := map[string]bool{}
	for _, f := range info.FeatureList {
		if rng.IntN(3) != 0 {
			features[f.Tag] = rng.IntN(5) != 0
		}
	}
	lang := language.MustParse(fgen.Pick(rng, append([]string{"und", "en", "zh-Hant", "fr-Latn", "ar"}, fgen.Tags...)...))
	var first []gtab.LookupIndex
	r, stack := h.Catch(func() { first = info.FindLookups(lang, features) })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "FindLookups panics: %v; table %x\n%s", r, h.Trunc(data), stack)
		return
	}
	for i := 0; i < 6; i++ {
		x := info
		if i%2 == 1 {
			x, _ = gtab.Read(bytes.NewReader(data), typ)
		}
		if x == nil {
			c.Violation("reread", "a table was accepted only once: %x", h.Trunc(data))
			return
		}
		if got := x.FindLookups(lang, features); !slices.Equal(got, first) {
			c.Violation("selection", "repeated calls to FindLookups(%v, %v) return %v and %v; table %x", lang, features, first, got, h.Trunc(data))
			return
		}
	}
	c.Count("lookup selections repeated", 6)
	if len(info.ScriptList) > 1 {
		c.Count("selections between several scripts", 1)
	}
}

// ----- layouters -----

func stripFont(f *sfnt.Font) {
	if f.Gpos != nil {
		strip(f.Gpos.LookupList)
	}
}

// text makes random text.
func text(rng *rand.Rand, pool []rune) string {
	var rr []rune
	for i := rng.IntN(fgen.Pick(rng, 3, 10, 40, 200)); i > 0; i-- {
		if len(pool) == 0 || rng.IntN(12) == 0 {
			rr = append(rr, rune(fgen.Pick(rng, 'A', 'f', 'i', 0x300, 0x628, 0xFFFD, 0x10FFFF, 0, rng.IntN(0xD800))))
		} else {
			rr = append(rr, fgen.Pick(rng, pool...))
		}
	}
	return string(rr)
}

func layoutOnce(c *h.Case, what, desc string, l *sfnt.Layouter, s string) (string, bool) {
	var out []glyph.Info
	r, stack := h.Catch(func() { out = l.Layout(s) })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "%s: Layout(%q) panics: %v; %s\n%s", what, s, r, desc, stack)
		return "", false
	}
	want := []rune(s)
	slices.Sort(want)
	if got := sortedText(out); !slices.Equal(got, want) {
		c.Violation("text", "%s: Layout(%q): the glyphs represent the text %q; %s", what, s, string(got), desc)
		return "", false
	}
	c.Eval(1)
	c.Count("calls to Layout", 1)
	return dump(out), true
}

func layouter(c *h.Case) {
	rng := c.Rng
	var data []byte
	var desc string
	switch rng.IntN(4) {
	case 0:
		real := foreign.Real()
		i := rng.IntN(len(real))
		data, desc = real[i], fmt.Sprintf("real font %d", i)
	case 1:
		data, desc = foreign.File(rng)
	default:
		f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: rng.IntN(fgen.NumKinds), NumGlyphs: 2 + rng.IntN(40), Layout: true})
		var buf bytes.Buffer
		if _, err := f.Write(&buf); err != nil {
			return
		}
		data, desc = buf.Bytes(), "constructed font"
		if rng.IntN(2) == 0 {
			// corrupt the layout tables
			scaler, m := foreign.TableMap(data)
			for _, tag := range []string{"GSUB", "GPOS", "GDEF", "cmap", "kern"} {
				if len(m[tag]) > 0 && rng.IntN(2) == 0 {
					m[tag] = mut.Bytes(rng, m[tag], 1+rng.IntN(3))
					desc += ", corrupt " + tag
				}
			}
			data = raw.Build(scaler, m, rng)
		}
	}
	f, err := sfnt.Read(bytes.NewReader(data))
	if err != nil {
		c.Count("font files rejected", 1)
		return
	}
	stripFont(f)
	desc = fmt.Sprintf("%s: %x", desc, h.Trunc(data))

	for _, x := range []*gtab.Info{f.Gsub, f.Gpos} {
		if x != nil {
			var all []gtab.LookupIndex
			for i := range x.LookupList {
				all = append(all, gtab.LookupIndex(i))
			}
			if bound(x.LookupList, all, 200) > 200000 {
				c.Count("programs which can grow too much (skipped)", 1)
				return
			}
		}
	}

	var pool []rune
	if sub, err := f.CMapTable.GetBest(); err == nil {
		lo, hi := sub.CodeRange()
		if hi-lo > 3000 {
			hi = lo + 3000
		}
		for r := lo; r <= hi; r++ {
			if sub.Lookup(r) != 0 && (r < 0xD800 || r >= 0xE000) && r >= 0 && r <= 0x10FFFF {
				pool = append(pool, r)
			}
		}
	}
	if len(pool) > 4 && rng.IntN(2) == 0 {
		k := rng.IntN(len(pool) - 3)
		pool = pool[k : k+4]
	}

	lang := language.MustParse(fgen.Pick(rng, append([]string{"und", "en", "de"}, fgen.Tags...)...))
	var sw1, sw2 map[string]bool
	if rng.IntN(2) == 0 {
		sw1, sw2 = map[string]bool{}, map[string]bool{}
		for _, t := range []string{"liga", "kern", "ccmp", "mark", "mkmk", "smcp", "clig", "locl", "test", "aalt"} {
			sw1[t], sw2[t] = rng.IntN(4) != 0, rng.IntN(4) != 0
		}
	}
	mk := func(f *sfnt.Font) *sfnt.Layouter {
		var l *sfnt.Layouter
		var err error
		r, stack := h.Catch(func() { l, err = f.NewLayouter(lang, sw1, sw2) })
		if r != nil {
			c.Violation("panic:"+h.Stack([]byte(stack)).Site, "NewLayouter panics: %v; %s\n%s", r, desc, stack)
		}
		if err != nil {
			return nil
		}
		return l
	}
	shared := mk(f)
	if shared == nil {
		c.Count("fonts without usable cmap", 1)
		return
	}
	c.Count("fonts", 1)
	var texts, results []string
	for i := 2 + rng.IntN(6); i > 0; i-- {
		s := text(rng, pool)
		if len(texts) > 0 && rng.IntN(3) == 0 {
			s = fgen.Pick(rng, texts...)
		}
		a, ok := layoutOnce(c, fmt.Sprintf("call %d on the same layouter", len(texts)+1), desc, shared, s)
		if !ok {
			return
		}
		g := f
		if rng.IntN(2) == 0 {
			g, err = sfnt.Read(bytes.NewReader(data))
			if err != nil {
				c.Violation("reread", "a font was accepted only once: %s", desc)
				return
			}
			stripFont(g)
		}
		fresh := mk(g)
		if fresh == nil {
			c.Violation("reread", "a layouter could only be made once: %s", desc)
			return
		}
		b, ok := layoutOnce(c, "fresh layouter", desc, fresh, s)
		if !ok {
			return
		}
		if a != b {
			c.Violation("history", "call %d on the same layouter: Layout(%q) = %s, but a fresh layouter returns %s; texts before: %q; %s", len(texts)+1, s, short(a), short(b), texts, desc)
			return
		}
		texts = append(texts, s)
		results = append(results, a)
	}
	for i := len(texts) - 1; i >= 0; i-- {
		a, ok := layoutOnce(c, "repeated call", desc, shared, texts[i])
		if !ok {
			return
		}
		if a != results[i] {
			c.Violation("history", "repeated call: Layout(%q) = %s instead of %s; texts: %q; %s", texts[i], short(a), short(results[i]), texts, desc)
			return
		}
	}
	c.NonTrivial(results)
}

func main() {
	h.Main(&h.Check{
		ID:    "C07",
		Level: "exploration",
		Rule:  "a case is counted as non-trivial if at least one sequence was changed by the lookups (or, for layouters, a text was laid out)",
		Assumptions: []string{
			"vertical advances and device offsets in value records are set to zero before lookups are applied, as these are declared to be unimplemented",
			"programs which can legitimately produce more than 200000 glyphs are not run",
		},
		Groups: []h.Group{
			{Name: "structures", Quick: 40000, Run: structures},
			{Name: "corrupt", Quick: 14000, Run: corrupt},
			{Name: "layouter", Quick: 5000, Run: layouter},
		},
	})
}
