// Command c06 compares the application of GSUB and GPOS lookups with a
// reference implementation.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/fgen"
	"verif/gdump"
	"verif/h"
	"verif/refshape"
)

// program is a set of lookups together with everything needed to apply them.
type program struct {
	ll    gtab.LookupList
	gdef  *gdef.Table
	order []gtab.LookupIndex
	gids  []glyph.ID
	adv   map[glyph.ID]funit.Int16
	gpos  bool
}

// rules calls fn for all lists of nested actions, together with the length
// of the input sequence.
func rules(lt *gtab.LookupTable, fn func(n int, aa []gtab.SeqLookup) []gtab.SeqLookup) {
	for _, sub := range lt.Subtables {
		switch l := sub.(type) {
		case *gtab.SeqContext1:
			for _, rr := range l.Rules {
				for _, r := range rr {
					r.Actions = fn(1+len(r.Input), r.Actions)
				}
			}
		case *gtab.SeqContext2:
			for _, rr := range l.Rules {
				for _, r := range rr {
					r.Actions = fn(1+len(r.Input), r.Actions)
				}
			}
		case *gtab.SeqContext3:
			l.Actions = fn(len(l.Input), l.Actions)
		case *gtab.ChainedSeqContext1:
			for _, rr := range l.Rules {
				for _, r := range rr {
					r.Actions = fn(1+len(r.Input), r.Actions)
				}
			}
		case *gtab.ChainedSeqContext2:
			for _, rr := range l.Rules {
				for _, r := range rr {
					r.Actions = fn(1+len(r.Input), r.Actions)
				}
			}
		case *gtab.ChainedSeqContext3:
			l.Actions = fn(len(l.Input), l.Actions)
		}
	}
}

// forward redirects most of the nested actions to later lookups, to avoid
// too many endless recursions.
func forward(rng *rand.Rand, ll gtab.LookupList) {
	for i, lt := range ll {
		rules(lt, func(_ int, aa []gtab.SeqLookup) []gtab.SeqLookup {
			for k := range aa {
				if i+1 < len(ll) && int(aa[k].LookupListIndex) <= i && rng.IntN(8) != 0 {
					aa[k].LookupListIndex = gtab.LookupIndex(i + 1 + rng.IntN(len(ll)-i-1))
				}
			}
			return aa
		})
	}
}

// nestedProgram makes contextual rules which run many actions which change
// the length of the sequence.
func nestedProgram(rng *rand.Rand) *program {
	n := 2 + rng.IntN(3)
	p := &program{}
	for i := 0; i < n; i++ {
		p.gids = append(p.gids, glyph.ID(1+i))
	}
	g := &fgen.Gtab{Rng: rng, Gids: p.gids, MaxSeq: fgen.Pick(rng, 3, 4, 4)}
	p.gdef = g.Gdef()
	if rng.IntN(3) == 0 {
		p.gdef = nil
	}
	nc := 1 + rng.IntN(3)
	nl := nc + 1 + rng.IntN(4)
	g.NumLookups = nl
	all := map[glyph.ID]int{}
	for i, gid := range p.gids {
		all[gid] = i
	}
	list := func(k int) []glyph.ID {
		res := []glyph.ID{}
		for ; k > 0; k-- {
			res = append(res, g.Gid())
		}
		return res
	}
	for i := 0; i < nl; i++ {
		fl, set := g.Flags()
		if rng.IntN(2) == 0 {
			fl = 0
		}
		lt := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupFlags: fl, MarkFilteringSet: set}}
		if i < nc {
			lt.Meta.LookupType = uint16(fgen.Pick(rng, 5, 5, 6))
			lt.Subtables = []gtab.Subtable{g.Subtable(fgen.Kind{Gsub: true, Type: lt.Meta.LookupType, Format: 1 + rng.IntN(3)})}
		} else {
			switch rng.IntN(5) {
			case 0:
				lt.Meta.LookupType = 1
				lt.Subtables = []gtab.Subtable{&gtab.Gsub1_2{Cov: all, SubstituteGlyphIDs: list(n)}}
			case 1, 2:
				lt.Meta.LookupType = 2
				repl := make([][]glyph.ID, n)
				for j := range repl {
					repl[j] = list(1 + rng.IntN(3))
				}
				lt.Subtables = []gtab.Subtable{&gtab.Gsub2_1{Cov: all, Repl: repl}}
			default:
				lt.Meta.LookupType = 4
				repl := make([][]gtab.Ligature, n)
				for j := range repl {
					for k := rng.IntN(4); k >= 0; k-- {
						repl[j] = append(repl[j], gtab.Ligature{In: list(fgen.Pick(rng, 1, 1, 2, 3)), Out: g.Gid()})
					}
				}
				lt.Subtables = []gtab.Subtable{&gtab.Gsub4_1{Cov: all, Repl: repl}}
			}
		}
		p.ll = append(p.ll, lt)
	}
	for i, lt := range p.ll {
		rules(lt, func(n int, aa []gtab.SeqLookup) []gtab.SeqLookup {
			aa = nil
			for k := rng.IntN(5); k >= 0; k-- {
				aa = append(aa, gtab.SeqLookup{
					SequenceIndex:   uint16(rng.IntN(n + rng.IntN(2))),
					LookupListIndex: gtab.LookupIndex(i + 1 + rng.IntN(nl-i-1)),
				})
			}
			return aa
		})
	}
	p.order = []gtab.LookupIndex{0}
	if rng.IntN(4) == 0 {
		p.order = append(p.order, gtab.LookupIndex(rng.IntN(nl)))
	}
	return p
}

func without(kinds []fgen.Kind, types ...uint16) []fgen.Kind {
	var res []fgen.Kind
	for _, k := range kinds {
		if !slices.Contains(types, k.Type) {
			res = append(res, k)
		}
	}
	return res
}

func newProgram(rng *rand.Rand, gpos bool, n int) *program {
	p := &program{gpos: gpos, adv: map[glyph.ID]funit.Int16{}}
	base := fgen.Pick(rng, 1, 0, 100, 65530-n)
	step := 1
	if base < 1000 {
		step = fgen.Pick(rng, 1, 1, 1, 3)
	}
	for i := 0; i < n; i++ {
		p.gids = append(p.gids, glyph.ID(base+i*step))
	}
	g := &fgen.Gtab{Rng: rng, Gids: p.gids, ZeroAnchors: true, DeepIdx: rng.IntN(4) == 0, BadLookups: rng.IntN(8) == 0,
		MaxSeq: fgen.Pick(rng, 2, 3, 3, 4)}
	p.gdef = g.Gdef()

	kinds := fgen.GsubKinds
	if gpos {
		kinds = without(fgen.GposKinds, 3, 5)
	}
	switch rng.IntN(4) {
	case 0: // concentrate on a single type
		k := fgen.Pick(rng, kinds...)
		var same []fgen.Kind
		for _, x := range kinds {
			if x.Type == k.Type {
				same = append(same, x)
			}
		}
		kinds = same
	case 1: // contextual rules with simple actions
		kinds = without(kinds, 8)
		if gpos {
			kinds = without(fgen.GposKinds, 3, 5)
		}
	case 2:
		if !gpos { // length changing actions
			kinds = without(kinds, 1, 3, 8)
		}
	}
	nl := 1 + rng.IntN(5)
	p.ll = g.Lookups(nl, kinds)
	forward(rng, p.ll)

	switch rng.IntN(3) {
	case 0: // only the first lookup
		p.order = []gtab.LookupIndex{0}
	case 1: // all of them
		for i := range p.ll {
			p.order = append(p.order, gtab.LookupIndex(i))
		}
	default:
		k := 1 + rng.IntN(nl)
		for i := 0; i < k; i++ {
			p.order = append(p.order, gtab.LookupIndex(rng.IntN(nl)))
		}
		if rng.IntN(4) == 0 {
			p.order = append(p.order, gtab.LookupIndex(nl+rng.IntN(3)))
		}
	}
	for _, gid := range p.gids {
		p.adv[gid] = funit.Int16(fgen.Pick(rng, 0, 500, 250+rng.IntN(700)))
	}
	return p
}

func (p *program) String() string {
	return fmt.Sprintf("lookups %v applied in order %v; GDEF %s", strings.Join(gdump.Lookups(p.ll), " // "), p.order, gdump.Gdef(p.gdef))
}

// input makes glyph infos for the given glyphs.  Every character is used
// only once.
func (p *program) input(gids []glyph.ID, multi uint64) []glyph.Info {
	res := make([]glyph.Info, len(gids), len(gids)+int(multi&3)*2)
	r := rune('a')
	for i, gid := range gids {
		res[i].GID = gid
		if p.gpos {
			res[i].Advance = p.adv[gid]
		}
		n := 1
		switch (multi >> (2 + uint(i)*3%58)) & 7 {
		case 0:
			n = 0
		case 1:
			n = 2
		}
		for ; n > 0; n-- {
			res[i].Text = append(res[i].Text, r)
			r++
		}
	}
	return res
}

func same(a, b []glyph.Info) string {
	for i := 0; i < min(len(a), len(b)); i++ {
		x, y := a[i], b[i]
		switch {
		case x.GID != y.GID:
			return fmt.Sprintf("glyph %d is %d instead of %d", i, x.GID, y.GID)
		case string(x.Text) != string(y.Text):
			return fmt.Sprintf("the text of glyph %d is %q instead of %q", i, string(x.Text), string(y.Text))
		case x.XOffset != y.XOffset:
			return fmt.Sprintf("XOffset of glyph %d is %d instead of %d", i, x.XOffset, y.XOffset)
		case x.YOffset != y.YOffset:
			return fmt.Sprintf("YOffset of glyph %d is %d instead of %d", i, x.YOffset, y.YOffset)
		case x.Advance != y.Advance:
			return fmt.Sprintf("advance of glyph %d is %d instead of %d", i, x.Advance, y.Advance)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d glyphs instead of %d", len(a), len(b))
	}
	return ""
}

func show(seq []glyph.Info) string {
	var parts []string
	for _, g := range seq {
		s := fmt.Sprintf("%d%q", g.GID, string(g.Text))
		if g.XOffset != 0 || g.YOffset != 0 || g.Advance != 0 {
			s += fmt.Sprintf("(%d,%d,%d)", g.XOffset, g.YOffset, g.Advance)
		}
		parts = append(parts, s)
	}
	return "[" + strings.Join(parts, " ") + "]"
}

type tally struct {
	refshape.Stats
	runs, changed, undefined, policy, policyAlt int
	outcomes                                    map[uint64]bool
}

func (t *tally) add(s *refshape.Stats) {
	t.Applied += s.Applied
	t.SecondSub += s.SecondSub
	t.SecondRule += s.SecondRule
	t.Skipped += s.Skipped
	t.LigSkip += s.LigSkip
	t.Nested += s.Nested
	t.NestedVoid += s.NestedVoid
	t.Depth = max(t.Depth, s.Depth)
	t.Inserted += s.Inserted
	t.Merged += s.Merged
	t.Backtrack += s.Backtrack
	t.Lookahead += s.Lookahead
	t.OutOfSeq += s.OutOfSeq
	t.EmptyAnchor += s.EmptyAnchor
}

func (t *tally) report(c *h.Case) {
	c.Eval(t.runs)
	c.Count("sequences judged", t.runs)
	c.Count("sequences changed by the lookups", t.changed)
	c.Count("sequences with undefined outcome (skipped)", t.undefined)
	c.Count("sequences where several outcomes are allowed", t.policy)
	c.Count("… and not the default one was seen", t.policyAlt)
	c.Count("matches", t.Applied)
	c.Count("matches by later subtables", t.SecondSub)
	c.Count("matches by later rules or ligatures", t.SecondRule)
	c.Count("glyphs skipped inside matches", t.Skipped)
	c.Count("ligatures with skipped glyphs", t.LigSkip)
	c.Count("nested actions applied", t.Nested)
	c.Count("nested actions not applicable", t.NestedVoid)
	c.Count("nested actions beyond the input sequence", t.OutOfSeq)
	c.Count("glyphs inserted below contextual rules", t.Inserted)
	c.Count("glyphs merged below contextual rules", t.Merged)
	c.Count("backtrack sequences matched", t.Backtrack)
	c.Count("lookahead sequences matched", t.Lookahead)
	c.Count("missing anchors", t.EmptyAnchor)
	c.Max("nesting depth", t.Depth)
}

// judge runs one glyph sequence.
func (p *program) judge(c *h.Case, t *tally, ll gtab.LookupList, gd *gdef.Table, gids []glyph.ID, multi uint64) bool {
	want := refshape.Apply(p.ll, p.gdef, p.order, p.input(gids, multi), refshape.Policy{})
	if want.Undefined != "" {
		t.undefined++
		return true
	}
	t.runs++
	t.add(&want.Stats)
	if want.Policy {
		t.policy++
	}
	if want.Stats.Applied > 0 {
		t.changed++
	}

	in := p.input(gids, multi)
	var got []glyph.Info
	r, stack := h.Catch(func() { got = gtab.NewContext(ll, gd, p.order).Apply(in) })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "Apply panics (%v) for the glyphs %v; expected %s; %s; %s", r, gids, show(want.Out), p, stack)
		return false
	}
	msg := same(got, want.Out)
	if msg != "" && want.Policy {
		for _, pol := range refshape.Policies {
			alt := refshape.Apply(p.ll, p.gdef, p.order, p.input(gids, multi), pol)
			if alt.Undefined != "" || same(got, alt.Out) == "" {
				t.policyAlt++
				msg = ""
				break
			}
		}
	}
	if msg != "" {
		var types []int
		for _, lt := range p.ll {
			types = append(types, int(lt.Meta.LookupType))
		}
		slices.Sort(types)
		types = slices.Compact(types)
		if len(types) > 2 {
			types = types[:2]
		}
		c.Violation(fmt.Sprintf("result:gpos=%t:types=%v", p.gpos, types), "for the glyphs %v: %s: got %s, expected %s; %s", show(p.input(gids, multi)), msg, show(got), show(want.Out), p)
		return false
	}
	return true
}

// through encodes and reads back the lookups.
func (p *program) through(c *h.Case) (gtab.LookupList, *gdef.Table) {
	info := &gtab.Info{
		ScriptList:  nil,
		FeatureList: gtab.FeatureListInfo{&gtab.Feature{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
		LookupList:  p.ll,
	}
	info.ScriptList = gtab.ScriptListInfo{fgen.Tag("und-Zzzz"): &gtab.Features{Required: 0}}
	var typ gtab.Type = gtab.TypeGsub
	if p.gpos {
		typ = gtab.TypeGpos
	}
	info2, err := gtab.Read(bytes.NewReader(info.Encode()), typ)
	if err != nil {
		c.Violation("read", "cannot read encoded lookups: %v; %s", err, p)
		return nil, nil
	}
	gd := p.gdef
	if gd != nil {
		gd, err = gdef.Read(bytes.NewReader(gd.Encode()))
		if err != nil {
			c.Violation("read-gdef", "cannot read encoded GDEF: %v; %s", err, p)
			return nil, nil
		}
	}
	return info2.LookupList, gd
}

// exhaustive applies a random program to all sequences over a small alphabet.
func exhaustive(kind int) func(c *h.Case) {
	return func(c *h.Case) {
		rng := c.Rng
		var p *program
		switch kind {
		case 2:
			p = nestedProgram(rng)
		default:
			p = newProgram(rng, kind == 1, fgen.Pick(rng, 2, 3, 3, 3, 4, 5))
		}
		maxLen := 6
		switch len(p.gids) {
		case 2:
			maxLen = 8
		case 5:
			maxLen = 5
		}
		multi := rng.Uint64()
		t := &tally{}
		gids := make([]glyph.ID, 0, maxLen)
		var rec func() bool
		rec = func() bool {
			if !p.judge(c, t, p.ll, p.gdef, gids, multi) {
				return false
			}
			if len(gids) == maxLen {
				return true
			}
			for _, gid := range p.gids {
				gids = append(gids, gid)
				ok := rec()
				gids = gids[:len(gids)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
		t.report(c)
		c.Count("programs", 1)
		if t.changed > 0 {
			c.NonTrivial(p.String())
			c.Count("programs with matches", 1)
		}
		if t.Nested > 0 {
			c.Count("programs with nested actions", 1)
		}
		c.Sample("%s: %d sequences, %d changed, %d undefined", p, t.runs, t.changed, t.undefined)
	}
}

// random applies random programs to longer sequences.
func random(encoded bool) func(c *h.Case) {
	return func(c *h.Case) {
		rng := c.Rng
		n := 3 + rng.IntN(22)
		if rng.IntN(2) == 0 {
			n = 3 + rng.IntN(4)
		}
		p := newProgram(rng, rng.IntN(2) == 0, n)
		ll, gd := p.ll, p.gdef
		if encoded {
			ll, gd = p.through(c)
			if ll == nil {
				return
			}
		}
		t := &tally{}
		for i := 0; i < 60; i++ {
			l := 1 + rng.IntN(12)
			if rng.IntN(4) == 0 {
				l = 1 + rng.IntN(60)
			}
			gids := make([]glyph.ID, l)
			q := p.gids
			if rng.IntN(2) == 0 {
				k := rng.IntN(len(q))
				q = q[k:min(k+1+rng.IntN(3), len(q))]
			}
			for j := range gids {
				gids[j] = fgen.Pick(rng, q...)
				if rng.IntN(8) == 0 {
					gids[j] = fgen.Pick(rng, p.gids...)
				}
				if rng.IntN(60) == 0 {
					gids[j] = glyph.ID(rng.IntN(65536))
				}
			}
			if !p.judge(c, t, ll, gd, gids, rng.Uint64()) {
				break
			}
		}
		t.report(c)
		c.Count("programs", 1)
		if t.changed > 0 {
			c.NonTrivial(p.String())
			c.Count("programs with matches", 1)
		}
		if t.Nested > 0 {
			c.Count("programs with nested actions", 1)
		}
		if encoded {
			c.Count("programs written and read back", 1)
		}
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C06",
		Level: "exploration",
		Rule:  "a case is counted as non-trivial if at least one lookup of the program matched somewhere",
		Assumptions: []string{
			"GSUB type 8 lookups are only judged where forward and reverse application agree, and not as nested lookups",
			"where a nested lookup changes the number of glyphs ignored by a parent with remaining actions, all documented variants are accepted",
			"matches with more than 60 nested actions, marks attached twice, marks used as bases and bases skipped by the lookup flags are not judged",
		},
		Groups: []h.Group{
			{Name: "exhaustive-gsub", Quick: 2400, Run: exhaustive(0)},
			{Name: "exhaustive-gpos", Quick: 1200, Run: exhaustive(1)},
			{Name: "exhaustive-nested", Quick: 3000, Run: exhaustive(2)},
			{Name: "random", Quick: 8000, Run: random(false)},
			{Name: "encoded", Quick: 3000, Run: random(true)},
		},
	})
}
