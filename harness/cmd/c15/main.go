// Command c15 checks the layout of text from end to end.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	xfont "golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/fgen"
	"verif/foreign"
	"verif/h"
	"verif/raw"
)

// ----- feature selection -----

// choose returns the lookups for one language system.
func choose(info *gtab.Info, f *gtab.Features, sw map[string]bool) []int {
	set := map[int]bool{}
	add := func(i gtab.FeatureIndex) {
		for _, l := range info.FeatureList[i].Lookups {
			if int(l) < len(info.LookupList) {
				set[int(l)] = true
			}
		}
	}
	if int(f.Required) < len(info.FeatureList) {
		add(f.Required)
	}
	for _, i := range f.Optional {
		if int(i) < len(info.FeatureList) && sw[info.FeatureList[i].Tag] {
			add(i)
		}
	}
	res := []int{}
	for l := range set {
		res = append(res, l)
	}
	sort.Ints(res)
	return res
}

var featureTags = []string{"liga", "kern", "mark", "mkmk", "calt", "ccmp", "clig", "locl", "smcp", "test", "ss01", "aalt", "abvm", "blwm", "curs", "dist"}

var requests = []string{"und", "en", "en-US", "de", "de-AT", "tr", "ro", "ru", "sr-Latn", "sr-Cyrl", "zh", "zh-Hant", "zh-Hans", "ja", "ko", "ar", "fa", "he", "hi", "bn", "el", "vi", "nl",
	"und-Latn", "und-Cyrl", "und-Arab", "und-Zzzz", "xx", "mul", "en-x-private", "nb", "nn", "no", "und-Latn-x-latn", "tr-Latn-x-latn-TRK", "und-Zzzz-x-dflt"}

var allTags []language.Tag

func init() {
	seen := map[language.Tag]bool{}
	add := func(s string) {
		t, err := language.Parse(s)
		if err == nil && !seen[t] {
			seen[t] = true
			allTags = append(allTags, t)
		}
	}
	for _, s := range fgen.Tags {
		add(s)
	}
	for script, latin := range map[string]string{"latn": "Latn", "cyrl": "Cyrl", "arab": "Arab", "grek": "Grek", "hebr": "Hebr", "deva": "Deva", "dev2": "Deva", "beng": "Beng", "bng2": "Beng", "hani": "Hani", "kana": "Hrkt", "hang": "Hang"} {
		add("und-" + latin + "-x-" + script)
		for l, b := range map[string]string{"TRK": "tr", "DEU": "de", "ENG": "en", "ROM": "ro", "MOL": "ro-MD", "RUS": "ru", "SRB": "sr", "ARA": "ar", "FAR": "fa", "NLD": "nl", "JAN": "ja", "ZHS": "zh-Hans"} {
			if strings.Contains(b, "-") {
				add(b + "-x-" + script + "-" + l)
			} else {
				add(b + "-" + latin + "-x-" + script + "-" + l)
			}
		}
	}
	add("und-Zzzz-x-dflt")
	slices.SortFunc(allTags, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
}

func randomInfo(rng *rand.Rand) *gtab.Info {
	info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
	nl := fgen.Pick(rng, 0, 1, 2, 5, 40, 300)
	for i := 0; i < nl; i++ {
		info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
	}
	nf := fgen.Pick(rng, 0, 1, 3, 8, 30)
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: fgen.Pick(rng, featureTags...)}
		for j := rng.IntN(5); j > 0; j-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(fgen.Pick(rng, rng.IntN(nl+1), rng.IntN(nl+1), rng.IntN(nl+1), nl, nl+1, 65535)))
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	nt := 1 + rng.IntN(20)
	for i := 0; i < nt; i++ {
		f := &gtab.Features{Required: 0xFFFF}
		if rng.IntN(2) == 0 {
			f.Required = gtab.FeatureIndex(fgen.Pick(rng, rng.IntN(nf+1), nf, 65534))
		}
		for j := rng.IntN(nf + 3); j > 0; j-- {
			f.Optional = append(f.Optional, gtab.FeatureIndex(fgen.Pick(rng, rng.IntN(nf+1), rng.IntN(nf+1), rng.IntN(nf+1), nf, 65535)))
		}
		info.ScriptList[fgen.Pick(rng, allTags...)] = f
	}
	return info
}

func switches(rng *rand.Rand) map[string]bool {
	switch rng.IntN(6) {
	case 0:
		return nil
	case 1:
		return map[string]bool{}
	case 2:
		return gtab.GsubDefaultFeatures
	case 3:
		return gtab.GposDefaultFeatures
	}
	m := map[string]bool{}
	for _, t := range featureTags {
		if rng.IntN(2) == 0 {
			m[t] = rng.IntN(3) > 0
		}
	}
	return m
}

func ints(ll []gtab.LookupIndex) []int {
	res := []int{}
	for _, l := range ll {
		res = append(res, int(l))
	}
	return res
}

// rebuild copies the script list, inserting the entries in a random order.
func rebuild(rng *rand.Rand, info *gtab.Info) *gtab.Info {
	c := *info
	c.ScriptList = gtab.ScriptListInfo{}
	var tags []language.Tag
	for t := range info.ScriptList {
		tags = append(tags, t)
	}
	slices.SortFunc(tags, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
	rng.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	for _, t := range tags {
		c.ScriptList[t] = info.ScriptList[t]
	}
	return &c
}

// core removes the private use part of a language tag.
func core(t language.Tag) string {
	s := t.String()
	if i := strings.Index(s, "-x-"); i >= 0 {
		s = s[:i]
	}
	return s
}

func selection(c *h.Case) {
	rng := c.Rng
	info := randomInfo(rng)
	copies := []*gtab.Info{info, rebuild(rng, info), rebuild(rng, info), rebuild(rng, info)}
	c.NonTrivial(fmt.Sprint(len(info.ScriptList), len(info.FeatureList), len(info.LookupList), c.Index))
	c.Max("language systems", len(info.ScriptList))
	for k := 0; k < 12; k++ {
		lang := language.Make(fgen.Pick(rng, requests...))
		exact := false
		if rng.IntN(3) == 0 {
			lang = fgen.Pick(rng, allTags...)
			_, exact = info.ScriptList[lang]
		}
		sw := switches(rng)
		before := fmt.Sprint(sw)
		var first []int
		for i := 0; i < 12; i++ {
			var ll []gtab.LookupIndex
			if !c.Guard("FindLookups", func() { ll = copies[i%len(copies)].FindLookups(lang, sw) }) {
				return
			}
			c.Eval(1)
			got := ints(ll)
			if i == 0 {
				first = got
				continue
			}
			if !slices.Equal(got, first) {
				c.Violation("different lookups on repeated calls", "language %s, %d language systems: %v and %v", lang, len(info.ScriptList), first, got)
				return
			}
		}
		if fmt.Sprint(sw) != before {
			c.Violation("switches changed", "%v, was %s", sw, before)
			return
		}
		// the result must belong to one of the language systems
		var match, same []string
		for t, f := range info.ScriptList {
			ok := slices.Equal(first, choose(info, f, sw))
			if ok {
				match = append(match, t.String())
			}
			if core(t) == core(lang) {
				s := fmt.Sprint(t, ok)
				same = append(same, s)
			}
		}
		if len(match) == 0 {
			c.Violation("lookups do not belong to any language system", "language %s, switches %v: %v", lang, sw, first)
			return
		}
		c.Count("lookup lists compared", 1)
		if exact {
			// The language system with the requested name must be used
			// (or one which only differs in the OpenType script tag).
			found := false
			for _, s := range same {
				found = found || strings.HasSuffix(s, "true")
			}
			if !found {
				c.Violation("wrong language system", "language %s: %v does not belong to the language system of this name but to %v", lang, first, match)
				return
			}
			c.Count("exact language matches", 1)
		}
	}
}

// ----- complete layout -----

func text(rng *rand.Rand, m map[rune]glyph.ID) string {
	var rr []rune
	for r := range m {
		rr = append(rr, r)
	}
	slices.Sort(rr)
	var out []rune
	n := rng.IntN(fgen.Pick(rng, 2, 6, 25, 80))
	for i := 0; i < n; i++ {
		switch {
		case rng.IntN(6) == 0 || len(rr) == 0:
			out = append(out, fgen.Pick(rng, 'a', 'f', 'i', 'l', ' ', 'é', 0x10FFFF, 0, 0xFFFD, '日', rune(rng.IntN(0xD800))))
		case rng.IntN(4) == 0:
			out = append(out, []rune(fgen.Pick(rng, "ffi", "ffl", "ff", "fi", "fl", "fffi", "fffffl", "of fish", "AV"))...)
		default:
			out = append(out, fgen.Pick(rng, rr...))
		}
	}
	s := string(out)
	if rng.IntN(20) == 0 {
		s += "\xff\xc0" + s
	}
	return s
}

func showSeq(seq []glyph.Info) string {
	b := &strings.Builder{}
	for _, g := range seq {
		fmt.Fprintf(b, "[%d %q %d %d %d]", g.GID, string(g.Text), g.XOffset, g.YOffset, g.Advance)
	}
	return b.String()
}

func cloneSeq(seq []glyph.Info) []glyph.Info {
	res := slices.Clone(seq)
	for i := range res {
		res[i].Text = slices.Clone(res[i].Text)
	}
	return res
}

func equal(a, b []glyph.Info) bool {
	return slices.EqualFunc(a, b, func(x, y glyph.Info) bool {
		return x.GID == y.GID && x.XOffset == y.XOffset && x.YOffset == y.YOffset && x.Advance == y.Advance && slices.Equal(x.Text, y.Text)
	})
}

func isMark(g *gdef.Table, gid glyph.ID) bool {
	return g != nil && g.GlyphClass != nil && g.GlyphClass[gid] == gdef.GlyphClassMark
}

// width returns the advance width of a glyph from the outlines.
func width(f *sfnt.Font, gid glyph.ID) float64 {
	switch out := f.Outlines.(type) {
	case *cff.Outlines:
		if int(gid) < len(out.Glyphs) {
			w := out.Glyphs[gid].Width
			return w
		}
	case *glyf.Outlines:
		if int(gid) < len(out.Widths) {
			return float64(out.Widths[gid])
		}
	}
	return 0
}

// candidates returns all possible selections for a language, more than one
// only if the language does not identify a language system.
func candidates(info *gtab.Info, sw map[string]bool) [][]gtab.LookupIndex {
	var res [][]gtab.LookupIndex
	seen := map[string]bool{}
	for _, f := range info.ScriptList {
		var ll []gtab.LookupIndex
		for _, l := range choose(info, f, sw) {
			ll = append(ll, gtab.LookupIndex(l))
		}
		if k := fmt.Sprint(ll); !seen[k] {
			seen[k] = true
			res = append(res, ll)
		}
	}
	if len(res) == 0 {
		res = append(res, nil)
	}
	return res
}

// expected computes the result of the documented sequence of steps.
func expected(f *sfnt.Font, best cmap.Subtable, gsub, gpos []gtab.LookupIndex, s string) []glyph.Info {
	var seq []glyph.Info
	for _, r := range s {
		seq = append(seq, glyph.Info{GID: best.Lookup(r), Text: []rune{r}})
	}
	if f.Gsub != nil {
		seq = gtab.NewContext(f.Gsub.LookupList, f.Gdef, gsub).Apply(seq)
	}
	for i := range seq {
		if !isMark(f.Gdef, seq[i].GID) {
			seq[i].Advance = funit.Int16(math.Round(width(f, seq[i].GID)))
		}
	}
	if f.Gpos != nil {
		seq = gtab.NewContext(f.Gpos.LookupList, f.Gdef, gpos).Apply(seq)
	}
	return seq
}

func layoutAll(c *h.Case, f *sfnt.Font, m map[rune]glyph.ID) {
	rng := c.Rng
	best, err := f.CMapTable.GetBest()
	if err != nil || best == nil {
		var l *sfnt.Layouter
		c.Guard("NewLayouter", func() { l, err = f.NewLayouter(language.English, nil, nil) })
		if err == nil && l == nil {
			c.Violation("no layouter and no error", "")
		}
		c.Count("fonts without character map", 1)
		return
	}
	for k := 0; k < 3; k++ {
		lang := language.Make(fgen.Pick(rng, requests...))
		sw1, sw2 := switches(rng), switches(rng)
		var l, l2 *sfnt.Layouter
		if !c.Guard("NewLayouter", func() {
			l, err = f.NewLayouter(lang, sw1, sw2)
			l2, _ = f.NewLayouter(lang, sw1, sw2)
		}) {
			return
		}
		if err != nil {
			c.Violation("no layouter", "%v", err)
			return
		}
		if sw1 == nil {
			sw1 = map[string]bool{"calt": true, "ccmp": true, "clig": true, "liga": true, "locl": true}
		}
		if sw2 == nil {
			sw2 = map[string]bool{"kern": true, "mark": true, "mkmk": true}
		}
		var gsubs, gposs [][]gtab.LookupIndex = [][]gtab.LookupIndex{nil}, [][]gtab.LookupIndex{nil}
		if f.Gsub != nil {
			gsubs = candidates(f.Gsub, sw1)
		}
		if f.Gpos != nil {
			gposs = candidates(f.Gpos, sw2)
		}
		// The same combination of language systems must explain all texts.
		alive := make([]bool, len(gsubs)*len(gposs))
		for i := range alive {
			alive[i] = true
		}
		var firstText string
		var firstRes []glyph.Info
		for j := 0; j < 5; j++ {
			s := text(rng, m)
			var got []glyph.Info
			if !c.Guard("Layout", func() { got = cloneSeq(l.Layout(s)) }) {
				return
			}
			c.Eval(1)
			c.Count("texts laid out", 1)
			c.Count("glyphs laid out", len(got))
			if j == 0 {
				firstText, firstRes = s, got
			}
			any := false
			var want []glyph.Info
			for i := range alive {
				if !alive[i] {
					continue
				}
				want = expected(f, best, gsubs[i/len(gposs)], gposs[i%len(gposs)], s)
				alive[i] = equal(got, want)
				any = any || alive[i]
			}
			if !any {
				c.Violation("layout differs from the steps", "text %q, language %s, %d candidates:\ngot  %s\nwant %s", s, lang, len(alive), showSeq(got), showSeq(want))
				return
			}
			if f.Gsub == nil && f.Gpos == nil {
				rr := []rune(s)
				if len(rr) != len(got) {
					c.Violation("number of glyphs", "text %q: %d glyphs", s, len(got))
					return
				}
				for i, g := range got {
					if len(g.Text) != 1 || g.Text[0] != rr[i] || g.XOffset != 0 || g.YOffset != 0 {
						c.Violation("plain layout", "text %q: %s", s, showSeq(got))
						return
					}
				}
				c.Count("plain texts", 1)
			}
		}
		var again, other []glyph.Info
		if !c.Guard("Layout", func() {
			again = cloneSeq(l.Layout(firstText))
			other = cloneSeq(l2.Layout(firstText))
		}) {
			return
		}
		if !equal(again, firstRes) || !equal(other, firstRes) {
			c.Violation("layout depends on the history", "text %q:\nfirst  %s\nagain  %s\nsecond layouter %s", firstText, showSeq(firstRes), showSeq(again), showSeq(other))
			return
		}
	}
}

// constructed lays out text with random fonts.
func constructed(c *h.Case) {
	rng := c.Rng
	o := &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: 1 + rng.IntN(fgen.Pick(rng, 5, 20, 120)), PlainCFF: true, IntWidths: rng.IntN(2) == 0, Layout: rng.IntN(4) > 0, NoCmap: rng.IntN(20) == 0}
	f, m := fgen.Font(rng, o)
	if rng.IntN(3) == 0 {
		// the same after reading the font back
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err == nil {
			g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
			if err != nil {
				c.Count("not readable", 1)
				return
			}
			f = g
		}
	}
	c.NonTrivial(fmt.Sprint(c.Index, len(m), f.NumGlyphs()))
	c.Sample("%d glyphs, %d characters, GSUB %t, GPOS %t", f.NumGlyphs(), len(m), f.Gsub != nil, f.Gpos != nil)
	layoutAll(c, f, m)
}

// files lays out text with fonts which come from mutated files.
func files(c *h.Case) {
	data, what := foreign.File(c.Rng)
	if c.Index%20 == 0 {
		real := foreign.Real()
		data, what = real[c.Index/20%len(real)], "real"
	}
	if data == nil {
		return
	}
	var f *sfnt.Font
	var err error
	if !c.Guard("Read", func() { f, err = sfnt.Read(bytes.NewReader(data)) }) || err != nil {
		return
	}
	best, _ := f.CMapTable.GetBest()
	m := map[rune]glyph.ID{}
	if best != nil {
		lo, hi := best.CodeRange()
		for r := lo; r <= hi && len(m) < 200; r += 1 + (hi-lo)/2000 {
			if g := best.Lookup(r); g != 0 {
				m[r] = g
			}
		}
	}
	c.NonTrivial(data)
	c.Sample("%s", what)
	layoutAll(c, f, m)
}

// ----- legacy kerning -----

type kernSub struct {
	version, format, flags int
	pairs                  [][3]int
}

func encodeKern(subs []kernSub) []byte {
	out := raw.A16(nil, 0, len(subs))
	for _, s := range subs {
		n := len(s.pairs)
		es := 0
		for 2<<es <= n {
			es++
		}
		out = raw.A16(out, s.version, (14+6*n)&0xFFFF, s.format<<8|s.flags, n, 6<<es&0xFFFF, es, (6*(n-1<<es))&0xFFFF)
		for _, p := range s.pairs {
			out = raw.A16(out, p[0], p[1], p[2])
		}
	}
	return out
}

// accumulate computes the kerning values, following the OpenType
// specification.  Pairs without a clear value are marked as bad.
func accumulate(subs []kernSub) (val map[[2]int]int, bad map[[2]int]bool) {
	val, bad = map[[2]int]int{}, map[[2]int]bool{}
	for _, s := range subs {
		if s.version != 0 || s.format != 0 || s.flags&1 == 0 || s.flags&4 != 0 || s.flags&0xF0 != 0 {
			continue
		}
		for _, p := range s.pairs {
			k := [2]int{p[0], p[1]}
			v := int(int16(p[2]))
			switch {
			case s.flags&2 != 0 && s.flags&8 != 0:
				bad[k] = true
			case s.flags&2 != 0:
				val[k] = max(val[k], v)
			case s.flags&8 != 0:
				val[k] = v
			default:
				val[k] += v
			}
			if val[k] != int(int16(val[k])) {
				bad[k] = true
			}
		}
	}
	return val, bad
}

func randomKern(rng *rand.Rand, n int) []kernSub {
	var subs []kernSub
	value := func() int {
		return fgen.Pick(rng, rng.IntN(400)-200, rng.IntN(400)-200, 0, 1, -1, 32767, -32768, rng.IntN(65536)) & 0xFFFF
	}
	ns := fgen.Pick(rng, 1, 1, 1, 2, 3, 6)
	for i := 0; i < ns; i++ {
		s := kernSub{flags: 1}
		if ns > 1 {
			switch rng.IntN(8) {
			case 0:
				s.flags = 3
			case 1:
				s.flags = 9
			case 2:
				s.flags = fgen.Pick(rng, 0, 5, 11, 17, 8, 129)
			case 3:
				s.format = fgen.Pick(rng, 1, 2, 3)
			case 4:
				if rng.IntN(4) == 0 {
					s.version = 1
				}
			}
		}
		m := map[[2]int]bool{}
		np := rng.IntN(fgen.Pick(rng, 2, 10, 60, 600))
		for j := 0; j < np; j++ {
			m[[2]int{rng.IntN(n), rng.IntN(n)}] = true
		}
		for k := range m {
			s.pairs = append(s.pairs, [3]int{k[0], k[1], 0})
		}
		slices.SortFunc(s.pairs, func(a, b [3]int) int { return 65536*(a[0]-b[0]) + a[1] - b[1] })
		for j := range s.pairs {
			s.pairs[j][2] = value()
		}
		subs = append(subs, s)
	}
	return subs
}

const firstRune = 0x4000

func kerning(c *h.Case) { kerningN(c, 1+c.Rng.IntN(fgen.Pick(c.Rng, 3, 10, 40)), nil) }

// kerningLarge uses tables with many pairs.
func kerningLarge(c *h.Case) {
	rng := c.Rng
	n := fgen.Pick(rng, 150, 200, 250)
	total := fgen.Pick(rng, 10919, 10920, 10921, 10922, 10923, 10924, 16384, 20000, 21843, 21844, 21846, n*n)
	total = min(total, n*n, 65535)
	var subs []kernSub
	if rng.IntN(3) == 0 {
		subs = randomKern(rng, n)
		for i := range subs {
			subs[i].pairs = subs[i].pairs[:min(len(subs[i].pairs), 10000)]
		}
	}
	big := kernSub{flags: 1}
	for i := 0; i < total; i++ {
		big.pairs = append(big.pairs, [3]int{i / n, i % n, (i*7%300 - 150) & 0xFFFF})
	}
	subs = append(subs, big)
	kerningN(c, n, subs)
}

func kerningN(c *h.Case, n int, subs []kernSub) {
	rng := c.Rng
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: n, PlainCFF: true, IntWidths: true, NoCmap: true})
	m := cmap.Format4{}
	for i := 1; i < n; i++ {
		m[uint16(firstRune+i)] = glyph.ID(i)
	}
	f.InstallCMap(m)
	var marks bool
	if rng.IntN(5) == 0 {
		gg := &fgen.Gtab{Rng: rng}
		for i := 0; i < n; i++ {
			gg.Gids = append(gg.Gids, glyph.ID(i))
		}
		f.Gdef = gg.Gdef()
		marks = true
	}
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		c.Count("refused", 1)
		return
	}
	scaler, tables := foreign.TableMap(buf.Bytes())
	if subs == nil {
		subs = randomKern(rng, n)
	}
	delete(tables, "GPOS")
	tables["kern"] = encodeKern(subs)
	data := raw.Build(scaler, tables, rng)
	var g *sfnt.Font
	var err error
	if !c.Guard("Read", func() { g, err = sfnt.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("kern table rejected", "%d subtables, last with %d pairs: %v", len(subs), len(subs[len(subs)-1].pairs), err)
		return
	}
	c.NonTrivial(tables["kern"])
	val, bad := accumulate(subs)
	if g.Gpos == nil {
		c.Violation("no kerning", "%d subtables", len(subs))
		return
	}
	var l *sfnt.Layouter
	sw := map[string]bool(nil)
	if rng.IntN(2) == 0 {
		sw = map[string]bool{"kern": true}
	}
	if !c.Guard("NewLayouter", func() { l, err = g.NewLayouter(language.Make(fgen.Pick(rng, requests...)), map[string]bool{}, sw) }) || err != nil {
		c.Violation("no layouter", "%v", err)
		return
	}
	adv := func(i int) int {
		if marks && isMark(g.Gdef, glyph.ID(i)) {
			return 0
		}
		return int(math.Round(width(g, glyph.ID(i))))
	}
	check := func(gids []int) bool {
		var rr []rune
		for _, i := range gids {
			rr = append(rr, rune(firstRune+i))
		}
		var seq []glyph.Info
		if !c.Guard("Layout", func() { seq = l.Layout(string(rr)) }) {
			return false
		}
		c.Eval(1)
		if len(seq) != len(gids) {
			c.Violation("number of glyphs", "%d instead of %d", len(seq), len(gids))
			return false
		}
		for i, gid := range gids {
			want := adv(gid)
			if i+1 < len(gids) {
				k := [2]int{gid, gids[i+1]}
				if bad[k] {
					return true
				}
				want += val[k]
			}
			if want != int(int16(want)) {
				return true
			}
			if int(seq[i].GID) != gid || int(seq[i].Advance) != want || seq[i].XOffset != 0 || seq[i].YOffset != 0 {
				c.Violation("wrong kerning", "glyphs %v: position %d has advance %d, want %d (width %d); %d subtables", gids, i, seq[i].Advance, want, adv(gid), len(subs))
				return false
			}
		}
		c.Count("kerned texts compared", 1)
		return true
	}
	var keys [][2]int
	for k := range val {
		keys = append(keys, k)
	}
	slices.SortFunc(keys, func(a, b [2]int) int { return 65536*(a[0]-b[0]) + a[1] - b[1] })
	for _, k := range keys {
		if k[0] > 0 && k[1] > 0 {
			if !check([]int{k[0], k[1]}) {
				return
			}
			c.Count("kerning pairs compared", 1)
		}
	}
	for j := 0; j < 60 && n > 1; j++ {
		var gids []int
		for i := rng.IntN(8); i >= 0; i-- {
			gids = append(gids, 1+rng.IntN(n-1))
		}
		if !check(gids) {
			return
		}
	}

	// a second opinion
	if len(subs) == 1 && len(subs[0].pairs) > 0 && len(subs[0].pairs) < 10000 {
		var xf *xsfnt.Font
		if r, _ := h.Catch(func() { xf, err = xsfnt.Parse(data) }); r != nil || err != nil {
			c.Count("x/image: not supported", 1)
			return
		}
		var b xsfnt.Buffer
		upem := fixed.Int26_6(g.UnitsPerEm)
		for _, k := range keys {
			x, err := xf.Kern(&b, xsfnt.GlyphIndex(k[0]), xsfnt.GlyphIndex(k[1]), upem, xfont.HintingNone)
			if err != nil {
				c.Count("x/image: error", 1)
				break
			}
			if k[0] == 0 || k[1] == 0 {
				continue
			}
			if int(x) != val[k] {
				c.Violation("x/image disagrees about kerning", "pair %v: x/image %d, reference %d", k, x, val[k])
				return
			}
			c.Count("x/image: pairs compared", 1)
		}
	}
}

// kernCodec checks the kern package on its own.
func kernCodec(c *h.Case) {
	rng := c.Rng
	n := fgen.Pick(rng, 3, 50, 300, 65536)
	info := kern.Info{}
	np := fgen.Pick(rng, 0, 1, rng.IntN(20), rng.IntN(2000), 10919+rng.IntN(8), 21840+rng.IntN(8), 30000, 65535, 65536, 70000)
	if c.Index > 60 {
		np = rng.IntN(300)
	}
	for i := 0; i < np; i++ {
		info[glyph.Pair{Left: glyph.ID(rng.IntN(n)), Right: glyph.ID(rng.IntN(n))}] = funit.Int16(rng.IntN(65536))
	}
	var data, data2 []byte
	var back kern.Info
	var err error
	if !c.Guard("Encode", func() { data, data2 = info.Encode(), info.Encode() }) {
		return
	}
	if !bytes.Equal(data, data2) {
		c.Violation("kern encoding is not deterministic", "%d pairs", len(info))
		return
	}
	if !c.Guard("Read", func() { back, err = kern.Read(bytes.NewReader(data)) }) {
		return
	}
	c.NonTrivial(data)
	if err != nil {
		c.Violation("encoded kern table rejected", "%d pairs: %v", len(info), err)
		return
	}
	for k, v := range info {
		if w, ok := back[k]; w != v || !ok {
			c.Violation("kern table changed by round trip", "%d pairs, %v: %d, want %d", len(info), k, w, v)
			return
		}
	}
	if len(back) != len(info) {
		c.Violation("kern table changed by round trip", "%d pairs, want %d", len(back), len(info))
	}
	c.Count("kern tables encoded", 1)
	c.Count("kern pairs encoded", len(info))
}

// ----- standard ligatures -----

var ligatures = []struct {
	lig   rune
	parts string
}{{0xFB03, "ffi"}, {0xFB04, "ffl"}, {0xFB00, "ff"}, {0xFB01, "fi"}, {0xFB02, "fl"}}

func fLigatures(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 4, 12, 40))
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: n, PlainCFF: true, IntWidths: true, NoCmap: true})
	m := cmap.Format12{}
	for r := 'a'; r <= 'z'; r++ {
		if rng.IntN(8) > 0 {
			m[uint32(r)] = glyph.ID(1+int(r)-'a') % glyph.ID(n)
			if rng.IntN(6) == 0 {
				m[uint32(r)] = glyph.ID(rng.IntN(n))
			}
		}
	}
	for i, l := range ligatures {
		if rng.IntN(4) > 0 {
			m[uint32(l.lig)] = glyph.ID((30 + i) % n)
			if rng.IntN(6) == 0 {
				m[uint32(l.lig)] = glyph.ID(rng.IntN(n))
			}
		}
	}
	if rng.IntN(6) == 0 {
		delete(m, 'f')
	}
	for r, g := range m {
		if g == 0 {
			delete(m, r)
		}
	}
	f.InstallCMap(m)
	if rng.IntN(4) == 0 { // fixed width
		switch out := f.Outlines.(type) {
		case *cff.Outlines:
			for _, g := range out.Glyphs {
				g.Width = 600
			}
		case *glyf.Outlines:
			for i := range out.Widths {
				out.Widths[i] = 600
			}
		}
		c.Count("fixed pitch fonts", 1)
	}
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		c.Count("refused", 1)
		return
	}
	var g *sfnt.Font
	var err error
	if !c.Guard("Read", func() { g, err = sfnt.Read(bytes.NewReader(buf.Bytes())) }) {
		return
	}
	if err != nil {
		c.Violation("written file rejected", "%v", err)
		return
	}
	fixedPitch := true
	w0 := 0.0
	for i := 0; i < n; i++ {
		w := width(g, glyph.ID(i))
		if w != 0 {
			if w0 == 0 {
				w0 = w
			}
			fixedPitch = fixedPitch && w == w0
		}
	}
	var rules [][]glyph.ID // ligature, then the parts
	for _, l := range ligatures {
		rule := []glyph.ID{m[uint32(l.lig)]}
		for _, r := range l.parts {
			rule = append(rule, m[uint32(r)])
		}
		if !slices.Contains(rule, 0) {
			rules = append(rules, rule)
		}
	}
	c.NonTrivial(fmt.Sprint(n, rules, fixedPitch, len(m)))
	if fixedPitch {
		if g.Gsub != nil {
			c.Violation("ligatures in a fixed pitch font", "%d rules", len(rules))
			return
		}
		rules = nil
	}
	var l *sfnt.Layouter
	off := rng.IntN(4) == 0
	sw := map[string]bool(nil)
	if off {
		sw = map[string]bool{"liga": false, "kern": true}
	}
	if !c.Guard("NewLayouter", func() { l, err = g.NewLayouter(language.Make(fgen.Pick(rng, requests...)), sw, nil) }) || err != nil {
		c.Violation("no layouter", "%v", err)
		return
	}
	if off {
		rules = nil
	}
	for j := 0; j < 25; j++ {
		b := &strings.Builder{}
		for i := rng.IntN(9); i >= 0; i-- {
			b.WriteString(fgen.Pick(rng, "f", "f", "ff", "fi", "ffi", "ffl", "i", "l", "a", " ", "ﬁ", "ﬀ", "xyz", string(rune('a'+rng.IntN(26)))))
		}
		s := b.String()
		var seq []glyph.Info
		if !c.Guard("Layout", func() { seq = l.Layout(s) }) {
			return
		}
		c.Eval(1)
		rr := []rune(s)
		var want []glyph.Info
		used := 0
		for i := 0; i < len(rr); {
			k := 1
			gid := m[uint32(rr[i])]
		rules:
			for _, rule := range rules {
				if i+len(rule)-1 > len(rr) {
					continue
				}
				for q, p := range rule[1:] {
					if m[uint32(rr[i+q])] != p {
						continue rules
					}
				}
				k = len(rule) - 1
				gid = rule[0]
				used++
				break
			}
			want = append(want, glyph.Info{GID: gid, Text: rr[i : i+k], Advance: funit.Int16(width(g, gid))})
			i += k
		}
		if !equal(seq, want) {
			c.Violation("wrong ligatures", "text %q, %d rules:\ngot  %s\nwant %s", s, len(rules), showSeq(seq), showSeq(want))
			return
		}
		c.Count("ligatures formed", used)
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C15",
		Level: "exploration",
		Rule:  "feature selection on random script/feature lists is compared with the selection of every language system, on repeated calls and on copies with different map order; complete layouts of random, re-read, mutated and real fonts are compared with the documented sequence of steps; files with legacy kern tables and fonts without GSUB are read and every pair, and random texts with f-ligatures, compared with a direct evaluation. Non-trivial: distinct fonts, kern tables or selections",
		Assumptions: []string{
			"the application of single lookups is the subject of C06; here both sides use the same engine, with the lookups chosen independently",
			"if the requested language is not one of the language systems, any language system may be chosen, but always the same one",
			"a 'minimum' kern subtable raises the accumulated value (0 if there is none); subtables with both the minimum and the override flag, and sums outside the 16-bit range, are not judged",
		},
		Groups: []h.Group{
			{Name: "selection", Quick: 8000, Run: selection},
			{Name: "constructed", Quick: 6000, Run: constructed},
			{Name: "files", Quick: 5000, Run: files},
			{Name: "kern", Quick: 4000, Run: kerning},
			{Name: "kern-large", Quick: 60, Thorough: 200, Run: kerningLarge},
			{Name: "kern-codec", Quick: 800, Run: kernCodec},
			{Name: "f-ligatures", Quick: 5000, Run: fLigatures},
		},
	})
}
