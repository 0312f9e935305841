// Command c20 checks the generation of glyph names and PostScript font names.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"regexp"
	"slices"
	"strings"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/type1/names"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/fgen"
	"verif/foreign"
	"verif/gdump"
	"verif/h"
)

// existing returns the names stored in a font, one per glyph.
func existing(f *sfnt.Font) []string {
	res := make([]string, f.NumGlyphs())
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			res[i] = g.Name
		}
	case *glyf.Outlines:
		copy(res, o.Names)
	}
	return res
}

func psSafe(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= 32 || s[i] >= 127 || strings.IndexByte("[](){}<>/%", s[i]) >= 0 {
			return false
		}
	}
	return true
}

func short(x any) string {
	s := fmt.Sprintf("%q", x)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

// basic checks that the names are complete and different, and that the
// existing names were kept.
func basic(c *h.Case, what string, old, got []string, onlyValid bool, desc string) bool {
	if len(got) != len(old) {
		c.Violation("length", "%s: %d names for %d glyphs; %s", what, len(got), len(old), desc)
		return false
	}
	if got[0] != ".notdef" {
		c.Violation("notdef", "%s: glyph 0 has the name %q; %s", what, got[0], desc)
		return false
	}
	pos := map[string]int{}
	for i, s := range got {
		if s == "" {
			c.Violation("empty", "%s: no name for glyph %d; existing %s; got %s; %s", what, i, short(old), short(got), desc)
			return false
		}
		if j, ok := pos[s]; ok {
			c.Violation("duplicate", "%s: glyphs %d and %d have the same name %q; existing %s; got %s; %s", what, j, i, s, short(old), short(got), desc)
			return false
		}
		pos[s] = i
	}
	count := map[string]int{}
	for _, s := range old {
		count[s]++
	}
	for i, s := range old {
		if i == 0 || s == "" || s == ".notdef" || count[s] > 1 {
			continue
		}
		if !names.IsValid(s) && onlyValid {
			continue
		}
		if got[i] != s {
			c.Violation("changed", "%s: the existing name %q of glyph %d was replaced with %q; existing %s; got %s; %s", what, s, i, got[i], short(old), short(got), desc)
			return false
		}
		c.Count("existing names kept", 1)
	}
	maxOld := 0
	for _, s := range old {
		maxOld = max(maxOld, len(s))
	}
	for i, s := range got {
		if s == old[i] {
			continue
		}
		c.Count("names generated", 1)
		c.Max("length of generated names", len(s))
		if len(s) > 127 && maxOld <= 100 {
			c.Violation("too long", "%s: generated name for glyph %d has %d characters: %s; existing %s; %s", what, i, len(s), short(s), short(old), desc)
			return false
		}
		if !psSafe(s) {
			// variants of invalid names may be invalid
			bad := false
			for _, t := range old {
				bad = bad || t != "" && !psSafe(t) && strings.Contains(s, t)
			}
			if !bad {
				c.Violation("unsafe", "%s: generated name %q for glyph %d; existing %s; %s", what, s, i, short(old), desc)
				return false
			}
		}
	}
	c.Eval(len(got))
	return true
}

var (
	placeholder = regexp.MustCompile(`^[A-Za-z]+[0-9]+$`)
	variant     = regexp.MustCompile(`^\.[A-Za-z]*[0-9]+$`)
)

type rule struct {
	parts []glyph.ID // one glyph for variants
	out   glyph.ID
	step  int
}

// rules lists the substitutions which can be used to derive names.
func rules(f *sfnt.Font) []rule {
	if f.Gsub == nil {
		return nil
	}
	var res []rule
	step := 0
	for _, lt := range f.Gsub.LookupList {
		for _, sub := range lt.Subtables {
			step++
			switch l := sub.(type) {
			case *gtab.Gsub1_1:
				for g := range l.Cov {
					res = append(res, rule{[]glyph.ID{g}, g + l.Delta, step})
				}
			case *gtab.Gsub1_2:
				for g, i := range l.Cov {
					res = append(res, rule{[]glyph.ID{g}, l.SubstituteGlyphIDs[i], step})
				}
			case *gtab.Gsub3_1:
				for g, i := range l.Cov {
					for _, out := range l.Alternates[i] {
						res = append(res, rule{[]glyph.ID{g}, out, step})
					}
				}
			case *gtab.Gsub4_1:
				for g, i := range l.Cov {
					for _, lig := range l.Repl[i] {
						res = append(res, rule{append([]glyph.ID{g}, lig.In...), lig.Out, step})
					}
				}
			}
		}
	}
	return res
}

// inferred checks where the new names come from.
func inferred(c *h.Case, f *sfnt.Font, old, got []string, desc string) bool {
	n := len(got)
	count := map[string]int{}
	for _, s := range old {
		count[s]++
	}
	// missing are the glyphs which certainly need a new name
	missing := make([]bool, n)
	unclear := make([]bool, n) // one of several glyphs with the same name
	for i := 1; i < n; i++ {
		switch {
		case old[i] == "" || old[i] == ".notdef":
			missing[i] = true
		case count[old[i]] > 1 || !names.IsValid(old[i]):
			if got[i] != old[i] {
				missing[i] = true
			} else {
				unclear[i] = true
			}
		}
	}
	used := map[string]int{}
	for i, s := range got {
		used[s] = i
	}

	// names from the character map
	fromCmap := make([][]string, n)
	if best, _ := f.CMapTable.GetBest(); best != nil {
		lo, hi := best.CodeRange()
		for r := max(lo, 0); r <= min(hi, 0x10FFFF); r++ {
			if g := best.Lookup(r); g != 0 && int(g) < n && missing[g] {
				fromCmap[g] = append(fromCmap[g], names.FromUnicode(string(r)))
				if r >= 0xD800 && r < 0xE000 {
					// invalid codes: accepted, but not required
					fromCmap[g] = append(fromCmap[g], "")
				}
			}
		}
	}

	// glyphs which can be reached by substitutions
	rr := rules(f)
	known := make([]bool, n)
	for i := range known {
		known[i] = !missing[i]
	}
	for i := range fromCmap {
		if missing[i] && slices.Contains(fromCmap[i], got[i]) {
			known[i] = true
		}
	}
	byOut := map[glyph.ID][]rule{}
	next := slices.Clone(known)
	for i, r := range rr {
		if i > 0 && rr[i-1].step != r.step {
			copy(known, next)
		}
		ok := int(r.out) < n
		for _, p := range r.parts {
			ok = ok && int(p) < n && known[p]
		}
		if ok {
			next[r.out] = true
		}
		if int(r.out) < n {
			byOut[r.out] = append(byOut[r.out], r)
		}
	}
	known = next

	for i := 1; i < n; i++ {
		if !missing[i] {
			continue
		}
		name := got[i]
		if slices.Contains(fromCmap[i], name) {
			c.Count("names from the character map", 1)
			continue
		}
		// all names from the character map must be taken
		for _, s := range fromCmap[i] {
			if s == "" || strings.Contains(s, "uFFFD") {
				continue
			}
			if _, taken := used[s]; !taken {
				c.Violation("cmap ignored", "glyph %d has the name %q, but %q is available from the character map; existing %s; got %s; %s", i, name, s, short(old), short(got), desc)
				return false
			}
		}
		// variants and ligatures
		derived, long := false, false
		for _, r := range byOut[glyph.ID(i)] {
			var parts []string
			for _, p := range r.parts {
				if int(p) >= n {
					parts = nil
					break
				}
				parts = append(parts, got[p])
			}
			long = long || len(strings.Join(parts, "_")) > 55
			base := strings.Join(parts, "_")
			if len(parts) > 0 && strings.HasPrefix(name, base) {
				if rest := name[len(base):]; rest == "" && len(parts) > 1 || variant.MatchString(rest) {
					derived = true
					if len(parts) > 1 {
						c.Count("ligature names", 1)
					} else {
						c.Count("variant names", 1)
					}
					break
				}
			}
		}
		if derived {
			continue
		}
		if !placeholder.MatchString(name) {
			c.Violation("origin", "glyph %d has the name %q, which is not derived from anything; existing %s; got %s; %s", i, name, short(old), short(got), desc)
			return false
		}
		if known[i] && !long {
			c.Violation("substitution ignored", "glyph %d has the name %q, but can be reached by substitutions; existing %s; got %s; %s", i, name, short(old), short(got), desc)
			return false
		}
		c.Count("placeholders", 1)
	}
	return true
}

func makeNames(c *h.Case, f *sfnt.Font, desc string) ([]string, bool) {
	var got []string
	r, stack := h.Catch(func() { got = f.MakeGlyphNames() })
	if r != nil {
		c.Violation("panic:"+h.Stack([]byte(stack)).Site, "MakeGlyphNames panics: %v; existing %s; %s\n%s", r, short(existing(f)), desc, stack)
		return nil, false
	}
	return got, true
}

// check runs all checks for the glyph names of a font.
func check(c *h.Case, f *sfnt.Font, desc string) {
	rng := c.Rng
	old := existing(f)
	var first []string
	for i := 0; i < 4; i++ {
		got, ok := makeNames(c, f, desc)
		if !ok {
			return
		}
		if now := existing(f); !slices.Equal(now, old) {
			c.Violation("modified", "MakeGlyphNames changed the names in the font from %s to %s; %s", short(old), short(now), desc)
			return
		}
		if i == 0 {
			first = slices.Clone(got)
			if !basic(c, "MakeGlyphNames", old, got, false, desc) || !inferred(c, f, old, got, desc) {
				return
			}
		} else if !slices.Equal(first, got) {
			c.Violation("unstable", "MakeGlyphNames returned %s and then %s; existing %s; %s", short(first), short(got), short(old), desc)
			return
		}
		clear(got) // the result must not be shared with the font
	}
	c.Count("fonts", 1)
	if !slices.Equal(old, first) {
		c.Count("fonts with missing names", 1)
		c.NonTrivial(strings.Join(old, " "), strings.Join(first, " "), desc)
	}

	for i := 0; i < 2; i++ {
		if !c.Guard("EnsureGlyphNames", f.EnsureGlyphNames) {
			return
		}
		for gid, want := range first {
			if got := f.GlyphName(glyph.ID(gid)); got != want {
				c.Violation("not installed", "GlyphName(%d) = %q instead of %q after EnsureGlyphNames; %s", gid, got, want, desc)
				return
			}
		}
		got, ok := makeNames(c, f, desc)
		if !ok {
			return
		}
		if !slices.Equal(first, got) {
			c.Violation("unstable", "MakeGlyphNames returned %s before and %s after EnsureGlyphNames; existing %s; %s", short(first), short(got), short(old), desc)
			return
		}
	}

	// the names can be written and read
	if o, ok := f.Outlines.(*cff.Outlines); ok && o.IsCIDKeyed() {
		return
	}
	if rng.IntN(3) != 0 || len(first) > 1000 {
		return
	}
	for _, s := range first {
		if len(s) > 200 || !psSafe(s) {
			return
		}
	}
	var buf bytes.Buffer
	if _, err := f.Write(&buf); err != nil {
		c.Count("fonts which cannot be written", 1)
		c.Count("fonts which cannot be written: "+regexp.MustCompile(`[0-9]+`).ReplaceAllString(err.Error(), "N"), 1)
		return
	}
	g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		c.Violation("written font rejected", "%v; %s", err, desc)
		return
	}
	if got := existing(g); !slices.Equal(got, first) {
		c.Violation("lost", "names %s became %s when the font was written and read; %s", short(first), short(got), desc)
		return
	}
	c.Count("fonts written and read", 1)
}

// pattern makes a list of existing names.
func pattern(rng *rand.Rand, n int) []string {
	res := make([]string, n)
	good := fgen.GlyphNames(rng, n, false)
	pMissing := rng.IntN(5)
	pDup := rng.IntN(4)
	pOdd := rng.IntN(4)
	pool := []string{"A", "B", "a", "f", "i", "f_i", "f_f_i", "A.1", "A.2", "f_i.1", ".notdef", "space", "orn001", "orn002", "orn003", "orn010", "u1234", "A.1.1", "a_b", ".notdef.1", "A.alt1", "A.alt2", "f.alt1", "orn999", "orn1000"}
	bad := []string{"1abc", "a b", "é", "a/b", "(", strings.Repeat("x", 40), ".x", "a\x00b", "\xff", "A-B", "%"}
	for i := range res {
		switch {
		case rng.IntN(4) < pMissing:
		case rng.IntN(8) < pDup:
			res[i] = fgen.Pick(rng, pool...)
		case rng.IntN(16) < pOdd:
			res[i] = fgen.Pick(rng, bad...)
		default:
			res[i] = good[i]
		}
	}
	switch rng.IntN(6) {
	case 0:
		clear(res)
	case 1:
		res = good
	}
	if rng.IntN(3) != 0 {
		res[0] = ".notdef"
	}
	return res
}

// install stores names in a font.
func install(rng *rand.Rand, f *sfnt.Font, nn []string) string {
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			g.Name = nn[i]
		}
	case *glyf.Outlines:
		switch rng.IntN(6) {
		case 0:
			o.Names = nil
		case 1:
			o.Names = slices.Clone(nn[:rng.IntN(len(nn)+1)])
			return "short list"
		case 2:
			o.Names = append(slices.Clone(nn), "A", "extra")
			return "long list"
		default:
			o.Names = slices.Clone(nn)
		}
	}
	return ""
}

func charmap(rng *rand.Rand, n int) cmap.Subtable {
	m := map[rune]glyph.ID{}
	add := func(r rune) {
		m[r] = glyph.ID(1 + rng.IntN(max(1, n-1)))
	}
	wide := false
	for k := 1 + rng.IntN(4); k > 0; k-- {
		switch rng.IntN(7) {
		case 0:
			for r := 'A'; r <= 'Z'; r++ {
				add(r)
			}
		case 1:
			for i := 0; i < 10; i++ {
				add(fgen.Pick(rng, 'f', 'i', 'l', 'ﬀ', 'ﬁ', 'ﬂ', 'ﬃ', 'ﬄ', ' ', 0xA0, 0xAD, '-', 0x2126, 0x3A9, 0x3BC, 0xB5, 0x394, 0x2206, 0x132))
			}
		case 2:
			for i := 0; i < 10; i++ {
				add(rune(0xE000 + rng.IntN(0x1900)))
			}
		case 3:
			wide = true
			for i := 0; i < 5; i++ {
				add(rune(0x1F600 + rng.IntN(80)))
			}
		case 4:
			for i := 0; i < 5; i++ {
				add(rune(rng.IntN(0xD800)))
			}
		case 5:
			add(fgen.Pick[rune](rng, 0, 1, 0xFFFE, 0xFFFD, 0xD800, 0xDFFF, 0x7F))
		case 6:
			for i := 0; i < 20; i++ {
				add(rune('a' + rng.IntN(26)))
			}
		}
	}
	if rng.IntN(8) == 0 {
		for r := range m {
			if rng.IntN(3) == 0 {
				m[r] = glyph.ID(fgen.Pick(rng, n, n+1, 65535, 0))
			}
		}
	}
	if wide || rng.IntN(4) == 0 {
		s := cmap.Format12{}
		for r, g := range m {
			s[uint32(r)] = g
		}
		return s
	}
	s := cmap.Format4{}
	for r, g := range m {
		s[uint16(r)] = g
	}
	return s
}

// substitutions makes a GSUB table.
func substitutions(rng *rand.Rand, n int) *gtab.Info {
	gid := func() glyph.ID { return glyph.ID(rng.IntN(n)) }
	cov := func() (coverage.Table, int) {
		gg := map[glyph.ID]bool{}
		start := gid()
		for k := 1 + rng.IntN(5); k > 0; k-- {
			if rng.IntN(2) == 0 {
				gg[gid()] = true
			} else {
				gg[min(start+glyph.ID(rng.IntN(4)), glyph.ID(n-1))] = true
			}
		}
		var ids []glyph.ID
		for g := range gg {
			ids = append(ids, g)
		}
		slices.Sort(ids)
		t := coverage.Table{}
		for i, g := range ids {
			t[g] = i
		}
		return t, len(ids)
	}
	sub := func(k int) gtab.Subtable {
		t, m := cov()
		switch k {
		case 1:
			if rng.IntN(2) == 0 {
				lo, hi := glyph.ID(n), glyph.ID(0)
				s := coverage.Set{}
				for g := range t {
					s[g] = true
					lo, hi = min(lo, g), max(hi, g)
				}
				delta := rng.IntN(n-int(hi)+int(lo)) - int(lo) // results are existing glyphs
				if rng.IntN(2) == 0 {
					delta = min(1, n-1-int(hi))
				}
				return &gtab.Gsub1_1{Cov: s, Delta: glyph.ID(delta)}
			}
			out := make([]glyph.ID, m)
			for i := range out {
				out[i] = gid()
			}
			return &gtab.Gsub1_2{Cov: t, SubstituteGlyphIDs: out}
		case 3:
			alt := make([][]glyph.ID, m)
			for i := range alt {
				for j := rng.IntN(4); j >= 0; j-- {
					alt[i] = append(alt[i], gid())
				}
			}
			return &gtab.Gsub3_1{Cov: t, Alternates: alt}
		case 4:
			repl := make([][]gtab.Ligature, m)
			for i := range repl {
				for j := rng.IntN(3); j >= 0; j-- {
					lig := gtab.Ligature{Out: gid()}
					for l := rng.IntN(fgen.Pick(rng, 2, 4, 4, 20)); l >= 0; l-- {
						lig.In = append(lig.In, gid())
					}
					repl[i] = append(repl[i], lig)
				}
			}
			return &gtab.Gsub4_1{Cov: t, Repl: repl}
		default:
			repl := make([][]glyph.ID, m)
			for i := range repl {
				repl[i] = []glyph.ID{gid(), gid()}
			}
			return &gtab.Gsub2_1{Cov: t, Repl: repl}
		}
	}
	info := &gtab.Info{}
	for l := 1 + rng.IntN(6); l > 0; l-- {
		k := fgen.Pick(rng, 1, 1, 2, 3, 3, 4, 4)
		lt := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(k)}}
		for s := 1 + rng.IntN(2); s > 0; s-- {
			lt.Subtables = append(lt.Subtables, sub(k))
		}
		info.LookupList = append(info.LookupList, lt)
	}
	return info
}

func constructed(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 2, 6, 12, 12, 40, 40, 200))
	kind := c.Index % fgen.NumKinds
	if rng.IntN(100) == 0 {
		n = 1000 + rng.IntN(2000)
	}
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, NoCmap: true, PlainCFF: true})
	n = f.NumGlyphs()
	nn := pattern(rng, n)
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		// make sure that glyphs are not shared
		for i, g := range o.Glyphs {
			g2 := *g
			o.Glyphs[i] = &g2
		}
		if kind == fgen.CFFCID && rng.IntN(2) == 0 {
			clear(nn)
		}
	}
	desc := fmt.Sprintf("kind %d", kind)
	if s := install(rng, f, nn); s != "" {
		desc += ", " + s
	}
	if rng.IntN(4) != 0 && n > 1 {
		f.InstallCMap(charmap(rng, n))
		if best, err := f.CMapTable.GetBest(); err == nil {
			lo, hi := best.CodeRange()
			desc += ", cmap"
			for r := max(lo, 0); r <= hi && len(desc) < 800; r++ {
				if g := best.Lookup(r); g != 0 {
					desc += fmt.Sprintf(" %x->%d", r, g)
				}
			}
		}
	}
	f.Gsub = nil
	if rng.IntN(4) != 0 {
		f.Gsub = substitutions(rng, n)
		s := strings.Join(gdump.Lookups(f.Gsub.LookupList), " // ")
		desc += ", GSUB " + s[:min(len(s), 1500)]
	}
	check(c, f, desc)
}

// simple checks the conversion to a simple font.
func simple(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(fgen.Pick(rng, 2, 6, 12, 12, 40, 40, 400))
	kind := fgen.CFFCID
	if rng.IntN(4) == 0 {
		kind = fgen.CFFSimple
	}
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, NoCmap: true, PlainCFF: true})
	o := f.Outlines.(*cff.Outlines)
	n = len(o.Glyphs)
	nn := pattern(rng, n)
	if rng.IntN(2) == 0 {
		clear(nn)
	}
	for i, g := range o.Glyphs {
		g2 := *g
		g2.Name = nn[i]
		o.Glyphs[i] = &g2
	}
	var text map[glyph.ID]string
	if rng.IntN(4) != 0 {
		text = map[glyph.ID]string{}
		for i := range nn {
			if rng.IntN(4) != 0 {
				text[glyph.ID(i)] = fgen.Pick(rng, "A", "A", "B", "f", "fi", "ffi", "ﬁ", "", " ", "é", "日", "😀", "\u0301", "f\u0301", strings.Repeat("x", 16), strings.Repeat("ab", 10), string(rune('a'+rng.IntN(26))), string(rune(0x4E00+rng.IntN(100))))
			}
		}
	}
	desc := fmt.Sprintf("text %v", text)
	if len(desc) > 1500 {
		desc = desc[:1500]
	}
	old := slices.Clone(nn)
	if !c.Guard("MakeSimple", func() { o.MakeSimple(text) }) {
		return
	}
	got := existing(f)
	if !basic(c, "MakeSimple", old, got, true, desc) {
		return
	}
	c.Count("conversions to simple fonts", 1)
	c.NonTrivial(strings.Join(old, " "), desc)
	if o.IsCIDKeyed() || o.ROS != nil || len(o.GIDToCID) > 0 {
		c.Violation("still CID-keyed", "MakeSimple left ROS %v; %s", o.ROS, desc)
		return
	}
	used := map[string]bool{}
	for _, s := range got {
		used[s] = true
	}
	count := map[string]int{}
	for _, s := range old {
		count[s]++
	}
	for i, s := range got {
		if !names.IsValid(s) {
			c.Violation("invalid", "MakeSimple: name %q for glyph %d; existing %s; %s", s, i, short(old), desc)
			return
		}
		if i == 0 || s == old[i] {
			continue
		}
		want := names.FromUnicode(text[glyph.ID(i)])
		switch {
		case want != "" && (s == want || strings.HasPrefix(s, want) && variant.MatchString(s[len(want):])):
			if s != want && !used[want] {
				c.Violation("variant without need", "MakeSimple: name %q for glyph %d, but %q is not used; %s", s, i, want, desc)
				return
			}
			c.Count("names from the text", 1)
		case placeholder.MatchString(s):
			if want != "" && names.IsValid(want+".alt999") {
				c.Violation("text ignored", "MakeSimple: name %q for glyph %d with text %q; existing %s; got %s; %s", s, i, text[glyph.ID(i)], short(old), short(got), desc)
				return
			}
			c.Count("placeholders", 1)
		default:
			c.Violation("origin", "MakeSimple: glyph %d with text %q has the name %q; existing %s; got %s; %s", i, text[glyph.ID(i)], s, short(old), short(got), desc)
			return
		}
	}

	// asking again
	for i := 0; i < 2; i++ {
		if !c.Guard("MakeSimple", func() { o.MakeSimple(text) }) {
			return
		}
		if again := existing(f); !slices.Equal(again, got) {
			c.Violation("unstable", "MakeSimple: names %s, then %s; %s", short(got), short(again), desc)
			return
		}
		again, ok := makeNames(c, f, desc)
		if !ok {
			return
		}
		if !slices.Equal(again, got) {
			c.Violation("unstable", "MakeSimple: names %s, but MakeGlyphNames returns %s; %s", short(got), short(again), desc)
			return
		}
	}

	// back to a CID-keyed font, and once more
	if rng.IntN(3) == 0 {
		ids := make([]cid.CID, n)
		for i := range ids {
			ids[i] = cid.CID(i)
		}
		if len(o.Private) > 1 || len(o.FontMatrices) > 1 {
			return
		}
		o.FontMatrices = nil
		o.MakeCIDKeyed(&cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}, ids)
		if len(o.FontMatrices) == 0 {
			o.FontMatrices = []matrix.Matrix{matrix.Identity}
		}
		if !c.Guard("MakeSimple", func() { o.MakeSimple(text) }) {
			return
		}
		basic(c, "second conversion", make([]string, n), existing(f), true, desc)
		c.Count("second conversions", 1)
	}
}

// files checks fonts which were read from files.
func files(c *h.Case) {
	rng := c.Rng
	var data []byte
	var desc string
	if real := foreign.Real(); rng.IntN(4) == 0 {
		i := rng.IntN(len(real))
		data, desc = real[i], fmt.Sprintf("real font %d", i)
	} else {
		data, desc = foreign.File(rng)
	}
	var f, g *sfnt.Font
	var err error
	if !c.Guard("Read", func() { f, err = sfnt.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil || f.NumGlyphs() == 0 {
		c.Count("files rejected", 1)
		return
	}
	if best, _ := f.CMapTable.GetBest(); best != nil {
		if lo, hi := best.CodeRange(); lo < 0 || hi > 0x10FFFF {
			c.Count("character maps beyond the Unicode range", 1)
			return
		}
	}
	if rng.IntN(2) == 0 {
		install(rng, f, pattern(rng, f.NumGlyphs()))
	} else {
		// a second copy of the font, with different map order
		g, _ = sfnt.Read(bytes.NewReader(data))
		a, ok := makeNames(c, f, desc)
		if !ok {
			return
		}
		b, ok := makeNames(c, g, desc)
		if !ok {
			return
		}
		if !slices.Equal(a, b) {
			c.Violation("unstable", "two copies of the same file have names %s and %s; %s: %x", short(a), short(b), desc, h.Trunc(data))
			return
		}
		c.Count("files read twice", 1)
	}
	check(c, f, desc)
}

// psName checks the PostScript name of the font.
func psName(c *h.Case) {
	rng := c.Rng
	f := &sfnt.Font{}
	if rng.IntN(2) == 0 {
		f, _ = fgen.Font(rng, &fgen.FontOpts{Kind: c.Index % fgen.NumKinds, NumGlyphs: 2, PlainCFF: true})
	}
	for k := 0; k < 60; k++ {
		b := &strings.Builder{}
		for i := rng.IntN(fgen.Pick(rng, 3, 10, 60)); i > 0; i-- {
			switch rng.IntN(4) {
			case 0:
				b.WriteByte(byte(rng.IntN(256)))
			case 1:
				b.WriteString(fgen.Pick(rng, "[", "]", "(", ")", "{", "}", "<", ">", "/", "%", " ", "\t", "\n", "\x00", "\x7f", "é", "日", "😀", "\u200b", "-", "^", "\\", "~", "`", "@", "Bold"))
			case 2:
				b.WriteByte(byte(32 + rng.IntN(96)))
			default:
				b.WriteByte(byte('A' + rng.IntN(26)))
			}
		}
		f.FamilyName = b.String()
		if rng.IntN(3) == 0 {
			f.FamilyName = fgen.Family(rng)
		}
		f.Width = os2.Width(fgen.Pick(rng, 0, 1+rng.IntN(9), rng.IntN(65536)))
		f.Weight = os2.Weight(fgen.Pick(rng, 0, 100*rng.IntN(11), rng.IntN(65536)))
		f.IsRegular = rng.IntN(2) == 0
		f.IsBold = rng.IntN(2) == 0
		f.IsItalic = rng.IntN(2) == 0
		f.IsOblique = rng.IntN(2) == 0
		var name string
		if !c.Guard("PostScriptName", func() { name = f.PostScriptName() }) {
			return
		}
		c.Eval(1)
		if !psSafe(name) {
			c.Violation("PostScript name", "family %q, subfamily %q: PostScript name %q", f.FamilyName, f.Subfamily(), name)
			return
		}
		if again := f.PostScriptName(); again != name {
			c.Violation("PostScript name unstable", "%q, %q", name, again)
			return
		}
		if f.Outlines != nil {
			if s := f.GetFontInfo().FontName; !psSafe(s) {
				c.Violation("PostScript name", "family %q, subfamily %q: FontInfo.FontName %q", f.FamilyName, f.Subfamily(), s)
				return
			}
		}
		c.Count("PostScript names", 1)
	}
	c.NonTrivial(f.FamilyName)
}

func main() {
	h.Main(&h.Check{
		ID:    "C20",
		Level: "exploration",
		Rule:  "every list of names is checked for completeness, uniqueness, kept names, the origin of every new name, and stability (repeated calls, after installation, on copies). Non-trivial: distinct fonts where at least one name had to be generated, and distinct family names",
		Assumptions: []string{
			"which one of several glyphs with the same existing name keeps the name, and whether MakeSimple keeps invalid names, is left open",
			"names inferred from substitutions: required only if the names of all glyphs on the left were known before the subtable was reached",
			"names.FromUnicode of the postscript module (a dependency) is used for the Adobe glyph-list names",
		},
		Groups: []h.Group{
			{Name: "constructed", Quick: 20000, Run: constructed},
			{Name: "simple", Quick: 8000, Run: simple},
			{Name: "files", Quick: 2000, Run: files},
			{Name: "psname", Quick: 2000, Run: psName},
		},
	})
}
