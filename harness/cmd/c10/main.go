// Command c10 checks font subsetting.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/fdump"
	"verif/fgen"
	"verif/foreign"
	"verif/gdump"
	"verif/h"
	"verif/raw"
	"verif/refshape"
)

// ----- glyph lists -----

// glyphList makes a duplicate-free list which starts with glyph 0.
func glyphList(rng *rand.Rand, n int, want []glyph.ID) []glyph.ID {
	perm := make([]glyph.ID, 0, n)
	for _, i := range rng.Perm(n) {
		if i != 0 {
			perm = append(perm, glyph.ID(i))
		}
	}
	// move interesting glyphs to the front
	if len(want) > 0 && rng.IntN(3) > 0 {
		seen := map[glyph.ID]bool{0: true}
		var front []glyph.ID
		for _, g := range want {
			if !seen[g] && int(g) < n && rng.IntN(3) > 0 {
				seen[g] = true
				front = append(front, g)
			}
		}
		for _, g := range perm {
			if !seen[g] {
				front = append(front, g)
			}
		}
		perm = front
	}
	k := 0
	if len(perm) > 0 {
		switch rng.IntN(6) {
		case 0:
			k = len(perm)
		case 1:
			k = min(len(perm), rng.IntN(3))
		default:
			k = rng.IntN(len(perm) + 1)
		}
	}
	perm = perm[:k]
	switch rng.IntN(5) {
	case 0:
		slices.Sort(perm)
	case 1:
		slices.Sort(perm)
		slices.Reverse(perm)
	case 2, 3:
		rng.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	}
	// some lists are part of a larger slice
	res := append(make([]glyph.ID, 0, len(perm)+1+rng.IntN(8)), 0)
	return append(res, perm...)
}

// ----- rules -----

type rule struct {
	in  []glyph.ID
	out glyph.ID
}

func (r rule) String() string { return fmt.Sprintf("%d->%d", r.in, r.out) }

// rules lists the rules of a GSUB lookup in the order in which they are
// tried, for each first glyph.  Only the first rule for any given input can be
// used.
func rules(lt *gtab.LookupTable) map[glyph.ID][]rule {
	res := map[glyph.ID][]rule{}
	add := func(r rule) {
		res[r.in[0]] = append(res[r.in[0]], r)
	}
	for _, sub := range lt.Subtables {
		switch s := sub.(type) {
		case *gtab.Gsub1_1:
			for g, ok := range s.Cov {
				if ok {
					add(rule{[]glyph.ID{g}, g + s.Delta})
				}
			}
		case *gtab.Gsub1_2:
			for g, i := range s.Cov {
				if i < len(s.SubstituteGlyphIDs) {
					add(rule{[]glyph.ID{g}, s.SubstituteGlyphIDs[i]})
				}
			}
		case *gtab.Gsub4_1:
			for g, i := range s.Cov {
				if i < len(s.Repl) {
					for _, l := range s.Repl[i] {
						add(rule{append([]glyph.ID{g}, l.In...), l.Out})
					}
				}
			}
		default:
			panic(fmt.Sprintf("unexpected subtable %T", sub))
		}
	}
	return res
}

// hidden returns true if an earlier rule has the same input.
func hidden(rr []rule, i int) bool {
	return slices.ContainsFunc(rr[:i], func(x rule) bool { return slices.Equal(x.in, rr[i].in) })
}

// supported checks that the layout tables only use features which are
// declared as supported.
func supported(f *sfnt.Font) bool {
	n := f.NumGlyphs()
	if f.Gdef != nil {
		return false
	}
	if f.Gsub != nil {
		for _, lt := range f.Gsub.LookupList {
			for _, sub := range lt.Subtables {
				switch sub.(type) {
				case *gtab.Gsub1_1, *gtab.Gsub4_1:
				default:
					return false
				}
			}
			for _, rr := range rules(lt) {
				for _, r := range rr {
					if int(r.out) >= n {
						return false
					}
				}
			}
		}
	}
	if f.Gpos != nil {
		for _, lt := range f.Gpos.LookupList {
			for _, sub := range lt.Subtables {
				if _, ok := sub.(gtab.Gpos2_1); !ok {
					return false
				}
			}
		}
	}
	return true
}

// ----- the oracle -----

type oracle struct {
	c    *h.Case
	what string
	old  *sfnt.Font // the original font
	list []glyph.ID
	sub  *sfnt.Font // the subset

	origin []int // the original glyph for each glyph of the subset, or -1
	newGid map[glyph.ID]glyph.ID

	closure map[glyph.ID]bool // the listed glyphs and ligatures between them

	rules    []map[glyph.ID][]rule // the original substitution rules, for each lookup
	newRules []map[glyph.ID][]rule // the rules in the subset

	cache map[string]decoded // character maps of the original font
	codes []int              // all character codes used

	problem, key string // the reason for a failure
}

func (o *oracle) fail(key, format string, a ...any) bool {
	o.c.Violation(key, "%s: %s; list %s", o.what, fmt.Sprintf(format, a...), short(o.list))
	return false
}

func short(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// bind records that glyph e of the subset represents the original glyph old.
func (o *oracle) bind(e glyph.ID, old glyph.ID, component bool, why string) (changed, ok bool) {
	if int(e) >= len(o.origin) {
		return false, o.reason("%s: glyph %d (original glyph %d) of %d", why, e, old, len(o.origin))
	}
	if o.origin[e] < 0 {
		o.origin[e] = int(old)
		if _, dup := o.newGid[old]; dup {
			o.c.Count("duplicate glyphs appended", 1)
		} else {
			o.newGid[old] = e
		}
		return true, true
	}
	if o.origin[e] != int(old) && !(component && o.sameOutline(glyph.ID(o.origin[e]), old, 0)) {
		return false, o.reason("%s: glyph %d of the subset is the original glyph %d, but is used in place of glyph %d", why, e, o.origin[e], old)
	}
	return false, true
}

func (o *oracle) reason(format string, a ...any) bool {
	o.problem = fmt.Sprintf(format, a...)
	return false
}

// sameOutline compares two glyphs of the original font.
func (o *oracle) sameOutline(a, b glyph.ID, depth int) bool {
	out, ok := o.old.Outlines.(*glyf.Outlines)
	if !ok || depth > 10 {
		return false
	}
	x, y := out.Glyphs[a], out.Glyphs[b]
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return reflect.DeepEqual(x, y)
}

func components(g *glyf.Glyph) []glyf.GlyphComponent {
	if g == nil {
		return nil
	}
	if c, ok := g.Data.(glyf.CompositeGlyph); ok {
		return c.Components
	}
	return nil
}

// kept lists the effective rules of an original lookup among the glyphs in a
// set.
func kept(rr map[glyph.ID][]rule, set map[glyph.ID]bool, all bool) []rule {
	var res []rule
	for _, g := range firsts(rr) {
		if !set[g] {
			continue
		}
		for i, r := range rr[g] {
			if contains(set, r.in) && (all || !hidden(rr[g], i)) {
				res = append(res, r)
			}
		}
	}
	return res
}

func contains(set map[glyph.ID]bool, gg []glyph.ID) bool {
	for _, g := range gg {
		if !set[g] {
			return false
		}
	}
	return true
}

func firsts(rr map[glyph.ID][]rule) []glyph.ID {
	var res []glyph.ID
	for g := range rr {
		res = append(res, g)
	}
	slices.Sort(res)
	return res
}

// findClosure finds the listed glyphs, together with all glyphs which can be
// reached from these using substitution rules.
func (o *oracle) findClosure() {
	o.closure = map[glyph.ID]bool{}
	for _, g := range o.list {
		o.closure[g] = true
	}
	if o.old.Gsub == nil {
		return
	}
	for _, lt := range o.old.Gsub.LookupList {
		o.rules = append(o.rules, rules(lt))
	}
	o.close(o.closure, false, false)
}

// close adds the glyphs which can be reached from the glyphs in a set.
func (o *oracle) close(set map[glyph.ID]bool, all, comp bool) {
	out, _ := o.old.Outlines.(*glyf.Outlines)
	for changed := true; changed; {
		changed = false
		add := func(g glyph.ID) {
			if !set[g] {
				set[g] = true
				changed = true
			}
		}
		for _, rr := range o.rules {
			for _, r := range kept(rr, set, all) {
				add(r.out)
			}
		}
		if comp && out != nil {
			var todo []glyph.ID
			for g := range set {
				todo = append(todo, g)
			}
			for _, g := range todo {
				for _, x := range components(out.Glyphs[g]) {
					add(x.GlyphIndex)
				}
			}
		}
	}
}

func (o *oracle) check() bool {
	n := o.sub.NumGlyphs()
	if n < len(o.list) {
		return o.fail("glyph count", "only %d glyphs", n)
	}
	o.findClosure()

	// Find the relation between the original lookups and the new lookups.
	// Lookups which are not needed any more may be removed.
	var newLL gtab.LookupList
	if o.sub.Gsub != nil {
		newLL = o.sub.Gsub.LookupList
	}
	for _, lt := range newLL {
		o.newRules = append(o.newRules, rules(lt))
	}
	first := ""
	var gsubMap map[gtab.LookupIndex]gtab.LookupIndex
	for k := 0; ; k++ {
		if k == 4 {
			if first == "" {
				return o.fail("GSUB lookups", "%d lookups in the subset; %s", len(newLL), o.describe())
			}
			return o.fail(o.key, "%s", first)
		}
		set := o.closure
		if k == 1 || k == 2 {
			set = map[glyph.ID]bool{}
			for g := range o.closure {
				set[g] = true
			}
			o.close(set, true, k == 2)
		}
		var align []int
		for i := range o.rules {
			if k == 3 || len(kept(o.rules[i], set, true)) > 0 {
				align = append(align, i)
			}
		}
		if len(align) != len(newLL) {
			continue
		}
		o.origin = make([]int, n)
		o.newGid = map[glyph.ID]glyph.ID{}
		for i := range o.origin {
			o.origin[i] = -1
		}
		for i, g := range o.list {
			o.origin[i] = int(g)
			o.newGid[g] = glyph.ID(i)
		}
		var key, msg string
		gsubMap, key, msg = o.references(align)
		if msg == "" {
			break
		}
		if first == "" {
			o.key, first = key, msg
		}
	}
	return o.glyphs() && o.cmaps() && o.gpos() && o.features("GSUB", o.old.Gsub, o.sub.Gsub, gsubMap)
}

func (o *oracle) describe() string {
	var a, b gtab.LookupList
	if o.old.Gsub != nil {
		a = o.old.Gsub.LookupList
	}
	if o.sub.Gsub != nil {
		b = o.sub.Gsub.LookupList
	}
	return short(fmt.Sprint("original ", strings.Join(gdump.Lookups(a), "; "), "; subset ", strings.Join(gdump.Lookups(b), "; ")))
}

// references follows all references to find the original glyphs for all glyphs
// in the subset, and checks the substitution rules.  The list align gives the
// original lookup for each lookup of the subset.
func (o *oracle) references(align []int) (idx map[gtab.LookupIndex]gtab.LookupIndex, key, msg string) {
	fail := func(key, format string, a ...any) (map[gtab.LookupIndex]gtab.LookupIndex, string, string) {
		return nil, key, fmt.Sprintf(format, a...) + "; " + o.describe()
	}
	// original returns the original glyphs
	original := func(gg []glyph.ID) ([]glyph.ID, bool, bool) {
		var res []glyph.ID
		for _, g := range gg {
			if int(g) >= len(o.origin) {
				return nil, false, false
			}
			if o.origin[g] < 0 {
				return nil, false, true
			}
			res = append(res, glyph.ID(o.origin[g]))
		}
		return res, true, true
	}
	// match finds the original rule for a new rule.
	match := func(lookup int, rr []rule, i int) (rule, bool) {
		k := 0
		for _, x := range rr[:i] {
			if slices.Equal(x.in, rr[i].in) {
				k++
			}
		}
		in, _, _ := original(rr[i].in)
		for _, x := range o.rules[lookup][in[0]] {
			if slices.Equal(x.in, in) {
				if k == 0 {
					return x, true
				}
				k--
			}
		}
		return rule{}, false
	}

	out, isGlyf := o.sub.Outlines.(*glyf.Outlines)
	old, _ := o.old.Outlines.(*glyf.Outlines)
	compDone := make([]bool, len(o.origin))
	for changed := true; changed; {
		changed = false
		for pos, lookup := range align {
			for _, g := range firsts(o.newRules[pos]) {
				rr := o.newRules[pos][g]
				for i, r := range rr {
					_, ok, inRange := original(r.in)
					if !inRange {
						return fail("GSUB range", "lookup %d: rule %v", pos, r)
					}
					if !ok {
						continue
					}
					q, ok := match(lookup, rr, i)
					if !ok {
						return fail("GSUB rule", "lookup %d: rule %v (original lookup %d) is not in the original font", pos, r, lookup)
					}
					ch, ok := o.bind(r.out, q.out, false, fmt.Sprintf("output of rule %v (new %v)", q, r))
					if !ok {
						return fail("GSUB output", "lookup %d: %s", pos, o.problem)
					}
					changed = changed || ch
				}
			}
		}
		if !isGlyf {
			continue
		}
		for i := range out.Glyphs {
			if o.origin[i] < 0 || compDone[i] {
				continue
			}
			compDone[i] = true
			a, b := components(old.Glyphs[o.origin[i]]), components(out.Glyphs[i])
			if len(a) != len(b) {
				return fail("components", "glyph %d (original %d) has %d components instead of %d", i, o.origin[i], len(b), len(a))
			}
			for k := range a {
				ch, ok := o.bind(b[k].GlyphIndex, a[k].GlyphIndex, true, fmt.Sprintf("component %d of glyph %d (original %d)", k, i, o.origin[i]))
				if !ok {
					return fail("component reference", "%s", o.problem)
				}
				changed = changed || ch
				o.c.Count("component references", 1)
			}
		}
	}
	for i := len(o.list); i < len(o.origin); i++ {
		if o.origin[i] < 0 {
			return fail("unneeded glyph", "extra glyph %d of %d is neither a component nor a ligature", i, len(o.origin))
		}
	}
	o.c.Count("extra glyphs", len(o.origin)-len(o.list))

	// All rules must be present, in the original order.
	idx = map[gtab.LookupIndex]gtab.LookupIndex{}
	present := map[int]bool{}
	for pos, lookup := range align {
		lt, lt2 := o.old.Gsub.LookupList[lookup], o.sub.Gsub.LookupList[pos]
		if *lt.Meta != *lt2.Meta {
			return fail("GSUB meta", "lookup %d: %v instead of %v", pos, *lt2.Meta, *lt.Meta)
		}
		present[lookup] = true
		want := map[glyph.ID][]rule{}
		for _, r := range kept(o.rules[lookup], o.closure, false) {
			for _, g := range r.in {
				if _, ok := o.newGid[g]; !ok {
					return fail("GSUB glyph missing", "lookup %d rule %v: no glyph %d in the subset", lookup, r, g)
				}
			}
			first := o.newGid[r.in[0]]
			want[first] = append(want[first], r)
		}
		if len(want) > 0 {
			idx[gtab.LookupIndex(lookup)] = gtab.LookupIndex(pos)
		}
		for _, g := range firsts(want) {
			k := 0
			rr := o.newRules[pos][g]
			for i, r := range rr {
				in, _, _ := original(r.in)
				if hidden(rr, i) || !contains(o.closure, in) {
					continue
				}
				if k == len(want[g]) || !slices.Equal(want[g][k].in, in) {
					return fail("GSUB rules", "lookup %d, first glyph %d: rules %v, original rules %v", pos, g, rr, want[g])
				}
				k++
			}
			if k < len(want[g]) {
				return fail("GSUB rule missing", "lookup %d, first glyph %d: rules %v, original rules %v", pos, g, rr, want[g])
			}
			o.c.Count("substitution rules compared", k)
		}
	}
	for lookup, rr := range o.rules {
		if !present[lookup] {
			if missing := kept(rr, o.closure, false); len(missing) > 0 {
				return fail("GSUB lookup missing", "lookup %d with rules %v", lookup, missing)
			}
		}
	}
	return idx, "", ""
}

// glyphs compares the glyphs.
func (o *oracle) glyphs() bool {
	switch out := o.sub.Outlines.(type) {
	case *glyf.Outlines:
		old := o.old.Outlines.(*glyf.Outlines)
		for i, j := range o.origin {
			a, b := old.Glyphs[j], out.Glyphs[i]
			if (a == nil) != (b == nil) {
				return o.fail("outline", "glyph %d: blank %t instead of %t", i, b == nil, a == nil)
			}
			if a != nil {
				if a.Rect16 != b.Rect16 {
					return o.fail("outline", "glyph %d (original %d) has bounding box %v instead of %v", i, j, b.Rect16, a.Rect16)
				}
				switch x := a.Data.(type) {
				case glyf.CompositeGlyph:
					y, ok := b.Data.(glyf.CompositeGlyph)
					if !ok || !bytes.Equal(x.Instructions, y.Instructions) || (x.Instructions == nil) != (y.Instructions == nil) {
						return o.fail("outline", "glyph %d (original %d): %v instead of %v", i, j, b.Data, a.Data)
					}
					for k := range x.Components {
						if x.Components[k].Flags != y.Components[k].Flags || !bytes.Equal(x.Components[k].Data, y.Components[k].Data) {
							return o.fail("outline", "component %d of glyph %d (original %d): %v instead of %v", k, i, j, y.Components[k], x.Components[k])
						}
					}
				default:
					if !reflect.DeepEqual(a.Data, b.Data) {
						return o.fail("outline", "glyph %d (original %d): %v instead of %v", i, j, b.Data, a.Data)
					}
				}
			}
			if old.Widths == nil {
				// The widths become explicit when the subset is written.
				if len(out.Widths) > i && out.Widths[i] != 0 {
					return o.fail("width", "glyph %d (original %d): width %d in a font without widths", i, j, out.Widths[i])
				}
			} else if len(old.Widths) > j || len(out.Widths) > i {
				if len(out.Widths) <= i || out.Widths[i] != old.Widths[j] {
					return o.fail("width", "glyph %d (original %d): widths %v, original %d", i, j, short(out.Widths), old.Widths[j])
				}
			}
		}
		for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
			if !bytes.Equal(old.Tables[t], out.Tables[t]) {
				return o.fail("tables", "table %q changed", t)
			}
		}
	case *cff.Outlines:
		return o.cffGlyphs(o.old.Outlines.(*cff.Outlines), out)
	default:
		return o.fail("outlines", "unexpected type %T", out)
	}
	for i, j := range o.origin {
		if a, b := o.old.GlyphName(glyph.ID(j)), o.sub.GlyphName(glyph.ID(i)); a != b {
			return o.fail("name", "glyph %d (original %d) has name %q instead of %q", i, j, b, a)
		}
		a, b := o.old.GlyphWidth(glyph.ID(j)), o.sub.GlyphWidth(glyph.ID(i))
		if a != b {
			return o.fail("width", "glyph %d (original %d) has width %g instead of %g", i, j, b, a)
		}
		o.c.Count("glyphs compared", 1)
	}
	return true
}

func sameGlyph(a, b *cff.Glyph) bool {
	if a == b {
		return true
	}
	if a.Name != b.Name || a.Width != b.Width || len(a.Cmds) != len(b.Cmds) || !slices.Equal(a.HStem, b.HStem) || !slices.Equal(a.VStem, b.VStem) {
		return false
	}
	for i := range a.Cmds {
		if a.Cmds[i].Op != b.Cmds[i].Op || !slices.Equal(a.Cmds[i].Args, b.Cmds[i].Args) {
			return false
		}
	}
	return true
}

func (o *oracle) cffGlyphs(old, out *cff.Outlines) bool {
	if len(out.Glyphs) != len(o.origin) {
		return o.fail("glyph count", "%d CFF glyphs instead of %d", len(out.Glyphs), len(o.origin))
	}
	if (old.ROS == nil) != (out.ROS == nil) || old.ROS != nil && *old.ROS != *out.ROS {
		return o.fail("ROS", "%v instead of %v", out.ROS, old.ROS)
	}
	if (old.GIDToCID == nil) != (out.GIDToCID == nil) {
		return o.fail("CID", "GIDToCID is %v instead of %v", short(out.GIDToCID), short(old.GIDToCID))
	}
	for i, j := range o.origin {
		if !sameGlyph(old.Glyphs[j], out.Glyphs[i]) {
			return o.fail("outline", "glyph %d (original %d): %v instead of %v", i, j, short(*out.Glyphs[i]), short(*old.Glyphs[j]))
		}
		if old.GIDToCID != nil && (len(out.GIDToCID) <= i || out.GIDToCID[i] != old.GIDToCID[j]) {
			return o.fail("CID", "glyph %d (original %d): CIDs %s, original %s", i, j, short(out.GIDToCID), short(old.GIDToCID))
		}
		fdA, fdB := old.FDSelect(glyph.ID(j)), out.FDSelect(glyph.ID(i))
		if fdB < 0 || fdB >= len(out.Private) {
			return o.fail("private", "glyph %d: font dict index %d of %d", i, fdB, len(out.Private))
		}
		if old.Private[fdA] != out.Private[fdB] && !reflect.DeepEqual(old.Private[fdA], out.Private[fdB]) {
			return o.fail("private", "glyph %d (original %d) has private dictionary %v instead of %v", i, j, *out.Private[fdB], *old.Private[fdA])
		}
		if old.ROS != nil {
			if fdB >= len(out.FontMatrices) || old.FontMatrices[fdA] != out.FontMatrices[fdB] {
				return o.fail("matrix", "glyph %d (original %d): font matrices %v, original %v", i, j, out.FontMatrices, old.FontMatrices[fdA])
			}
		}
		o.c.Count("CFF glyphs compared", 1)
	}
	if (old.Encoding == nil) != (out.Encoding == nil) || len(old.Encoding) != len(out.Encoding) {
		return o.fail("encoding", "%v instead of %v", short(out.Encoding), short(old.Encoding))
	}
	for code, g := range old.Encoding {
		if !o.goodTarget(int(g), int(out.Encoding[code])) {
			return o.fail("encoding", "code %d: glyph %d, original glyph %d", code, out.Encoding[code], g)
		}
	}
	if old.Encoding != nil {
		o.c.Count("built-in encodings", 1)
	}
	return true
}

// goodTarget checks the new glyph for a character code.
func (o *oracle) goodTarget(old, new int) bool {
	if new < 0 || new >= len(o.origin) {
		return false
	}
	e, ok := o.newGid[glyph.ID(old)]
	if !ok || old == 0 {
		return new == 0
	}
	if new == 0 {
		// extra glyphs may be without character codes
		return int(e) >= len(o.list)
	}
	return o.origin[new] == old
}

// decodeCmap is an independent decoder for cmap subtables.
func decodeCmap(d []byte, strict bool) (map[int]int, error) {
	if len(d) < 6 {
		return nil, fmt.Errorf("too short")
	}
	res := map[int]int{}
	switch f := raw.U16(d, 0); f {
	case 0:
		if len(d) < 262 {
			return nil, fmt.Errorf("too short")
		}
		for i := 0; i < 256; i++ {
			if d[6+i] != 0 {
				res[i] = int(d[6+i])
			}
		}
	case 4:
		s, err := raw.ParseFormat4(d, strict)
		if err != nil {
			return nil, err
		}
		m, err := s.Map()
		if err != nil {
			return nil, err
		}
		for i, g := range m {
			if g != 0 {
				res[i] = int(g)
			}
		}
	case 6:
		n := raw.U16(d, 8)
		if len(d) < 10+2*n {
			return nil, fmt.Errorf("too short")
		}
		for i := 0; i < n && raw.U16(d, 6)+i < 65536; i++ {
			res[raw.U16(d, 6)+i] = raw.U16(d, 10+2*i)
		}
	case 12:
		return raw.ParseFormat12(d)
	default:
		return nil, fmt.Errorf("format %d", f)
	}
	return res, nil
}

type decoded struct {
	m   map[int]int
	err error
}

// decode decodes a subtable of the original font.
func (o *oracle) decode(data []byte) (map[int]int, error) {
	key := string(data)
	d, ok := o.cache[key]
	if !ok {
		d.m, d.err = decodeCmap(data, false)
		if o.cache != nil {
			o.cache[key] = d
		}
	}
	return d.m, d.err
}

// chars lists characters which may be mapped by the given character maps.
func (o *oracle) chars(tt ...cmap.Subtable) []rune {
	set := map[rune]bool{0: true, 1: true, 0xFFFD: true, 0xFFFF: true, 0x10000: true, 0x10FFFF: true}
	for _, t := range tt {
		lo, hi := t.CodeRange()
		lo, hi = max(lo, 0), min(hi, 0x10FFFF)
		set[lo], set[hi] = true, true
		if hi-lo < 1000 {
			for r := lo; r <= hi; r++ {
				set[r] = true
			}
		}
	}
	for _, c := range o.codes {
		set[rune(c)] = true
		set[rune(c)+1] = true
	}
	var res []rune
	for r := range set {
		if r <= 0x10FFFF {
			res = append(res, r)
		}
	}
	slices.Sort(res)
	return res
}

func (o *oracle) cmaps() bool {
	for key, data := range o.old.CMapTable {
		a, err := o.decode(data)
		_, libErr := cmap.Table{key: data}.GetNoLang(key.PlatformID, key.EncodingID)
		newData, present := o.sub.CMapTable[key]
		if err != nil || libErr != nil {
			if !present {
				o.c.Count("unsupported character maps dropped", 1)
				continue
			}
			if err != nil {
				continue
			}
		}
		b := map[int]int{}
		if present {
			b, err = decodeCmap(newData, true)
			if err != nil {
				return o.fail("cmap", "%v: format %d: %v", key, raw.U16(newData, 0), err)
			}
			o.c.Count(fmt.Sprintf("character maps, format %d to %d", raw.U16(data, 0), raw.U16(newData, 0)), 1)
		}
		for code := range a {
			o.codes = append(o.codes, code)
		}
		for code := range b {
			o.codes = append(o.codes, code)
		}
		for code, g := range a {
			if !o.goodTarget(g, b[code]) {
				return o.fail("cmap", "%v: code %#x mapped to glyph %d, original glyph %d (format %d to %d, present %t)", key, code, b[code], g, raw.U16(data, 0), raw.U16(append(newData, 0, 0), 0), present)
			}
			if b[code] != 0 {
				o.c.Count("characters kept", 1)
			} else if g != 0 {
				o.c.Count("characters dropped", 1)
			}
		}
		for code, g := range b {
			if a[code] == 0 && g != 0 {
				return o.fail("cmap", "%v: code %#x mapped to glyph %d, was not mapped before", key, code, g)
			}
		}
	}
	for key := range o.sub.CMapTable {
		if _, ok := o.old.CMapTable[key]; !ok {
			return o.fail("cmap", "new subtable %v", key)
		}
	}

	// the map as seen by the user
	a, errA := o.old.CMapTable.GetBest()
	b, errB := o.sub.CMapTable.GetBest()
	if errA == nil {
		if errB != nil {
			return o.fail("cmap", "no usable character map: %v", errB)
		}
		for _, r := range o.chars(a, b) {
			if !o.goodTarget(min(int(a.Lookup(r)), 0x10000), int(b.Lookup(r))) {
				return o.fail("cmap", "character %U mapped to glyph %d, original glyph %d", r, b.Lookup(r), a.Lookup(r))
			}
		}
	}
	return true
}

func value(v *gtab.GposValueRecord) string {
	if v == nil {
		return "0"
	}
	return gdump.Subtable(&gtab.Gpos1_1{Adjust: v})
}

func samePair(a, b *gtab.PairAdjust) bool {
	zero := &gtab.GposValueRecord{}
	x, y := a.First, b.First
	if x == nil {
		x = zero
	}
	if y == nil {
		y = zero
	}
	return value(x) == value(y) && (a.Second == nil) == (b.Second == nil) && value(a.Second) == value(b.Second)
}

// pairs lists the effective kerning pairs of a lookup.
func pairs(lt *gtab.LookupTable) map[glyph.Pair]*gtab.PairAdjust {
	res := map[glyph.Pair]*gtab.PairAdjust{}
	for _, sub := range lt.Subtables {
		s, ok := sub.(gtab.Gpos2_1)
		if !ok {
			panic(fmt.Sprintf("unexpected subtable %T", sub))
		}
		for p, adj := range s {
			if _, ok := res[p]; !ok {
				res[p] = adj
			}
		}
	}
	return res
}

func (o *oracle) gpos() bool {
	if o.old.Gpos == nil {
		if o.sub.Gpos != nil && len(o.sub.Gpos.LookupList) > 0 {
			return o.fail("GPOS", "new GPOS table")
		}
		return true
	}
	var newLL gtab.LookupList
	if o.sub.Gpos != nil {
		newLL = o.sub.Gpos.LookupList
	}
	idx := map[gtab.LookupIndex]gtab.LookupIndex{}
	closed := func(p glyph.Pair) bool { return o.closure[p.Left] && o.closure[p.Right] }
	oldPair := func(p glyph.Pair) (glyph.Pair, bool) {
		if int(p.Left) >= len(o.origin) || int(p.Right) >= len(o.origin) {
			return glyph.Pair{}, false
		}
		return glyph.Pair{Left: glyph.ID(o.origin[p.Left]), Right: glyph.ID(o.origin[p.Right])}, true
	}
	relevant := func(lt *gtab.LookupTable) bool {
		for p := range pairs(lt) {
			if q, ok := oldPair(p); !ok || closed(q) {
				return true
			}
		}
		return false
	}
	pos := 0
	for i, lt := range o.old.Gpos.LookupList {
		old := pairs(lt)
		n := 0
		for p := range old {
			if closed(p) {
				n++
			}
		}
		if n == 0 {
			continue
		}
		for pos < len(newLL) && !relevant(newLL[pos]) {
			pos++
		}
		if pos == len(newLL) {
			return o.fail("GPOS lookup missing", "lookup %d with %d pairs", i, n)
		}
		lt2 := newLL[pos]
		if *lt.Meta != *lt2.Meta {
			return o.fail("GPOS meta", "lookup %d: %v instead of %v", pos, *lt2.Meta, *lt.Meta)
		}
		idx[gtab.LookupIndex(i)] = gtab.LookupIndex(pos)
		got := pairs(lt2)
		for p, adj := range got {
			q, ok := oldPair(p)
			if !ok {
				return o.fail("GPOS pair", "lookup %d: pair %v in a subset of %d glyphs", pos, p, len(o.origin))
			}
			want, ok := old[q]
			if !ok {
				return o.fail("GPOS pair", "lookup %d: pair %v (original glyphs %v) not in the original font", pos, p, q)
			}
			if !samePair(want, adj) {
				return o.fail("GPOS value", "lookup %d: pair %v (original glyphs %v): %s instead of %s", pos, p, q, gdump.Subtable(gtab.Gpos2_1{p: adj}), gdump.Subtable(gtab.Gpos2_1{q: want}))
			}
			if closed(q) {
				n--
			}
			o.c.Count("kerning pairs compared", 1)
		}
		if n != 0 {
			return o.fail("GPOS pair missing", "lookup %d: %d pairs among retained glyphs missing", i, n)
		}
		pos++
	}
	for ; pos < len(newLL); pos++ {
		if relevant(newLL[pos]) {
			return o.fail("GPOS lookup", "additional lookup %d", pos)
		}
	}
	return o.features("GPOS", o.old.Gpos, o.sub.Gpos, idx)
}

// features compares the lookups selected in the original font and the subset.
func (o *oracle) features(table string, old, sub *gtab.Info, idx map[gtab.LookupIndex]gtab.LookupIndex) bool {
	if old == nil || len(idx) == 0 {
		return true
	}
	rng := o.c.Rng
	var tags []language.Tag
	for t := range old.ScriptList {
		tags = append(tags, t)
	}
	slices.SortFunc(tags, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
	tags = append(tags, language.English, language.Und)
	for _, tag := range tags {
		for k := 0; k < 3; k++ {
			sw := map[string]bool{}
			for _, f := range old.FeatureList {
				if k == 0 {
					sw[f.Tag] = true
				} else if rng.IntN(3) > 0 {
					sw[f.Tag] = rng.IntN(3) > 0
				}
			}
			var a, b []gtab.LookupIndex
			for _, l := range old.FindLookups(tag, sw) {
				if e, ok := idx[l]; ok {
					a = append(a, e)
				}
			}
			for _, l := range sub.FindLookups(tag, sw) {
				for _, e := range idx {
					if l == e {
						b = append(b, e)
						break
					}
				}
			}
			if !slices.Equal(a, b) {
				return o.fail(table+" features", "language %s, features %v: lookups %d instead of %d (index map %v); original %v, subset %v", tag, sw, b, a, idx, old.FeatureList, sub.FeatureList)
			}
			o.c.Count("feature selections compared", 1)
			if len(a) > 0 {
				o.c.Count("feature selections, not empty", 1)
			}
		}
	}
	return true
}

// shaping compares the results of shaping with the original font and the
// subset.
func (o *oracle) shaping() bool {
	rng := o.c.Rng
	if o.old.Gsub == nil && o.old.Gpos == nil {
		return true
	}
	var gg []glyph.ID
	for _, g := range o.list {
		gg = append(gg, g)
	}
	var inputs [][]glyph.ID
	if o.old.Gsub != nil {
		for _, rr := range o.rules {
			for _, r := range kept(rr, o.closure, false) {
				inputs = append(inputs, r.in)
			}
		}
	}
	for _, part := range []struct{ old, sub *gtab.Info }{{o.old.Gsub, o.sub.Gsub}, {o.old.Gpos, o.sub.Gpos}} {
		if part.old == nil {
			continue
		}
		sub := part.sub
		if sub == nil {
			sub = &gtab.Info{}
		}
		tags := []language.Tag{language.Und}
		for t := range part.old.ScriptList {
			tags = append(tags, t)
		}
		slices.SortFunc(tags, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
		sw := map[string]bool{}
		for _, f := range part.old.FeatureList {
			sw[f.Tag] = rng.IntN(4) > 0
		}
		tag := fgen.Pick(rng, tags...)
		la, lb := part.old.FindLookups(tag, sw), sub.FindLookups(tag, sw)
		if len(la) == 0 {
			continue
		}
		for k := 0; k < 6; k++ {
			var in []glyph.ID
			for n := 1 + rng.IntN(6); len(in) < n; {
				if len(inputs) > 0 && rng.IntN(2) == 0 {
					in = append(in, inputs[rng.IntN(len(inputs))]...)
				} else {
					in = append(in, gg[rng.IntN(len(gg))])
				}
			}
			var a, b []glyph.Info
			ok := true
			for _, g := range in {
				e, present := o.newGid[g]
				ok = ok && present
				adv := funit.Int16(o.old.GlyphWidth(g))
				a = append(a, glyph.Info{GID: g, Advance: adv})
				b = append(b, glyph.Info{GID: e, Advance: adv})
			}
			if !ok {
				continue
			}
			ra := refshape.Apply(part.old.LookupList, nil, la, a, refshape.Policy{})
			rb := refshape.Apply(sub.LookupList, nil, lb, b, refshape.Policy{})
			if ra.Undefined != "" {
				continue
			}
			same := rb.Undefined == "" && len(ra.Out) == len(rb.Out)
			for i := 0; same && i < len(ra.Out); i++ {
				x, y := ra.Out[i], rb.Out[i]
				same = int(y.GID) < len(o.origin) && o.origin[y.GID] == int(x.GID) && x.XOffset == y.XOffset && x.YOffset == y.YOffset && x.Advance == y.Advance
			}
			if !same {
				return o.fail("shaping", "glyphs %d (new %v): %v in the original font, %v in the subset (%s); lookups %v and %v", in, b, ra.Out, rb.Out, rb.Undefined, la, lb)
			}
			o.c.Count("sequences shaped", 1)
			if ra.Stats.Applied > 0 {
				o.c.Count("sequences shaped, with matches", 1)
			}
		}
	}
	return true
}

// layout compares complete layouts.
func (o *oracle) layout() bool {
	rng := o.c.Rng
	best, err := o.old.CMapTable.GetBest()
	if err != nil {
		return true
	}
	var rr []rune
	for _, r := range o.chars(best) {
		if _, ok := o.newGid[best.Lookup(r)]; ok && best.Lookup(r) != 0 && (r < 0xD800 || r >= 0xE000) && len(rr) < 400 {
			rr = append(rr, r)
		}
	}
	if len(rr) == 0 {
		return true
	}
	tag := language.English
	var la, lb *sfnt.Layouter
	gsubSw, gposSw := map[string]bool{}, map[string]bool{}
	for _, x := range []struct {
		info *gtab.Info
		sw   map[string]bool
	}{{o.old.Gsub, gsubSw}, {o.old.Gpos, gposSw}} {
		if x.info == nil {
			continue
		}
		for _, f := range x.info.FeatureList {
			x.sw[f.Tag] = rng.IntN(4) > 0
		}
		if x.info == o.old.Gsub && rng.IntN(2) == 0 {
			for t := range x.info.ScriptList {
				tag = t
				break
			}
			// the choice must not depend on the map order
			var all []language.Tag
			for t := range x.info.ScriptList {
				all = append(all, t)
			}
			slices.SortFunc(all, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
			if len(all) > 0 {
				tag = all[rng.IntN(len(all))]
			}
		}
	}
	la, errA := o.old.NewLayouter(tag, gsubSw, gposSw)
	if errA != nil {
		return true
	}
	var errB error
	if !o.c.Guard("NewLayouter for the subset", func() { lb, errB = o.sub.NewLayouter(tag, gsubSw, gposSw) }) {
		return false
	}
	if errB != nil {
		return o.fail("layouter", "%v", errB)
	}
	for k := 0; k < 4; k++ {
		var s []rune
		for n := 1 + rng.IntN(12); n > 0; n-- {
			s = append(s, rr[rng.IntN(len(rr))])
		}
		a := slices.Clone(la.Layout(string(s)))
		b := slices.Clone(lb.Layout(string(s)))
		skip := false
		for _, x := range a {
			if _, ok := o.newGid[x.GID]; !ok {
				skip = true // a synthetic ligature
			}
		}
		for _, r := range s {
			if e := o.newGid[best.Lookup(r)]; int(e) >= len(o.list) {
				skip = true
			}
		}
		if skip {
			o.c.Count("layouts with other glyphs", 1)
			continue
		}
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			x, y := a[i], b[i]
			same = int(y.GID) < len(o.origin) && o.origin[y.GID] == int(x.GID) && x.XOffset == y.XOffset && x.YOffset == y.YOffset && x.Advance == y.Advance && slices.Equal(x.Text, y.Text)
		}
		if !same {
			return o.fail("layout", "text %q: %v in the original font, %v in the subset", string(s), a, b)
		}
		o.c.Count("texts laid out", 1)
	}
	return true
}

// ----- workloads -----

// reread writes and reads a font.
func reread(f *sfnt.Font) (*sfnt.Font, []byte, error) {
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		return nil, nil, err
	}
	g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	return g, buf.Bytes(), err
}

// run subsets a font (which must have been read from a file) in several ways.
func run(c *h.Case, what string, f *sfnt.Font, lists int) {
	rng := c.Rng
	n := f.NumGlyphs()
	if n == 0 || !supported(f) {
		c.Count("unsupported fonts", 1)
		return
	}
	var want []glyph.ID
	if f.Gsub != nil {
		for _, lt := range f.Gsub.LookupList {
			var first []glyph.ID
			rr := rules(lt)
			for g := range rr {
				first = append(first, g)
			}
			slices.Sort(first)
			for _, g := range first {
				for _, r := range rr[g] {
					want = append(want, r.in...)
				}
			}
		}
	}
	if out, ok := f.Outlines.(*glyf.Outlines); ok {
		for i, g := range out.Glyphs {
			for _, comp := range components(g) {
				if int(comp.GlyphIndex) >= n {
					c.Count("fonts with invalid components", 1)
					return
				}
				want = append(want, glyph.ID(i))
			}
		}
	}
	var before []fdump.Item
	if n < 200 {
		before = fdump.Font(f)
	}
	cache := map[string]decoded{}
	for k := 0; k < lists; k++ {
		if !one(c, what, f, glyphList(rng, n, want), k == 0, cache) {
			return
		}
	}
	if before != nil {
		if path, msg := fdump.Diff(fdump.Font(f), before, nil); path != "" {
			c.Violation("original changed", "%s: Subset changed the original font: %s: %s", what, path, msg)
		}
	}
}

// spare returns the unused part of a slice.
func spare(list []glyph.ID) []glyph.ID {
	return list[len(list):cap(list)]
}

func one(c *h.Case, what string, f *sfnt.Font, list []glyph.ID, again bool, cache map[string]decoded) bool {
	rng := c.Rng
	for i := range spare(list) {
		spare(list)[i] = 0xABCD
	}
	saved := slices.Clone(list)
	var sub *sfnt.Font
	if !c.Guard(fmt.Sprintf("Subset (%s, %s)", what, short(list)), func() { sub = f.Subset(list) }) {
		return false
	}
	c.Eval(1)
	if !slices.Equal(list, saved) || slices.ContainsFunc(spare(list), func(g glyph.ID) bool { return g != 0xABCD }) {
		c.Violation("argument changed", "%s: list %v is now %v, spare capacity %v", what, short(saved), short(list), spare(list))
		return false
	}
	c.NonTrivial(what, c.Index, fmt.Sprint(list))
	o := &oracle{c: c, cache: cache, what: what, old: f, list: list, sub: sub}
	if !o.check() || !o.shaping() || !o.layout() {
		return false
	}

	// The subset can be written and read back.
	var g *sfnt.Font
	var err error
	if !c.Guard("write and read a subset ("+what+")", func() { g, _, err = reread(sub) }) {
		return false
	}
	if err != nil {
		if out, ok := sub.Outlines.(*cff.Outlines); ok && len(out.Encoding) == 256 && !slices.Contains(out.Encoding, 0) && !slices.Contains(out.Encoding, 1) {
			// The CFF format allows for at most 255 supplemental codes.
			c.Count("encodings which cannot be represented", 1)
			return true
		}
		return o.fail("write/read", "%v", err)
	}
	if g.NumGlyphs() != sub.NumGlyphs() {
		return o.fail("read back", "%d glyphs instead of %d", g.NumGlyphs(), sub.NumGlyphs())
	}
	o2 := &oracle{c: c, cache: cache, what: what + ", after reading back", old: f, list: list, sub: g}
	if !o2.check() || !o2.shaping() || !o2.layout() {
		return false
	}
	c.Count("subsets written and read", 1)
	if sub.NumGlyphs() > len(list) {
		c.Count("subsets with extra glyphs", 1)
	}

	// CFF fonts on their own
	if out, ok := f.Outlines.(*cff.Outlines); ok {
		var out2 *cff.Outlines
		if !c.Guard("cff Subset", func() { out2 = out.Subset(list) }) {
			return false
		}
		o3 := &oracle{c: c, what: what + ", cff", old: f, list: list}
		o3.newGid = map[glyph.ID]glyph.ID{}
		for i, g := range list {
			o3.origin = append(o3.origin, int(g))
			o3.newGid[g] = glyph.ID(i)
		}
		if !o3.cffGlyphs(out, out2) {
			return false
		}
	}

	// subsets of subsets
	if again && supported2(g) {
		list2 := glyphList(rng, g.NumGlyphs(), nil)
		var sub2 *sfnt.Font
		if !c.Guard("Subset of a subset ("+what+")", func() { sub2 = g.Subset(list2) }) {
			return false
		}
		o4 := &oracle{c: c, what: what + ", second subset", old: g, list: list2, sub: sub2}
		if !o4.check() {
			return false
		}
		c.Count("subsets of subsets", 1)
	}
	return true
}

// supported2 checks that a subset can be used as the original font.
func supported2(f *sfnt.Font) bool {
	return supported(f)
}

// addLayout installs random layout tables.
func addLayout(rng *rand.Rand, f *sfnt.Font) {
	n := f.NumGlyphs()
	f.Gdef, f.Gsub, f.Gpos = nil, nil, nil
	gg := &fgen.Gtab{Rng: rng}
	k := min(n, fgen.Pick(rng, 3, 6, 14, 40))
	for _, i := range rng.Perm(n)[:k] {
		gg.Gids = append(gg.Gids, glyph.ID(i))
	}
	var gsubKinds []fgen.Kind
	for _, x := range fgen.GsubKinds {
		if x.Type == 4 {
			gsubKinds = append(gsubKinds, x)
		}
	}
	if rng.IntN(5) > 0 {
		f.Gsub = gg.Info(1+rng.IntN(5), gsubKinds, fgen.Tags)
		for _, lt := range f.Gsub.LookupList {
			// GDEF is missing: only keep simple flags
			lt.Meta.LookupFlags &= gtab.IgnoreBaseGlyphs | gtab.IgnoreLigatures | gtab.IgnoreMarks
			lt.Meta.MarkFilteringSet = 0
			if rng.IntN(2) == 0 {
				continue
			}
			// single substitutions
			lt.Meta.LookupType = 1
			for i := range lt.Subtables {
				cov := gg.Set()
				delta := glyph.ID(gg.Gid() - gg.Gid())
				for g := range cov {
					if int(g+delta) >= n {
						delete(cov, g)
					}
				}
				if len(cov) == 0 {
					cov[gg.Gid()] = true
					delta = 0
				}
				lt.Subtables[i] = &gtab.Gsub1_1{Cov: cov, Delta: delta}
			}
		}
	}
	if rng.IntN(4) > 0 {
		f.Gpos = gg.Info(1+rng.IntN(4), []fgen.Kind{fgen.GposKinds[0]}, fgen.Tags)
		for _, lt := range f.Gpos.LookupList {
			lt.Meta.LookupType = 2
			lt.Meta.LookupFlags &= gtab.IgnoreBaseGlyphs | gtab.IgnoreLigatures | gtab.IgnoreMarks
			lt.Meta.MarkFilteringSet = 0
			for i := range lt.Subtables {
				lt.Subtables[i] = pairTable(rng, gg)
			}
		}
	}
}

func pairTable(rng *rand.Rand, gg *fgen.Gtab) gtab.Gpos2_1 {
	res := gtab.Gpos2_1{}
	x := func() funit.Int16 { return funit.Int16(1 + rng.IntN(200)) }
	second := rng.IntN(3) == 0
	full := rng.IntN(4) == 0
	for k := 1 + rng.IntN(30); k > 0; k-- {
		adj := &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: -x()}}
		if full {
			adj.First.XPlacement, adj.First.YPlacement = x(), -x()
		}
		if second {
			adj.Second = &gtab.GposValueRecord{XPlacement: x(), XAdvance: x()}
		}
		res[glyph.Pair{Left: gg.Gid(), Right: gg.Gid()}] = adj
	}
	return res
}

func constructed(c *h.Case) {
	rng := c.Rng
	kind := c.Index % fgen.NumKinds
	n := 1 + rng.IntN(fgen.Pick(rng, 3, 12, 40, 100))
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, XYOnly: rng.IntN(2) == 0, Matrix: rng.IntN(3) == 0, NoCmap: rng.IntN(12) == 0, PlainCFF: rng.IntN(2) == 0})
	if rng.IntN(4) > 0 {
		addLayout(rng, f)
	}
	if out, ok := f.Outlines.(*glyf.Outlines); ok {
		switch rng.IntN(12) {
		case 0:
			out.Names = nil
		case 1:
			f.CMapTable = moreCmaps(rng, n)
		}
	} else if rng.IntN(8) == 0 {
		f.CMapTable = moreCmaps(rng, n)
	}
	g, _, err := reread(f)
	if err != nil {
		c.Count("fonts which cannot be written or read", 1)
		return
	}
	c.Count(fmt.Sprintf("fonts of kind %d", kind), 1)
	if out, ok := g.Outlines.(*glyf.Outlines); ok && rng.IntN(12) == 0 {
		out.Widths = nil // all widths are zero
		c.Count("fonts without widths", 1)
	}
	run(c, fmt.Sprintf("kind %d, %d glyphs", kind, n), g, 4)
}

// moreCmaps makes character maps of all supported formats.
func moreCmaps(rng *rand.Rand, n int) cmap.Table {
	res := cmap.Table{}
	for _, key := range []cmap.Key{{PlatformID: 1}, {PlatformID: 1, Language: 12}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 3, EncodingID: 0}, {PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 1, EncodingID: 7}} {
		if rng.IntN(3) == 0 {
			continue
		}
		lang := int(key.Language)
		gid := func() int { return rng.IntN(n) }
		switch rng.IntN(5) {
		case 0:
			d := raw.A16(nil, 0, 262, lang)
			for i := 0; i < 256; i++ {
				d = append(d, byte(rng.IntN(min(n, 256))))
			}
			res[key] = d
		case 1:
			first, count := rng.IntN(300), rng.IntN(300)
			d := raw.A16(nil, 6, 10+2*count, lang, first, count)
			for i := 0; i < count; i++ {
				d = raw.A16(d, gid())
			}
			res[key] = d
		case 2:
			if key.PlatformID == 1 {
				continue
			}
			m := cmap.Format12{}
			for k := rng.IntN(50); k > 0; k-- {
				m[uint32(rng.IntN(fgen.Pick(rng, 256, 0x10000, 0x110000)))] = glyph.ID(gid())
			}
			res[key] = m.Encode(uint16(lang))
		case 3: // an unsupported format
			res[key] = raw.A16(nil, 14, 0, 10, 0, 0)
		default:
			m := cmap.Format4{}
			hi := 0x10000
			if key.PlatformID == 1 {
				hi = 256
			}
			for k := rng.IntN(50); k > 0; k-- {
				m[uint16(rng.IntN(hi))] = glyph.ID(gid())
			}
			res[key] = m.Encode(uint16(lang))
		}
	}
	return res
}

func files(c *h.Case) {
	rng := c.Rng
	var data []byte
	what := "real font"
	if rng.IntN(12) == 0 {
		data = fgen.Pick(rng, foreign.Real()...)
	} else {
		data, what = foreign.File(rng)
	}
	if data == nil {
		return
	}
	var f *sfnt.Font
	var err error
	r, _ := h.Catch(func() { f, err = sfnt.Read(bytes.NewReader(data)) })
	if r != nil || err != nil {
		c.Count("unreadable files", 1)
		return
	}
	if !supported(f) {
		f.Gdef, f.Gsub, f.Gpos = nil, nil, nil
	}
	if rng.IntN(2) == 0 && f.NumGlyphs() > 0 {
		addLayout(rng, f)
	}
	var g *sfnt.Font
	r, _ = h.Catch(func() { g, _, err = reread(f) })
	if r != nil || err != nil {
		c.Count("fonts which cannot be written or read", 1)
		return
	}
	c.Count("fonts from files", 1)
	run(c, "file ("+what+")", g, 3)
}

// large checks fonts with many glyphs.
func large(c *h.Case) {
	rng := c.Rng
	n := 1000 + rng.IntN(fgen.Pick(rng, 4000, 30000, 64000))
	kind := c.Index % fgen.NumKinds
	f, _ := fgen.Font(rng, &fgen.FontOpts{Kind: kind, NumGlyphs: n, XYOnly: true, PlainCFF: true})
	if rng.IntN(2) == 0 {
		fgen.Blank(f)
	}
	if out, ok := f.Outlines.(*glyf.Outlines); ok {
		out.Names = nil
	}
	if rng.IntN(3) > 0 {
		m := cmap.Format4{}
		m12 := cmap.Format12{}
		start := rng.IntN(1000)
		step := 1 + rng.IntN(2)
		for i := 1; i < n && start+i*step < 0xFFFF; i++ {
			m[uint16(start+i*step)] = glyph.ID(i)
			m12[uint32(start+i*step)] = glyph.ID(i)
		}
		if data, err := encode4(m); err == nil {
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: data}
		} else {
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: m12.Encode(0)}
		}
	}
	if rng.IntN(3) == 0 {
		addLayout(rng, f)
	}
	g, _, err := reread(f)
	if err != nil {
		c.Count("fonts which cannot be written or read", 1)
		return
	}
	c.Max("glyphs", n)
	run(c, fmt.Sprintf("kind %d, %d glyphs", kind, n), g, 2)
}

func encode4(m cmap.Format4) (data []byte, err error) {
	r, _ := h.Catch(func() { data = m.Encode(0) })
	if r != nil {
		return nil, fmt.Errorf("%v", r)
	}
	return data, nil
}

func main() {
	h.Main(&h.Check{
		ID:    "C10",
		Level: "exploration",
		Rule:  "fonts are subset to random glyph lists; an oracle follows the references from the listed glyphs and compares outlines, widths, names, CIDs, private dictionaries, matrices, encodings, character maps, rules, kerning pairs, feature selections, shaping results and layouts of the subset, and of the subset after writing and reading, with the original font. Non-trivial: distinct pairs of a font and a glyph list",
		Assumptions: []string{
			"glyphs which are only present as components or ligatures may, but need not, keep their character codes; rules and pairs which involve glyphs only present as components may, but need not, be kept",
			"a CFF encoding where all 256 codes are used but glyph 1 is not encoded cannot be represented in a file",
			"cmap subtables in formats which the library does not support may be dropped",
		},
		Groups: []h.Group{
			{Name: "constructed", Quick: 6000, Run: constructed},
			{Name: "files", Quick: 3000, Run: files},
			{Name: "large", Quick: 24, Run: large},
		},
	})
}
