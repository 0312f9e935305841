// C08: GSUB/GPOS/GDEF binary encoding round-trips with consistent offsets
// and sizes.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/parser"

	"verif/fgen"
	"verif/gdump"
	"verif/h"
	"verif/raw"
)

// ---- size estimates -----------------------------------------------------

func ints(m []glyph.ID) []int {
	res := make([]int, len(m))
	for i, g := range m {
		res[i] = int(g)
	}
	return res
}

func sortedKeys[T any](m map[glyph.ID]T) []int {
	res := make([]int, 0, len(m))
	for g := range m {
		res = append(res, int(g))
	}
	sort.Ints(res)
	return res
}

const huge = 1 << 30

// upper returns an upper bound for the size of a plain encoding of v.
func upper(v reflect.Value) int {
	switch x := v.Interface().(type) {
	case coverage.Table:
		return 2 + raw.CovLen(sortedKeys(x))
	case coverage.Set:
		return 2 + raw.CovLen(sortedKeys(x))
	case classdef.Table:
		n := raw.ClassLen(gdump.Classes(x))
		if n < 0 {
			return huge
		}
		return 2 + n
	case anchor.Table:
		return 8
	case gtab.GposValueRecord:
		return 18
	case gtab.Gpos2_1:
		first := map[glyph.ID]bool{}
		for p := range x {
			first[p.Left] = true
		}
		return 12 + raw.CovLen(sortedKeys(first)) + 4*len(first) + 34*len(x)
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return 2
		}
		return 2 + upper(v.Elem())
	case reflect.Slice:
		if v.Len() > 65535 {
			return huge
		}
		n := 4
		for i := 0; i < v.Len() && n < huge; i++ {
			n += upper(v.Index(i))
			if v.Type().Elem().Kind() == reflect.Slice {
				n += 2
			}
			if v.Type().Elem().Kind() == reflect.Struct {
				n += 6
			}
		}
		return n
	case reflect.Struct:
		n := 4
		for i := 0; i < v.NumField(); i++ {
			n += upper(v.Field(i))
		}
		return n
	case reflect.Uint16, reflect.Int16:
		return 2
	}
	panic("upper: " + v.Type().String())
}

func subUpper(s gtab.Subtable) int {
	if s, ok := s.(gtab.Gpos2_1); ok {
		return upper(reflect.ValueOf(s))
	}
	return 4 + upper(reflect.ValueOf(s))
}

// mustAccept reports whether a plain encoding, with the lookups in extension
// subtables if needed, certainly fits.
func mustAccept(info *gtab.Info) bool {
	scripts := 4
	for _, f := range info.ScriptList {
		if f == nil || len(f.Optional) > 30000 {
			return false
		}
		scripts += 6 + 4 + 6 + 6 + 2*len(f.Optional)
	}
	features := 4
	for _, f := range info.FeatureList {
		if len(f.Tag) != 4 {
			return false
		}
		features += 10 + 2*len(f.Lookups)
	}
	lookups := 4
	total := 4
	nsub := 0
	for _, l := range info.LookupList {
		lookups += 2 + 8
		total += 2 + 8
		for _, s := range l.Subtables {
			n := subUpper(s)
			if n > 65535 {
				return false
			}
			lookups += 2 + 8
			total += 2 + n
		}
		nsub += len(l.Subtables)
	}
	if lookups > 65535 || scripts > 65535 || features > 65535 || nsub+len(info.LookupList) > 5000 {
		return false
	}
	return 10+scripts+features <= 65535 || 10+total+min(scripts, features) <= 65535
}

// ---- complete tables -----------------------------------------------------

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			k = max(0, k-40)
			cut := func(s string) string {
				if len(s) > k+160 {
					return s[k:k+160] + "..."
				}
				return s[min(k, len(s)):]
			}
			return fmt.Sprintf("entry %d, pos %d: %q / %q", i, k, cut(x), cut(y))
		}
	}
	return ""
}

func tp(gsub bool) gtab.Type {
	if gsub {
		return gtab.TypeGsub
	}
	return gtab.TypeGpos
}

// checkInfo runs one structure through encoding, the independent decoder and
// the library's decoder.  The function returns the encoded data.
// The argument ot maps language tags to OpenType tags "script/lang".
func checkInfo(c *h.Case, what string, info *gtab.Info, gsub bool, ot map[language.Tag]string) []byte {
	var b []byte
	r, _ := h.Catch(func() { b = info.Encode() })
	c.Eval(1)
	if r != nil {
		if mustAccept(info) {
			c.Violation("refused", "%s: Encode panics with %v, but the data fits", what, r)
		}
		c.Count("refused", 1)
		return nil
	}
	var b2 []byte
	if r, _ := h.Catch(func() { b2 = info.Encode() }); r != nil || !bytes.Equal(b, b2) {
		c.Violation("unstable", "%s: encoding twice gives different results", what)
		return nil
	}
	c.Count("tables", 1)
	c.Max("bytes", len(b))
	c.Max("lookups", len(info.LookupList))

	w := raw.NewWalk(b)
	var d *raw.GtabDump
	if err := w.Run(func() { d = w.Gtab(gsub) }); err != nil {
		c.Violation("malformed", "%s: %v", what, err)
		return b
	}
	if err := w.CheckTiling(); err != nil {
		c.Violation("tiling", "%s: %v", what, err)
		return b
	}
	c.Count("extension_records", w.Ext)
	c.Count("coverage_format1", w.Cov1)
	c.Count("coverage_format2", w.Cov2)
	c.Count("classdef_format1", w.Class1)
	c.Count("classdef_format2", w.Class2)
	wantL := gdump.Lookups(info.LookupList)
	if s := diff(wantL, d.Lookups); s != "" {
		c.Violation("lookups", "%s: lookups differ from encoded data: %s", what, s)
		return b
	}
	c.Count("lookup_entries_compared", len(wantL))
	wantF := gdump.Features(info.FeatureList)
	if s := diff(wantF, d.Features); s != "" {
		c.Violation("features", "%s: features differ from encoded data: %s", what, s)
		return b
	}
	if ot != nil {
		var wantS []string
		for tag, f := range info.ScriptList {
			opt := make([]int, len(f.Optional))
			for i, x := range f.Optional {
				opt[i] = int(x)
			}
			wantS = append(wantS, fmt.Sprint(ot[tag], " ", int(f.Required), opt))
		}
		sort.Strings(wantS)
		got := append([]string{}, d.Scripts...)
		sort.Strings(got)
		if s := diff(wantS, got); s != "" {
			c.Violation("scripts", "%s: scripts differ from encoded data: %s", what, s)
			return b
		}
		c.Count("langsys_compared", len(wantS))
	} else {
		var got []string
		for _, s := range d.Scripts {
			if s[5] == ' ' {
				got = append(got, s[6:])
			} else {
				got = append(got, s[10:])
			}
		}
		sort.Strings(got)
		if s := diff(gdump.ScriptData(info.ScriptList), got); s != "" {
			c.Violation("scripts", "%s: script data differs from encoded data: %s", what, s)
			return b
		}
	}

	var info2 *gtab.Info
	var err error
	if r, st := h.Catch(func() { info2, err = gtab.Read(bytes.NewReader(b), tp(gsub)) }); r != nil {
		c.Violation("read-panic", "%s: reading panics: %v\n%s", what, r, st)
		return b
	}
	if err != nil {
		c.Violation("read", "%s: cannot read the encoded data: %v", what, err)
		return b
	}
	if s := diff(wantL, gdump.Lookups(info2.LookupList)); s != "" {
		c.Violation("read-lookups", "%s: lookups after reading: %s", what, s)
	} else if s := diff(wantF, gdump.Features(info2.FeatureList)); s != "" {
		c.Violation("read-features", "%s: features after reading: %s", what, s)
	} else if ot != nil {
		if s := diff(gdump.Scripts(info.ScriptList), gdump.Scripts(info2.ScriptList)); s != "" {
			c.Violation("read-scripts", "%s: scripts after reading: %s", what, s)
		}
	} else if s := diff(gdump.ScriptData(info.ScriptList), gdump.ScriptData(info2.ScriptList)); s != "" {
		c.Violation("read-scripts", "%s: script data after reading: %s", what, s)
	}
	if c.Failed() {
		return b
	}
	var b3 []byte
	if r, _ := h.Catch(func() { b3 = info2.Encode() }); r != nil {
		c.Violation("reencode", "%s: encoding the data read panics: %v", what, r)
	} else if !bytes.Equal(b, b3) {
		c.Violation("reencode", "%s: encoding the data read gives different bytes: %s / %s", what, h.Trunc(b), h.Trunc(b3))
	}
	c.NonTrivial(b)
	return b
}

// ---- generators ------------------------------------------------------------

// universe makes a list of n distinct glyphs.
func universe(rng *rand.Rand, n int) []glyph.ID {
	seen := make(map[glyph.ID]bool)
	add := func(g int) {
		if g >= 0 && g < 65536 {
			seen[glyph.ID(g)] = true
		}
	}
	mode := rng.IntN(5)
	if n < 1000 && rng.IntN(5) != 0 {
		mode = 5
	}
	base := rng.IntN(65536 - min(4*n, 65535))
	for len(seen) < n {
		switch mode {
		case 5: // a window somewhere
			add(base + rng.IntN(4*n))
		case 0: // small numbers
			add(rng.IntN(min(65536, 2*n+1)))
		case 1: // everywhere
			add(rng.IntN(65536))
		case 2: // runs
			a := rng.IntN(65536)
			for k := rng.IntN(20) + 1; k > 0 && len(seen) < n; k-- {
				add(a)
				a++
			}
		case 3: // the end
			add(65535 - rng.IntN(min(65536, 2*n+1)))
		default: // both ends
			if rng.IntN(2) == 0 {
				add(rng.IntN(n + 1))
			} else {
				add(65535 - rng.IntN(n+1))
			}
		}
	}
	res := make([]glyph.ID, 0, n)
	for g := range seen {
		res = append(res, g)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func newGtab(rng *rand.Rand, size int) *fgen.Gtab {
	g := &fgen.Gtab{
		Rng:           rng,
		Gids:          universe(rng, size),
		NumLookups:    1 + rng.IntN(20),
		MarkSets:      rng.IntN(4),
		AllowEmptyCov: true,
		DeepIdx:       true,
		BadLookups:    true,
		ZeroAnchors:   rng.IntN(4) == 0,
		YAdvance:      true,
		Wide:          rng.IntN(3) != 0,
	}
	if rng.IntN(4) == 0 {
		g.MaxSeq = 1 + rng.IntN(8)
	}
	return g
}

// bigSubtable makes a subtable with (more or less) the given number of entries.
func bigSubtable(rng *rand.Rand, k fgen.Kind, size int) gtab.Subtable {
	if !k.Gsub && k.Type == 2 && k.Format == 1 {
		// quadratic number of entries
		n := 1
		for n*n < size {
			n++
		}
		size = n
	}
	if size < 1 {
		size = 1
	}
	g := newGtab(rng, min(size, 65536))
	if !k.Gsub && k.Type == 2 && k.Format == 2 && rng.IntN(2) == 0 {
		return bigClassPairs(rng, g, size)
	}
	if k.Format == 2 && rng.IntN(2) == 0 && (k.Gsub && (k.Type == 5 || k.Type == 6) || !k.Gsub && k.Type >= 7) {
		return bigClassContext(rng, g, k, size)
	}
	return g.Subtable(k)
}

// bigClassPairs has many classes
func bigClassPairs(rng *rand.Rand, g *fgen.Gtab, size int) gtab.Subtable {
	n1, n2 := 1, 1
	for n1*n2 < size {
		if rng.IntN(2) == 0 {
			n1++
		} else {
			n2++
		}
	}
	mode := rng.IntN(4)
	one := g.Value()
	adj := make([][]*gtab.PairAdjust, n1)
	for i := range adj {
		adj[i] = make([]*gtab.PairAdjust, n2)
		for j := range adj[i] {
			p := &gtab.PairAdjust{}
			if mode != 3 {
				p.First = one
			}
			if mode >= 2 {
				p.Second = g.Value()
			}
			adj[i][j] = p
		}
	}
	return &gtab.Gpos2_2{Cov: g.Set(), Class1: g.Class(n1), Class2: g.Class(n2), Adjust: adj}
}

func bigClassContext(rng *rand.Rand, g *fgen.Gtab, k fgen.Kind, size int) gtab.Subtable {
	n := 1 + rng.IntN(min(size, 2000))
	cls := func(m int) []uint16 {
		if m == 0 {
			return nil
		}
		res := make([]uint16, m)
		for i := range res {
			res[i] = uint16(rng.IntN(n))
		}
		return res
	}
	if k.Type == 5 || k.Type == 7 {
		rules := make([][]*gtab.ClassSeqRule, n)
		for i := 0; i < size/4; i++ {
			j := rng.IntN(n)
			in := cls(rng.IntN(3))
			rules[j] = append(rules[j], &gtab.ClassSeqRule{Input: in, Actions: g.Actions(len(in) + 1)})
		}
		return &gtab.SeqContext2{Cov: g.Cov(), Input: g.Class(n), Rules: rules}
	}
	rules := make([][]*gtab.ChainedClassSeqRule, n)
	for i := 0; i < size/6; i++ {
		j := rng.IntN(n)
		in := cls(rng.IntN(3))
		rules[j] = append(rules[j], &gtab.ChainedClassSeqRule{
			Backtrack: cls(rng.IntN(3)), Input: in, Lookahead: cls(rng.IntN(3)),
			Actions: g.Actions(len(in) + 1)})
	}
	return &gtab.ChainedSeqContext2{Cov: g.Cov(), Backtrack: g.Class(n), Input: g.Class(n), Lookahead: g.Class(n), Rules: rules}
}

func kinds(gsub bool) []fgen.Kind {
	if gsub {
		return fgen.GsubKinds
	}
	return fgen.GposKinds
}

func kindName(k fgen.Kind) string {
	if k.Gsub {
		return fmt.Sprintf("GSUB%d_%d", k.Type, k.Format)
	}
	return fmt.Sprintf("GPOS%d_%d", k.Type, k.Format)
}

func wrap(ll ...*gtab.LookupTable) *gtab.Info {
	return &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
		LookupList:  ll,
	}
}

func lookup(k fgen.Kind, fl gtab.LookupFlags, set uint16, ss ...gtab.Subtable) *gtab.LookupTable {
	return &gtab.LookupTable{
		Meta:      &gtab.LookupMetaInfo{LookupType: k.Type, LookupFlags: fl, MarkFilteringSet: set},
		Subtables: ss,
	}
}

var allKinds = append(append([]fgen.Kind{}, fgen.GsubKinds...), fgen.GposKinds...)

// subtables: one lookup, small subtables of every kind
func runSubtables(c *h.Case) {
	k := allKinds[c.Index%len(allKinds)]
	g := newGtab(c.Rng, fgen.Pick(c.Rng, 1, 2, 5, 10, 30, 100))
	fl, set := g.Flags()
	if c.Rng.IntN(4) == 0 {
		fl |= gtab.LookupFlags(c.Rng.IntN(256)) << 8
	}
	n := fgen.Pick(c.Rng, 1, 1, 1, 2, 3, 0)
	var ss []gtab.Subtable
	for i := 0; i < n; i++ {
		var same []fgen.Kind
		for _, x := range kinds(k.Gsub) {
			if x.Type == k.Type {
				same = append(same, x)
			}
		}
		kk := k
		if i > 0 {
			kk = fgen.Pick(c.Rng, same...)
		}
		ss = append(ss, g.Subtable(kk))
		c.Count(kindName(kk), 1)
	}
	info := wrap(lookup(k, fl, set, ss...))
	b := checkInfo(c, kindName(k), info, k.Gsub, nil)
	if c.Index < 3 {
		c.Sample("%s: %d bytes, %s", kindName(k), len(b), h.Trunc([]byte(strings.Join(gdump.Lookups(info.LookupList), "; "))))
	}
}

// big: single subtables around the 16-bit limits
func runBig(c *h.Case) {
	k := allKinds[c.Index%len(allKinds)]
	size := fgen.Pick(c.Rng, 300, 1000, 3000, 8000, 16000, 32760, 40000, 65536)
	if size < 65536 {
		size += c.Rng.IntN(size / 2)
	}
	s := bigSubtable(c.Rng, k, min(65536, size))
	info := wrap(lookup(k, 0, 0, s))
	b := checkInfo(c, fmt.Sprintf("big %s (%d)", kindName(k), size), info, k.Gsub, nil)
	if len(b) > 32768 {
		c.Count("big_"+kindName(k), 1)
	}
}

// limit: grow a subtable by single entries across the 64 KiB limit
func runLimit(c *h.Case) {
	k := allKinds[c.Index%len(allKinds)]
	size := 30000
	s := bigSubtable(c.Rng, k, size)
	// find the largest prefix which is accepted, test around it
	cut := cutter(s)
	if cut == nil {
		return
	}
	lo, hi := 1, cut.n
	accepted := func(m int) bool {
		info := wrap(lookup(k, 0, 0, cut.make(m)))
		r, _ := h.Catch(func() { info.Encode() })
		return r == nil
	}
	if !accepted(1) {
		return
	}
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if accepted(mid) {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	for m := max(1, lo-2); m <= lo+2 && m <= cut.n; m++ {
		b := checkInfo(c, fmt.Sprintf("limit %s (%d)", kindName(k), m), wrap(lookup(k, 0, 0, cut.make(m))), k.Gsub, nil)
		if len(b) > 60000 {
			c.Count("limit_"+kindName(k), 1)
		}
	}
}

type cutT struct {
	n    int
	make func(m int) gtab.Subtable
}

func cutCov(c coverage.Table, m int) coverage.Table {
	res := coverage.Table{}
	for g, i := range c {
		if i < m {
			res[g] = i
		}
	}
	return res
}

// cutter returns a function to get subtables with fewer entries
func cutter(s gtab.Subtable) *cutT {
	switch l := s.(type) {
	case *gtab.Gsub1_2:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gsub1_2{Cov: cutCov(l.Cov, m), SubstituteGlyphIDs: l.SubstituteGlyphIDs[:m]}
		}}
	case *gtab.Gsub2_1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gsub2_1{Cov: cutCov(l.Cov, m), Repl: l.Repl[:m]}
		}}
	case *gtab.Gsub3_1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gsub3_1{Cov: cutCov(l.Cov, m), Alternates: l.Alternates[:m]}
		}}
	case *gtab.Gsub4_1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gsub4_1{Cov: cutCov(l.Cov, m), Repl: l.Repl[:m]}
		}}
	case *gtab.Gsub8_1:
		return &cutT{len(l.Input), func(m int) gtab.Subtable {
			return &gtab.Gsub8_1{Input: cutCov(l.Input, m), Backtrack: l.Backtrack, Lookahead: l.Lookahead, SubstituteGlyphIDs: l.SubstituteGlyphIDs[:m]}
		}}
	case *gtab.Gpos1_2:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gpos1_2{Cov: cutCov(l.Cov, m), Adjust: l.Adjust[:m]}
		}}
	case gtab.Gpos2_1:
		var keys []glyph.Pair
		for p := range l {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].Left != keys[j].Left {
				return keys[i].Left < keys[j].Left
			}
			return keys[i].Right < keys[j].Right
		})
		return &cutT{len(keys), func(m int) gtab.Subtable {
			res := gtab.Gpos2_1{}
			for _, p := range keys[:m] {
				res[p] = l[p]
			}
			return res
		}}
	case *gtab.Gpos2_2:
		return &cutT{len(l.Adjust), func(m int) gtab.Subtable {
			cl := classdef.Table{}
			for g, x := range l.Class1 {
				if int(x) < m {
					cl[g] = x
				}
			}
			return &gtab.Gpos2_2{Cov: l.Cov, Class1: cl, Class2: l.Class2, Adjust: l.Adjust[:m]}
		}}
	case *gtab.Gpos3_1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.Gpos3_1{Cov: cutCov(l.Cov, m), Records: l.Records[:m]}
		}}
	case *gtab.Gpos4_1:
		return &cutT{len(l.BaseCov), func(m int) gtab.Subtable {
			return &gtab.Gpos4_1{MarkCov: l.MarkCov, MarkArray: l.MarkArray, BaseCov: cutCov(l.BaseCov, m), BaseArray: l.BaseArray[:m]}
		}}
	case *gtab.Gpos5_1:
		return &cutT{len(l.LigCov), func(m int) gtab.Subtable {
			return &gtab.Gpos5_1{MarkCov: l.MarkCov, MarkArray: l.MarkArray, LigCov: cutCov(l.LigCov, m), LigArray: l.LigArray[:m]}
		}}
	case *gtab.Gpos6_1:
		return &cutT{len(l.Mark2Cov), func(m int) gtab.Subtable {
			return &gtab.Gpos6_1{Mark1Cov: l.Mark1Cov, Mark1Array: l.Mark1Array, Mark2Cov: cutCov(l.Mark2Cov, m), Mark2Array: l.Mark2Array[:m]}
		}}
	case *gtab.SeqContext1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.SeqContext1{Cov: cutCov(l.Cov, m), Rules: l.Rules[:m]}
		}}
	case *gtab.ChainedSeqContext1:
		return &cutT{len(l.Cov), func(m int) gtab.Subtable {
			return &gtab.ChainedSeqContext1{Cov: cutCov(l.Cov, m), Rules: l.Rules[:m]}
		}}
	case *gtab.SeqContext2:
		return &cutT{len(l.Rules), func(m int) gtab.Subtable {
			return &gtab.SeqContext2{Cov: l.Cov, Input: cutClass(l.Input, m), Rules: l.Rules[:m]}
		}}
	case *gtab.ChainedSeqContext2:
		return &cutT{len(l.Rules), func(m int) gtab.Subtable {
			return &gtab.ChainedSeqContext2{Cov: l.Cov, Backtrack: l.Backtrack, Input: cutClass(l.Input, m), Lookahead: l.Lookahead, Rules: l.Rules[:m]}
		}}
	case *gtab.SeqContext3:
		if len(l.Input) == 0 {
			return nil
		}
		return &cutT{4000, func(m int) gtab.Subtable {
			res := &gtab.SeqContext3{Actions: l.Actions}
			for i := 0; i < m; i++ {
				set := coverage.Set{}
				for j := 0; j < 20; j++ {
					set[glyph.ID(i*7+j*j)] = true
				}
				res.Input = append(res.Input, set)
			}
			return res
		}}
	case *gtab.ChainedSeqContext3:
		return &cutT{4000, func(m int) gtab.Subtable {
			res := &gtab.ChainedSeqContext3{Input: l.Input, Lookahead: l.Lookahead, Actions: l.Actions}
			for i := 0; i < m; i++ {
				set := coverage.Set{}
				for j := 0; j < 20; j++ {
					set[glyph.ID(i*7+j*j)] = true
				}
				res.Backtrack = append(res.Backtrack, set)
			}
			return res
		}}
	}
	return nil
}

func cutClass(cl classdef.Table, m int) classdef.Table {
	res := classdef.Table{}
	for g, x := range cl {
		if int(x) < m {
			res[g] = x
		}
	}
	return res
}

var commonTags = []string{"und-Latn-x-latn", "und-Zzzz-x-dflt", "und-Cyrl-x-cyrl", "de-Latn-x-latn-deu", "und-Arab-x-arab", "tr-Latn-x-latn-trk"}

// lists: complete tables with 0, ..., 300 lookups
func runLists(c *h.Case) {
	gsub := c.Index%2 == 0
	n := fgen.Pick(c.Rng, 0, 1, 2, 3, 5, 10, 30, 100, 300)
	if n > 5 {
		n = c.Rng.IntN(n + 1)
	}
	g := newGtab(c.Rng, fgen.Pick(c.Rng, 3, 10, 30))
	g.NumLookups = max(n, 1)
	var info *gtab.Info
	switch {
	case n == 0 && c.Rng.IntN(2) == 0:
		info = &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
		if c.Rng.IntN(2) == 0 {
			info.FeatureList = gtab.FeatureListInfo{}
		}
		if c.Rng.IntN(2) == 0 {
			info.ScriptList[language.MustParse(commonTags[0])] = &gtab.Features{Required: 0xFFFF}
		}
		if c.Rng.IntN(2) == 0 {
			info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: "test"})
		}
		if c.Rng.IntN(3) == 0 {
			info.LookupList = gtab.LookupList{}
		}
	case n == 0:
		info = &gtab.Info{}
	default:
		info = g.Info(n, kinds(gsub), commonTags)
	}
	checkInfo(c, fmt.Sprintf("list of %d lookups", n), info, gsub, nil)
}

// ext: lookup lists which are too large for 16-bit offsets
func runExt(c *h.Case) {
	rng := c.Rng
	gsub := c.Index%2 == 0
	kk := kinds(gsub)
	switch rng.IntN(4) {
	case 0: // contextual lookups only
		var only []fgen.Kind
		for _, k := range kk {
			if gsub && (k.Type == 5 || k.Type == 6) || !gsub && (k.Type == 7 || k.Type == 8) {
				only = append(only, k)
			}
		}
		kk = only
	case 1: // a single kind
		kk = []fgen.Kind{fgen.Pick(rng, kk...)}
	}
	target := fgen.Pick(rng, 60000, 66000, 70000, 100000, 200000, 500000)
	nl := fgen.Pick(rng, 1, 2, 3, 10, 40, 150, 300)
	per := fgen.Pick(rng, 1, 1, 1, 2, 5, 20)
	info := wrap()
	info.ScriptList = gtab.ScriptListInfo{}
	g := newGtab(rng, 5)
	total := 0
	sizes := rng.IntN(3)
	for i := 0; i < nl; i++ {
		k := fgen.Pick(rng, kk...)
		fl, set := g.Flags()
		if rng.IntN(5) == 0 {
			fl |= gtab.UseMarkFilteringSet
			set = uint16(rng.IntN(65536))
		}
		l := lookup(k, fl, set)
		m := 1 + rng.IntN(per)
		if rng.IntN(30) == 0 {
			m = 0
		}
		for j := 0; j < m; j++ {
			// try to reach the target size
			want := target / nl / max(1, (per+1)/2)
			switch sizes {
			case 1:
				want = rng.IntN(2*want + 1)
			case 2:
				if rng.IntN(4) != 0 {
					want = 10
				} else {
					want *= 4
				}
			}
			var s gtab.Subtable
			entries := max(want/6, 1)
			for try := 0; ; try++ {
				s = bigSubtable(rng, k, min(entries, 20000))
				u := subUpper(s)
				if try > 5 || u > want/2 && u < 65000 {
					break
				}
				if u > 65000 {
					entries = entries/2 + 1
				} else if try < 3 {
					entries = entries*2 + 1
				}
			}
			if subUpper(s) > 65535 {
				s = g.Subtable(k)
			}
			total += subUpper(s)
			l.Subtables = append(l.Subtables, s)
		}
		info.LookupList = append(info.LookupList, l)
		if total > 3*target {
			break
		}
	}
	// Give the other lists some random size, to move the lookup list.
	nf := rng.IntN(10)
	info.FeatureList = nil
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: fmt.Sprintf("t%03d", i)}
		for j := rng.IntN(10); j > 0; j-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(len(info.LookupList)+1)))
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	for i, t := range commonTags {
		if rng.IntN(2) == 0 {
			ff := &gtab.Features{Required: gtab.FeatureIndex(rng.IntN(65536))}
			for j := rng.IntN(i*100 + 1); j > 0; j-- {
				ff.Optional = append(ff.Optional, gtab.FeatureIndex(rng.IntN(65535)))
			}
			info.ScriptList[language.MustParse(t)] = ff
		}
	}
	b := checkInfo(c, fmt.Sprintf("%d lookups, target %d", len(info.LookupList), target), info, gsub, nil)
	if len(b) > 65535 {
		c.Count("tables_over_64k", 1)
	}
}

// features: feature lists and script lists around the 16-bit limits
func runFeatures(c *h.Case) {
	rng := c.Rng
	info := wrap()
	info.FeatureList = nil
	n := fgen.Pick(rng, 0, 1, 2, 10, 100, 1000, 3000, 6552, 6553, 6554, 6555, 10922, 10923, 20000)
	extra := 0
	switch rng.IntN(3) {
	case 1:
		extra = max(0, (65535-2-10*n)/2-3+rng.IntN(6))
	case 2:
		extra = rng.IntN(70000)
	}
	for i := 0; i < n; i++ {
		tag := []byte{byte(33 + i/8000), byte(33 + i/90%90), byte(33 + i%90), byte(32 + rng.IntN(95))}
		f := &gtab.Feature{Tag: string(tag)}
		if i == 0 || rng.IntN(20) == 0 {
			for j := 0; j < extra && (i == 0 || j < 10); j++ {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(65536)))
			}
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	if n > 0 && rng.IntN(30) == 0 {
		info.FeatureList[rng.IntN(n)].Tag = fgen.Pick(rng, "", "abc", "abcde", "é12", "é1")
		c.Count("invalid_feature_tags", 1)
	}
	if rng.IntN(4) == 0 {
		info.ScriptList = gtab.ScriptListInfo{}
		for _, t := range commonTags[:1+rng.IntN(6)] {
			ff := &gtab.Features{Required: gtab.FeatureIndex(rng.IntN(65536))}
			m := rng.IntN(fgen.Pick(rng, 5, 10000, 33000, 70000))
			for j := 0; j < m; j++ {
				ff.Optional = append(ff.Optional, gtab.FeatureIndex(rng.IntN(65535)))
			}
			info.ScriptList[language.MustParse(t)] = ff
		}
	}
	checkInfo(c, fmt.Sprintf("%d features", n), info, rng.IntN(2) == 0, nil)
}

// scripts: script and language tags
var defaultTags = map[string]string{
	"en": "latn/ENG ", "de": "latn/DEU ", "fr": "latn/FRA ", "ru": "cyrl/RUS ",
	"und-Latn": "latn/", "und-Arab": "arab/", "und-Cyrl": "cyrl/", "und-Zzzz": "DFLT/",
	"und-Grek": "grek/", "und-Hebr": "hebr/", "tr": "latn/TRK ", "pl": "latn/PLK ",
}

func runScripts(c *h.Case) {
	rng := c.Rng
	n := fgen.Pick(rng, 1, 2, 5, 20, 100)
	ot := make(map[language.Tag]string)
	for i := 0; i < n; i++ {
		s := fgen.Pick(rng, raw.OTScripts...)
		l := ""
		if rng.IntN(4) != 0 {
			l = fgen.Pick(rng, raw.OTLangs...)
		}
		if n > 5 && rng.IntN(2) == 0 {
			s = fgen.Pick(rng, "latn", "cyrl", "arab", "DFLT")
		}
		// learn the library's name for this tag
		b := (&raw.Gtab{Scripts: raw.ScriptList{s: {l: raw.LangSys{Required: 0xFFFF, Optional: []int{7}}}}}).Encode()
		info, err := gtab.Read(bytes.NewReader(b), gtab.TypeGsub)
		if err != nil {
			c.Violation("script-read", "cannot read script %q language %q: %v", s, l, err)
			return
		}
		if len(info.ScriptList) != 1 {
			c.Violation("script-lost", "script %q language %q: %d entries read", s, l, len(info.ScriptList))
			return
		}
		for tag, f := range info.ScriptList {
			if len(f.Optional) != 1 || f.Optional[0] != 7 || f.Required != 0xFFFF {
				c.Violation("script-data", "script %q language %q: data %v read", s, l, f)
				return
			}
			name := s + "/" + l
			if old, ok := ot[tag]; ok && old != name {
				c.Violation("script-alias", "%q and %q are both read as %q", old, name, tag)
				return
			}
			ot[tag] = name
		}
	}
	info := wrap()
	info.ScriptList = gtab.ScriptListInfo{}
	for tag := range ot {
		ff := &gtab.Features{Required: gtab.FeatureIndex(rng.IntN(65536))}
		for j := rng.IntN(4); j > 0; j-- {
			ff.Optional = append(ff.Optional, gtab.FeatureIndex(rng.IntN(65535)))
		}
		info.ScriptList[tag] = ff
	}
	checkInfo(c, fmt.Sprintf("%d scripts", len(ot)), info, rng.IntN(2) == 0, ot)
	if c.Failed() {
		return
	}

	// plain BCP 47 tags: the encoded data must use the expected tags
	info = wrap()
	info.ScriptList = gtab.ScriptListInfo{}
	var want []string
	for bcp, name := range defaultTags {
		if rng.IntN(2) == 0 {
			info.ScriptList[language.MustParse(bcp)] = &gtab.Features{Required: 1}
			want = append(want, name+" 1 []")
		}
	}
	sort.Strings(want)
	w := raw.NewWalk(info.Encode())
	var d *raw.GtabDump
	if err := w.Run(func() { d = w.Gtab(true) }); err != nil {
		c.Violation("plain-tags", "%v", err)
		return
	}
	sort.Strings(d.Scripts)
	if s := diff(want, d.Scripts); s != "" {
		c.Violation("plain-tags", "%s", s)
	}
	checkInfo(c, "plain tags", info, true, nil)
}

// unrep: data which cannot be represented, in otherwise valid tables
func runUnrep(c *h.Case) {
	rng := c.Rng
	g := newGtab(rng, 10)
	info := wrap(g.Lookups(3, fgen.GsubKinds)...)
	what := ""
	must := true
	switch c.Index % 8 {
	case 0:
		what = "two names for the same language"
		info.ScriptList[language.MustParse("de-Latn-x-latn-deu")] = &gtab.Features{Required: 1}
		info.ScriptList[language.German] = &gtab.Features{Required: 2}
	case 1:
		what = "script unknown to OpenType"
		info.ScriptList[language.MustParse(fgen.Pick(rng, "und-Zsye", "und-Afak", "und-Kpel"))] = &gtab.Features{}
	case 2:
		what = "bad feature tag"
		info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: fgen.Pick(rng, "", "a", "abc", "abcde", "xyz\u00e9")})
	case 3:
		what = "coverage index out of order"
		k := fgen.Pick(rng, coverage.Table{5: 1, 7: 0}, coverage.Table{5: 1, 7: 1}, coverage.Table{5: 0, 7: 2}, coverage.Table{5: -1, 7: 0}, coverage.Table{0: 1, 3: 1})
		info.LookupList = append(info.LookupList, lookup(fgen.GsubKinds[1], 0, 0, &gtab.Gsub1_2{Cov: k, SubstituteGlyphIDs: []glyph.ID{1, 2}}))
	case 4:
		what = "sequence of 70000 glyphs"
		info.LookupList = append(info.LookupList, lookup(fgen.GsubKinds[2], 0, 0, &gtab.Gsub2_1{
			Cov: coverage.Table{3: 0}, Repl: [][]glyph.ID{g.GidSlice(65536 + rng.IntN(10000))}}))
	case 5:
		what = "too many lookups"
		for i := 0; i < 70000; i++ {
			info.LookupList = append(info.LookupList, info.LookupList[0])
		}
	case 6:
		what = "too many subtables"
		for i := 0; i < 70000; i++ {
			info.LookupList[0].Subtables = append(info.LookupList[0].Subtables, info.LookupList[0].Subtables[0])
		}
	case 7:
		what = "class definition table too large"
		cl := classdef.Table{}
		for i := 0; i < 65536; i++ {
			cl[glyph.ID(i)] = uint16(1 + i%2)
		}
		info.LookupList = append(info.LookupList, lookup(fgen.GsubKinds[6], 0, 0, &gtab.SeqContext2{
			Cov: coverage.Table{3: 0}, Input: cl, Rules: [][]*gtab.ClassSeqRule{{}, {}}}))
	}
	r, _ := h.Catch(func() { info.Encode() })
	c.Eval(1)
	c.NonTrivial(what, rng.Uint64())
	if r == nil && must {
		c.Violation("not-refused", "%s: no error", what)
		return
	}
	c.Count("refused_unrepresentable", 1)
}

// ---- coverage tables, class definitions, GDEF --------------------------------

// glyphSet makes random glyph sets over the full range
func glyphSet(rng *rand.Rand) []glyph.ID {
	var bits [65536]bool
	switch rng.IntN(9) {
	case 0: // empty or single glyph
		if rng.IntN(2) == 0 {
			bits[fgen.Pick(rng, 0, 65535, rng.IntN(65536))] = true
		}
	case 1: // everything, with some gaps
		for i := range bits {
			bits[i] = true
		}
		for k := rng.IntN(4); k > 0; k-- {
			bits[fgen.Pick(rng, 0, 65535, rng.IntN(65536))] = false
		}
	case 2: // alternating
		d := 2 + rng.IntN(3)
		a, b := rng.IntN(65536), rng.IntN(65536)
		for i := min(a, b); i <= max(a, b); i++ {
			bits[i] = i%d != 0
		}
	case 3: // random density
		p := rng.Float64()
		a := rng.IntN(65536)
		for i := a; i < 65536; i++ {
			bits[i] = rng.Float64() < p
		}
	case 4: // at both ends
		bits[0] = true
		bits[65535] = true
		for k := rng.IntN(10); k > 0; k-- {
			bits[rng.IntN(20)] = true
			bits[65535-rng.IntN(20)] = true
		}
	default: // a few ranges and single glyphs
		for k := rng.IntN(12); k >= 0; k-- {
			a := rng.IntN(65536)
			n := fgen.Pick(rng, 1, 1, 2, 3, 4, 10, 1000)
			for i := a; i < a+n && i < 65536; i++ {
				bits[i] = true
			}
		}
	}
	var res []glyph.ID
	for i, b := range bits {
		if b {
			res = append(res, glyph.ID(i))
		}
	}
	return res
}

func runCoverage(c *h.Case) {
	gids := glyphSet(c.Rng)
	want := raw.IntList(ints(gids))
	check := func(what string, b []byte, n int) {
		c.Eval(1)
		if len(b) != n {
			c.Violation("cov-len", "%s: EncodeLen is %d, but %d bytes were emitted", what, n, len(b))
		}
		w := raw.NewWalk(b)
		var got []int
		if err := w.Run(func() { got = w.Cov(0) }); err != nil {
			c.Violation("cov-bytes", "%s: %v", what, err)
			return
		}
		if err := w.CheckTiling(); err != nil {
			c.Violation("cov-bytes", "%s: %v", what, err)
		}
		if raw.IntList(got) != want {
			c.Violation("cov-bytes", "%s: glyphs %s, want %s", what, h.Trunc([]byte(raw.IntList(got))), h.Trunc([]byte(want)))
		}
		c.Count("coverage_format1", w.Cov1)
		c.Count("coverage_format2", w.Cov2)
	}
	table := fgen.CovTable(gids)
	b := table.Encode()
	check("table", b, table.EncodeLen())
	set := coverage.Set{}
	for _, g := range gids {
		set[g] = true
	}
	if s := set.ToTable(); !reflect.DeepEqual(s, table) {
		c.Violation("set-table", "Set.ToTable: wrong result")
	}
	if gg := set.Glyphs(); !(len(gg) == 0 && len(gids) == 0) && !reflect.DeepEqual(gg, gids) {
		c.Violation("set-glyphs", "Set.Glyphs: wrong result")
	}
	if gg := table.Glyphs(); !(len(gg) == 0 && len(gids) == 0) && !reflect.DeepEqual(gg, gids) {
		c.Violation("table-glyphs", "Table.Glyphs: wrong result")
	}
	if s := table.ToSet(); !reflect.DeepEqual(s, set) {
		c.Violation("table-set", "Table.ToSet: wrong result")
	}

	// read it back, from some position inside a larger file
	pre := make([]byte, c.Rng.IntN(40))
	data := append(append([]byte{}, pre...), b...)
	data = append(data, make([]byte, c.Rng.IntN(10))...)
	t2, err := coverage.Read(parser.New(bytes.NewReader(data)), int64(len(pre)))
	if err != nil || gdump.Cov(t2) != want {
		c.Violation("cov-read", "coverage.Read: %v %s, want %s", err, h.Trunc([]byte(gdump.Cov(t2))), h.Trunc([]byte(want)))
	}
	s2, err := coverage.ReadSet(parser.New(bytes.NewReader(data)), int64(len(pre)))
	if err != nil || gdump.Set(s2) != want {
		c.Violation("set-read", "coverage.ReadSet: %v %s, want %s", err, h.Trunc([]byte(gdump.Set(s2))), h.Trunc([]byte(want)))
	}
	c.Max("glyphs", len(gids))
	c.NonTrivial(b)
}

func randClass(rng *rand.Rand) classdef.Table {
	cl := classdef.Table{}
	gids := glyphSet(rng)
	mode := rng.IntN(5)
	nc := fgen.Pick(rng, 1, 2, 3, 10, 300, 65535)
	cur := 1 + rng.IntN(nc)
	for _, g := range gids {
		switch mode {
		case 0:
			cur = 1 + rng.IntN(nc)
		case 1:
			if rng.IntN(5) == 0 {
				cur = 1 + rng.IntN(nc)
			}
		case 2:
			if rng.IntN(100) == 0 {
				cur = 1 + rng.IntN(nc)
			}
		case 3:
			cur = 1 + cur%nc
		}
		cl[g] = uint16(cur)
	}
	if rng.IntN(4) == 0 {
		// explicit entries for class 0
		for i := rng.IntN(10); i >= 0; i-- {
			g := glyph.ID(rng.IntN(65536))
			if _, ok := cl[g]; !ok {
				cl[g] = 0
			}
		}
	}
	return cl
}

func runClassDef(c *h.Case) {
	cl := randClass(c.Rng)
	cc := gdump.Classes(cl)
	want := raw.ClassList(cc)
	n := raw.ClassLen(cc)
	pre := make([]byte, c.Rng.IntN(10))
	var b []byte
	r, _ := h.Catch(func() { b = cl.Append(append([]byte{}, pre...)) })
	c.Eval(1)
	if r != nil {
		if n >= 0 {
			c.Violation("class-refused", "Append panics with %v, but %d bytes are enough", r, n)
		}
		c.Count("refused", 1)
		return
	}
	if n < 0 {
		c.Violation("class-not-refused", "data which cannot be represented was not refused")
		return
	}
	if got := cl.AppendLen(); got != len(b)-len(pre) {
		c.Violation("class-len", "AppendLen is %d, but %d bytes were emitted", got, len(b)-len(pre))
	}
	w := raw.NewWalk(b[len(pre):])
	var got [][2]int
	if err := w.Run(func() { got = w.Class(0) }); err != nil {
		c.Violation("class-bytes", "%v", err)
		return
	}
	if err := w.CheckTiling(); err != nil {
		c.Violation("class-bytes", "%v", err)
	}
	if raw.ClassList(got) != want {
		c.Violation("class-bytes", "%s, want %s", h.Trunc([]byte(raw.ClassList(got))), h.Trunc([]byte(want)))
	}
	c.Count("classdef_format1", w.Class1)
	c.Count("classdef_format2", w.Class2)
	data := append(b, make([]byte, c.Rng.IntN(10))...)
	c2, err := classdef.Read(parser.New(bytes.NewReader(data)), int64(len(pre)))
	if err != nil || gdump.Class(c2) != want {
		c.Violation("class-read", "classdef.Read: %v %s, want %s", err, h.Trunc([]byte(gdump.Class(c2))), h.Trunc([]byte(want)))
	}
	num := 1
	for _, x := range cl {
		num = max(num, int(x)+1)
	}
	if k := cl.NumClasses(); k != num {
		c.Violation("class-num", "NumClasses is %d, want %d", k, num)
	}
	c.NonTrivial(b)
}

func runGdef(c *h.Case) {
	rng := c.Rng
	t := &gdef.Table{}
	size := 12
	cl := func() classdef.Table {
		if rng.IntN(3) == 0 {
			g := newGtab(rng, 20)
			return g.Class(5)
		}
		return randClass(rng)
	}
	parts := []int{0, 0}
	for i := range parts {
		if rng.IntN(3) != 0 {
			x := cl()
			n := raw.ClassLen(gdump.Classes(x))
			if n < 0 {
				n = huge
			}
			parts[i] = n
			if i == 0 {
				t.GlyphClass = x
			} else {
				t.MarkAttachClass = x
			}
		}
	}
	setsLen := 0
	if rng.IntN(2) == 0 {
		n := fgen.Pick(rng, 0, 1, 2, 5, 50, 1000, 70000)
		if n > 5 {
			n = rng.IntN(n + 1)
		}
		setsLen = 4 + 4*n
		small := newGtab(rng, 10)
		t.MarkGlyphSets = []coverage.Set{}
		for i := 0; i < n; i++ {
			var s coverage.Set
			if i > 10 || rng.IntN(2) == 0 {
				s = small.Set()
			} else {
				s = coverage.Set{}
				for _, g := range glyphSet(rng) {
					s[g] = true
				}
			}
			setsLen += raw.CovLen(sortedKeys(s))
			t.MarkGlyphSets = append(t.MarkGlyphSets, s)
		}
		if n > 65535 {
			setsLen = huge
		}
	}
	size += parts[0] + parts[1] + setsLen + 2
	largest := max(parts[0], parts[1], setsLen)
	must := size < huge && size-largest <= 65535

	var b []byte
	r, _ := h.Catch(func() { b = t.Encode() })
	c.Eval(1)
	if r != nil {
		if must {
			c.Violation("gdef-refused", "Encode panics with %v, but the data (%v, %d) fits", r, parts, setsLen)
		}
		c.Count("refused", 1)
		return
	}
	want := gdump.Gdef(t)
	w := raw.NewWalk(b)
	got := ""
	if err := w.Run(func() { got = w.Gdef() }); err != nil {
		c.Violation("gdef-bytes", "%v", err)
		return
	}
	if err := w.CheckTiling(); err != nil {
		c.Violation("gdef-bytes", "%v", err)
		return
	}
	if got != want {
		c.Violation("gdef-bytes", "%s", diff([]string{want}, []string{got}))
		return
	}
	if b2 := t.Encode(); !bytes.Equal(b, b2) {
		c.Violation("gdef-unstable", "encoding twice gives different results")
	}
	t2, err := gdef.Read(bytes.NewReader(b))
	if err != nil {
		c.Violation("gdef-read", "%v", err)
		return
	}
	if got := gdump.Gdef(t2); got != want {
		c.Violation("gdef-read", "%s", diff([]string{want}, []string{got}))
		return
	}
	// membership functions
	for i := 0; i < 50; i++ {
		g := glyph.ID(rng.IntN(65536))
		if t2.IsMark(g) != (t.GlyphClass[g] == 3) {
			c.Violation("gdef-mark", "IsMark(%d) is wrong", g)
		}
	}
	c.Max("gdef_bytes", len(b))
	c.Count("gdef_tables", 1)
	c.NonTrivial(b)
}

func main() {
	h.Main(&h.Check{
		ID:    "C08",
		Level: "exploration",
		Rule: "Generated GSUB/GPOS/GDEF structures are encoded twice, the bytes are walked by an independent decoder " +
			"which demands that every byte belongs to exactly one structure and that coverage and class tables use the smaller format, " +
			"and the walk, the library's own reader and the original must describe the same data. " +
			"A panic of the encoder is accepted only if an independent size bound does not fit.",
		Assumptions: []string{
			"value records within one pair adjustment subtable are either all present or all absent",
			"script and language tags are those of the built-in tables",
			"coverage sets contain no false entries",
		},
		Groups: []h.Group{
			{Name: "subtables", Quick: 5200, Run: runSubtables},
			{Name: "big", Quick: 260, Run: runBig, Trivial: true},
			{Name: "limit", Quick: 52, Run: runLimit, Trivial: true},
			{Name: "lists", Quick: 300, Run: runLists, Trivial: true},
			{Name: "ext", Quick: 160, Run: runExt},
			{Name: "features", Quick: 120, Run: runFeatures, Trivial: true},
			{Name: "scripts", Quick: 600, Run: runScripts},
			{Name: "unrep", Quick: 80, Run: runUnrep},
			{Name: "coverage", Quick: 600, Run: runCoverage},
			{Name: "classdef", Quick: 600, Run: runClassDef, Trivial: true},
			{Name: "gdef", Quick: 300, Run: runGdef, Trivial: true},
		},
		MemLimitGB: 4,
	})
}
