package fgen

import (
	"math/rand/v2"
	"sort"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// Gtab generates GSUB and GPOS structures.
type Gtab struct {
	Rng  *rand.Rand
	Gids []glyph.ID // the universe of glyphs to use

	NumLookups int // number of lookups which can be referred to from nested actions
	MarkSets   int // number of mark glyph sets available
	MaxSeq     int // maximum length of matched sequences (default 3)
	Mark       func(glyph.ID) bool

	// AllowEmptyCov allows subtables with empty coverage.
	AllowEmptyCov bool
	// DeepIdx allows out of range sequence indices in nested actions.
	DeepIdx bool
	// BadLookups allows out of range lookup indices in nested actions
	BadLookups bool
	// ZeroAnchors allows anchors at (0,0).
	ZeroAnchors bool
	// YAdvance allows non-zero YAdvance fields in value records.
	YAdvance bool
	// Wide makes use of all fields of value records (including raw device
	// offsets), the full range of numbers, and empty lists.
	Wide      bool
	valueMask int
	// GposSmall restricts the size of GPOS adjustments
	NoNilFirst bool
}

// Gid returns a random glyph ID from the universe.
func (g *Gtab) Gid() glyph.ID { return g.Gids[g.Rng.IntN(len(g.Gids))] }

// GidSlice returns n random glyph IDs.
func (g *Gtab) GidSlice(n int) []glyph.ID {
	if n == 0 {
		return nil
	}
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = g.Gid()
	}
	return res
}

// Subset returns a sorted random subset of the universe.
func (g *Gtab) Subset() []glyph.ID {
	rng := g.Rng
	p := Pick(rng, 0.1, 0.3, 0.5, 0.8, 1)
	seen := map[glyph.ID]bool{}
	for _, gid := range g.Gids {
		if rng.Float64() < p {
			seen[gid] = true
		}
	}
	if len(seen) == 0 && !(g.AllowEmptyCov && rng.IntN(4) == 0) {
		seen[g.Gid()] = true
	}
	var res []glyph.ID
	for gid := range seen {
		res = append(res, gid)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// Cov makes a coverage table.
func (g *Gtab) Cov() coverage.Table { return CovTable(g.Subset()) }

// CovTable makes a coverage table from sorted glyph IDs.
func CovTable(gids []glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, gid := range gids {
		res[gid] = i
	}
	return res
}

// Set makes a coverage set.
func (g *Gtab) Set() coverage.Set {
	res := coverage.Set{}
	for _, gid := range g.Subset() {
		res[gid] = true
	}
	return res
}

// Sets makes a list of n coverage sets.
func (g *Gtab) Sets(n int) []coverage.Set {
	if n == 0 {
		return nil
	}
	res := make([]coverage.Set, n)
	for i := range res {
		res[i] = g.Set()
	}
	return res
}

// Class makes a class definition table with classes 0, ..., n-1.
func (g *Gtab) Class(n int) classdef.Table {
	res := classdef.Table{}
	for _, gid := range g.Gids {
		if c := g.Rng.IntN(n); c != 0 {
			res[gid] = uint16(c)
		}
	}
	return res
}

func (g *Gtab) classes(n, nc int) []uint16 {
	if n == 0 {
		return nil
	}
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(g.Rng.IntN(nc))
	}
	return res
}

func (g *Gtab) maxSeq() int {
	if g.MaxSeq > 0 {
		return g.MaxSeq
	}
	return 3
}

// Actions makes nested lookup records for a match of the given length.
func (g *Gtab) Actions(n int) []gtab.SeqLookup {
	rng := g.Rng
	k := rng.IntN(4)
	if g.NumLookups == 0 {
		k = 0
	}
	var res []gtab.SeqLookup
	for i := 0; i < k; i++ {
		a := gtab.SeqLookup{
			SequenceIndex:   uint16(rng.IntN(n)),
			LookupListIndex: gtab.LookupIndex(rng.IntN(g.NumLookups)),
		}
		if g.DeepIdx && rng.IntN(4) == 0 {
			a.SequenceIndex = uint16(rng.IntN(n + 3))
		}
		if g.BadLookups && rng.IntN(8) == 0 {
			a.LookupListIndex = gtab.LookupIndex(rng.IntN(65536))
		}
		res = append(res, a)
	}
	return res
}

func (g *Gtab) wideInt() funit.Int16 {
	return funit.Int16(Pick(g.Rng, 0, 1, -1, 100, -100, 127, 128, 255, 256, -32768, 32767, g.Rng.IntN(65536)-32768))
}

func (g *Gtab) wideValue() *gtab.GposValueRecord {
	mask := g.valueMask
	if g.Rng.IntN(3) == 0 {
		mask &= g.Rng.IntN(256)
	}
	var v [8]funit.Int16
	for i := range v {
		if mask&(1<<i) != 0 {
			v[i] = g.wideInt()
		}
	}
	return &gtab.GposValueRecord{XPlacement: v[0], YPlacement: v[1], XAdvance: v[2], YAdvance: v[3],
		XPlacementDevOffs: uint16(v[4]), YPlacementDevOffs: uint16(v[5]), XAdvanceDevOffs: uint16(v[6]), YAdvanceDevOffs: uint16(v[7])}
}

// Value makes a value record (not nil).
func (g *Gtab) Value() *gtab.GposValueRecord {
	rng := g.Rng
	if g.Wide {
		return g.wideValue()
	}
	v := func() funit.Int16 {
		switch rng.IntN(4) {
		case 0:
			return 0
		case 1:
			return funit.Int16(rng.IntN(2000) - 1000)
		default:
			return funit.Int16(rng.IntN(200) - 100)
		}
	}
	res := &gtab.GposValueRecord{}
	mask := rng.IntN(8)
	if mask&1 != 0 {
		res.XPlacement = v()
	}
	if mask&2 != 0 {
		res.YPlacement = v()
	}
	if mask&4 != 0 {
		res.XAdvance = v()
	}
	if g.YAdvance && rng.IntN(4) == 0 {
		res.YAdvance = v()
	}
	return res
}

// Anchor makes an anchor.
func (g *Gtab) Anchor() anchor.Table {
	rng := g.Rng
	if g.ZeroAnchors && rng.IntN(4) == 0 {
		return anchor.Table{}
	}
	if g.Wide && g.Rng.IntN(3) == 0 {
		return anchor.Table{X: g.wideInt(), Y: g.wideInt()}
	}
	return anchor.Table{X: funit.Int16(1 + rng.IntN(700)), Y: funit.Int16(rng.IntN(1400) - 700)}
}

func (g *Gtab) marks() (coverage.Table, []markarray.Record, int) {
	rng := g.Rng
	var gids []glyph.ID
	for _, gid := range g.Subset() {
		if g.Mark == nil || g.Mark(gid) || rng.IntN(10) == 0 {
			gids = append(gids, gid)
		}
	}
	if len(gids) == 0 {
		gids = []glyph.ID{g.Gid()}
	}
	nc := 1 + rng.IntN(3)
	if nc > len(gids) {
		nc = len(gids)
	}
	arr := make([]markarray.Record, len(gids))
	for i := range arr {
		c := rng.IntN(nc)
		if i < nc {
			c = i
		}
		arr[i] = markarray.Record{Class: uint16(c), Table: g.Anchor()}
	}
	return CovTable(gids), arr, nc
}

func (g *Gtab) bases(nc int, wantMark bool) (coverage.Table, [][]anchor.Table) {
	rng := g.Rng
	var gids []glyph.ID
	for _, gid := range g.Subset() {
		if g.Mark == nil || g.Mark(gid) == wantMark || rng.IntN(20) == 0 {
			gids = append(gids, gid)
		}
	}
	if len(gids) == 0 {
		gids = []glyph.ID{g.Gid()}
	}
	arr := make([][]anchor.Table, len(gids))
	for i := range arr {
		arr[i] = make([]anchor.Table, nc)
		for j := range arr[i] {
			arr[i][j] = g.Anchor()
		}
	}
	return CovTable(gids), arr
}

// Subtable kinds.
type Kind struct {
	Gsub   bool
	Type   uint16 // lookup type
	Format int
}

// GsubKinds and GposKinds list all subtable types supported by the library.
var (
	GsubKinds = []Kind{
		{true, 1, 1}, {true, 1, 2}, {true, 2, 1}, {true, 3, 1}, {true, 4, 1},
		{true, 5, 1}, {true, 5, 2}, {true, 5, 3},
		{true, 6, 1}, {true, 6, 2}, {true, 6, 3},
		{true, 8, 1},
	}
	GposKinds = []Kind{
		{false, 1, 1}, {false, 1, 2}, {false, 2, 1}, {false, 2, 2}, {false, 3, 1},
		{false, 4, 1}, {false, 5, 1}, {false, 6, 1},
		{false, 7, 1}, {false, 7, 2}, {false, 7, 3},
		{false, 8, 1}, {false, 8, 2}, {false, 8, 3},
	}
)

// Subtable makes a random subtable of the given kind.
func (g *Gtab) Subtable(k Kind) gtab.Subtable {
	rng := g.Rng
	g.valueMask = Pick(rng, 1<<rng.IntN(8), 1<<rng.IntN(8)|1<<rng.IntN(8), 7, rng.IntN(256))
	least := 1
	if g.Wide {
		least = 0
	}
	ctx := uint16(5)
	if !k.Gsub {
		ctx = 7
	}
	switch {
	case k.Type == ctx:
		return g.context(k.Format)
	case k.Type == ctx+1:
		return g.chained(k.Format)
	}
	if k.Gsub {
		switch k.Type {
		case 1:
			if k.Format == 1 {
				set := g.Set()
				d := glyph.ID(rng.IntN(5))
				if rng.IntN(3) == 0 {
					d = g.Gid() - g.Gid()
				}
				return &gtab.Gsub1_1{Cov: set, Delta: d}
			}
			cov := g.Cov()
			return &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: g.GidSlice(len(cov))}
		case 2:
			cov := g.Cov()
			repl := make([][]glyph.ID, len(cov))
			for i := range repl {
				repl[i] = g.GidSlice(least + rng.IntN(3))
			}
			return &gtab.Gsub2_1{Cov: cov, Repl: repl}
		case 3:
			cov := g.Cov()
			alt := make([][]glyph.ID, len(cov))
			for i := range alt {
				alt[i] = g.GidSlice(rng.IntN(4))
			}
			return &gtab.Gsub3_1{Cov: cov, Alternates: alt}
		case 4:
			cov := g.Cov()
			repl := make([][]gtab.Ligature, len(cov))
			for i := range repl {
				n := least + rng.IntN(3)
				for j := 0; j < n; j++ {
					repl[i] = append(repl[i], gtab.Ligature{In: g.GidSlice(rng.IntN(g.maxSeq())), Out: g.Gid()})
				}
			}
			return &gtab.Gsub4_1{Cov: cov, Repl: repl}
		case 8:
			cov := g.Cov()
			tabs := func(n int) []coverage.Table {
				var res []coverage.Table
				for i := 0; i < n; i++ {
					res = append(res, g.Cov())
				}
				return res
			}
			return &gtab.Gsub8_1{
				Input: cov, Backtrack: tabs(rng.IntN(3)), Lookahead: tabs(rng.IntN(3)),
				SubstituteGlyphIDs: g.GidSlice(len(cov)),
			}
		}
	} else {
		switch k.Type {
		case 1:
			cov := g.Cov()
			if k.Format == 1 {
				return &gtab.Gpos1_1{Cov: cov, Adjust: g.Value()}
			}
			adj := make([]*gtab.GposValueRecord, len(cov))
			for i := range adj {
				adj[i] = g.Value()
			}
			return &gtab.Gpos1_2{Cov: cov, Adjust: adj}
		case 2:
			mode := rng.IntN(4) // 0,1: first only, 2: both, 3: second only
			mk := func() *gtab.PairAdjust {
				res := &gtab.PairAdjust{}
				if mode != 3 {
					res.First = g.Value()
				}
				if mode >= 2 {
					res.Second = g.Value()
				}
				return res
			}
			if k.Format == 1 {
				res := gtab.Gpos2_1{}
				for _, a := range g.Subset() {
					for _, b := range g.Subset() {
						if rng.IntN(2) == 0 {
							res[glyph.Pair{Left: a, Right: b}] = mk()
						}
					}
				}
				if len(res) == 0 {
					res[glyph.Pair{Left: g.Gid(), Right: g.Gid()}] = mk()
				}
				return res
			}
			n1, n2 := 1+rng.IntN(4), 1+rng.IntN(4)
			adj := make([][]*gtab.PairAdjust, n1)
			for i := range adj {
				adj[i] = make([]*gtab.PairAdjust, n2)
				for j := range adj[i] {
					adj[i][j] = mk()
				}
			}
			return &gtab.Gpos2_2{Cov: g.Set(), Class1: g.Class(n1), Class2: g.Class(n2), Adjust: adj}
		case 3:
			cov := g.Cov()
			rec := make([]gtab.EntryExitRecord, len(cov))
			for i := range rec {
				if rng.IntN(3) != 0 {
					rec[i].Entry = g.Anchor()
				}
				if rng.IntN(3) != 0 {
					rec[i].Exit = g.Anchor()
				}
			}
			return &gtab.Gpos3_1{Cov: cov, Records: rec}
		case 4:
			mc, ma, nc := g.marks()
			bc, ba := g.bases(nc, false)
			return &gtab.Gpos4_1{MarkCov: mc, MarkArray: ma, BaseCov: bc, BaseArray: ba}
		case 5:
			mc, ma, nc := g.marks()
			lc := g.Cov()
			la := make([][][]anchor.Table, len(lc))
			for i := range la {
				la[i] = make([][]anchor.Table, 1+rng.IntN(3))
				for j := range la[i] {
					la[i][j] = make([]anchor.Table, nc)
					for k := range la[i][j] {
						la[i][j][k] = g.Anchor()
					}
				}
			}
			return &gtab.Gpos5_1{MarkCov: mc, MarkArray: ma, LigCov: lc, LigArray: la}
		case 6:
			mc, ma, nc := g.marks()
			bc, ba := g.bases(nc, true)
			return &gtab.Gpos6_1{Mark1Cov: mc, Mark1Array: ma, Mark2Cov: bc, Mark2Array: ba}
		}
	}
	panic("unknown kind")
}

func (g *Gtab) context(format int) gtab.Subtable {
	rng := g.Rng
	switch format {
	case 1:
		cov := g.Cov()
		rules := make([][]*gtab.SeqRule, len(cov))
		for i := range rules {
			for j := rng.IntN(4); j > 0; j-- {
				in := g.GidSlice(rng.IntN(g.maxSeq()))
				rules[i] = append(rules[i], &gtab.SeqRule{Input: in, Actions: g.Actions(len(in) + 1)})
			}
		}
		return &gtab.SeqContext1{Cov: cov, Rules: rules}
	case 2:
		nc := 1 + rng.IntN(4)
		rules := make([][]*gtab.ClassSeqRule, nc)
		for i := range rules {
			for j := rng.IntN(4); j > 0; j-- {
				in := g.classes(rng.IntN(g.maxSeq()), nc)
				rules[i] = append(rules[i], &gtab.ClassSeqRule{Input: in, Actions: g.Actions(len(in) + 1)})
			}
		}
		return &gtab.SeqContext2{Cov: g.Cov(), Input: g.Class(nc), Rules: rules}
	default:
		in := g.Sets(1 + rng.IntN(g.maxSeq()))
		return &gtab.SeqContext3{Input: in, Actions: g.Actions(len(in))}
	}
}

func (g *Gtab) chained(format int) gtab.Subtable {
	rng := g.Rng
	switch format {
	case 1:
		cov := g.Cov()
		rules := make([][]*gtab.ChainedSeqRule, len(cov))
		for i := range rules {
			for j := rng.IntN(4); j > 0; j-- {
				in := g.GidSlice(rng.IntN(g.maxSeq()))
				rules[i] = append(rules[i], &gtab.ChainedSeqRule{
					Backtrack: g.GidSlice(rng.IntN(3)),
					Input:     in,
					Lookahead: g.GidSlice(rng.IntN(3)),
					Actions:   g.Actions(len(in) + 1),
				})
			}
		}
		return &gtab.ChainedSeqContext1{Cov: cov, Rules: rules}
	case 2:
		nc := 1 + rng.IntN(4)
		nb := 1 + rng.IntN(3)
		nl := 1 + rng.IntN(3)
		rules := make([][]*gtab.ChainedClassSeqRule, nc)
		for i := range rules {
			for j := rng.IntN(4); j > 0; j-- {
				in := g.classes(rng.IntN(g.maxSeq()), nc)
				rules[i] = append(rules[i], &gtab.ChainedClassSeqRule{
					Backtrack: g.classes(rng.IntN(3), nb),
					Input:     in,
					Lookahead: g.classes(rng.IntN(3), nl),
					Actions:   g.Actions(len(in) + 1),
				})
			}
		}
		return &gtab.ChainedSeqContext2{
			Cov: g.Cov(), Backtrack: g.Class(nb), Input: g.Class(nc), Lookahead: g.Class(nl), Rules: rules,
		}
	default:
		in := g.Sets(1 + rng.IntN(g.maxSeq()))
		return &gtab.ChainedSeqContext3{
			Backtrack: g.Sets(rng.IntN(3)), Input: in, Lookahead: g.Sets(rng.IntN(3)),
			Actions: g.Actions(len(in)),
		}
	}
}

// Flags makes lookup flags.
func (g *Gtab) Flags() (gtab.LookupFlags, uint16) {
	rng := g.Rng
	var fl gtab.LookupFlags
	var set uint16
	switch rng.IntN(8) {
	case 0:
		fl = gtab.IgnoreMarks
	case 1:
		fl = gtab.IgnoreBaseGlyphs
	case 2:
		fl = gtab.IgnoreLigatures
	case 3:
		fl = gtab.LookupFlags(rng.IntN(3)+1) << 8
	case 4:
		if g.MarkSets > 0 {
			fl = gtab.UseMarkFilteringSet
			set = uint16(rng.IntN(g.MarkSets))
		}
	case 5:
		fl = gtab.LookupFlags(rng.IntN(8) << 1)
	}
	return fl, set
}

// Lookup makes a lookup table with one to three subtables of the given types.
func (g *Gtab) Lookup(kinds []Kind) *gtab.LookupTable {
	rng := g.Rng
	k := Pick(rng, kinds...)
	var same []Kind
	for _, x := range kinds {
		if x.Type == k.Type && x.Gsub == k.Gsub {
			same = append(same, x)
		}
	}
	fl, set := g.Flags()
	res := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: k.Type, LookupFlags: fl, MarkFilteringSet: set}}
	n := 1
	if rng.IntN(3) == 0 {
		n = 1 + rng.IntN(3)
	}
	for i := 0; i < n; i++ {
		res.Subtables = append(res.Subtables, g.Subtable(Pick(rng, same...)))
	}
	return res
}

// Lookups makes a lookup list with n lookups.
func (g *Gtab) Lookups(n int, kinds []Kind) gtab.LookupList {
	g.NumLookups = n
	var ll gtab.LookupList
	for i := 0; i < n; i++ {
		ll = append(ll, g.Lookup(kinds))
	}
	return ll
}

// Gdef makes a GDEF table which classifies the universe.
// The function returns nil in some of the cases.
func (g *Gtab) Gdef() *gdef.Table {
	rng := g.Rng
	g.MarkSets = 0
	g.Mark = nil
	if rng.IntN(6) == 0 {
		return nil
	}
	res := &gdef.Table{}
	if rng.IntN(8) != 0 {
		res.GlyphClass = classdef.Table{}
		for _, gid := range g.Gids {
			c := Pick(rng, 1, 1, 1, 2, 3, 3, 0, 4)
			if c != 0 {
				res.GlyphClass[gid] = uint16(c)
			}
		}
		gc := res.GlyphClass
		g.Mark = func(gid glyph.ID) bool { return gc[gid] == 3 }
	}
	if rng.IntN(3) != 0 {
		res.MarkAttachClass = g.Class(4)
	}
	if rng.IntN(2) == 0 {
		n := 1 + rng.IntN(3)
		res.MarkGlyphSets = g.Sets(n)
		g.MarkSets = n
	}
	return res
}

// Tags lists language tags which can be represented in script lists.
var Tags = []string{
	"und-Zzzz", "und-Latn", "de-Latn", "ro-Latn", "tr-Latn", "nl-Latn", "und-Cyrl",
	"sr-Cyrl", "und-Grek", "und-Arab", "ur-Arab", "und-Hebr", "und-Deva",
}

// Info makes a complete table.
func (g *Gtab) Info(n int, kinds []Kind, tags []string) *gtab.Info {
	rng := g.Rng
	info := &gtab.Info{}
	info.LookupList = g.Lookups(n, kinds)
	nf := 1 + rng.IntN(4)
	names := []string{"liga", "kern", "ccmp", "mark", "mkmk", "smcp", "clig", "locl", "test", "aalt"}
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: Pick(rng, names...)}
		for j := rng.IntN(3) + 1; j > 0; j-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(n)))
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	sort.SliceStable(info.FeatureList, func(i, j int) bool { return info.FeatureList[i].Tag < info.FeatureList[j].Tag })
	info.ScriptList = gtab.ScriptListInfo{}
	nt := 1 + rng.IntN(3)
	for i := 0; i < nt; i++ {
		feat := &gtab.Features{Required: 0xFFFF}
		if rng.IntN(3) == 0 {
			feat.Required = gtab.FeatureIndex(rng.IntN(nf))
		}
		for j := 0; j < nf; j++ {
			if rng.IntN(3) != 0 {
				feat.Optional = append(feat.Optional, gtab.FeatureIndex(j))
			}
		}
		info.ScriptList[language.MustParse(Pick(rng, tags...))] = feat
	}
	return info
}

// Tag parses a language tag.
func Tag(s string) language.Tag { return language.MustParse(s) }
