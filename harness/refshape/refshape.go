// Package refshape is a straightforward reference implementation of the
// application of GSUB and GPOS lookups to glyph sequences.
//
// The implementation is deliberately naive: glyphs are objects with an
// identity, so that matched input sequences and match ends are lists of
// glyphs instead of positions, and nothing ever needs to be "fixed up" when
// glyphs are inserted or removed.
//
// Where neither the OpenType specification nor the documented decisions of
// the library define the outcome, the implementation either supports several
// policies (see [Policy]) or reports the run as undefined.
package refshape

import (
	"sort"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Policy selects between the possible outcomes in cases where a nested
// lookup replaces glyphs which are ignored by one of its parents.
type Policy struct {
	// Merge describes whether a ligature, some of whose components are
	// ignored by a parent, becomes part of the input sequence of the parent.
	Merge int
	// Insert describes which of the replacement glyphs of an ignored glyph
	// become part of the input sequence of the parent.
	Insert int
}

const (
	MergeEndpoint = iota // iff the first or last component was part of the input
	MergeAlways
	MergeNever
	MergeFirst // iff the first component was part of the input
	numMerge
)

const (
	InsertNone = iota
	InsertRest // all but the first
	InsertAll
	numInsert
)

// Policies lists all policies.
var Policies = func() []Policy {
	var res []Policy
	for m := 0; m < numMerge; m++ {
		for i := 0; i < numInsert; i++ {
			res = append(res, Policy{m, i})
		}
	}
	return res
}()

// Stats counts the events observed by the reference implementation.
type Stats struct {
	Applied     int // matches
	SecondSub   int // matches by a subtable which is not the first
	SecondRule  int // matches by a rule which is not the first
	Skipped     int // glyphs skipped because of lookup flags inside a match
	LigSkip     int // ligatures with skipped glyphs
	Nested      int // nested actions which were applied
	NestedVoid  int // nested actions which did not apply
	Depth       int // maximal nesting depth
	Inserted    int // glyphs inserted by nested actions
	Merged      int // glyphs removed by nested actions
	Backtrack   int // successful non-empty backtrack matches
	Lookahead   int // successful non-empty lookahead matches
	OutOfSeq    int // sequence index out of range
	EmptyAnchor int
}

// Result is the result of running the reference implementation.
type Result struct {
	Out []glyph.Info
	// Undefined, if not empty, explains why the outcome is not defined.
	Undefined string
	// Policy is set if the outcome may depend on the policy
	Policy bool
	Stats  Stats
}

type gl struct {
	info glyph.Info
}

type frame struct {
	input   []*gl
	end     *gl // first glyph after the match, nil for the end of the sequence
	pending int // number of actions which have not started yet
}

type shaper struct {
	ll     gtab.LookupList
	gdef   *gdef.Table
	seq    []*gl
	pol    Policy
	frames []*frame
	res    Result
	budget int
}

// MaxActions is the maximal number of nested actions per match for which the
// outcome is considered to be defined.
const MaxActions = 60

// Apply applies the lookups in the given order.
func Apply(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, seq []glyph.Info, pol Policy) *Result {
	s := &shaper{ll: ll, gdef: gd, pol: pol}
	for _, g := range seq {
		g.Text = append([]rune(nil), g.Text...)
		s.seq = append(s.seq, &gl{info: g})
	}
	for _, idx := range lookups {
		if int(idx) >= len(ll) {
			continue
		}
		s.lookup(ll[idx])
		if s.res.Undefined != "" {
			return &s.res
		}
	}
	for _, g := range s.seq {
		s.res.Out = append(s.res.Out, g.info)
	}
	return &s.res
}

func (s *shaper) undefined(msg string) {
	if s.res.Undefined == "" {
		s.res.Undefined = msg
	}
}

func (s *shaper) index(g *gl) int {
	if g == nil {
		return len(s.seq)
	}
	for i, h := range s.seq {
		if h == g {
			return i
		}
	}
	panic("refshape: glyph not in sequence")
}

func (s *shaper) at(i int) *gl {
	if i >= len(s.seq) {
		return nil
	}
	return s.seq[i]
}

// ignored implements the lookup flags.
func (s *shaper) ignored(meta *gtab.LookupMetaInfo, gid glyph.ID) bool {
	if s.gdef == nil || s.gdef.GlyphClass == nil {
		return false
	}
	f := meta.LookupFlags
	switch s.gdef.GlyphClass[gid] {
	case 1:
		return f&0x0002 != 0
	case 2:
		return f&0x0004 != 0
	case 3:
		switch {
		case f&0x0008 != 0:
			return true
		case f&0x0010 != 0:
			if int(meta.MarkFilteringSet) >= len(s.gdef.MarkGlyphSets) {
				return true
			}
			_, in := s.gdef.MarkGlyphSets[meta.MarkFilteringSet][gid]
			return !in
		case f>>8 != 0:
			return s.gdef.MarkAttachClass[gid] != uint16(f>>8)
		}
	}
	return false
}

func hasType8(lt *gtab.LookupTable) bool {
	for _, sub := range lt.Subtables {
		if _, ok := sub.(*gtab.Gsub8_1); ok {
			return true
		}
	}
	return false
}

// lookup applies one lookup to the whole sequence.
func (s *shaper) lookup(lt *gtab.LookupTable) {
	if hasType8(lt) {
		// The specification applies these from the end of the sequence.  We
		// only consider cases where the direction does not matter.
		var orig []glyph.ID
		for _, g := range s.seq {
			orig = append(orig, g.info.GID)
		}
		for i := len(s.seq) - 1; i >= 0; i-- {
			s.oneMatch(lt, s.seq[i])
		}
		var rev []glyph.ID
		for i, g := range s.seq {
			rev = append(rev, g.info.GID)
			g.info.GID = orig[i]
		}
		for i := range s.seq {
			s.oneMatch(lt, s.seq[i])
		}
		for i, g := range s.seq {
			if g.info.GID != rev[i] {
				s.undefined("direction of type 8 lookups")
			}
		}
		return
	}

	cur := s.at(0)
	for cur != nil && s.res.Undefined == "" {
		i := s.index(cur)
		next := s.at(i + 1)
		if n, ok := s.oneMatch(lt, cur); ok {
			if n == cur {
				panic("refshape: no progress")
			}
			next = n
		}
		cur = next
	}
}

// oneMatch tries to apply the lookup at the given glyph.  The function
// returns the glyph where to continue.
func (s *shaper) oneMatch(lt *gtab.LookupTable, g *gl) (*gl, bool) {
	s.frames = s.frames[:0]
	s.budget = 0
	return s.applyAt(lt, g, nil)
}

// applyAt tries to apply the lookup at the given glyph, where matching is
// restricted to glyphs before end.
func (s *shaper) applyAt(lt *gtab.LookupTable, g *gl, end *gl) (*gl, bool) {
	if s.ignored(lt.Meta, g.info.GID) {
		return nil, false
	}
	for i, sub := range lt.Subtables {
		next, ok := s.subtable(lt.Meta, sub, g, end)
		if s.res.Undefined != "" {
			return nil, true
		}
		if ok {
			s.res.Stats.Applied++
			if i > 0 {
				s.res.Stats.SecondSub++
			}
			return next, true
		}
	}
	return nil, false
}

// nextKept returns the first glyph at or after position i which is not
// ignored.
func (s *shaper) nextKept(meta *gtab.LookupMetaInfo, i, end int) int {
	for i < end && s.ignored(meta, s.seq[i].info.GID) {
		s.res.Stats.Skipped++
		i++
	}
	if i < end {
		return i
	}
	return -1
}

func (s *shaper) prevKept(meta *gtab.LookupMetaInfo, i int) int {
	for i >= 0 && s.ignored(meta, s.seq[i].info.GID) {
		i--
	}
	return i
}

// match matches n further glyphs after position i.
func (s *shaper) match(meta *gtab.LookupMetaInfo, i, end, n int, pred func(k int, gid glyph.ID) bool) ([]int, bool) {
	var res []int
	for k := 0; k < n; k++ {
		i = s.nextKept(meta, i+1, end)
		if i < 0 || !pred(k, s.seq[i].info.GID) {
			return nil, false
		}
		res = append(res, i)
	}
	return res, true
}

func (s *shaper) matchBack(meta *gtab.LookupMetaInfo, i, n int, pred func(k int, gid glyph.ID) bool) bool {
	for k := 0; k < n; k++ {
		i = s.prevKept(meta, i-1)
		if i < 0 || !pred(k, s.seq[i].info.GID) {
			return false
		}
	}
	if n > 0 {
		s.res.Stats.Backtrack++
	}
	return true
}

// context runs the nested actions of a matched rule.
func (s *shaper) context(meta *gtab.LookupMetaInfo, matched []int, endIdx int, actions []gtab.SeqLookup) *gl {
	f := &frame{}
	for _, i := range matched {
		f.input = append(f.input, s.seq[i])
	}
	last := matched[len(matched)-1] + 1
	for last < endIdx && s.ignored(meta, s.seq[last].info.GID) {
		last++
	}
	f.end = s.at(last)
	f.pending = len(actions)

	s.frames = append(s.frames, f)
	if len(s.frames) > s.res.Stats.Depth {
		s.res.Stats.Depth = len(s.frames)
	}
	for _, a := range actions {
		f.pending--
		s.budget++
		if s.budget > MaxActions {
			s.undefined("too many actions")
			return nil
		}
		if int(a.SequenceIndex) >= len(f.input) {
			s.res.Stats.OutOfSeq++
			continue
		}
		if int(a.LookupListIndex) >= len(s.ll) {
			continue
		}
		child := s.ll[a.LookupListIndex]
		if hasType8(child) {
			s.undefined("nested type 8 lookup")
			return nil
		}
		_, ok := s.applyAt(child, f.input[a.SequenceIndex], f.end)
		if s.res.Undefined != "" {
			return nil
		}
		if ok {
			s.res.Stats.Nested++
		} else {
			s.res.Stats.NestedVoid++
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	return f.end
}

func (f *frame) find(g *gl) int {
	for i, h := range f.input {
		if h == g {
			return i
		}
	}
	return -1
}

// noteForeign is called when a nested action changes the number of glyphs
// at a position ignored by a parent.
func (s *shaper) noteForeign(f *frame) {
	if f.pending > 0 {
		s.res.Policy = true
	}
}

// replace replaces one glyph with several (at least one) glyphs.
func (s *shaper) replace(g *gl, repl []glyph.ID) *gl {
	i := s.index(g)
	next := s.at(i + 1)
	g.info.GID = repl[0]
	var extra []*gl
	for _, gid := range repl[1:] {
		extra = append(extra, &gl{info: glyph.Info{GID: gid}})
	}
	if len(extra) == 0 {
		return next
	}
	s.insert(i+1, extra)
	for _, f := range s.frames {
		s.res.Stats.Inserted += len(extra)
		k := f.find(g)
		if k >= 0 {
			rest := append([]*gl(nil), f.input[k+1:]...)
			f.input = append(append(f.input[:k+1], extra...), rest...)
			continue
		}
		s.noteForeign(f)
		switch s.pol.Insert {
		case InsertRest:
			f.input = append(f.input, extra...)
			s.sortInput(f)
		case InsertAll:
			f.input = append(append(f.input, g), extra...)
			s.sortInput(f)
		}
	}
	return next
}

func (s *shaper) insert(i int, extra []*gl) {
	tail := append([]*gl(nil), s.seq[i:]...)
	s.seq = append(append(s.seq[:i], extra...), tail...)
}

func (s *shaper) sortInput(f *frame) {
	pos := map[*gl]int{}
	for i, g := range s.seq {
		pos[g] = i
	}
	sort.SliceStable(f.input, func(a, b int) bool { return pos[f.input[a]] < pos[f.input[b]] })
}

// ligature replaces the glyphs at the given positions with a single glyph.
func (s *shaper) ligature(pos []int, out glyph.ID) *gl {
	first, last := pos[0], pos[len(pos)-1]
	next := s.at(last + 1)

	comp := map[*gl]bool{}
	var comps []*gl
	var text []rune
	for _, i := range pos {
		comp[s.seq[i]] = true
		comps = append(comps, s.seq[i])
		text = append(text, s.seq[i].info.Text...)
	}
	var skipped []*gl
	for i := first; i <= last; i++ {
		if !comp[s.seq[i]] {
			skipped = append(skipped, s.seq[i])
		}
	}
	if len(skipped) > 0 {
		s.res.Stats.LigSkip++
	}

	lig := &gl{info: glyph.Info{GID: out, Text: text}}
	tail := append([]*gl(nil), s.seq[last+1:]...)
	s.seq = append(s.seq[:first], lig)
	s.seq = append(s.seq, skipped...)
	s.seq = append(s.seq, tail...)

	for _, f := range s.frames {
		s.res.Stats.Merged += len(comps) - 1
		var rest []*gl
		n := 0
		for _, g := range f.input {
			if comp[g] {
				n++
			} else {
				rest = append(rest, g)
			}
		}
		include := true
		if n < len(comps) && len(comps) > 1 {
			s.noteForeign(f)
			a := f.find(comps[0]) >= 0
			b := f.find(comps[len(comps)-1]) >= 0
			switch s.pol.Merge {
			case MergeEndpoint:
				include = a || b
			case MergeAlways:
				include = true
			case MergeNever:
				include = false
			case MergeFirst:
				include = a
			}
		} else if n < len(comps) {
			// a single ignored glyph is replaced
			include = false
		}
		if include {
			rest = append(rest, lig)
		}
		f.input = rest
		s.sortInput(f)
	}
	return next
}

// covered returns the coverage index.
func covered(cov coverage.Table, gid glyph.ID) (int, bool) {
	i, ok := cov[gid]
	return i, ok
}

func adjust(g *gl, v *gtab.GposValueRecord) {
	if v == nil {
		return
	}
	g.info.XOffset += v.XPlacement
	g.info.YOffset += v.YPlacement
	g.info.Advance += v.XAdvance
}

func (s *shaper) subtable(meta *gtab.LookupMetaInfo, sub gtab.Subtable, g *gl, endGl *gl) (*gl, bool) {
	i := s.index(g)
	end := s.index(endGl)
	gid := g.info.GID
	next := s.at(i + 1)

	switch l := sub.(type) {
	case *gtab.Gsub1_1:
		if _, ok := l.Cov[gid]; !ok {
			return nil, false
		}
		g.info.GID = gid + l.Delta
		return next, true

	case *gtab.Gsub1_2:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		g.info.GID = l.SubstituteGlyphIDs[k]
		return next, true

	case *gtab.Gsub2_1:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		if len(l.Repl[k]) == 0 {
			s.undefined("empty replacement")
			return nil, true
		}
		return s.replace(g, l.Repl[k]), true

	case *gtab.Gsub3_1:
		k, ok := covered(l.Cov, gid)
		if !ok || len(l.Alternates[k]) == 0 {
			return nil, false
		}
		g.info.GID = l.Alternates[k][0]
		return next, true

	case *gtab.Gsub4_1:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		for j, lig := range l.Repl[k] {
			pos, ok := s.match(meta, i, end, len(lig.In), func(k int, gid glyph.ID) bool { return gid == lig.In[k] })
			if !ok {
				continue
			}
			if j > 0 {
				s.res.Stats.SecondRule++
			}
			return s.ligature(append([]int{i}, pos...), lig.Out), true
		}
		return nil, false

	case *gtab.Gsub8_1:
		k, ok := covered(l.Input, gid)
		if !ok {
			return nil, false
		}
		if !s.matchBack(meta, i, len(l.Backtrack), func(k int, gid glyph.ID) bool { return l.Backtrack[k].Contains(gid) }) {
			return nil, false
		}
		if _, ok := s.match(meta, i, len(s.seq), len(l.Lookahead), func(k int, gid glyph.ID) bool { return l.Lookahead[k].Contains(gid) }); !ok {
			return nil, false
		}
		if len(l.Lookahead) > 0 {
			s.res.Stats.Lookahead++
		}
		g.info.GID = l.SubstituteGlyphIDs[k]
		return next, true

	case *gtab.SeqContext1:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		for j, r := range l.Rules[k] {
			pos, ok := s.match(meta, i, end, len(r.Input), func(k int, gid glyph.ID) bool { return gid == r.Input[k] })
			if ok {
				if j > 0 {
					s.res.Stats.SecondRule++
				}
				return s.context(meta, append([]int{i}, pos...), end, r.Actions), true
			}
		}
		return nil, false

	case *gtab.SeqContext2:
		if _, ok := covered(l.Cov, gid); !ok {
			return nil, false
		}
		if int(l.Input[gid]) >= len(l.Rules) {
			return nil, false
		}
		for j, r := range l.Rules[l.Input[gid]] {
			pos, ok := s.match(meta, i, end, len(r.Input), func(k int, gid glyph.ID) bool { return l.Input[gid] == r.Input[k] })
			if ok {
				if j > 0 {
					s.res.Stats.SecondRule++
				}
				return s.context(meta, append([]int{i}, pos...), end, r.Actions), true
			}
		}
		return nil, false

	case *gtab.SeqContext3:
		if !l.Input[0][gid] {
			return nil, false
		}
		pos, ok := s.match(meta, i, end, len(l.Input)-1, func(k int, gid glyph.ID) bool { return l.Input[k+1][gid] })
		if !ok {
			return nil, false
		}
		return s.context(meta, append([]int{i}, pos...), end, l.Actions), true

	case *gtab.ChainedSeqContext1:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		for j, r := range l.Rules[k] {
			pos, ok := s.chain(meta, i, end, len(r.Backtrack), len(r.Input), len(r.Lookahead),
				func(k int, gid glyph.ID) bool { return gid == r.Backtrack[k] },
				func(k int, gid glyph.ID) bool { return gid == r.Input[k] },
				func(k int, gid glyph.ID) bool { return gid == r.Lookahead[k] })
			if ok {
				if j > 0 {
					s.res.Stats.SecondRule++
				}
				return s.context(meta, pos, end, r.Actions), true
			}
		}
		return nil, false

	case *gtab.ChainedSeqContext2:
		if _, ok := covered(l.Cov, gid); !ok {
			return nil, false
		}
		if int(l.Input[gid]) >= len(l.Rules) {
			return nil, false
		}
		for j, r := range l.Rules[l.Input[gid]] {
			pos, ok := s.chain(meta, i, end, len(r.Backtrack), len(r.Input), len(r.Lookahead),
				func(k int, gid glyph.ID) bool { return l.Backtrack[gid] == r.Backtrack[k] },
				func(k int, gid glyph.ID) bool { return l.Input[gid] == r.Input[k] },
				func(k int, gid glyph.ID) bool { return l.Lookahead[gid] == r.Lookahead[k] })
			if ok {
				if j > 0 {
					s.res.Stats.SecondRule++
				}
				return s.context(meta, pos, end, r.Actions), true
			}
		}
		return nil, false

	case *gtab.ChainedSeqContext3:
		if !l.Input[0][gid] {
			return nil, false
		}
		pos, ok := s.chain(meta, i, end, len(l.Backtrack), len(l.Input)-1, len(l.Lookahead),
			func(k int, gid glyph.ID) bool { return l.Backtrack[k][gid] },
			func(k int, gid glyph.ID) bool { return l.Input[k+1][gid] },
			func(k int, gid glyph.ID) bool { return l.Lookahead[k][gid] })
		if !ok {
			return nil, false
		}
		return s.context(meta, pos, end, l.Actions), true

	case *gtab.Gpos1_1:
		if _, ok := covered(l.Cov, gid); !ok {
			return nil, false
		}
		adjust(g, l.Adjust)
		return next, true

	case *gtab.Gpos1_2:
		k, ok := covered(l.Cov, gid)
		if !ok {
			return nil, false
		}
		adjust(g, l.Adjust[k])
		return next, true

	case gtab.Gpos2_1:
		p := s.nextKept(meta, i+1, end)
		if p < 0 {
			return nil, false
		}
		adj, ok := l[glyph.Pair{Left: gid, Right: s.seq[p].info.GID}]
		if !ok {
			return nil, false
		}
		return s.pair(g, p, adj), true

	case *gtab.Gpos2_2:
		if _, ok := l.Cov[gid]; !ok {
			return nil, false
		}
		p := s.nextKept(meta, i+1, end)
		if p < 0 {
			return nil, false
		}
		c1, c2 := int(l.Class1[gid]), int(l.Class2[s.seq[p].info.GID])
		if c1 >= len(l.Adjust) || c2 >= len(l.Adjust[c1]) {
			return nil, false
		}
		return s.pair(g, p, l.Adjust[c1][c2]), true

	case *gtab.Gpos4_1:
		k, ok := covered(l.MarkCov, gid)
		if !ok {
			return nil, false
		}
		// find the preceding base glyph
		classes := s.gdef != nil && s.gdef.GlyphClass != nil
		p := i - 1
		for ; p >= 0; p-- {
			h := s.seq[p].info.GID
			_, isCovered := l.BaseCov[h]
			flagged := s.ignored(meta, h)
			if classes {
				isMark := s.gdef.GlyphClass[h] == 3
				switch {
				case isMark && isCovered:
					s.undefined("mark used as base")
				case !isMark && flagged:
					s.undefined("base glyph ignored by the lookup")
				case isMark:
					continue
				case !isCovered:
					return nil, false
				}
			} else {
				_, alsoMark := l.MarkCov[h]
				switch {
				case isCovered && alsoMark:
					s.undefined("mark used as base")
				case isCovered:
					// found
				case alsoMark:
					continue
				default:
					s.undefined("unknown glyph class")
				}
			}
			break
		}
		if s.res.Undefined != "" {
			return nil, true
		}
		if p < 0 {
			return nil, false
		}
		rec := l.MarkArray[k]
		return s.attach(g, p, i, rec.Table, l.BaseArray[l.BaseCov[s.seq[p].info.GID]], rec.Class)

	case *gtab.Gpos6_1:
		k, ok := covered(l.Mark1Cov, gid)
		if !ok {
			return nil, false
		}
		p := i - 1
		for p >= 0 && s.ignored(meta, s.seq[p].info.GID) {
			if s.gdef.GlyphClass[s.seq[p].info.GID] != 3 {
				s.undefined("base or ligature skipped in mark attachment")
				return nil, true
			}
			if meta.LookupFlags&0x0008 != 0 {
				s.undefined("all marks ignored in mark attachment")
				return nil, true
			}
			p--
		}
		if p < 0 {
			return nil, false
		}
		k2, ok := covered(l.Mark2Cov, s.seq[p].info.GID)
		if !ok {
			return nil, false
		}
		if s.gdef != nil && s.gdef.GlyphClass != nil && s.gdef.GlyphClass[s.seq[p].info.GID] != 3 {
			s.undefined("mark attached to non-mark")
			return nil, true
		}
		rec := l.Mark1Array[k]
		return s.attach(g, p, i, rec.Table, l.Mark2Array[k2], rec.Class)

	default:
		s.undefined("lookup type not implemented")
		return nil, true
	}
}

// chain matches backtrack, input and lookahead.
func (s *shaper) chain(meta *gtab.LookupMetaInfo, i, end, nb, ni, nl int, back, in, ahead func(int, glyph.ID) bool) ([]int, bool) {
	if !s.matchBack(meta, i, nb, back) {
		return nil, false
	}
	pos, ok := s.match(meta, i, end, ni, in)
	if !ok {
		return nil, false
	}
	pos = append([]int{i}, pos...)
	if _, ok := s.match(meta, pos[len(pos)-1], len(s.seq), nl, ahead); !ok {
		return nil, false
	}
	if nl > 0 {
		s.res.Stats.Lookahead++
	}
	return pos, true
}

func (s *shaper) pair(g *gl, p int, adj *gtab.PairAdjust) *gl {
	second := s.seq[p]
	adjust(g, adj.First)
	if adj.Second == nil {
		return second
	}
	adjust(second, adj.Second)
	return s.at(p + 1)
}

func (s *shaper) attach(g *gl, p, i int, mark anchor.Table, row []anchor.Table, class uint16) (*gl, bool) {
	if int(class) >= len(row) {
		return nil, false
	}
	base := row[class]
	if base.X == 0 && base.Y == 0 {
		s.res.Stats.EmptyAnchor++
		return nil, false // there is no anchor
	}
	if g.info.XOffset != 0 || g.info.YOffset != 0 {
		s.undefined("mark positioned twice")
		return nil, true
	}
	target := s.seq[p]
	x := int(target.info.XOffset) + int(base.X) - int(mark.X)
	y := int(target.info.YOffset) + int(base.Y) - int(mark.Y)
	for j := p; j < i; j++ {
		x -= int(s.seq[j].info.Advance)
	}
	if x != int(int16(x)) || y != int(int16(y)) {
		s.undefined("overflow")
		return nil, true
	}
	g.info.XOffset = funit16(x)
	g.info.YOffset = funit16(y)
	return s.at(i + 1), true
}

func funit16(x int) funit.Int16 { return funit.Int16(x) }
