// Package gdump converts GSUB, GPOS and GDEF structures to the text format
// used by the independent decoder in package raw.
package gdump

import (
	"fmt"
	"sort"
	"strings"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/raw"
)

func Cov(c coverage.Table) string {
	gg := make([]int, len(c))
	for i := range gg {
		gg[i] = -1
	}
	for g, i := range c {
		if i < 0 || i >= len(gg) || gg[i] != -1 {
			return fmt.Sprintf("INVALID(%v)", c)
		}
		gg[i] = int(g)
	}
	for i := 1; i < len(gg); i++ {
		if gg[i-1] >= gg[i] {
			return fmt.Sprintf("INVALID(%v)", c)
		}
	}
	return raw.IntList(gg)
}

func Set(c coverage.Set) string {
	var gg []int
	for g, ok := range c {
		if ok {
			gg = append(gg, int(g))
		}
	}
	sort.Ints(gg)
	return raw.IntList(gg)
}

func Classes(c classdef.Table) [][2]int {
	var res [][2]int
	for g, x := range c {
		if x != 0 {
			res = append(res, [2]int{int(g), int(x)})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func Class(c classdef.Table) string { return raw.ClassList(Classes(c)) }

func value(v *gtab.GposValueRecord, have bool) string {
	if !have {
		return "nil"
	}
	if v == nil {
		v = &gtab.GposValueRecord{}
	}
	return fmt.Sprint([8]int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance), int(v.YAdvance),
		int(v.XPlacementDevOffs), int(v.YPlacementDevOffs), int(v.XAdvanceDevOffs), int(v.YAdvanceDevOffs)})
}

func ints[T ~uint16](x []T) string {
	r := make([]int, len(x))
	for i, v := range x {
		r[i] = int(v)
	}
	return fmt.Sprint(r)
}

func anchorS(a anchor.Table) string {
	if a.X == 0 && a.Y == 0 {
		return "-"
	}
	return fmt.Sprintf("(%d,%d)", a.X, a.Y)
}

func actions(aa []gtab.SeqLookup) string {
	var acc strings.Builder
	acc.WriteString("")
	for _, a := range aa {
		acc.WriteString(fmt.Sprintf("(%d,%d)", a.SequenceIndex, a.LookupListIndex))
	}
	return acc.String()
}

func marks(mm []markarray.Record) string {
	var acc strings.Builder
	acc.WriteString("")
	for _, m := range mm {
		acc.WriteString(fmt.Sprintf("%d(%d,%d) ", m.Class, m.X, m.Y))
	}
	return acc.String()
}

func rows(rr [][]anchor.Table) string {
	var sb strings.Builder
	for _, r := range rr {
		sb.WriteByte('[')
		for _, a := range r {
			sb.WriteString(anchorS(a))
		}
		sb.WriteByte(']')
	}
	return sb.String()
}

// Subtable formats a lookup subtable.
func Subtable(s gtab.Subtable) string {
	var sb strings.Builder
	switch l := s.(type) {
	case *gtab.SeqContext1:
		sb.WriteString("SeqContext1 " + Cov(l.Cov))
		for _, rr := range l.Rules {
			sb.WriteString(" {")
			for _, r := range rr {
				sb.WriteString(ints(r.Input) + actions(r.Actions))
			}
			sb.WriteString("}")
		}
	case *gtab.SeqContext2:
		sb.WriteString("SeqContext2 " + Cov(l.Cov) + Class(l.Input))
		for _, rr := range l.Rules {
			sb.WriteString(" {")
			for _, r := range rr {
				sb.WriteString(ints(r.Input) + actions(r.Actions))
			}
			sb.WriteString("}")
		}
	case *gtab.SeqContext3:
		sb.WriteString("SeqContext3 ")
		for _, c := range l.Input {
			sb.WriteString(Set(c))
		}
		sb.WriteString(actions(l.Actions))
	case *gtab.ChainedSeqContext1:
		sb.WriteString("ChainedSeqContext1 " + Cov(l.Cov))
		for _, rr := range l.Rules {
			sb.WriteString(" {")
			for _, r := range rr {
				sb.WriteString(ints(r.Backtrack) + ints(r.Input) + ints(r.Lookahead) + actions(r.Actions))
			}
			sb.WriteString("}")
		}
	case *gtab.ChainedSeqContext2:
		sb.WriteString("ChainedSeqContext2 " + Cov(l.Cov) + Class(l.Backtrack) + Class(l.Input) + Class(l.Lookahead))
		for _, rr := range l.Rules {
			sb.WriteString(" {")
			for _, r := range rr {
				sb.WriteString(ints(r.Backtrack) + ints(r.Input) + ints(r.Lookahead) + actions(r.Actions))
			}
			sb.WriteString("}")
		}
	case *gtab.ChainedSeqContext3:
		sb.WriteString("ChainedSeqContext3 ")
		for _, ss := range [][]coverage.Set{l.Backtrack, l.Input, l.Lookahead} {
			sb.WriteString("<")
			for _, c := range ss {
				sb.WriteString(Set(c))
			}
			sb.WriteString(">")
		}
		sb.WriteString(actions(l.Actions))
	case *gtab.Gsub1_1:
		sb.WriteString("GSUB1_1 " + Set(l.Cov) + fmt.Sprint(int(l.Delta)))
	case *gtab.Gsub1_2:
		sb.WriteString("GSUB1_2 " + Cov(l.Cov) + ints(l.SubstituteGlyphIDs))
	case *gtab.Gsub2_1:
		sb.WriteString("GSUB2_1 " + Cov(l.Cov))
		for _, r := range l.Repl {
			sb.WriteString(ints(r))
		}
	case *gtab.Gsub3_1:
		sb.WriteString("GSUB3_1 " + Cov(l.Cov))
		for _, r := range l.Alternates {
			sb.WriteString(ints(r))
		}
	case *gtab.Gsub4_1:
		sb.WriteString("GSUB4_1 " + Cov(l.Cov))
		for _, rr := range l.Repl {
			sb.WriteString(" {")
			for _, r := range rr {
				sb.WriteString(ints(r.In) + ":" + fmt.Sprint(int(r.Out)))
			}
			sb.WriteString("}")
		}
	case *gtab.Gsub8_1:
		sb.WriteString("GSUB8_1 " + Cov(l.Input))
		for _, ss := range [][]coverage.Table{l.Backtrack, l.Lookahead} {
			sb.WriteString("<")
			for _, c := range ss {
				sb.WriteString(Cov(c))
			}
			sb.WriteString(">")
		}
		sb.WriteString(ints(l.SubstituteGlyphIDs))
	case *gtab.Gpos1_1:
		sb.WriteString("GPOS1_1 " + Cov(l.Cov) + value(l.Adjust, l.Adjust != nil))
	case *gtab.Gpos1_2:
		sb.WriteString("GPOS1_2 " + Cov(l.Cov))
		have := false
		for _, a := range l.Adjust {
			have = have || a != nil
		}
		for _, a := range l.Adjust {
			sb.WriteString(value(a, have))
		}
	case gtab.Gpos2_1:
		sb.WriteString("GPOS2_1 ")
		var pp []glyph.Pair
		h1, h2 := false, false
		for p, a := range l {
			pp = append(pp, p)
			h1 = h1 || a.First != nil
			h2 = h2 || a.Second != nil
		}
		sort.Slice(pp, func(i, j int) bool {
			if pp[i].Left != pp[j].Left {
				return pp[i].Left < pp[j].Left
			}
			return pp[i].Right < pp[j].Right
		})
		for _, p := range pp {
			a := l[p]
			fmt.Fprintf(&sb, "%d,%d:%s%s ", p.Left, p.Right, value(a.First, h1), value(a.Second, h2))
		}
	case *gtab.Gpos2_2:
		h1, h2 := false, false
		for _, r := range l.Adjust {
			for _, a := range r {
				h1 = h1 || a.First != nil
				h2 = h2 || a.Second != nil
			}
		}
		sb.WriteString("GPOS2_2 " + Set(l.Cov) + Class(l.Class1) + Class(l.Class2))
		for _, r := range l.Adjust {
			sb.WriteString("[")
			for _, a := range r {
				sb.WriteString(value(a.First, h1) + value(a.Second, h2))
			}
			sb.WriteString("]")
		}
	case *gtab.Gpos3_1:
		sb.WriteString("GPOS3_1 " + Cov(l.Cov))
		for _, r := range l.Records {
			sb.WriteString("[" + anchorS(r.Entry) + anchorS(r.Exit) + "]")
		}
	case *gtab.Gpos4_1:
		sb.WriteString("GPOS4_1 " + Cov(l.MarkCov) + Cov(l.BaseCov) + marks(l.MarkArray) + rows(l.BaseArray))
	case *gtab.Gpos5_1:
		sb.WriteString("GPOS5_1 " + Cov(l.MarkCov) + Cov(l.LigCov) + marks(l.MarkArray))
		for _, r := range l.LigArray {
			sb.WriteString("{" + rows(r) + "}")
		}
	case *gtab.Gpos6_1:
		sb.WriteString("GPOS6_1 " + Cov(l.Mark1Cov) + Cov(l.Mark2Cov) + marks(l.Mark1Array) + rows(l.Mark2Array))
	default:
		fmt.Fprintf(&sb, "UNKNOWN %T", s)
	}
	return sb.String()
}

// Lookups formats a lookup list.
func Lookups(ll gtab.LookupList) []string {
	var res []string
	for _, l := range ll {
		set := 0
		if l.Meta.LookupFlags&gtab.UseMarkFilteringSet != 0 {
			set = int(l.Meta.MarkFilteringSet)
		}
		res = append(res, fmt.Sprintf("LOOKUP %d flags=%04x set=%d n=%d", l.Meta.LookupType, uint16(l.Meta.LookupFlags), set, len(l.Subtables)))
		for _, s := range l.Subtables {
			res = append(res, Subtable(s))
		}
	}
	return res
}

// Features formats a feature list.
func Features(ff gtab.FeatureListInfo) []string {
	var res []string
	for _, f := range ff {
		res = append(res, f.Tag+ints(f.Lookups))
	}
	return res
}

// Scripts formats a script list, indexed by language tag.
func Scripts(ss gtab.ScriptListInfo) []string {
	var res []string
	for tag, f := range ss {
		res = append(res, fmt.Sprint(tag.String(), " ", int(f.Required), ints(f.Optional)))
	}
	sort.Strings(res)
	return res
}

// ScriptData formats the script list contents without the tags.
func ScriptData(ss gtab.ScriptListInfo) []string {
	var res []string
	for _, f := range ss {
		res = append(res, fmt.Sprintf("%d %s", f.Required, ints(f.Optional)))
	}
	sort.Strings(res)
	return res
}

// Info formats everything.
func Info(info *gtab.Info) []string {
	if info == nil {
		return nil
	}
	res := append([]string{}, Scripts(info.ScriptList)...)
	res = append(res, Features(info.FeatureList)...)
	return append(res, Lookups(info.LookupList)...)
}

// Gdef formats a GDEF table
func Gdef(t *gdef.Table) string {
	if t == nil {
		return "none"
	}
	var acc strings.Builder
	acc.WriteString("class=")
	if t.GlyphClass != nil {
		acc.WriteString(Class(t.GlyphClass))
	}
	acc.WriteString(" attach=")
	if t.MarkAttachClass != nil {
		acc.WriteString(Class(t.MarkAttachClass))
	}
	acc.WriteString(" sets=")
	for _, c := range t.MarkGlyphSets {
		acc.WriteString(Set(c))
	}
	return acc.String()
}
