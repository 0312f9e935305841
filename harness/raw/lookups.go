package raw

import (
	"fmt"
	"sort"
	"strings"
)

// Walk is an independent structural walk over the bytes of a GSUB, GPOS or
// GDEF table.  It records which bytes were used.
type Walk struct {
	b       []byte
	ranges  []span
	Ext     int // number of extension records seen
	Cov1    int
	Cov2    int
	Class1  int
	Class2  int
	err     error
	lastOff int
}

type span struct{ a, b int }

// NewWalk starts a new walk.
func NewWalk(b []byte) *Walk { return &Walk{b: b} }

type walkErr struct{ msg string }

func (w *Walk) fail(format string, a ...any) { panic(walkErr{fmt.Sprintf(format, a...)}) }

// Run executes fn, and returns the first problem found.
func (w *Walk) Run(fn func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(walkErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	fn()
	return nil
}

// use marks the bytes as used and returns them.
func (w *Walk) use(what string, off, n int) []byte {
	if off < 0 || n < 0 || off+n > len(w.b) {
		w.fail("%s: bytes %d-%d outside of the %d bytes of the table", what, off, off+n, len(w.b))
	}
	if n > 0 {
		w.ranges = append(w.ranges, span{off, off + n})
	}
	return w.b[off : off+n]
}

func (w *Walk) u16(what string, off int) int {
	b := w.use(what, off, 2)
	return int(b[0])<<8 | int(b[1])
}

func (w *Walk) u16s(what string, off, n int) []int {
	b := w.use(what, off, 2*n)
	res := make([]int, n)
	for i := range res {
		res[i] = int(b[2*i])<<8 | int(b[2*i+1])
	}
	return res
}

// CheckTiling verifies that every byte of the table belongs to exactly one
// structure (structures shared by several offsets are allowed).
func (w *Walk) CheckTiling() error {
	sort.Slice(w.ranges, func(i, j int) bool {
		if w.ranges[i].a != w.ranges[j].a {
			return w.ranges[i].a < w.ranges[j].a
		}
		return w.ranges[i].b < w.ranges[j].b
	})
	pos := 0
	var prev span
	for _, r := range w.ranges {
		if r == prev {
			continue
		}
		if r.a < pos {
			return fmt.Errorf("structures overlap at byte %d", r.a)
		}
		if r.a > pos {
			return fmt.Errorf("bytes %d-%d do not belong to any structure", pos, r.a)
		}
		pos = r.b
		prev = r
	}
	if pos != len(w.b) {
		return fmt.Errorf("bytes %d-%d do not belong to any structure", pos, len(w.b))
	}
	return nil
}

// CovLen returns the size of the smallest encoding for the given sorted glyphs.
func CovLen(g []int) int {
	ranges := 0
	for i := range g {
		if i == 0 || g[i] != g[i-1]+1 {
			ranges++
		}
	}
	f2 := 4 + 6*ranges
	if len(g) > 0xFFFF {
		return f2
	}
	return min(4+2*len(g), f2)
}

// Cov decodes a coverage table strictly, and verifies that the smaller
// encoding was used.
func (w *Walk) Cov(off int) []int {
	hdr := w.use("coverage", off, 4)
	format, n := int(hdr[0])<<8|int(hdr[1]), int(hdr[2])<<8|int(hdr[3])
	var res []int
	length := 0
	switch format {
	case 1:
		w.Cov1++
		res = w.u16s("coverage glyphs", off+4, n)
		length = 4 + 2*n
		for i := 1; i < n; i++ {
			if res[i] <= res[i-1] {
				w.fail("coverage glyphs not increasing")
			}
		}
	case 2:
		w.Cov2++
		rr := w.u16s("coverage ranges", off+4, 3*n)
		length = 4 + 6*n
		prev := -1
		for i := 0; i < n; i++ {
			a, b, idx := rr[3*i], rr[3*i+1], rr[3*i+2]
			if a <= prev || b < a {
				w.fail("coverage ranges not increasing")
			}
			if idx != len(res) {
				w.fail("coverage range starts with index %d instead of %d", idx, len(res))
			}
			for g := a; g <= b; g++ {
				res = append(res, g)
			}
			prev = b
		}
	default:
		w.fail("coverage format %d", format)
	}
	if want := CovLen(res); length != want {
		w.fail("coverage table uses %d bytes where %d are enough (format %d)", length, want, format)
	}
	return res
}

// ClassLen returns the size of the smallest encoding of a class definition,
// given as sorted (glyph, class) pairs.  The return value is -1 if no encoding
// is possible.
func ClassLen(gg [][2]int) int {
	if len(gg) == 0 {
		return 4
	}
	n := gg[len(gg)-1][0] - gg[0][0] + 1
	segs := 0
	for i := range gg {
		if i == 0 || gg[i][0] != gg[i-1][0]+1 || gg[i][1] != gg[i-1][1] {
			segs++
		}
	}
	best := -1
	if n <= 0xFFFF {
		best = 6 + 2*n
	}
	if segs <= 0xFFFF && (best < 0 || 4+6*segs < best) {
		best = 4 + 6*segs
	}
	return best
}

// Class decodes a class definition table strictly and verifies that the
// smaller encoding was used.
func (w *Walk) Class(off int) [][2]int {
	format := w.u16("classdef format", off)
	var res [][2]int
	length := 0
	switch format {
	case 1:
		w.Class1++
		hdr := w.u16s("classdef header", off+2, 2)
		cc := w.u16s("classdef values", off+6, hdr[1])
		length = 6 + 2*hdr[1]
		if hdr[0]+hdr[1] > 0x10000 {
			w.fail("classdef extends past glyph 0xFFFF")
		}
		for i, c := range cc {
			if c != 0 {
				res = append(res, [2]int{hdr[0] + i, c})
			}
		}
	case 2:
		w.Class2++
		n := w.u16("classdef count", off+2)
		rr := w.u16s("classdef ranges", off+4, 3*n)
		length = 4 + 6*n
		prev := -1
		for i := 0; i < n; i++ {
			a, b, c := rr[3*i], rr[3*i+1], rr[3*i+2]
			if a <= prev || b < a {
				w.fail("classdef ranges not increasing")
			}
			if c != 0 {
				for g := a; g <= b; g++ {
					res = append(res, [2]int{g, c})
				}
			}
			prev = b
		}
	default:
		w.fail("classdef format %d", format)
	}
	if want := ClassLen(res); length != want {
		w.fail("class definition uses %d bytes where %d are enough (format %d)", length, want, format)
	}
	return res
}

// IntList formats a list of numbers, abbreviating runs.
func IntList(g []int) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i < len(g); {
		j := i
		for j+1 < len(g) && g[j+1] == g[j]+1 {
			j++
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		if j > i+1 {
			fmt.Fprintf(&sb, "%d-%d", g[i], g[j])
			i = j + 1
		} else {
			fmt.Fprintf(&sb, "%d", g[i])
			i++
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

// ClassList formats (glyph, class) pairs.
func ClassList(g [][2]int) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i := 0; i < len(g); {
		j := i
		for j+1 < len(g) && g[j+1][0] == g[j][0]+1 && g[j+1][1] == g[j][1] {
			j++
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%d-%d:%d", g[i][0], g[j][0], g[i][1])
		i = j + 1
	}
	sb.WriteByte('}')
	return sb.String()
}

func (w *Walk) cov(off int) string   { return IntList(w.Cov(off)) }
func (w *Walk) class(off int) string { return ClassList(w.Class(off)) }

func popcount(x int) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

// value decodes a value record at offset off
func (w *Walk) value(off, format int) string {
	if format&^0xFF != 0 {
		w.fail("reserved bits in value format %04x", format)
	}
	if format == 0 {
		return "nil"
	}
	vv := w.u16s("value record", off, popcount(format))
	var res [8]int
	for bit := 0; bit < 8; bit++ {
		if format&(1<<bit) == 0 {
			continue
		}
		x := vv[0]
		vv = vv[1:]
		if bit < 4 && x >= 0x8000 {
			x -= 0x10000
		}
		res[bit] = x
	}
	return fmt.Sprint(res)
}

func (w *Walk) anchor(off int) string {
	b := w.u16s("anchor", off, 3)
	if b[0] != 1 {
		w.fail("anchor format %d", b[0])
	}
	return fmt.Sprintf("(%d,%d)", int16(b[1]), int16(b[2]))
}

func (w *Walk) actions(off, n int) string {
	b := w.u16s("nested lookups", off, 2*n)
	var acc strings.Builder
	acc.WriteString("")
	for i := 0; i < n; i++ {
		acc.WriteString(fmt.Sprintf("(%d,%d)", b[2*i], b[2*i+1]))
	}
	return acc.String()
}

// markArray decodes a mark array, n is the number of covered marks.
func (w *Walk) markArray(off, n, classCount int) string {
	count := w.u16("mark array", off)
	if count != n {
		w.fail("mark array has %d entries for %d glyphs", count, n)
	}
	rr := w.u16s("mark records", off+2, 2*n)
	var acc strings.Builder
	acc.WriteString("")
	for i := 0; i < n; i++ {
		acc.WriteString(fmt.Sprintf("%d%s ", rr[2*i], w.anchor(off+rr[2*i+1])))
	}
	return acc.String()
}

func (w *Walk) anchorRows(base, off, rows, cols int) string {
	oo := w.u16s("anchor offsets", off, rows*cols)
	var sb strings.Builder
	for i := 0; i < rows; i++ {
		sb.WriteByte('[')
		for j := 0; j < cols; j++ {
			o := oo[i*cols+j]
			if o == 0 {
				sb.WriteString("-")
			} else {
				sb.WriteString(w.anchor(base + o))
			}
		}
		sb.WriteByte(']')
	}
	return sb.String()
}

func list(x []int) string { return fmt.Sprint(x) }

// Subtable decodes a lookup subtable.  For extension subtables, ext is called
// with the lookup type and position of the data.
func (w *Walk) Subtable(gsub bool, tp int, off int) string {
	format := w.u16("subtable format", off)
	var acc strings.Builder
	ctx := 5
	kind := "GSUB"
	if !gsub {
		ctx = 7
		kind = "GPOS"
	}
	name := fmt.Sprintf("%s%d_%d ", kind, tp, format)
	switch {
	case tp == ctx && format == 1 || tp == ctx && format == 2:
		hdr := w.u16s("header", off+2, format)
		name = fmt.Sprintf("SeqContext%d ", format)
		cov := w.Cov(off + hdr[0])
		acc.WriteString(IntList(cov))
		if format == 2 {
			acc.WriteString(w.class(off + hdr[1]))
		}
		n := w.u16("rule set count", off+2+2*format)
		if format == 1 && n != len(cov) {
			w.fail("%d rule sets for %d glyphs", n, len(cov))
		}
		oo := w.u16s("rule set offsets", off+4+2*format, n)
		for _, o := range oo {
			acc.WriteString(" {")
			if o != 0 {
				m := w.u16("rule count", off+o)
				for _, ro := range w.u16s("rule offsets", off+o+2, m) {
					rp := off + o + ro
					h := w.u16s("rule header", rp, 2)
					if h[0] < 1 {
						w.fail("rule with empty input")
					}
					acc.WriteString(list(w.u16s("rule input", rp+4, h[0]-1)) + w.actions(rp+4+2*(h[0]-1), h[1]))
				}
			}
			acc.WriteString("}")
		}
		return name + acc.String()
	case tp == ctx && format == 3:
		h := w.u16s("header", off+2, 2)
		oo := w.u16s("coverage offsets", off+6, h[0])
		name = "SeqContext3 "
		for _, o := range oo {
			acc.WriteString(w.cov(off + o))
		}
		return name + acc.String() + w.actions(off+6+2*h[0], h[1])
	case tp == ctx+1 && (format == 1 || format == 2):
		name = fmt.Sprintf("ChainedSeqContext%d ", format)
		k := 1
		if format == 2 {
			k = 4
		}
		hdr := w.u16s("header", off+2, k)
		cov := w.Cov(off + hdr[0])
		acc.WriteString(IntList(cov))
		for _, o := range hdr[1:] {
			acc.WriteString(w.class(off + o))
		}
		n := w.u16("rule set count", off+2+2*k)
		if format == 1 && n != len(cov) {
			w.fail("%d rule sets for %d glyphs", n, len(cov))
		}
		for _, o := range w.u16s("rule set offsets", off+4+2*k, n) {
			acc.WriteString(" {")
			if o != 0 {
				m := w.u16("rule count", off+o)
				for _, ro := range w.u16s("rule offsets", off+o+2, m) {
					p := off + o + ro
					for i := 0; i < 3; i++ {
						cnt := w.u16("glyph count", p)
						p += 2
						if i == 1 {
							if cnt < 1 {
								w.fail("rule with empty input")
							}
							cnt--
						}
						acc.WriteString(list(w.u16s("rule glyphs", p, cnt)))
						p += 2 * cnt
					}
					cnt := w.u16("action count", p)
					acc.WriteString(w.actions(p+2, cnt))
				}
			}
			acc.WriteString("}")
		}
		return name + acc.String()
	case tp == ctx+1 && format == 3:
		name = "ChainedSeqContext3 "
		p := off + 2
		for i := 0; i < 3; i++ {
			cnt := w.u16("glyph count", p)
			p += 2
			acc.WriteString("<")
			for _, o := range w.u16s("coverage offsets", p, cnt) {
				acc.WriteString(w.cov(off + o))
			}
			acc.WriteString(">")
			p += 2 * cnt
		}
		cnt := w.u16("action count", p)
		return name + acc.String() + w.actions(p+2, cnt)
	}
	k := 0
	if gsub {
		k = 100
	}
	switch k + 10*tp + format {
	case 111:
		h := w.u16s("header", off+2, 2)
		return name + acc.String() + w.cov(off+h[0]) + fmt.Sprint(h[1])
	case 112:
		h := w.u16s("header", off+2, 2)
		cov := w.Cov(off + h[0])
		if h[1] != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, h[1], len(cov))
		}
		return name + acc.String() + IntList(cov) + list(w.u16s("substitutes", off+6, h[1]))
	case 121, 131:
		h := w.u16s("header", off+2, 2)
		cov := w.Cov(off + h[0])
		if h[1] != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, h[1], len(cov))
		}
		acc.WriteString(IntList(cov))
		for _, o := range w.u16s("set offsets", off+6, h[1]) {
			cnt := w.u16("set size", off+o)
			acc.WriteString(list(w.u16s("set", off+o+2, cnt)))
		}
		return name + acc.String()
	case 141:
		h := w.u16s("header", off+2, 2)
		cov := w.Cov(off + h[0])
		if h[1] != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, h[1], len(cov))
		}
		acc.WriteString(IntList(cov))
		for _, o := range w.u16s("set offsets", off+6, h[1]) {
			cnt := w.u16("ligature count", off+o)
			acc.WriteString(" {")
			for _, lo := range w.u16s("ligature offsets", off+o+2, cnt) {
				p := off + o + lo
				lh := w.u16s("ligature", p, 2)
				if lh[1] < 1 {
					w.fail("ligature without components")
				}
				acc.WriteString(list(w.u16s("components", p+4, lh[1]-1)) + ":" + fmt.Sprint(lh[0]))
			}
			acc.WriteString("}")
		}
		return name + acc.String()
	case 181:
		cov := w.Cov(off + w.u16("coverage offset", off+2))
		acc.WriteString(IntList(cov))
		p := off + 4
		for i := 0; i < 2; i++ {
			cnt := w.u16("count", p)
			acc.WriteString("<")
			for _, o := range w.u16s("coverage offsets", p+2, cnt) {
				acc.WriteString(w.cov(off + o))
			}
			acc.WriteString(">")
			p += 2 + 2*cnt
		}
		cnt := w.u16("count", p)
		if cnt != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, cnt, len(cov))
		}
		return name + acc.String() + list(w.u16s("substitutes", p+2, cnt))
	case 11:
		h := w.u16s("header", off+2, 2)
		return name + acc.String() + w.cov(off+h[0]) + w.value(off+6, h[1])
	case 12:
		h := w.u16s("header", off+2, 3)
		cov := w.Cov(off + h[0])
		if h[2] != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, h[2], len(cov))
		}
		acc.WriteString(IntList(cov))
		l := 2 * popcount(h[1])
		for i := 0; i < h[2]; i++ {
			acc.WriteString(w.value(off+8+l*i, h[1]))
		}
		return name + acc.String()
	case 21:
		h := w.u16s("header", off+2, 4)
		cov := w.Cov(off + h[0])
		if h[3] != len(cov) {
			w.fail("%s: %d pair sets for %d glyphs", name, h[3], len(cov))
		}
		l1, l2 := 2*popcount(h[1]), 2*popcount(h[2])
		var sb strings.Builder
		for i, o := range w.u16s("pair set offsets", off+10, h[3]) {
			cnt := w.u16("pair count", off+o)
			prev := -1
			for j := 0; j < cnt; j++ {
				p := off + o + 2 + j*(2+l1+l2)
				second := w.u16("second glyph", p)
				if second <= prev {
					w.fail("pair set not sorted")
				}
				prev = second
				fmt.Fprintf(&sb, "%d,%d:%s%s ", cov[i], second, w.value(p+2, h[1]), w.value(p+2+l1, h[2]))
			}
			if cnt == 0 {
				w.fail("empty pair set")
			}
		}
		return name + acc.String() + sb.String()
	case 22:
		h := w.u16s("header", off+2, 7)
		l1, l2 := 2*popcount(h[1]), 2*popcount(h[2])
		var sb strings.Builder
		sb.WriteString(name + w.cov(off+h[0]) + w.class(off+h[3]) + w.class(off+h[4]))
		p := off + 16
		for i := 0; i < h[5]; i++ {
			sb.WriteString("[")
			for j := 0; j < h[6]; j++ {
				sb.WriteString(w.value(p, h[1]) + w.value(p+l1, h[2]))
				p += l1 + l2
			}
			sb.WriteString("]")
		}
		return sb.String()
	case 31:
		h := w.u16s("header", off+2, 2)
		cov := w.Cov(off + h[0])
		if h[1] != len(cov) {
			w.fail("%s: %d entries for %d glyphs", name, h[1], len(cov))
		}
		return name + acc.String() + IntList(cov) + w.anchorRows(off, off+6, h[1], 2)
	case 41, 61:
		h := w.u16s("header", off+2, 5)
		c1, c2 := w.Cov(off+h[0]), w.Cov(off+h[1])
		acc.WriteString(IntList(c1) + IntList(c2) + w.markArray(off+h[3], len(c1), h[2]))
		n := w.u16("base count", off+h[4])
		if n != len(c2) {
			w.fail("%s: %d entries for %d glyphs", name, n, len(c2))
		}
		return name + acc.String() + w.anchorRows(off+h[4], off+h[4]+2, n, h[2])
	case 51:
		h := w.u16s("header", off+2, 5)
		c1, c2 := w.Cov(off+h[0]), w.Cov(off+h[1])
		acc.WriteString(IntList(c1) + IntList(c2) + w.markArray(off+h[3], len(c1), h[2]))
		n := w.u16("ligature count", off+h[4])
		if n != len(c2) {
			w.fail("%s: %d entries for %d glyphs", name, n, len(c2))
		}
		for _, o := range w.u16s("ligature offsets", off+h[4]+2, n) {
			p := off + h[4] + o
			cnt := w.u16("component count", p)
			acc.WriteString("{" + w.anchorRows(p, p+2, cnt, h[2]) + "}")
		}
		return name + acc.String()
	}
	w.fail("unknown subtable %s", name)
	return ""
}

// LookupList decodes a lookup list.  There is one line for each lookup table
// header, followed by one line for each subtable.
func (w *Walk) LookupList(off int, gsub bool) []string {
	extType := 9
	if gsub {
		extType = 7
	}
	var res []string
	n := w.u16("lookup count", off)
	for _, o := range w.u16s("lookup offsets", off+2, n) {
		lp := off + o
		h := w.u16s("lookup header", lp, 3)
		oo := w.u16s("subtable offsets", lp+6, h[2])
		mfs := 0
		if h[1]&0x10 != 0 {
			mfs = w.u16("mark filtering set", lp+6+2*h[2])
		}
		tp := h[0]
		if tp == extType && h[2] > 0 {
			tp = 0
			for i, o := range oo {
				e := w.u16s("extension", lp+o, 4)
				if e[0] != 1 || e[1] == extType {
					w.fail("invalid extension subtable")
				}
				if tp != 0 && e[1] != tp {
					w.fail("inconsistent extension types")
				}
				tp = e[1]
				oo[i] = o + e[2]<<16 + e[3]
				w.Ext++
			}
		}
		res = append(res, fmt.Sprintf("LOOKUP %d flags=%04x set=%d n=%d", tp, h[1], mfs, h[2]))
		for _, o := range oo {
			res = append(res, w.Subtable(gsub, tp, lp+o))
		}
	}
	return res
}

// FeatureList decodes a feature list.
func (w *Walk) FeatureList(off int) []string {
	var res []string
	n := w.u16("feature count", off)
	for i := 0; i < n; i++ {
		tag := string(w.use("feature tag", off+2+6*i, 4))
		p := off + w.u16("feature offset", off+6+6*i)
		h := w.u16s("feature table", p, 2)
		if h[0] != 0 {
			w.fail("feature params offset %d", h[0])
		}
		res = append(res, fmt.Sprint(tag, w.u16s("feature lookups", p+4, h[1])))
	}
	return res
}

// ScriptList decodes a script list, entries have the form "script/lang required [features]".
func (w *Walk) ScriptList(off int) []string {
	var res []string
	n := w.u16("script count", off)
	prev := ""
	for i := 0; i < n; i++ {
		tag := string(w.use("script tag", off+2+6*i, 4))
		if tag <= prev {
			w.fail("script tags not sorted")
		}
		prev = tag
		p := off + w.u16("script offset", off+6+6*i)
		h := w.u16s("script table", p, 2)
		lang := func(l string, lp int) {
			x := w.u16s("langsys", lp, 3)
			if x[0] != 0 {
				w.fail("lookup order offset %d", x[0])
			}
			res = append(res, fmt.Sprint(tag, "/", l, " ", x[1], w.u16s("feature indices", lp+6, x[2])))
		}
		if h[0] != 0 {
			lang("", p+h[0])
		}
		prevL := ""
		for j := 0; j < h[1]; j++ {
			l := string(w.use("language tag", p+4+6*j, 4))
			if l <= prevL {
				w.fail("language tags not sorted")
			}
			prevL = l
			lang(l, p+w.u16("langsys offset", p+8+6*j))
		}
	}
	return res
}

// GtabDump is the contents of a GSUB or GPOS table
type GtabDump struct {
	Scripts, Features, Lookups []string
}

// Gtab decodes a complete table.
func (w *Walk) Gtab(gsub bool) *GtabDump {
	h := w.u16s("header", 0, 5)
	if h[0] != 1 || h[1] != 0 {
		w.fail("version %d.%d", h[0], h[1])
	}
	res := &GtabDump{}
	if h[2] != 0 {
		res.Scripts = w.ScriptList(h[2])
	}
	if h[3] != 0 {
		res.Features = w.FeatureList(h[3])
	}
	if h[4] != 0 {
		res.Lookups = w.LookupList(h[4], gsub)
	}
	if zero := (h[2] == 0) || (h[3] == 0) || (h[4] == 0); zero && len(res.Scripts)+len(res.Features)+len(res.Lookups) > 0 {
		w.fail("lists %d/%d/%d: some lists are missing", h[2], h[3], h[4])
	}
	return res
}

// Gdef decodes a GDEF table
func (w *Walk) Gdef() string {
	h := w.u16s("header", 0, 6)
	if h[0] != 1 || h[1] != 0 && h[1] != 2 {
		w.fail("GDEF version %d.%d", h[0], h[1])
	}
	if h[3] != 0 || h[4] != 0 {
		w.fail("unexpected lists")
	}
	var acc strings.Builder
	acc.WriteString("class=")
	if h[2] != 0 {
		acc.WriteString(w.class(h[2]))
	}
	acc.WriteString(" attach=")
	if h[5] != 0 {
		acc.WriteString(w.class(h[5]))
	}
	acc.WriteString(" sets=")
	if h[1] == 2 {
		o := w.u16("mark sets offset", 12)
		if o != 0 {
			x := w.u16s("mark sets", o, 2)
			if x[0] != 1 {
				w.fail("mark sets format")
			}
			for i := 0; i < x[1]; i++ {
				co := w.u16s("mark set offset", o+4+4*i, 2)
				acc.WriteString(w.cov(o + co[0]<<16 + co[1]))
			}
		}
	}
	return acc.String()
}
