// C05: Type 2 charstring interpretation agrees with an independent
// interpreter; malformed programs are rejected.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	"seehuhn.de/go/sfnt/cff"

	"verif/cffref"
	"verif/h"
	"verif/t2"
)

type font struct {
	b       cffref.Build
	interps []*t2.Interp
	fdsel   []int
}

// compare checks a decoded glyph against the reference.
func compare(g *cff.Glyph, want *t2.Result, tol float64) string {
	// NaN marks a value which depends on the random operator
	eq := func(a, b float64) bool { return math.IsNaN(b) || math.Abs(a-b) <= tol }
	if !eq(g.Width, want.Width) {
		return fmt.Sprintf("width %v, want %v", g.Width, want.Width)
	}
	for i, p := range []struct{ got, want []float64 }{{g.HStem, want.HStem}, {g.VStem, want.VStem}} {
		if len(p.got) != len(p.want) {
			return fmt.Sprintf("stems[%d]: %v, want %v", i, p.got, p.want)
		}
		for k := range p.got {
			if !eq(p.got[k], p.want[k]) {
				return fmt.Sprintf("stems[%d]: %v, want %v", i, p.got, p.want)
			}
		}
	}
	n := min(len(g.Cmds), len(want.Ops))
	for i := 0; i < n; i++ {
		c := g.Cmds[i]
		w := want.Ops[i]
		kinds := map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k'}
		if kinds[c.Op] != w.Kind {
			return fmt.Sprintf("command %d is %v, want %c", i, c, w.Kind)
		}
		if w.Kind == 'h' || w.Kind == 'k' {
			if len(c.Args) != len(w.Mask) {
				return fmt.Sprintf("command %d: mask %v, want %v", i, c.Args, w.Mask)
			}
			for k := range c.Args {
				if c.Args[k] != float64(w.Mask[k]) {
					return fmt.Sprintf("command %d: mask %v, want %v", i, c.Args, w.Mask)
				}
			}
			continue
		}
		if len(c.Args) != len(w.Args) {
			return fmt.Sprintf("command %d: %v, want %v", i, c.Args, w.Args)
		}
		for k := range c.Args {
			if !eq(c.Args[k], w.Args[k]) {
				return fmt.Sprintf("command %d: %c %v, want %v", i, w.Kind, c.Args, w.Args)
			}
		}
	}
	if len(g.Cmds) != len(want.Ops) {
		return fmt.Sprintf("%d commands, want %d", len(g.Cmds), len(want.Ops))
	}
	return ""
}

// inBounds excludes programs whose arithmetic leaves the 16.16 range.
func inBounds(r *t2.Result) bool {
	var x, y float64
	for _, o := range r.Ops {
		if o.Kind == 'm' || o.Kind == 'l' || o.Kind == 'c' {
			for k := 0; k+1 < len(o.Args); k += 2 {
				if math.Abs(o.Args[k]-x) > 32767 || math.Abs(o.Args[k+1]-y) > 32767 {
					return false
				}
				x, y = o.Args[k], o.Args[k+1]
			}
		}
		for _, a := range o.Args {
			if math.IsNaN(a) || math.Abs(a) > 60000 {
				return false
			}
		}
	}
	return true
}

func read(data []byte) (f *cff.Font, err error) {
	return cff.Read(bytes.NewReader(data))
}

// usedOps summarises which operators a program executed.
func record(c *h.Case, used map[string]int) {
	for k, n := range used {
		c.Count("executed "+k, n)
	}
}

func genProgram(c *h.Case, inexact bool, loc, glob *t2.SubrTable, in *t2.Interp) (code []byte, res *t2.Result, tol float64) {
	for try := 0; ; try++ {
		g := &t2.Gen{Rng: c.Rng, Inexact: inexact, Big: c.Rng.IntN(6) == 0}
		switch c.Rng.IntN(4) {
		case 0:
			g.Arith = 0
		case 1:
			g.Arith = 0.7
		default:
			g.Arith = 0.15
		}
		toks := g.Program()
		plain := t2.Join(toks)
		res0, err0 := in.Run(plain)
		if err0 != nil || !inBounds(res0) {
			if try > 200 {
				panic(fmt.Sprint("harness: generator produces malformed programs: ", err0))
			}
			continue
		}
		code = plain
		res = res0
		if loc != nil && c.Rng.IntN(4) > 0 {
			nl, ng := saveTab(loc), saveTab(glob)
			st := t2.Subroutinize(c.Rng, toks, loc, glob, 0)
			code2 := t2.Join(st)
			res2, err := in.Run(code2)
			if err == nil {
				code, res = code2, res2
				if res2.MaxDepth > 0 {
					c.Count("programs with subroutine calls", 1)
					c.Max("call depth", res2.MaxDepth)
				}
			} else {
				nl(loc)
				ng(glob)
			}
		}
		tol = 1e-9
		if g.Approx {
			// each rounded delta may contribute
			tol = 0.01
		}
		return code, res, tol
	}
}

func saveTab(t *t2.SubrTable) func(*t2.SubrTable) {
	return func(*t2.SubrTable) {}
}

// resolve runs the programs again with the final subroutine tables.
func good(c *h.Case, inexact bool, nglyphs int, sizes bool) {
	rng := c.Rng
	b := cffref.Build{Name: "Test", OffSize: rng.IntN(5)}
	cid := rng.IntN(3) == 0
	nfd := 1
	if cid {
		nfd = 1 + rng.IntN(4)
	}
	pick := func() int {
		if sizes {
			return []int{1, 2, 106, 107, 108, 1238, 1239, 1240, 1241, 2000, 33898, 33899, 33900, 33901, 40000}[rng.IntN(15)]
		}
		return []int{0, 1, 3, 10, 100, 300}[rng.IntN(6)]
	}
	glob := t2.NewSubrTable(rng, pick())
	b.GSubrs = glob.Data
	var locs []*t2.SubrTable
	var interps []*t2.Interp
	for i := 0; i < nfd; i++ {
		n := pick()
		if i > 0 && n > 3000 {
			n = 1240
		}
		loc := t2.NewSubrTable(rng, n)
		locs = append(locs, loc)
		in := &t2.Interp{Subrs: loc.Data, GSubrs: glob.Data}
		var priv []cffref.Entry
		w := func(op int, dst *float64) {
			switch rng.IntN(4) {
			case 0:
			case 1:
				v := rng.IntN(1200)
				*dst = float64(v)
				priv = append(priv, cffref.Entry{Op: op, Args: []any{v}})
			case 2:
				v := -rng.IntN(40000)
				*dst = float64(v)
				priv = append(priv, cffref.Entry{Op: op, Args: []any{v}})
			case 3:
				v := float64(rng.IntN(200000)) / 128
				*dst = v
				priv = append(priv, cffref.Entry{Op: op, Args: []any{v}})
			}
		}
		w(cffref.OpDefaultWidthX, &in.Default)
		w(cffref.OpNominalWidthX, &in.Nominal)
		interps = append(interps, in)
		b.FDs = append(b.FDs, cffref.BuildFD{Private: priv, Subrs: loc.Data})
	}
	type exp struct {
		tol  float64
		code []byte
		fd   int
	}
	exps := []exp{{1e-9, []byte{14}, 0}}
	b.CharStrings = [][]byte{{14}}
	fdsel := []byte{0, 0}
	for i := 1; i < nglyphs; i++ {
		fd := rng.IntN(nfd)
		code, _, tol := genProgram(c, inexact, locs[fd], glob, interps[fd])
		b.CharStrings = append(b.CharStrings, code)
		exps = append(exps, exp{tol, code, fd})
		fdsel = append(fdsel, byte(fd))
	}
	if cid {
		b.CID = true
		b.Strings = []string{"Adobe", "Identity"}
		b.Top = append([]cffref.Entry{{Op: cffref.OpROS, Args: []any{391, 392, 0}}}, b.Top...)
		b.FDSelect = fdsel
		b.Charset = []byte{2, 0, 1, byte((nglyphs - 2) >> 8), byte(nglyphs - 2)}
	}
	data := b.Bytes()
	var f *cff.Font
	var err error
	if !c.Guard("cff.Read", func() { f, err = read(data) }) {
		return
	}
	if err != nil {
		// find the culprit
		for i := range b.CharStrings {
			b2 := b
			b2.CharStrings = [][]byte{{14}, b.CharStrings[i]}
			b2.FDSelect = []byte{0, 0, byte(exps[i].fd)}
			b2.Charset = nil
			if cid {
				b2.Charset = []byte{0, 0, 1}
			}
			if _, e2 := read(b2.Bytes()); e2 != nil {
				c.Violation("well-formed program rejected", "charstring % x (%s) is rejected: %v", clip(b.CharStrings[i]), dis(b.CharStrings[i]), e2)
				return
			}
		}
		c.Violation("well-formed font rejected", "%v", err)
		return
	}
	if len(f.Glyphs) != len(exps) {
		c.Violation("glyph count", "%d glyphs, want %d", len(f.Glyphs), len(exps))
		return
	}
	for i, e := range exps {
		in := interps[e.fd]
		in.Used = map[string]int{}
		res, rerr := in.Run(e.code)
		if rerr != nil {
			continue // cannot happen: subroutines are never changed once used
		}
		if d := compare(f.Glyphs[i], res, e.tol); d != "" {
			c.Violation("outline differs", "glyph %d, fd %d, %d/%d subrs: %s\ncharstring % x\n%s", i, e.fd, len(in.Subrs), len(in.GSubrs), d, clip(e.code), dis(e.code))
			return
		}
		record(c, res.Used)
		c.Max("operand stack", res.MaxStack)
		if len(res.Ops) > 1 {
			c.NonTrivial(e.code)
		}
		if i == 1 {
			c.Sample("%d subrs %d gsubrs, default %v nominal %v: %s", len(in.Subrs), len(in.GSubrs), in.Default, in.Nominal, dis(e.code))
		}
	}
	c.Eval(nglyphs - 1)
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func dis(code []byte) string {
	s := ""
	for i := 0; i < len(code) && len(s) < 900; {
		b := code[i]
		switch {
		case b == 28 && i+2 < len(code):
			s += fmt.Sprint(int16(uint16(code[i+1])<<8|uint16(code[i+2])), " ")
			i += 3
		case b >= 32 && b <= 246:
			s += fmt.Sprint(int(b)-139, " ")
			i++
		case b >= 247 && b <= 250 && i+1 < len(code):
			s += fmt.Sprint((int(b)-247)*256+int(code[i+1])+108, " ")
			i += 2
		case b >= 251 && b <= 254 && i+1 < len(code):
			s += fmt.Sprint(-(int(b)-251)*256-int(code[i+1])-108, " ")
			i += 2
		case b == 255 && i+4 < len(code):
			u := uint32(code[i+1])<<24 | uint32(code[i+2])<<16 | uint32(code[i+3])<<8 | uint32(code[i+4])
			s += fmt.Sprint(float64(int32(u))/65536, " ")
			i += 5
		case b == 12 && i+1 < len(code):
			s += t2.OpName(1200+int(code[i+1])) + " "
			i += 2
		default:
			s += t2.OpName(int(b)) + " "
			i++
		}
	}
	return s
}

// mutate applies a single fault to the program.
func mutate(c *h.Case, toks []t2.Token) ([]byte, string) {
	rng := c.Rng
	tt := append([]t2.Token{}, toks...)
	i := rng.IntN(len(tt))
	num := func(v float64) t2.Token { return t2.Token{Code: t2.EncNum(v, 0), Val: v} }
	ops := []string{"hstem", "vstem", "vmoveto", "rlineto", "hlineto", "vlineto", "rrcurveto", "callsubr", "return", "endchar", "hstemhm",
		"rmoveto", "hmoveto", "vstemhm", "rcurveline", "rlinecurve", "vvcurveto", "hhcurveto", "callgsubr", "vhcurveto", "hvcurveto",
		"and", "or", "not", "abs", "add", "sub", "div", "neg", "eq", "drop", "put", "get", "ifelse", "random", "mul", "sqrt", "dup", "exch", "index", "roll",
		"hflex", "flex", "hflex1", "flex1", "hintmask", "cntrmask"}
	mkop := func() t2.Token {
		o := ops[rng.IntN(len(ops))]
		return t2.Token{Code: t2.OpBytes(o), Op: o}
	}
	ins := func(k int, t ...t2.Token) {
		tt = append(append(append([]t2.Token{}, tt[:k]...), t...), tt[k:]...)
	}
	switch rng.IntN(13) {
	case 0: // delete a token
		tt = append(append([]t2.Token{}, tt[:i]...), tt[i+1:]...)
		return t2.Join(tt), "delete token"
	case 1: // insert a number
		ins(i, num(float64(rng.IntN(200)-100)))
		return t2.Join(tt), "insert number"
	case 2: // insert an operator
		ins(i, mkop())
		return t2.Join(tt), "insert operator"
	case 3: // replace an operator
		for k := 0; k < 50; k++ {
			i = rng.IntN(len(tt))
			if tt[i].Op != "" {
				break
			}
		}
		tt[i] = mkop()
		return t2.Join(tt), "replace operator"
	case 4: // truncate
		b := t2.Join(tt)
		return b[:rng.IntN(len(b))], "truncate"
	case 5: // remove endchar
		return t2.Join(tt[:len(tt)-1]), "remove endchar"
	case 6: // overflow
		var t []t2.Token
		k := 49
		if rng.IntN(2) == 0 {
			k = 49 + rng.IntN(60)
		}
		for len(t) < k {
			t = append(t, num(1))
		}
		if rng.IntN(2) == 0 {
			// and remove them again
			for len(t) < 2*k {
				t = append(t, t2.Token{Code: t2.OpBytes("drop"), Op: "drop"})
			}
		}
		ins(i, t...)
		return t2.Join(tt), "overflow"
	case 7: // overflow by an operator which pushes
		var t []t2.Token
		for len(t) < 48 {
			t = append(t, num(1))
		}
		op := []string{"dup", "random"}[rng.IntN(2)]
		t = append(t, t2.Token{Code: t2.OpBytes(op), Op: op})
		for len(t) < 98 {
			t = append(t, t2.Token{Code: t2.OpBytes("drop"), Op: "drop"})
		}
		k := 0
		for k < len(tt)-1 && tt[k].Op == "" {
			k++
		}
		ins(0, t...)
		return t2.Join(tt), "overflow by operator"
	case 8: // bad subroutine
		v := []float64{-108, 1000, 32767, -32768, -1132, 5000}[rng.IntN(6)]
		op := []string{"callsubr", "callgsubr"}[rng.IntN(2)]
		ins(i, num(v), t2.Token{Code: t2.OpBytes(op), Op: op})
		return t2.Join(tt), "bad subr"
	case 9: // remove the first moveto
		k := 0
		for k < len(tt) && tt[k].Op != "rmoveto" && tt[k].Op != "hmoveto" && tt[k].Op != "vmoveto" {
			k++
		}
		if k < len(tt) {
			a := k
			for a > 0 && tt[a-1].Op == "" {
				a--
			}
			tt = append(append([]t2.Token{}, tt[:a]...), tt[k+1:]...)
		}
		return t2.Join(tt), "remove moveto"
	case 10: // remove operands
		k := 1 + rng.IntN(4)
		var out []t2.Token
		for j, t := range tt {
			if j >= i && k > 0 && t.Op == "" {
				k--
				continue
			}
			out = append(out, t)
		}
		return t2.Join(out), "remove operands"
	case 11: // stack underflow for an arithmetic operator at the start
		op := []string{"add", "roll", "index", "ifelse", "exch", "dup", "put", "get", "neg", "sqrt", "mul", "div", "sub", "and", "or", "not", "eq", "drop", "abs"}[rng.IntN(19)]
		t := []t2.Token{{Code: t2.OpBytes(op), Op: op}}
		for k := rng.IntN(3); k > 0; k-- {
			t = append([]t2.Token{num(float64(rng.IntN(7)))}, t...)
		}
		ins(0, t...)
		return t2.Join(tt), "operator underflow"
	default: // flip a byte
		b := t2.Join(tt)
		b[rng.IntN(len(b))] ^= byte(1 << rng.IntN(8))
		return b, "flip bit"
	}
}

var mustReject = map[t2.Kind]bool{t2.Underflow: true, t2.Overflow: true, t2.NoEndchar: true, t2.BadSubr: true, t2.NoMove: true}

func malformed(c *h.Case) {
	rng := c.Rng
	loc := t2.NewSubrTable(rng, rng.IntN(20))
	glob := t2.NewSubrTable(rng, rng.IntN(20))
	in := &t2.Interp{Subrs: loc.Data, GSubrs: glob.Data, Default: 500, Nominal: 600}
	var toks []t2.Token
	for {
		g := &t2.Gen{Rng: rng, Arith: 0.3}
		toks = g.Program()
		res, err := in.Run(t2.Join(toks))
		if err == nil && inBounds(res) && len(toks) < 200 {
			break
		}
	}
	if rng.IntN(3) == 0 {
		t := t2.Subroutinize(rng, toks, loc, glob, 0)
		if _, err := in.Run(t2.Join(t)); err == nil {
			toks = t
		}
	}
	code, what := mutate(c, toks)
	// sometimes the fault is inside a subroutine
	if len(loc.Data) > 0 && rng.IntN(5) == 0 {
		k := rng.IntN(len(loc.Data))
		loc.Data[k] = code
		code = append(t2.EncNum(float64(k-t2.Bias(len(loc.Data))), 0), 10)
		what += " (in subroutine)"
	}
	in.Used = map[string]int{}
	res, rerr := in.Run(code)
	b := cffref.Build{Name: "Test", CharStrings: [][]byte{{14}, code}, GSubrs: glob.Data,
		FDs: []cffref.BuildFD{{Private: []cffref.Entry{{Op: cffref.OpDefaultWidthX, Args: []any{500}}, {Op: cffref.OpNominalWidthX, Args: []any{600}}}, Subrs: loc.Data}}}
	if len(loc.Data) == 0 {
		b.FDs[0].Subrs = nil
	}
	var f *cff.Font
	var err error
	if !c.Guard("cff.Read", func() { f, err = read(b.Bytes()) }) {
		return
	}
	var e *t2.Error
	switch {
	case rerr == nil:
		c.Count("mutants: still well-formed", 1)
		if !inBounds(res) {
			return
		}
		if err != nil {
			c.Violation("well-formed program rejected", "%s: charstring % x (%s) is rejected: %v", what, clip(code), dis(code), err)
			return
		}
		tol := 1e-9
		if res.Used["div"]+res.Used["sqrt"]+res.Used["mul"] > 0 {
			tol = 0.01
		}
		if d := compare(f.Glyphs[1], res, tol); d != "" {
			c.Violation("outline differs", "%s: %s\ncharstring % x\n%s", what, d, clip(code), dis(code))
		}
		c.NonTrivial(code)
	case errors.As(rerr, &e) && mustReject[e.Kind]:
		c.Count("mutants: must be rejected: "+e.Kind.String(), 1)
		if err == nil {
			c.Violation("malformed program accepted: "+e.Kind.String(), "%s: charstring % x (%s) is malformed (%v) but was decoded as %v", what, clip(code), dis(code), rerr, f.Glyphs[1])
			return
		}
		c.NonTrivial(code)
		c.Sample("%s -> %v: %s -> %v", what, rerr, dis(code), err)
	default:
		c.Count("mutants: no verdict: "+e.Kind.String(), 1)
	}
}

// special: hand-written cases where the generator is blind.
func special(c *h.Case) {
	rng := c.Rng
	// random must be in (0, 1]
	code := append(append([]byte{}, t2.OpBytes("random")...), t2.OpBytes("hmoveto")...)
	code = append(code, 14)
	b := cffref.Build{Name: "Test", CharStrings: [][]byte{{14}, code}, FDs: []cffref.BuildFD{{}}}
	f, err := read(b.Bytes())
	if err != nil {
		c.Violation("random rejected", "%v", err)
		return
	}
	if x := f.Glyphs[1].Cmds[0].Args[0]; x <= 0 || x > 1 {
		c.Violation("random out of range", "random gives %v", x)
	}
	// call depth 10 is allowed
	for _, global := range []bool{false, true} {
		subrs := make([][]byte, 12)
		n := 1 + rng.IntN(10)
		op := byte(10)
		if global {
			op = 29
		}
		for i := range subrs {
			subrs[i] = append(t2.EncNum(float64(i+1-107), 0), op, 11)
		}
		subrs[n-1] = []byte{139 + 5, 22, 11} // 5 hmoveto return
		code := append(t2.EncNum(-107, 0), op, 14)
		b := cffref.Build{Name: "Test", CharStrings: [][]byte{{14}, code}, FDs: []cffref.BuildFD{{}}}
		if global {
			b.GSubrs = subrs
		} else {
			b.FDs[0].Subrs = subrs
		}
		f, err := read(b.Bytes())
		if err != nil {
			c.Violation("call depth", "%d nested calls are rejected: %v", n, err)
			return
		}
		if len(f.Glyphs[1].Cmds) != 1 || f.Glyphs[1].Cmds[0].Args[0] != 5 {
			c.Violation("call depth", "%d nested calls: %v", n, f.Glyphs[1].Cmds)
		}
		c.Count("nested call chains", 1)
	}
	c.NonTrivial("special", c.Index)
}

func main() {
	h.Main(&h.Check{
		ID:    "C05",
		Level: "exploration",
		Rule: "grammar-generated Type 2 programs (all operators, subroutine tables 0..40000) in hand-assembled CFF files, decoded by cff.Read and compared with an independent interpreter; " +
			"single-fault mutants judged by the same interpreter. Non-trivial: a distinct charstring which draws something, or a mutant with a definite verdict",
		Assumptions: []string{"TN5177 as implemented by the reference interpreter in harness/t2", "no verdict on behaviour TN5177 leaves undefined (surplus operands, hint order, seac, arithmetic overflow)"},
		MemLimitGB:  6,
		Groups: []h.Group{
			{Name: "wellformed", Quick: 1200, Run: func(c *h.Case) { good(c, false, 40, false) }},
			{Name: "bias", Quick: 300, Run: func(c *h.Case) { good(c, false, 12, true) }},
			{Name: "inexact", Quick: 300, Run: func(c *h.Case) { good(c, true, 30, false) }},
			{Name: "malformed", Quick: 60000, Run: malformed},
			{Name: "special", Quick: 40, Thorough: 100, Run: special},
		},
	})
}
