package t2

import (
	"math"
	"math/rand/v2"
)

// Token is one number or operator (with its mask bytes).
type Token struct {
	Code []byte
	Op   string // "" for numbers
	Val  float64
}

// Gen generates well-formed programs.
type Gen struct {
	Rng     *rand.Rand
	Toks    []Token
	stack   []float64
	store   map[int]float64
	NStems  int
	first   bool // no stack-clearing operator yet
	Inexact bool
	Big     bool
	Arith   float64 // probability of arithmetic
	// Approx is set once a value was computed which is not exact in 16.16.
	Approx bool
	x, y   float64
	nwidth bool
}

var opCode = func() map[string][]byte {
	m := map[string][]byte{}
	for k, n := range opNames {
		if k >= 1200 {
			m[n] = []byte{12, byte(k - 1200)}
		} else {
			m[n] = []byte{byte(k)}
		}
	}
	return m
}()

// OpBytes returns the code of the operator.
func OpBytes(name string) []byte { return opCode[name] }

// EncNum encodes a number; how selects among the possible forms.
func EncNum(v float64, how int) []byte {
	i := int(v)
	if float64(i) == v && v >= -32768 && v <= 32767 {
		switch {
		case how == 1:
			return []byte{28, byte(i >> 8), byte(i)}
		case how == 2:
			u := uint32(int32(i) << 16)
			return []byte{255, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
		case i >= -107 && i <= 107:
			return []byte{byte(i + 139)}
		case i >= 108 && i <= 1131:
			return []byte{byte(247 + (i-108)>>8), byte(i - 108)}
		case i >= -1131 && i <= -108:
			return []byte{byte(251 + (-i-108)>>8), byte(-i - 108)}
		default:
			return []byte{28, byte(i >> 8), byte(i)}
		}
	}
	u := uint32(int32(math.Round(v * 65536)))
	return []byte{255, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

// Num emits a number literal.
func (g *Gen) Num(v float64) {
	how := 0
	if k := g.Rng.IntN(12); k < 2 {
		how = k + 1
	}
	g.Toks = append(g.Toks, Token{Code: EncNum(v, how), Val: v})
	g.stack = append(g.stack, v)
}

// Op emits an operator.
func (g *Gen) Op(name string, extra ...byte) {
	g.Toks = append(g.Toks, Token{Code: append(append([]byte{}, opCode[name]...), extra...), Op: name})
}

// Value makes a random value which is exact in 16.16.
func (g *Gen) Value() float64 {
	r := g.Rng
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return float64(r.IntN(217) - 108)
	case 2:
		return float64([]int{107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, -363, -364, 619, 620}[r.IntN(14)])
	case 3:
		return float64(r.IntN(4001)-2000) / 2
	case 4:
		return float64(r.IntN(65536*20)-65536*10) / 65536
	case 5:
		if g.Big {
			return float64(r.IntN(65536) - 32768)
		}
		return float64(r.IntN(2400) - 1200)
	case 6:
		if g.Big {
			return float64(int32(r.Uint32())) / 65536
		}
		return float64(r.IntN(600) - 300)
	default:
		return float64(r.IntN(601) - 300)
	}
}

func (g *Gen) pop() float64 {
	v := g.stack[len(g.stack)-1]
	g.stack = g.stack[:len(g.stack)-1]
	return v
}

func inRange(v float64) bool { return v < 32767 && v > -32767 }

func exact(v float64) bool { return v*65536 == math.Trunc(v*65536) }

// push pushes the result of an operation.
func (g *Gen) pushResult(v float64) {
	if !exact(v) {
		g.Approx = true
	}
	g.stack = append(g.stack, v)
}

// arith emits one arithmetic/storage/conditional operator with suitable
// operands, which leaves the stack well defined.
func (g *Gen) arith() {
	r := g.Rng
	n := len(g.stack)
	names := []string{"abs", "add", "sub", "neg", "mul", "div", "sqrt", "drop", "exch", "index", "roll", "dup", "put", "get", "and", "or", "not", "eq", "ifelse", "random"}
	op := names[r.IntN(len(names))]
	room := 46 - n
	ensure := func(k int) bool {
		for len(g.stack) < k {
			if len(g.stack) >= 46 {
				return false
			}
			g.Num(g.Value())
		}
		return true
	}
	switch op {
	case "abs", "neg":
		if !ensure(1) {
			return
		}
		v := g.pop()
		g.Op(op)
		if op == "abs" {
			v = math.Abs(v)
		} else {
			v = -v
		}
		g.pushResult(v)
	case "add", "sub":
		if !ensure(2) {
			return
		}
		b, a := g.stack[len(g.stack)-1], g.stack[len(g.stack)-2]
		v := a + b
		if op == "sub" {
			v = a - b
		}
		if !inRange(v) {
			return
		}
		g.pop()
		g.pop()
		g.Op(op)
		g.pushResult(v)
	case "mul":
		if !ensure(1) || room < 1 {
			return
		}
		f := []float64{2, 3, -1, 0.5, 0.25, 1, 0, -2, 10, 1.5}[r.IntN(10)]
		if g.Inexact {
			f = float64(r.IntN(65536)) / 65536
		}
		v := g.stack[len(g.stack)-1] * f
		if !inRange(v) || !g.Inexact && !exact(v) {
			return
		}
		if r.IntN(2) == 0 {
			g.Num(f)
		} else {
			g.Num(f)
			g.Op("exch")
		}
		g.stack = g.stack[:len(g.stack)-2]
		g.Op(op)
		g.pushResult(v)
	case "div":
		if !ensure(1) || room < 1 {
			return
		}
		f := []float64{2, 4, -1, 0.5, 5, 10, -2, 100, 1000}[r.IntN(9)]
		v := g.stack[len(g.stack)-1] / f
		if !inRange(v) || !g.Inexact && !exact(v) {
			return
		}
		g.Num(f)
		g.stack = g.stack[:len(g.stack)-2]
		g.Op(op)
		g.pushResult(v)
	case "sqrt":
		if room < 1 {
			return
		}
		k := float64(r.IntN(150))
		v := k * k
		if r.IntN(4) == 0 {
			k = k / 2
			v = k * k
		}
		if g.Inexact {
			v = float64(r.IntN(20000))
			k = math.Sqrt(v)
		}
		g.Num(v)
		g.pop()
		g.Op(op)
		g.pushResult(k)
	case "drop":
		if n == 0 || r.IntN(3) > 0 {
			if room < 1 {
				return
			}
			g.Num(g.Value())
		}
		g.pop()
		g.Op(op)
	case "exch":
		if !ensure(2) {
			return
		}
		n = len(g.stack)
		g.stack[n-1], g.stack[n-2] = g.stack[n-2], g.stack[n-1]
		g.Op(op)
	case "index":
		if !ensure(1) || room < 2 {
			return
		}
		n = len(g.stack)
		i := r.IntN(n)
		if r.IntN(6) == 0 {
			i = -1 - r.IntN(3)
		}
		g.Num(float64(i))
		g.pop()
		g.Op(op)
		if i < 0 {
			i = 0
		}
		g.stack = append(g.stack, g.stack[n-1-i])
	case "roll":
		if room < 3 || !ensure(1+r.IntN(5)) {
			return
		}
		n = len(g.stack)
		m := 1 + r.IntN(n)
		if r.IntN(12) == 0 {
			m = 0
		}
		j := r.IntN(2*m+5) - m - 2
		if r.IntN(5) == 0 {
			j = r.IntN(41) - 20
		}
		if len(g.stack)+2 > 48 {
			return
		}
		g.Num(float64(m))
		g.Num(float64(j))
		g.pop()
		g.pop()
		g.Op(op)
		if m > 0 {
			part := g.stack[n-m:]
			for k := 0; k < ((j%m)+m)%m; k++ {
				top := part[m-1]
				copy(part[1:], part[:m-1])
				part[0] = top
			}
		}
	case "dup":
		if !ensure(1) || room < 1 {
			return
		}
		g.Op(op)
		g.stack = append(g.stack, g.stack[len(g.stack)-1])
	case "put":
		if room < 3 {
			return
		}
		i := r.IntN(32)
		if r.IntN(3) > 0 || n == 0 {
			g.Num(g.Value())
		}
		g.Num(float64(i))
		g.pop()
		v := g.pop()
		g.Op(op)
		if g.store == nil {
			g.store = map[int]float64{}
		}
		g.store[i] = v
	case "get":
		if room < 1 || len(g.store) == 0 {
			return
		}
		k := r.IntN(32)
		for {
			if _, ok := g.store[k]; ok {
				break
			}
			k = (k + 1) % 32
		}
		g.Num(float64(k))
		g.pop()
		g.Op(op)
		g.stack = append(g.stack, g.store[k])
	case "and", "or", "eq":
		if room < 2 {
			return
		}
		vals := []float64{0, 1, 5, -3, 0.5}
		a, b := vals[r.IntN(5)], vals[r.IntN(5)]
		if op == "eq" && r.IntN(2) == 0 {
			b = a
		}
		g.Num(a)
		g.Num(b)
		g.pop()
		g.pop()
		g.Op(op)
		switch op {
		case "and":
			g.stack = append(g.stack, b2f(a != 0 && b != 0))
		case "or":
			g.stack = append(g.stack, b2f(a != 0 || b != 0))
		case "eq":
			g.stack = append(g.stack, b2f(a == b))
		}
	case "not":
		if room < 1 {
			return
		}
		a := float64(r.IntN(3) - 1)
		g.Num(a)
		g.pop()
		g.Op(op)
		g.stack = append(g.stack, b2f(a == 0))
	case "ifelse":
		if room < 4 {
			return
		}
		a, b := g.Value(), g.Value()
		c := float64(r.IntN(7) - 3)
		d := float64(r.IntN(7)-3) / 2
		if r.IntN(3) == 0 {
			d = c
		}
		g.Num(a)
		g.Num(b)
		g.Num(c)
		g.Num(d)
		g.stack = g.stack[:len(g.stack)-4]
		g.Op(op)
		if c <= d {
			g.stack = append(g.stack, a)
		} else {
			g.stack = append(g.stack, b)
		}
	case "random":
		if room < 1 {
			return
		}
		g.Op("random")
		g.Op("drop")
	}
}

// args arranges for exactly n operands on the stack, using vals (if given)
// or random values.  Returns the operands.
func (g *Gen) args(n int, vals []float64) []float64 {
	if vals == nil && g.Rng.Float64() < g.Arith {
		k := 1 + g.Rng.IntN(6)
		for i := 0; i < k; i++ {
			g.arith()
		}
	}
	for len(g.stack) > n {
		g.Op("drop")
		g.pop()
	}
	for len(g.stack) < n {
		if vals != nil {
			g.Num(vals[len(g.stack)])
		} else {
			g.Num(g.Value())
		}
	}
	return g.stack
}

func (g *Gen) clear(name string, extra ...byte) {
	g.Op(name, extra...)
	g.stack = g.stack[:0]
	g.first = false
}

// Program generates a program.
func (g *Gen) Program() []Token {
	r := g.Rng
	g.first = true
	wid := 0
	if r.IntN(2) == 0 {
		wid = 1
	}
	// w returns 1 if the width must be included in the operands of the
	// next stack-clearing operator
	w := func() int {
		if g.first {
			return wid
		}
		return 0
	}
	nh, nv := 0, 0
	if r.IntN(2) == 0 {
		nh = r.IntN(6)
		nv = r.IntN(6)
		if r.IntN(8) == 0 {
			nh = r.IntN(49)
			nv = r.IntN(97 - nh)
		}
	}
	useMask := nh+nv > 0 && r.IntN(2) == 0
	implicit := useMask && nv > 0 && r.IntN(2) == 0
	g.NStems = nh + nv
	stems := func(n int, op string, keepLast bool) {
		for n > 0 {
			k := 1 + r.IntN(min(n, 23))
			if r.IntN(3) > 0 {
				k = min(n, 24)
				if w() == 1 {
					k = min(n, 23)
				}
			}
			m := 2*k + w()
			vals := make([]float64, m)
			i := 0
			if w() == 1 {
				vals[0] = g.Value()
				i = 1
			}
			for ; i < m; i += 2 {
				vals[i] = float64(r.IntN(60))
				if r.IntN(4) == 0 {
					vals[i] += float64(r.IntN(65536)) / 65536
				}
				vals[i+1] = float64(1 + r.IntN(40))
				if r.IntN(10) == 0 {
					vals[i+1] = []float64{-20, -21}[r.IntN(2)]
				}
			}
			g.args(m, vals)
			n -= k
			if n == 0 && keepLast {
				return
			}
			g.clear(op)
		}
	}
	hm := ""
	if useMask || r.IntN(5) == 0 {
		hm = "hm"
	}
	stems(nh, "hstem"+hm, false)
	stems(nv, "vstem"+hm, implicit)
	mask := func(name string) {
		k := (g.NStems + 7) / 8
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		if g.first && wid == 1 && len(g.stack) == 0 {
			g.Num(g.Value())
		}
		g.clear(name, b...)
	}
	if useMask {
		if implicit || r.IntN(2) == 0 {
			mask([]string{"hintmask", "cntrmask"}[r.IntN(2)])
			for r.IntN(4) == 0 {
				mask("cntrmask")
			}
			if r.IntN(3) == 0 {
				mask("hintmask")
			}
		}
	}
	nsub := r.IntN(4)
	for s := 0; s < nsub; s++ {
		switch r.IntN(3) {
		case 0:
			g.args(2+w(), nil)
			g.clear("rmoveto")
		case 1:
			g.args(1+w(), nil)
			g.clear("hmoveto")
		case 2:
			g.args(1+w(), nil)
			g.clear("vmoveto")
		}
		np := r.IntN(6)
		for i := 0; i < np; i++ {
			if useMask && r.IntN(8) == 0 {
				mask([]string{"hintmask", "cntrmask"}[r.IntN(2)])
			}
			lim := 48
			if r.IntN(3) > 0 {
				lim = 14
			}
			switch r.IntN(14) {
			case 0:
				g.args(2*(1+r.IntN(lim/2)), nil)
				g.clear("rlineto")
			case 1:
				g.args(1+r.IntN(lim), nil)
				g.clear("hlineto")
			case 2:
				g.args(1+r.IntN(lim), nil)
				g.clear("vlineto")
			case 3:
				g.args(6*(1+r.IntN(lim/6)), nil)
				g.clear("rrcurveto")
			case 4:
				g.args(6*(1+r.IntN((lim-2)/6))+2, nil)
				g.clear("rcurveline")
			case 5:
				g.args(2*(1+r.IntN((lim-6)/2))+6, nil)
				g.clear("rlinecurve")
			case 6, 7:
				n := 4 * (1 + r.IntN((lim-1)/4))
				n += r.IntN(2)
				g.args(n, nil)
				g.clear([]string{"hhcurveto", "vvcurveto"}[r.IntN(2)])
			case 8, 9:
				n := 4 * (1 + r.IntN((lim-1)/4))
				n += r.IntN(2)
				g.args(n, nil)
				g.clear([]string{"hvcurveto", "vhcurveto"}[r.IntN(2)])
			case 10:
				g.args(13, nil)
				g.clear("flex")
			case 11:
				v := make([]float64, 11)
				for i := range v {
					v[i] = g.Value()
				}
				if r.IntN(2) == 0 { // bias the direction
					for i := 0; i < 10; i += 2 {
						v[i] = math.Abs(v[i]) * float64(r.IntN(2)) * 2
						if !inRange(v[i]) {
							v[i] = 17
						}
					}
				}
				if g.Rng.Float64() < g.Arith {
					v = nil
				}
				g.args(11, v)
				g.clear("flex1")
			case 12:
				g.args(7, nil)
				g.clear("hflex")
			case 13:
				g.args(9, nil)
				g.clear("hflex1")
			}
		}
	}
	g.args(w(), nil)
	g.clear("endchar")
	return g.Toks
}

// Join concatenates the code of tokens.
func Join(tt []Token) []byte {
	var b []byte
	for _, t := range tt {
		b = append(b, t.Code...)
	}
	return b
}

// SubrTable allocates subroutines.
type SubrTable struct {
	N    int
	Data [][]byte
	free []int
}

// NewSubrTable creates a table with n entries, of which a few are free to
// be used.
func NewSubrTable(rng *rand.Rand, n int) *SubrTable {
	t := &SubrTable{N: n, Data: make([][]byte, n)}
	ret := []byte{11}
	bad := []byte{139, 139, 139, 5, 11} // draws something: calling it by mistake is visible
	for i := range t.Data {
		t.Data[i] = ret
		if i%7 == 3 {
			t.Data[i] = bad
		}
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			t.free = append(t.free, i)
		}
	}
	for _, i := range []int{0, n - 1, 107, 106, 108, 214, 215, 1131, 1130, 1238, 1239, 2262, 2263, 32767, 32768, 32769, 33899, 1} {
		add(i)
	}
	for k := 0; k < 12 && n > 0; k++ {
		add(rng.IntN(n))
	}
	rng.Shuffle(len(t.free), func(i, j int) { t.free[i], t.free[j] = t.free[j], t.free[i] })
	return t
}

// alloc returns a free subroutine number, or -1.
func (t *SubrTable) alloc() int {
	if t == nil || len(t.free) == 0 {
		return -1
	}
	i := t.free[len(t.free)-1]
	t.free = t.free[:len(t.free)-1]
	return i
}

// Subroutinize moves random parts of the program into subroutines.
func Subroutinize(rng *rand.Rand, toks []Token, loc, glob *SubrTable, depth int) []Token {
	if depth >= 10 || len(toks) < 2 {
		return toks
	}
	m := 1 + rng.IntN(3)
	for k := 0; k < m; k++ {
		a := rng.IntN(len(toks))
		b := a + 1 + rng.IntN(len(toks)-a)
		if rng.IntN(3) > 0 {
			b = min(b, a+1+rng.IntN(8))
		}
		t, op := loc, "callsubr"
		if rng.IntN(2) == 0 {
			t, op = glob, "callgsubr"
		}
		i := t.alloc()
		if i < 0 {
			continue
		}
		// the call needs one more stack entry
		if d := maxDepthAt(toks, a); d >= 47 {
			continue
		}
		part := append([]Token{}, toks[a:b]...)
		for _, x := range part {
			if x.Op == "callsubr" || x.Op == "callgsubr" {
				part = nil
				break
			}
		}
		if part == nil {
			continue
		}
		if rng.IntN(2) == 0 {
			part = Subroutinize(rng, part, loc, glob, depth+1)
		}
		body := Join(part)
		if part[len(part)-1].Op != "endchar" {
			body = append(body, 11)
		}
		t.Data[i] = body
		call := []Token{{Code: EncNum(float64(i-Bias(t.N)), rng.IntN(2)), Val: 0}, {Code: opCode[op], Op: op}}
		toks = append(append(append([]Token{}, toks[:a]...), call...), toks[b:]...)
	}
	return toks
}

// maxDepthAt is a conservative bound for the stack depth before token a:
// the number of numbers since the last stack-clearing operator.
func maxDepthAt(toks []Token, a int) int {
	n := 0
	for i := a - 1; i >= 0; i-- {
		switch toks[i].Op {
		case "", "dup", "index", "get", "random", "callsubr", "callgsubr":
			n++
			if toks[i].Op == "callsubr" || toks[i].Op == "callgsubr" {
				n += 20
			}
		case "abs", "add", "sub", "div", "neg", "eq", "drop", "put", "mul", "sqrt", "exch", "roll", "and", "or", "not", "ifelse", "return":
		default:
			return n
		}
	}
	return n + 2
}
