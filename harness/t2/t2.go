// Package t2 is an independent interpreter for Type 2 charstrings, written
// from Adobe Technical Note 5177.
package t2

import (
	"fmt"
	"math"
)

// Kind classifies what is wrong with a program.
type Kind int

// The kinds of errors.
const (
	Underflow Kind = iota + 1
	Overflow
	NoEndchar
	BadSubr
	NoMove
	Depth
	Count     // an operand count the operator does not allow (too many)
	BadOp     // unknown operator
	Undefined // behaviour which the specification leaves undefined
	HintOrder
	Seac
)

func (k Kind) String() string {
	return []string{"?", "stack underflow", "stack overflow", "missing endchar", "bad subroutine index", "drawing before moveto",
		"call depth", "operand count", "bad operator", "undefined", "hint order", "seac"}[k]
}

// Error is returned for malformed programs.
type Error struct {
	Kind Kind
	Msg  string
}

func (e *Error) Error() string { return e.Kind.String() + ": " + e.Msg }

// Op is a path or mask operation.  Kind is one of "m", "l", "c" (absolute
// coordinates), "h" (hintmask) and "k" (cntrmask).
type Op struct {
	Kind byte
	Args []float64
	Mask []byte
}

// Result is the outcome of running a program.
type Result struct {
	Ops          []Op
	HStem, VStem []float64
	Width        float64
	HasWidth     bool
	MaxStack     int
	MaxDepth     int
	Used         map[string]int
}

// Interp holds the environment.
type Interp struct {
	Subrs, GSubrs    [][]byte
	Default, Nominal float64
	Used             map[string]int
}

type state struct {
	in       *Interp
	res      *Result
	stack    []float64
	x, y     float64
	moved    bool
	gotWidth bool
	hints    int // 0: nothing yet, 1: hstem seen, 2: vstem seen, 3: mask or path seen
	storage  map[int]float64
	done     bool
	steps    int
}

// Bias returns the subroutine bias.
func Bias(n int) int {
	if n < 1240 {
		return 107
	}
	if n < 33900 {
		return 1131
	}
	return 32768
}

var opNames = map[int]string{
	1: "hstem", 3: "vstem", 4: "vmoveto", 5: "rlineto", 6: "hlineto", 7: "vlineto", 8: "rrcurveto", 10: "callsubr",
	11: "return", 14: "endchar", 18: "hstemhm", 19: "hintmask", 20: "cntrmask", 21: "rmoveto", 22: "hmoveto", 23: "vstemhm",
	24: "rcurveline", 25: "rlinecurve", 26: "vvcurveto", 27: "hhcurveto", 29: "callgsubr", 30: "vhcurveto", 31: "hvcurveto",
	1200: "dotsection", 1203: "and", 1204: "or", 1205: "not", 1209: "abs", 1210: "add", 1211: "sub", 1212: "div", 1214: "neg", 1215: "eq",
	1218: "drop", 1220: "put", 1221: "get", 1222: "ifelse", 1223: "random", 1224: "mul", 1226: "sqrt", 1227: "dup", 1228: "exch",
	1229: "index", 1230: "roll", 1234: "hflex", 1235: "flex", 1236: "hflex1", 1237: "flex1",
}

// Run executes the program.
func (in *Interp) Run(code []byte) (res *Result, err error) {
	s := &state{in: in, res: &Result{Width: in.Default, Used: in.Used}, storage: map[int]float64{}}
	if s.res.Used == nil {
		s.res.Used = map[string]int{}
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Error)
			if !ok {
				panic(r)
			}
			res, err = s.res, e
		}
	}()
	s.exec(code, 0)
	if !s.done {
		fail(NoEndchar, "program ends without endchar")
	}
	return s.res, nil
}

func fail(k Kind, format string, args ...any) {
	panic(&Error{k, fmt.Sprintf(format, args...)})
}

func (s *state) push(x float64) {
	s.stack = append(s.stack, x)
	if len(s.stack) > 48 {
		fail(Overflow, "more than 48 operands")
	}
	if len(s.stack) > s.res.MaxStack {
		s.res.MaxStack = len(s.stack)
	}
}

func (s *state) pop() float64 {
	if len(s.stack) == 0 {
		fail(Underflow, "pop from empty stack")
	}
	x := s.stack[len(s.stack)-1]
	s.stack = s.stack[:len(s.stack)-1]
	return x
}

// takeWidth removes the width operand, if present.
func (s *state) takeWidth(present bool) {
	if s.gotWidth {
		return
	}
	s.gotWidth = true
	if present {
		s.res.HasWidth = true
		s.res.Width = s.in.Nominal + s.stack[0]
		s.stack = append([]float64{}, s.stack[1:]...)
	}
}

func (s *state) moveTo(dx, dy float64) {
	s.moved = true
	s.x += dx
	s.y += dy
	s.res.Ops = append(s.res.Ops, Op{Kind: 'm', Args: []float64{s.x, s.y}})
}

func (s *state) lineTo(dx, dy float64) {
	if !s.moved {
		fail(NoMove, "line before moveto")
	}
	s.x += dx
	s.y += dy
	s.res.Ops = append(s.res.Ops, Op{Kind: 'l', Args: []float64{s.x, s.y}})
}

func (s *state) curveTo(a, b, c, d, e, f float64) {
	if !s.moved {
		fail(NoMove, "curve before moveto")
	}
	x1, y1 := s.x+a, s.y+b
	x2, y2 := x1+c, y1+d
	s.x, s.y = x2+e, y2+f
	s.res.Ops = append(s.res.Ops, Op{Kind: 'c', Args: []float64{x1, y1, x2, y2, s.x, s.y}})
}

func (s *state) addStems(dst *[]float64) {
	pos := 0.0
	for i := 0; i+1 < len(s.stack); i += 2 {
		a := pos + s.stack[i]
		b := a + s.stack[i+1]
		*dst = append(*dst, a, b)
		pos = b
	}
}

func (s *state) need(n int, op string) {
	if len(s.stack) < n {
		fail(Underflow, "%s with %d operands", op, len(s.stack))
	}
}

func (s *state) exec(code []byte, depth int) {
	if depth > s.res.MaxDepth {
		s.res.MaxDepth = depth
	}
	i := 0
	for i < len(code) {
		s.steps++
		if s.steps > 2000000 {
			fail(Undefined, "too many steps")
		}
		b := int(code[i])
		if b >= 32 || b == 28 {
			var v float64
			n := 0
			switch {
			case b == 28:
				n = 3
			case b <= 246:
				n = 1
			case b <= 254:
				n = 2
			default:
				n = 5
			}
			if i+n > len(code) {
				fail(NoEndchar, "truncated number")
			}
			switch {
			case b == 28:
				v = float64(int16(uint16(code[i+1])<<8 | uint16(code[i+2])))
			case b <= 246:
				v = float64(b - 139)
			case b <= 250:
				v = float64((b-247)*256 + int(code[i+1]) + 108)
			case b <= 254:
				v = float64(-(b-251)*256 - int(code[i+1]) - 108)
			default:
				u := uint32(code[i+1])<<24 | uint32(code[i+2])<<16 | uint32(code[i+3])<<8 | uint32(code[i+4])
				v = float64(int32(u)) / 65536
			}
			s.push(v)
			i += n
			continue
		}
		op := b
		i++
		if b == 12 {
			if i >= len(code) {
				fail(NoEndchar, "truncated operator")
			}
			op = 1200 + int(code[i])
			i++
		}
		name := opNames[op]
		if name == "" {
			fail(BadOp, "operator %d", op)
		}
		s.res.Used[name]++
		st := s.stack
		n := len(st)
		switch name {
		case "hstem", "hstemhm", "vstem", "vstemhm":
			s.need(2, name)
			s.takeWidth(n%2 == 1)
			if len(s.stack)%2 != 0 {
				fail(Count, "%s with %d operands", name, n)
			}
			if name[0] == 'h' {
				if s.hints >= 2 {
					fail(HintOrder, "%s", name)
				}
				s.hints = 1
				s.addStems(&s.res.HStem)
			} else {
				if s.hints >= 3 {
					fail(HintOrder, "%s", name)
				}
				s.hints = 2
				s.addStems(&s.res.VStem)
			}
			s.stack = s.stack[:0]
		case "hintmask", "cntrmask":
			s.takeWidth(n%2 == 1)
			if len(s.stack)%2 != 0 {
				fail(Count, "%s with %d operands", name, n)
			}
			if len(s.stack) > 0 {
				if s.hints >= 3 {
					fail(HintOrder, "%s", name)
				}
				s.addStems(&s.res.VStem)
				s.stack = s.stack[:0]
			}
			s.hints = 3
			k := (len(s.res.HStem) + len(s.res.VStem)) / 2
			if k == 0 {
				fail(HintOrder, "%s without stems", name)
			}
			m := (k + 7) / 8
			if i+m > len(code) {
				fail(NoEndchar, "truncated mask")
			}
			kind := byte('h')
			if name == "cntrmask" {
				kind = 'k'
			}
			s.res.Ops = append(s.res.Ops, Op{Kind: kind, Mask: append([]byte{}, code[i:i+m]...)})
			i += m
		case "rmoveto", "hmoveto", "vmoveto":
			want := 1
			if name == "rmoveto" {
				want = 2
			}
			s.need(want, name)
			s.takeWidth(n > want)
			s.hints = 3
			st = s.stack
			if len(st) > want {
				fail(Count, "%s with %d operands", name, n)
			}
			switch name {
			case "rmoveto":
				s.moveTo(st[0], st[1])
			case "hmoveto":
				s.moveTo(st[0], 0)
			case "vmoveto":
				s.moveTo(0, st[0])
			}
			s.stack = st[:0]
		case "rlineto":
			s.need(2, name)
			if n%2 != 0 {
				fail(Underflow, "rlineto with %d operands", n)
			}
			for k := 0; k < n; k += 2 {
				s.lineTo(st[k], st[k+1])
			}
			s.stack = st[:0]
		case "hlineto", "vlineto":
			s.need(1, name)
			h := name == "hlineto"
			for _, v := range st {
				if h {
					s.lineTo(v, 0)
				} else {
					s.lineTo(0, v)
				}
				h = !h
			}
			s.stack = st[:0]
		case "rrcurveto":
			s.need(6, name)
			if n%6 != 0 {
				fail(Underflow, "rrcurveto with %d operands", n)
			}
			for k := 0; k < n; k += 6 {
				s.curveTo(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
			}
			s.stack = st[:0]
		case "rcurveline":
			s.need(8, name)
			if (n-2)%6 != 0 {
				fail(Underflow, "rcurveline with %d operands", n)
			}
			k := 0
			for ; k+6 <= n-2; k += 6 {
				s.curveTo(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
			}
			s.lineTo(st[k], st[k+1])
			s.stack = st[:0]
		case "rlinecurve":
			s.need(8, name)
			if (n-6)%2 != 0 {
				fail(Underflow, "rlinecurve with %d operands", n)
			}
			k := 0
			for ; k+2 <= n-6; k += 2 {
				s.lineTo(st[k], st[k+1])
			}
			s.curveTo(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
			s.stack = st[:0]
		case "hhcurveto", "vvcurveto":
			s.need(4, name)
			if n%4 > 1 {
				fail(Underflow, "%s with %d operands", name, n)
			}
			k := 0
			first := 0.0
			if n%4 == 1 {
				first = st[0]
				k = 1
			}
			for ; k < n; k += 4 {
				if name == "hhcurveto" {
					s.curveTo(st[k], first, st[k+1], st[k+2], st[k+3], 0)
				} else {
					s.curveTo(first, st[k], st[k+1], st[k+2], 0, st[k+3])
				}
				first = 0
			}
			s.stack = st[:0]
		case "hvcurveto", "vhcurveto":
			s.need(4, name)
			if n%4 > 1 {
				fail(Underflow, "%s with %d operands", name, n)
			}
			h := name == "hvcurveto"
			last := 0.0
			m := n
			if n%4 == 1 {
				last = st[n-1]
				m = n - 1
			}
			for k := 0; k < m; k += 4 {
				ex := 0.0
				if k+4 == m {
					ex = last
				}
				if h {
					s.curveTo(st[k], 0, st[k+1], st[k+2], ex, st[k+3])
				} else {
					s.curveTo(0, st[k], st[k+1], st[k+2], st[k+3], ex)
				}
				h = !h
			}
			s.stack = st[:0]
		case "flex":
			s.need(13, name)
			if n > 13 {
				fail(Count, "flex with %d operands", n)
			}
			s.curveTo(st[0], st[1], st[2], st[3], st[4], st[5])
			s.curveTo(st[6], st[7], st[8], st[9], st[10], st[11])
			s.stack = st[:0]
		case "flex1":
			s.need(11, name)
			if n > 11 {
				fail(Count, "flex1 with %d operands", n)
			}
			dx := st[0] + st[2] + st[4] + st[6] + st[8]
			dy := st[1] + st[3] + st[5] + st[7] + st[9]
			if math.Abs(dx) == math.Abs(dy) {
				s.res.Used["flex1-tie"]++
			}
			x6, y6 := st[10], -dy
			if !(math.Abs(dx) > math.Abs(dy)) {
				x6, y6 = -dx, st[10]
			}
			s.curveTo(st[0], st[1], st[2], st[3], st[4], st[5])
			s.curveTo(st[6], st[7], st[8], st[9], x6, y6)
			s.stack = st[:0]
		case "hflex":
			s.need(7, name)
			if n > 7 {
				fail(Count, "hflex with %d operands", n)
			}
			s.curveTo(st[0], 0, st[1], st[2], st[3], 0)
			s.curveTo(st[4], 0, st[5], -st[2], st[6], 0)
			s.stack = st[:0]
		case "hflex1":
			s.need(9, name)
			if n > 9 {
				fail(Count, "hflex1 with %d operands", n)
			}
			s.curveTo(st[0], st[1], st[2], st[3], st[4], 0)
			s.curveTo(st[5], 0, st[6], st[7], st[8], -(st[1] + st[3] + st[7]))
			s.stack = st[:0]
		case "dotsection":
			s.stack = st[:0]
		case "endchar":
			s.takeWidth(n == 1 || n == 5)
			if len(s.stack) == 4 {
				fail(Seac, "endchar with 4 operands")
			} else if len(s.stack) > 0 {
				fail(Count, "endchar with %d operands", n)
			}
			s.done = true
			return
		case "callsubr", "callgsubr":
			v := s.pop()
			if v != math.Trunc(v) {
				fail(Undefined, "fractional subroutine number")
			}
			t := s.in.Subrs
			if name == "callgsubr" {
				t = s.in.GSubrs
			}
			idx := int(v) + Bias(len(t))
			if idx < 0 || idx >= len(t) {
				fail(BadSubr, "%s %d of %d", name, idx, len(t))
			}
			if depth+1 > 10 {
				fail(Depth, "call depth")
			}
			s.exec(t[idx], depth+1)
			if s.done {
				return
			}
		case "return":
			if depth == 0 {
				fail(NoEndchar, "return outside subroutine")
			}
			return
		case "and":
			b, a := s.pop(), s.pop()
			s.push(b2f(a != 0 && b != 0))
		case "or":
			b, a := s.pop(), s.pop()
			s.push(b2f(a != 0 || b != 0))
		case "not":
			s.push(b2f(s.pop() == 0))
		case "abs":
			s.push(math.Abs(s.pop()))
		case "add":
			b, a := s.pop(), s.pop()
			s.push(s.rng(a + b))
		case "sub":
			b, a := s.pop(), s.pop()
			s.push(s.rng(a - b))
		case "div":
			b, a := s.pop(), s.pop()
			if b == 0 {
				fail(Undefined, "division by zero")
			}
			s.push(s.rng(a / b))
		case "neg":
			s.push(-s.pop())
		case "eq":
			b, a := s.pop(), s.pop()
			if math.IsNaN(a) || math.IsNaN(b) {
				fail(Undefined, "depends on a random number")
			}
			s.push(b2f(a == b))
		case "drop":
			s.pop()
		case "put":
			i, v := s.pop(), s.pop()
			if i != math.Trunc(i) || i < 0 || i > 31 {
				fail(Undefined, "put index")
			}
			s.storage[int(i)] = v
		case "get":
			i := s.pop()
			v, ok := s.storage[int(i)]
			if i != math.Trunc(i) || i < 0 || i > 31 || !ok {
				fail(Undefined, "get index")
			}
			s.push(v)
		case "ifelse":
			v2, v1, s2, s1 := s.pop(), s.pop(), s.pop(), s.pop()
			if math.IsNaN(v1) || math.IsNaN(v2) {
				fail(Undefined, "depends on a random number")
			}
			if v1 <= v2 {
				s.push(s1)
			} else {
				s.push(s2)
			}
		case "random":
			s.push(math.NaN()) // anything in (0, 1]
		case "mul":
			b, a := s.pop(), s.pop()
			s.push(s.rng(a * b))
		case "sqrt":
			a := s.pop()
			if a < 0 {
				fail(Undefined, "sqrt of a negative number")
			}
			s.push(math.Sqrt(a))
		case "dup":
			a := s.pop()
			s.push(a)
			s.push(a)
		case "exch":
			b, a := s.pop(), s.pop()
			s.push(b)
			s.push(a)
		case "index":
			v := s.pop()
			if v != math.Trunc(v) {
				fail(Undefined, "fractional index")
			}
			if v < 0 {
				v = 0
			}
			if int(v) >= len(s.stack) {
				fail(Underflow, "index %g of %d", v, len(s.stack))
			}
			s.push(s.stack[len(s.stack)-1-int(v)])
		case "roll":
			j, cnt := s.pop(), s.pop()
			if j != math.Trunc(j) || cnt != math.Trunc(cnt) || cnt < 0 {
				fail(Undefined, "roll arguments")
			}
			m := int(cnt)
			if m > len(s.stack) {
				fail(Underflow, "roll %d of %d", m, len(s.stack))
			}
			if m > 0 {
				base := len(s.stack) - m
				old := append([]float64{}, s.stack[base:]...)
				for k := range old {
					// positive j: the top element moves to the bottom
					t := (k + int(j)) % m
					if t < 0 {
						t += m
					}
					s.stack[base+t] = old[k]
				}
			}
		default:
			panic("unhandled " + name)
		}
	}
	if depth > 0 {
		fail(Undefined, "subroutine without return")
	}
}

func (s *state) rng(x float64) float64 {
	if x >= 32768 || x < -32768 || math.IsNaN(x) {
		fail(Undefined, "arithmetic overflow")
	}
	return x
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// OpName returns the name of an operator.
func OpName(op int) string {
	if n, ok := opNames[op]; ok {
		return n
	}
	return fmt.Sprintf("op%d", op)
}
