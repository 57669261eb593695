package props

import (
	"fmt"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// The pieces of the text fuzzers. Numbers stay small so that every line is a small
// computation; operators that create arrays come with their small operands.
var soupOperands = []string{"0", "1", "2", "3", "5", "7", "12", "-1", "-3", "1/2", "-2/3", "1j2", "1.5", "x", "y", "z", "m", "'a'", `"abc"`,
	"''", "(iota 3)", "(2 3 rho iota 6)", "(2 rho 0)", "(0 3 rho 0)", "(box 1 2)", "('ab' 3)", "a", "b", "e", "pi", "sys 'base'", "0x1f", "1e2", "_", "`q`", "(2 2 2 rho 'ab')"}
var soupUnary = []string{"-", "+", "/", "not", "floor", "ceil", "sgn", "abs", "sqrt", "sin", "cos", "atan", "log", "up", "down", "rho", "count", "flatten",
	"first", "mix", "split", "box", ",", "rot", "flip", "transp", "unique", "where", "code", "char", "text", "float", "real", "imag", "conj", "phase", "j", "f1", "f3", "^",
	"+/", "*\\", "max/", "and/", ",/", "+/%", "-\\%", "f2/", "not@", "count@", "rho@", "inv", "ivy 'x'", "ivy '1 +'", "sys", "print"}
var soupBinary = []string{"+", "-", "*", "/", "==", "<", ">=", "!=", "max", "min", "and", "or", "mod", "div", "idiv", "imod", ",", ",%", "in", "drop",
	"rot", "flip", "decode", "encode", "iota", "===", "!==", "union", "intersect", "part", "text", "j", "f2", "f4", "o.+", "o.==", "+.*", "max.+", "f2.f2", "o.f2",
	"+@", "@,", "@+@", "f2@", "transp", "mdiv", "&", "|", "^", ":", "=", ";", "log", "2 take", "2 2 rho", "3 fill", "1 0 1 sel"}
var soupJunk = []string{"(", ")", "[", "]", "[1]", "[1;]", "[;2]", "[]", "{", "}", ";", "=", "#", "# c", "\n", "\n\n", "\t", ":", "'", "\"", "`", "\\", "@", ".", "..", "o.", "%", "$", "~", "op", "opdelete f1",
	"op f1 x = x + 1", "op x f2 y = x - y", "op q x =", "op", "op x", "ifelse", "\x00", "\u00a0", "\u2028", "é", "世", "\xff", "1.", ".5", "1e", "0x", "1/0", "1//2", "1j", "j1", "1j1j1", "1e400", "1_000", "0b101", "0o17", "0z", "'\\u12'", "\"\\x4\"", "'\\777'"}
var soupCommands = []string{")", ") ", ")base", ")base 16", ")base 10", ")base 1", ")ibase 8", ")obase 2", ")ibase", ")obase 37", ")origin 0", ")origin 5", ")origin -1", ")format '%5d'", ")format", ")format \"%q%q\"", ")maxbits 100", ")maxbits 1e9", ")maxdigits 3", ")maxdigits",
	")maxstack 50", ")prec 100", ")prec 0", ")prec 256", ")prompt 'x'", ")prompt", ")seed 3", ")seed", ")debug", ")debug tokens", ")debug types", ")debug parse", ")debug trace", ")debug tokens 0", ")debug types 0", ")debug parse 0", ")debug trace 0", ")debug cpu 1", ")debug cpu 0", ")debug nosuch", ")op", ")op f1", ")op nosuch",
	")var", ")var x", ")var nosuch", ")get '/nonexistent/file'", ")save '/nonexistent/dir/f'", ")timezone", ")timezone 'UTC'", ")timezone 'no/where'", ")help", ")help +", ")help about x", ")cpu", ")nosuch", ")demo nosuch extra", ")origin x", ")base 1 2 3", ")seed 1 2", ")format 1"}

func soup(c *C) string {
	var b strings.Builder
	n := c.Range(1, 14)
	operand := c.Bool()
	for i := 0; i < n; i++ {
		switch {
		case c.Prob(2):
			b.WriteString(Pick(c, soupJunk...))
			operand = c.Bool()
		case operand:
			b.WriteString(Pick(c, soupOperands...))
			operand = c.Prob(3)
		case c.Bool():
			b.WriteString(Pick(c, soupUnary...))
			operand = !c.Prob(2)
		default:
			b.WriteString(Pick(c, soupBinary...))
			operand = !c.Prob(2)
		}
		if !c.Prob(2) {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// opText draws an operator definition, often malformed.
func opText(c *C) string {
	head := Pick(c, "op f1 x = ", "op x f2 y = ", "op f3 (x y) = ", "op (x y) f4 z = ", "op f1 x =\n ", "op x f2 y =\n ", "op f3 (x (y z)) = ", "op f1 x", "op x f2 y", "op f5 x y = ", "op f1 = ", "op x + y = ", "op + x = ", "op f1 1 = ", "op 'a' f1 x = ", "op f1 (x x) = ", "op x f2 x = ")
	if !strings.HasSuffix(head, "= ") && !strings.HasSuffix(head, "\n ") {
		return head
	}
	k := c.Range(0, 3)
	var parts []string
	for i := 0; i < k; i++ {
		p := soup(c)
		if c.Prob(6) {
			p = Pick(c, "x", "x == 0", "y > 1", "x < 3") + " : " + p
		}
		if c.Prob(4) {
			p = Pick(c, "f1 x - 1", "x f2 y - 1", "f1 x", "f3 x y", "z = x", "a = x + 1", "x = x , 1") + Pick(c, "", " ; ", " + ") + p
		}
		parts = append(parts, p)
	}
	sep := Pick(c, "; ", "\n ", "\n\t")
	return head + strings.Join(parts, sep) + Pick(c, "", "\n", "\n\n")
}

func mutateText(c *C, s string) string {
	r := []byte(s)
	for k := c.Range(1, 3); k > 0 && len(r) > 0; k-- {
		i := c.Idx(len(r))
		switch c.Idx(5) {
		case 0:
			r = append(r[:i], r[i+1:]...)
		case 1:
			r[i] = byte(Pick(c, '(', ')', ' ', '\'', '\n', '[', ']', '.', '@', '/', '-', ':', ';', '=', 0x80, 'x'))
		case 2:
			r = append(r[:i], append([]byte(Pick(c, "(", ")", " ", "'", "\"", "\n", "[", "]", ".", "@", "/", "\\", "-", ";", "\xc3")), r[i:]...)...)
		case 3:
			r = r[:i]
		case 4:
			j := c.Idx(len(r))
			r[i], r[j] = r[j], r[i]
		}
	}
	return string(r)
}

func TestC01_Soup(t *testing.T) {
	Check(t, "C01", 3000, "a session of up to 8 lines drawn from the grammar's pieces (operands, operators, quotes, brackets, malformed numbers and literals, definitions with wrong heads and bodies, special commands with good and bad arguments), often mutated byte by byte, under random settings; each must end in output or an error, and a fresh line must still work; non-trivial: every session, distinct by text", func(c *C) {
		s := NewSess(c)
		s.Do(")maxstack 200")
		s.Do("x = 3\ny = 1 2 3\nz = 2 3 rho iota 6\nm = 'ab' (1 2) 3\na = 1/3\nb = 'hello'\nop f1 x = x\nop x f2 y = x + y\nop f3 (x y) = x , y\nop (x y) f4 z = x")
		n := c.Range(1, 8)
		for i := 0; i < n; i++ {
			var l string
			switch c.Idx(8) {
			case 0:
				l = Pick(c, soupCommands...)
			case 1, 2:
				l = opText(c)
			default:
				l = soup(c)
			}
			if c.Prob(4) {
				l = mutateText(c, l)
			}
			if tooBig(l) {
				continue
			}
			c.Key(l)
			_, e := s.Run(l)
			if e != "" {
				c.Class("error")
			} else {
				c.Class("value")
			}
			// Keep the values small.
			for _, nm := range []string{"x", "y", "z", "m", "a", "b"} {
				v := s.Raw(nm)
				if v == nil {
					continue
				}
				if r := s.Get(nm); r.Size() > 300 || r.Bits() > 3000 {
					s.Do(nm + " = 1 2")
				}
			}
		}
		recovered(c, s)
	})
}

// recovered checks that the session still computes.
func recovered(c *C, s *Sess) {
	s.Run(")ibase 10")
	s.Run(")obase 10")
	s.Run(")format ''")
	s.Run(")prec 256")
	s.Run(")maxbits 1000000")
	s.Run(")maxdigits 10000")
	s.Run(")maxstack 200")
	for _, d := range []string{"tokens", "types", "parse", "trace", "cpu"} {
		s.Run(")debug " + d + " 0")
	}
	out, e := s.Run("qq1 = 1 2 3\nqq1")
	if out != "1 2 3\n" || e != "" {
		c.Fail("after the session, a simple program gives %q, error %q", out, e)
	}
}

func tooBig(l string) bool {
	// Mutations can join digits: refuse long digit strings and exponents.
	run := 0
	for _, r := range l {
		if r >= '0' && r <= '9' {
			run++
			if run > 4 {
				return true
			}
		} else {
			run = 0
		}
	}
	return strings.Contains(l, "demo") || strings.Contains(l, "panic") || strings.Contains(l, "rand") || strings.Contains(l, "**")
}

func TestC01_Nesting(t *testing.T) {
	Check(t, "C01", 60, "one line of up to 20,000, at times 2,000,000, repetitions of a grammar piece (parentheses, operators, quotes, brackets, separators, operands), well formed or cut short; must end in output or an error and leave the session usable; non-trivial: at least 100 repetitions", func(c *C) {
		n := c.Range(1, 20000)
		p := Pick(c, [3]string{"(", "1", ")"}, [3]string{"-", "1", ""}, [3]string{"1+", "1", ""}, [3]string{"1 ", "1", ""}, [3]string{"(1 ", "2", ")"},
			[3]string{"(", "", ""}, [3]string{"", "1", ")"}, [3]string{"x[", "1", "]"}, [3]string{"x", "", "[1]"}, [3]string{"; ", "1", ""}, [3]string{"1;", "1", ""}, [3]string{"'a' ", "1", ""},
			[3]string{"x = ", "1", ""}, [3]string{"x:", "1", ""}, [3]string{"not@ ", "1", ""}, [3]string{"op ", "x", ""}, [3]string{"box ", "1", ""}, [3]string{"f1 ", "1", ""},
			[3]string{"[", "", ""}, [3]string{"", "", "@"}, [3]string{"+/", "1 2", ""}, [3]string{"o.", "+", ""}, [3]string{"1j", "1", ""}, [3]string{"1/", "1", ""}, [3]string{".", "", ""}, [3]string{"\\", "", ""},
			[3]string{"ivy '", "1", "'"}, [3]string{"\n", "1", ""}, [3]string{")", "", ""}, [3]string{"#", "", ""})
		if p[0] == "box " && n > 300 {
			n = 300 // printing deep boxes is quadratic
		}
		if n > 15000 && c.Prob(4) && strings.Contains("( - 1+ x[ (1 x [1] x = x: 2 f1 not@ +/", p[0]+p[2]) && p[0] != "(1 " {
			n *= 100
			c.Class("millions")
		}
		if strings.Contains(p[0], ";") && n > 3000 {
			n = 3000
		}
		if p[0] == "(1 " && n > 300 {
			n = 300
		}
		l := strings.Repeat(p[0], n) + p[1]
		if c.Prob(3) {
			l += strings.Repeat(p[2], c.Idx(n))
		} else {
			l += strings.Repeat(p[2], n)
		}
		if n >= 100 {
			c.Key(fmt.Sprint(p, len(l)))
		}
		s := NewSess(c)
		s.Do("x = 1 2 3\nop f1 x = x")
		c.Class(p[0] + p[1] + p[2])
		s.Run(l)
		if c.Prob(2) {
			// Text that evaluates itself, directly or through other variables or an operator.
			k := c.Range(1, 3)
			for i := 0; i < k; i++ {
				next := Sprint("t", (i+1)%k)
				s.Do(Sprint("t", i, " = ", QuoteIvy(Pick(c, "ivy ", "1 + ivy ", "ivy@ box ", "2 , ivy ", "q = ivy ", "r = 1; r + ivy ", "1 g9 ivy ", "(ivy ")+next)))
			}
			s.Do("op x g9 y = y")
			if c.Bool() {
				s.Do(")maxstack " + Pick(c, "10", "1000", "1"))
			}
			c.Class("ivy")
			s.WantErr("ivy t0", "endless")
			s.Do(")maxstack 100000")
			s.Want("2 + ivy '3'", Int(5))
		}
		out, e := s.Run("1+1")
		if out != "2\n" || e != "" {
			c.Fail("after the line, 1+1 gives %q, error %q", out, e)
		}
	})
}
