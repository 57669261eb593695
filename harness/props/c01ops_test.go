package props

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"robpike.io/ivy/value"
	. "verif.local/harness/h"
)

// pieces of compound operators; those that make arrays as large as their operands' values
// say are kept to small operands.
var opPieces = []string{"@", "@", "@@", "+", "-", "*", "/", "\\", "/%", "\\%", ".", "o.", "f2", "f1", "max", "rho", "take", "drop", "iota", "decode", "encode", ",", ",%", "in", "sel", "fill", "rot", "flip",
	"transp", "part", "mdiv", "!", "==", "===", "mod", "**", "log", "text", "split", "mix", "box", "up", "?", "not", "j", "inv", "first", "&", "<<", ">>", "%", "union", "unique", "count", "where", "float", "up", "code", "char"}

func TestC01_Compound(t *testing.T) {
	Check(t, "C01", 4000, "small operands of every type and shape (empty ones included) around a compound operator glued together at random from names, symbols, @, o., ., /, \\ and %: a value or an error, and the session goes on; non-trivial: three pieces or more, distinct by text", func(c *C) {
		s := NewSess(c)
		s.Do(")maxstack 200\n)maxbits 3000\nop f1 x = x\nop x f2 y = x , y\nx = 3\ny = 1 2 3\nz = 2 3 rho iota 6")
		for i := 0; i < 3; i++ {
			n := c.Range(1, 5)
			var op strings.Builder
			for j := 0; j < n; j++ {
				op.WriteString(Pick(c, opPieces...))
				if c.Prob(1) {
					op.WriteByte(' ')
				}
			}
			opnd := func() string {
				return Pick(c, "1", "2", "0", "-1", "1/2", "1j2", "'a'", "''", "(iota 0)", "1 2 3", "(2 3 rho iota 6)", "(0 3 rho 0)", "(3 0 rho 0)", "(2 2 2 rho iota 8)", "((1 2) 3)", "(1 1 rho 5)", "'abc'", "(box 'ab')", "(2 2 rho 'abcd')", "y", "z", "(, 3)", "(float 3)", "(sqrt 2)", "1 0 1", "2 1", "((iota 0) (iota 0))")
			}
			l := op.String() + " " + opnd()
			if c.Prob(11) {
				l = opnd() + " " + l
			}
			if n > 2 {
				c.Key(l)
			}
			if _, e := s.Run(l); e != "" {
				c.Class("error")
			} else {
				c.Class("value")
			}
		}
		recovered(c, s)
	})
}

func TestC01_Formats(t *testing.T) {
	Check(t, "C01", 2500, "a format put together at random (flags, width, precision, verb, junk), set with )format or used by text, and values of every type and shape printed under it: text or an error; non-trivial: every case, distinct by format and value", func(c *C) {
		s := NewSess(c)
		var b strings.Builder
		for i := c.Range(0, 5); i >= 0; i-- {
			b.WriteString(Pick(c, "%", "%", "%", "%%", "+", "-", "#", " ", "0", "1", "5", "12", ".", ".0", ".3", ".30", "*", "[1]", "d", "d", "x", "X", "o", "O", "b", "e", "E", "f", "F", "g", "G", "g", "e", "f", "v", "q", "s", "c", "U", "t", "T", "w", "p", "é", "z", "/", "\\n", "'", "|"))
		}
		f := b.String()
		if c.Bool() {
			f = "%" + f + Pick(c, "d", "x", "e", "f", "g", "v", "q", "s", "c", "t", "U", "G", "E", "o", "b")
		}
		val := Pick(c, "1", "0", "-7", "123456789", "2**70", "-(7**100)", "1/3", "-22/7", "1/10**20", "1j2", "1/2j-3", "sqrt 2", "- sqrt 3", "1e-400 * sqrt 2", "(float 2) ** 40000", "(float 2) ** -40000", "'a'", "'abc'", "''", "iota 0", "1 2 3", "1 1/2 (sqrt 2)", "2 2 rho 1 1/2 3 4", "2 2 rho 'abcd'", "(1 2) 'ab' 3", "2 2 2 rho iota 8", "0 3 rho 0", "2 2 rho 1 (1 2) 'a' 3", "box 3", "1 2 2 2 rho sqrt iota 8", "!50", "0.1", "1e10", "sqrt -2")
		c.Key(f + "\x00" + val)
		q := QuoteIvy(f)
		if _, e := s.Run(Sprint(q, " text ", val)); e != "" {
			c.Class("text error")
		} else {
			c.Class("text value")
		}
		s.Run(Sprint(Pick(c, "0", "3", "-3", "5 2", "5 -2", "12 3 'e'", "12 3 'g'", "0 0 'f'", "1 2 3 4", "1/2", "'d'", "'T'", "9 9 'x'", "3 'f'", "(iota 0)", "1e3", "2 2 rho 3"), " text ", val))
		s.Run(")format " + q)
		if _, e := s.Run(val); e != "" {
			c.Class("print error")
		} else {
			c.Class("print value")
		}
		s.Run("print " + val)
		s.Run("text " + val)
		s.Run("x = " + val + "\n)var x")
		recovered(c, s)
	})
}

var _ = fmt.Sprint

// Operators whose result is as large as the value of an operand says.
var c01Makers = map[string]bool{"iota": true, "where": true, "rho": true, "take": true, "fill": true, "sel": true, "?": true, "text": true, "part": true, "encode": true, "drop": true, "**": true}

// Extremes: every built-in operator on extreme numbers.
func TestC01_Extremes(t *testing.T) {
	var un, bin []string
	for n := range value.UnaryOps {
		if n != "ivy" && n != "sys" {
			un = append(un, n)
		}
	}
	for n := range value.BinaryOps {
		bin = append(bin, n)
	}
	slices.Sort(un)
	slices.Sort(bin)
	Check(t, "C01", 2500, "every built-in operator, plain or under a reduction, product or each, on extreme operands (infinities, huge and tiny floats, integers around the sizes of machine words, long rationals, complex numbers of these, the last code points), alone or in arrays, with various precisions and bit limits: a value or an error, promptly, and the session goes on; non-trivial: every case, distinct by text", func(c *C) {
		s := NewSess(c)
		s.Do(")maxbits " + Pick(c, "3000", "3000", "64", "1000"))
		if c.Prob(3) {
			s.Do(")prec " + Pick(c, "1", "20", "53", "1000"))
		}
		s.Do("inf = 1 / float 0")
		small := false
		op1 := func() string {
			if small {
				return Pick(c, "inf", "(-inf)", "(1 j inf)", "(2**31)", "(2**63)", "(-(2**63))", "(2**64)", "(-(2**100))", "(1/2**100)", "(float 0)", "(float 3)", "(sqrt 2)", "(1e-300 * sqrt 2)", "(float 2**100)", "0", "1", "-1", "3", "'a'", "(iota 0)")
			}
			return Pick(c, "inf", "(-inf)", "(1 j inf)", "(inf j 0)", "(inf j inf)", "(0 j -inf)", "2147483647", "-2147483648", "2147483646", "-2147483647", "(2**31)", "(2**32)", "(2**62)", "(2**63)", "(-(2**63))", "(2**64)", "(2**100)", "(-(2**100))", "(1/2**100)", "((3**60)/2**100)", "(float 0)", "(0 * float -1)", "(1e-300 * sqrt 2)", "(-1e300 * sqrt 2)", "(float 2**100)", "((float 2)**1000)", "((float 2)**-1000)", "1114111", "1114112", "55296", "'\\U0010ffff'", "'a'", "(sqrt 2)", "0", "1", "-1", "2", "3/2", "1j1", "(sqrt -2)", "(1e20 j 1e-20)")
		}
		opnd := func() string {
			switch c.Idx(9) {
			case 8:
				return Pick(c, "(iota 0)", "(0 3 rho 1)", "(3 0 rho 1)", "''", "(0 0 rho 1)", "(1 0 2 rho 1)", "(,3)", "(1 1 rho 2)")
			case 0:
				return "(" + op1() + " " + op1() + ")"
			case 1:
				return "(2 2 rho " + op1() + " " + op1() + " 1)"
			case 2:
				return "(" + op1() + " (1 " + op1() + ") 'b')"
			}
			return op1()
		}
		for i := 0; i < 3; i++ {
			var l string
			if c.Prob(5) {
				o := un[c.Idx(len(un))]
				small = c01Makers[o]
				l = o + Pick(c, " ", " ", " ", "@ ") + opnd()
			} else {
				o := bin[c.Idx(len(bin))]
				small = c01Makers[o]
				switch c.Idx(6) {
				case 0:
					l = o + Pick(c, "/", "\\", "/%") + " " + op1() + " " + op1()
				case 1:
					l = opnd() + " " + Pick(c, "o.", "+.") + o + " " + opnd()
				case 2:
					l = opnd() + " " + Pick(c, "@"+o, o+"@") + " " + opnd()
				default:
					l = opnd() + " " + o + " " + opnd()
				}
			}
			if c.Prob(4) {
				show := Pick(c, ")var x", "text x", "x === x", "up x, x", "'%d' text x", "'%x' text x", "x[1]", "floor x")
				if strings.Contains(strings.ReplaceAll(l, "(2**", ""), "**") && strings.ContainsAny(show, ")%f") {
					show = "text x" // exact digits of 2**2**30 take minutes
				}
				l = "x = " + l + "\n" + show
			}
			c.Key(l)
			if _, e := s.Run(l); e != "" {
				c.Class("error")
			} else {
				c.Class("value")
			}
		}
		if c.Prob(1) {
			n := Pick(c, "65536 65536", "100000 100000", "2000000000 5", "1000 1000 1000 1000", "46341 46341", "2147483647 2147483647", "3 2147483647")
			l := "(" + n + ") " + Pick(c, "rho 1", "rho 'ab'", "rho 1 2 3", "take 2 2 rho 1", "fill 1 2")
			if strings.Contains(l, "fill") {
				l = "1073741824 " + Pick(c, "1073741824", "3", "2000000000") + " fill 1 2"
			} else if strings.Contains(l, "take") && strings.Count(n, " ") != 1 {
				l = "(" + n + ") rho 1"
			}
			c.Class("too large")
			s.WantErr(l, "the result has too many elements")
		}
		recovered(c, s)
	})
}

// Files: files of lines that get other files of the set, themselves included.
func TestC01_Files(t *testing.T) {
	Check(t, "C01", 40, "up to four files whose lines get one another, directly or through the ivy operator, in cycles or not; a cycle is an error, a session without one runs every line, no file stays open, and the session goes on; non-trivial: a cycle was reached", func(c *C) {
		dir, err := os.MkdirTemp("", "c01")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		n := c.Range(1, 4)
		gets := make([]int, n) // -1: none
		for i := range gets {
			gets[i] = c.Range(-1, n-1)
			text := Sprint("a", i, " = ", 10+i, "\n")
			if j := gets[i]; j >= 0 {
				g := ")get " + QuoteIvy(filepath.Join(dir, Sprint("f", j)))
				text += g + "\n"
			}
			text += Sprint("b", i, " = ", 20+i, "\n")
			c.Step(Sprint("file f", i, ": ", text))
			if err := os.WriteFile(filepath.Join(dir, Sprint("f", i)), []byte(text), 0o644); err != nil {
				panic(err)
			}
		}
		seen := map[int]bool{}
		i := 0
		for i >= 0 && !seen[i] {
			seen[i] = true
			i = gets[i]
		}
		s := NewSess(c)
		g := ")get " + QuoteIvy(filepath.Join(dir, "f0"))
		if i >= 0 {
			c.Key(Sprint(gets))
			c.Class("cycle")
			if _, e := s.Run(g); e == "" {
				c.Fail("no error, though a file gets itself")
			}
		} else {
			c.Class("no cycle")
			s.Do(g)
			for i := range seen {
				s.Want(Sprint("b", i), Int(20+i))
			}
		}
		for i := range seen {
			s.Want(Sprint("a", i), Int(10+i))
		}
		if fds, err := os.ReadDir("/proc/self/fd"); err == nil {
			for _, fd := range fds {
				if l, _ := os.Readlink("/proc/self/fd/" + fd.Name()); strings.HasPrefix(l, dir) {
					c.Fail("%s is still open", l)
				}
			}
		}
		recovered(c, s)
	})
}
