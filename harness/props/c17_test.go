package props

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

func c17Big(c *C, bits int) *big.Int {
	x := big.NewInt(1)
	for i := 1; i < bits; i++ {
		x.Lsh(x, 1)
		if i%7 == 0 || c.Idx(4) == 0 {
			x.SetBit(x, 0, 1)
		}
		if i > 60 && bits-i > 1 { // the rest a pattern
			x.Lsh(x, uint(bits-i-1))
			x.SetBit(x, 0, uint(c.Idx(2)))
			break
		}
	}
	return x
}

func binomial(n, k int64) *big.Int { return new(big.Int).Binomial(n, k) }

// c17Expr draws an expression over integers whose exact value is known, and whether
// the limit is judged from an estimate (then a margin is left around it).
func c17Expr(c *C, L int) (pre, src string, val *big.Int, est bool, kind string) {
	src, val, est, kind = c17Expr1(c, L)
	if c.Prob(3) {
		// The large operand was made while a higher limit (or none) was in force.
		a := c17Big(c, Pick(c, L/4+2, L-4, L+1, L+10, 2*L))
		if c.Prob(4) {
			a.Neg(a)
		}
		b := big.NewInt(int64(Pick(c, 1, 2, 3, -1, 7, 1000, 4000000000, -4000000000)))
		if c.Prob(3) {
			b = c17Big(c, c.Range(65, 90))
		}
		pre = ")maxbits 0\na0 = " + BI(a).Src()
		y := BI(b).Src()
		z := new(big.Int)
		switch c.Idx(8) {
		case 0:
			return pre, "a0 + " + y, z.Add(a, b), false, "old +"
		case 1:
			return pre, "(" + y + ") + a0", z.Add(a, b), false, "old +"
		case 2:
			return pre, "a0 - " + y, z.Sub(a, b), false, "old -"
		case 3:
			return pre, "(" + y + ") - a0", z.Sub(b, a), false, "old -"
		case 4:
			return pre, "a0 * " + y, z.Mul(a, b), false, "old *"
		case 5:
			return pre, "(" + y + ") * a0", z.Mul(a, b), false, "old *"
		case 6:
			n := c.Range(1, 80)
			return pre, fmt.Sprint("a0 << ", n), z.Lsh(a, uint(n)), false, "old <<"
		case 7:
			n := c.Range(1, 4)
			return pre, fmt.Sprint("a0 ** ", n), z.Exp(a, big.NewInt(int64(n)), nil), false, "old **"
		}
	}
	return "", src, val, est, kind
}

func c17Expr1(c *C, L int) (src string, val *big.Int, est bool, kind string) {
	// Bits of the result: clearly below, around, above.
	target := Pick(c, L/4, L/2-70, L-2, L, L+1, L+2, L+70, 2*L, 3*L, 5*L+200)
	if target < 70 {
		target = 70
	}
	neg := func(x *big.Int) *big.Int {
		if c.Prob(4) {
			return new(big.Int).Neg(x)
		}
		return x
	}
	lit := func(x *big.Int) string { return BI(x).Src() }
	switch c.Idx(14) {
	case 0:
		h := c.Range(1, target-1)
		a, b := neg(c17Big(c, h)), neg(c17Big(c, target-h))
		return "(" + lit(a) + ") * " + lit(b), new(big.Int).Mul(a, b), false, "*"
	case 1:
		a, b := c17Big(c, target), c17Big(c, target)
		return "(" + lit(a) + ") + " + lit(b), new(big.Int).Add(a, b), false, "+"
	case 2:
		a, b := c17Big(c, target), c17Big(c, target-1)
		b.Neg(b)
		return "(" + lit(a) + ") - " + lit(b), new(big.Int).Sub(a, b), false, "-"
	case 3:
		a := neg(c17Big(c, c.Range(1, 60)))
		n := target - a.BitLen()
		if n < 0 {
			n = 0
		}
		return fmt.Sprintf("(%s) << %d", lit(a), n), new(big.Int).Lsh(a, uint(n)), false, "<<"
	case 4:
		a := neg(c17Big(c, c.Range(2, 40)))
		if c.Bool() {
			a = neg(c17Big(c, c.Range(min(60, target/2), max(target/2, 60))))
		}
		n := target / a.BitLen()
		return fmt.Sprintf("(%s) ** %d", lit(a), n), new(big.Int).Exp(a, big.NewInt(int64(n)), nil), false, "**"
	case 5:
		n := target - 1
		return fmt.Sprintf("%d ** %d", 2, n), new(big.Int).Lsh(big.NewInt(1), uint(n)), false, "2**"
	case 6:
		n := int64(2)
		f := big.NewInt(2)
		for f.BitLen() < target {
			n++
			f.Mul(f, big.NewInt(n))
		}
		return fmt.Sprintf("!%d", n), f, true, "!"
	case 7:
		n := int64(target + c.Idx(20))
		k := n/2 - int64(c.Idx(5))
		return fmt.Sprintf("%d!%d", k, n), binomial(n, k), true, "k!n"
	case 8:
		n := int64(2)
		f := big.NewInt(2)
		for f.BitLen() < target {
			n++
			f.Mul(f, big.NewInt(n))
		}
		return fmt.Sprintf("%s iota %d", Pick(c, "*/", "prod/"), n), f, false, "*/"
	case 9:
		n := target/8 + 1
		v := new(big.Int).Lsh(big.NewInt(1), uint(8*n-8))
		return fmt.Sprintf("256 decode %d take 1", n), v, true, "decode"
	case 10:
		h := target / 2
		a, b := c17Big(c, h), c17Big(c, target-h)
		v := new(big.Int).Mul(a, b)
		v.Add(v, big.NewInt(6))
		return fmt.Sprintf("(%s 2) +.* %s 3", lit(a), lit(b)), v, true, "+.*"
	case 11:
		h := target / 2
		a, b := c17Big(c, h), c17Big(c, target-h)
		return fmt.Sprintf("(%s) times %s", lit(a), lit(b)), new(big.Int).Mul(a, b), false, "user"
	case 12:
		h := target / 2
		a, b := c17Big(c, h), c17Big(c, target-h)
		return fmt.Sprintf("((1 1 %s) %s 1 1 %s)[3]", lit(a), "*", lit(b)), new(big.Int).Mul(a, b), false, "vector"
	default:
		// A float raised far, and its integer part. (Below 100 bits ivy turns the
		// float into an integer before floor sees it.)
		n := target - 1
		if n < 110 {
			n = 110
		}
		return fmt.Sprintf("%s (float 2) ** %d", Pick(c, "floor", "ceil", "floor -", "1 * floor", "ceil 0.5 +"), n), nil, true, "floor"
	}
}

func TestC17_Bits(t *testing.T) {
	Check(t, "C17", 2500, "a limit of 64 to 6000 bits (or none) and an expression over integers, by every operator that can make large ones (+ - * ** << ! k!n, reductions, products, decode, user operators, each, floor and ceil of floats; with operands made under the limit or earlier, before it was lowered), whose exact result is a chosen number of bits below, at and above the limit: above it must be an error, comfortably below (half) it must be the exact value; non-trivial: result over 64 bits, distinct by expression and limit", func(c *C) {
		L := Pick(c, 64, 100, 256, 1000, 3000, 6000)
		pre, src, val, est, kind := c17Expr(c, L)
		s := NewSess(c)
		s.Do("op a times b = a * b\nop a prod b = a * b")
		set := L
		if c.Prob(1) {
			set = 0
		}
		if pre != "" {
			s.Do(pre)
		}
		s.Do(fmt.Sprintf(")maxbits %d", set))
		v, e := s.Eval(src)
		if val == nil { // 2**n through floats
			n := 0
			fmt.Sscan(src[strings.LastIndex(src, "**")+3:], &n)
			bits := n + 1
			switch {
			case e != "" && (bits <= L/2 || set == 0):
				c.Fail("%s under maxbits %d: %s", src, set, e)
			case e == "" && set != 0 && bits > L+2:
				c.Fail("%s under maxbits %d has %d bits but is no error", src, set, bits)
			case e == "":
				if n <= 200 && v.K == Num {
					w := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
					if strings.Contains(src, "-") {
						w.Neg(w)
					} else if strings.Contains(src, "0.5") {
						w.Add(w, big.NewRat(1, 1))
					}
					if v.Re.Cmp(w) != 0 {
						c.Fail("%s gives %s", src, v)
					}
				}
			}
			c.Class(kind)
			return
		}
		bits := val.BitLen()
		if bits > 64 {
			c.Key(fmt.Sprint(set, " ", src))
		}
		slack := 2 // the limit is on the count the operator works out
		if est {
			slack = 64
		}
		switch {
		case set != 0 && bits > L+slack:
			c.Class(kind + " over")
			if e == "" {
				c.Fail("%s under maxbits %d has %d bits but is no error", src, set, bits)
			}
		case set == 0 || bits <= L/2-slack:
			c.Class(kind + " under")
			if e != "" {
				c.Fail("%s under maxbits %d has only %d bits but: %s", src, set, bits, e)
			}
		default:
			c.Class(kind + " near")
		}
		if e == "" && Diff(v, BI(val)) != "" {
			c.Fail("%s under maxbits %d: got %s, want %s", src, set, v, val)
		}
	})
}

func TestC17_Huge(t *testing.T) {
	Check(t, "C17", 150, "expressions whose integer result would be far beyond the default limit (or any memory), under the default limit of 1e9 bits and smaller ones: an error at once, and the session goes on; non-trivial: every case, distinct by text", func(c *C) {
		s := NewSess(c)
		s.Do("op a times b = a * b")
		if c.Bool() {
			s.Do(fmt.Sprintf(")maxbits %d", Pick(c, 100, 10000, 1000000, 1000000000)))
		}
		n := Pick(c, "10000000000", "123456789012", "1000000000000000", "9223372036854775807", "9223372036854775808", "1e20", "1e30", "4294967296", "3000000000")
		src := Pick(c, "2 ** %s", "3 ** %s", "-2 ** %s", "(-7) ** %s", "1 << %s", "(-1) << %s", "12345678901234567890 << %s", "! %s", "1e10 ** %s", "(1<<100) ** %s", "(1<<1000) ** %s", "(3**500) ** %s", "(-3**500) ** %s", "(2/3) ** %s", "(1/3**200) ** %s", "2j3 ** %s", "1j2 ** %s", "(1/2) ** -%s", "2 3 ** %s", "2 times@ 2 ** %s", "2 ** 1 %s", "(2 2 rho 3) ** %s",
			"(%s/2) ! %s", "3 + 2 ** %s", "+/ 2 ** %s 5", "(%s idiv 2) ! %s", "7 ** 2 ** 2 ** 2 ** 2 ** 2 ** 2")
		src = strings.ReplaceAll(src, "%s", n)
		if strings.Contains(src, "! ") && (strings.HasPrefix(n, "9") || strings.HasPrefix(n, "1e")) && strings.Contains(src, "/") {
			src = "! " + n
		}
		c.Key(src)
		v, e := s.Eval(src)
		if e == "" {
			c.Fail("%s is no error: %.100s", src, v)
		}
		s.Want("1 + 1", Int(2))
	})
}

func TestC17_Digits(t *testing.T) {
	Check(t, "C17", 1500, "a digit limit (or none) and integers, and rationals' parts, of about that many digits, positive and negative: with no more digits than the limit an integer prints as its decimal digits, with more it prints in floating-point form, equal to 12 digits; non-trivial: over 9 digits, distinct by limit and number", func(c *C) {
		m := Pick(c, 10, 11, 15, 20, 37, 100, 301, 1000, 10000)
		d := m + c.Range(-3, 3)
		if c.Prob(3) {
			d = c.Range(1, 2*m)
		}
		if d < 1 {
			d = 1
		}
		x := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d-1)), nil)
		switch c.Idx(4) {
		case 0:
		case 1:
			x.Mul(x, big.NewInt(10))
			x.Sub(x, big.NewInt(1))
		case 2:
			x.Mul(x, big.NewInt(int64(c.Range(1, 9))))
			x.Add(x, new(big.Int).Div(GenInt(c).Abs(x), big.NewInt(11)))
		case 3:
			y := new(big.Int).Mul(x, big.NewInt(int64(c.Range(1, 8))))
			x = y.Add(y, new(big.Int).Rsh(x, uint(c.Range(1, 30))))
		}
		if c.Bool() {
			x.Neg(x)
		}
		s := NewSess(c)
		limit := m
		if c.Prob(2) {
			limit = 0
		}
		s.Do(fmt.Sprintf(")maxdigits %d", limit))
		txt := x.String()
		n := len(strings.TrimPrefix(txt, "-"))
		if n > 9 {
			c.Key(fmt.Sprint(limit, txt))
		}
		out, e := s.Run(txt)
		out = strings.TrimSpace(out)
		if e != "" {
			c.Fail("%.60s: %s", txt, e)
		}
		if limit == 0 || n <= limit {
			c.Class("exact")
			if out != txt {
				c.Fail("under maxdigits %d the %d-digit integer %.80s prints as %.80s", limit, n, txt, out)
			}
			return
		}
		c.Class("float")
		if n > 12 && !strings.Contains(out, "e+") {
			c.Fail("under maxdigits %d the %d-digit integer %.80s prints as %.80s", limit, n, txt, out)
		}
		f, _, err := big.ParseFloat(out, 10, 200, big.ToNearestEven)
		if err != nil {
			c.Fail("under maxdigits %d the %d-digit integer %.80s prints as %.80s: %v", limit, n, txt, out, err)
		}
		w := new(big.Float).SetPrec(200).SetInt(x)
		r := new(big.Float).Sub(f, w)
		r.Quo(r, w)
		if q, _ := r.Float64(); q > 1e-11 || q < -1e-11 {
			c.Fail("under maxdigits %d the %d-digit integer %.80s prints as %.80s", limit, n, txt, out)
		}
	})
}

func TestC17_Stack(t *testing.T) {
	Check(t, "C17", 500, "a stack limit and a recursion (direct, mutual, binary, through each, reductions, products, indexes, conditions and ivy) of a chosen depth: a depth within the limit gives the value, a deeper one or an endless one the error, after which the same call within the limit works again; non-trivial: every case, distinct by limit, recursion and depth", func(c *C) {
		type rec struct{ def, call string }
		r := Pick(c,
			rec{"op f n = n <= 1 : 1; 1 + f n - 1", "f %d"},
			rec{"op g n\nop f n = n <= 1 : 1; 1 + g n - 1\nop g n = n <= 1 : 1; 1 + f n - 1", "f %d"},
			rec{"op a f n = n <= 1 : a; 1 + a f n - 1", "1 f %d"},
			rec{"op f n = n <= 1 : 1; 1 + +/ f@ n - 1", "f %d"},
			rec{"op a f n = n <= 1 : 1; 1 + f/ a (n - 1)", "0 f %d"},
			rec{"op a f n = n <= 1 : 1; 1 + , a o.f n - 1", "0 f %d"},
			rec{"op a f n = n <= 1 : 1; 1 + a +.f n - 1", "0 f %d"},
			rec{"op f n = n <= 1 : 1; 1 + (iota n)[f n - 1]", "f %d"},
			rec{"op f n = n <= 1 : 1; (f n - 1) : n; 0", "f %d"},
			rec{"op f n = n <= 1 : 1; gn = n - 1; 1 + ivy 'f gn'", "f %d"},
			rec{"op f n = x = n; n <= 1 : x; x = 1 + f n - 1; x", "f %d"},
			rec{"op f (n m) = n <= 1 : 1; 1 + f (n - 1) m", "f %d 0"},
		)
		L := Pick(c, 5, 20, 57, 100, 300)
		if strings.Contains(r.def, "gn = ") {
			r.def = "gn = 0\n" + strings.Replace(r.def, "gn = n - 1", "gn; gn = n - 1", 1) // gn is global
		}
		d := Pick(c, 1, L/2, L-1, L, L+1, L+2, 2*L, 1000000000)
		s := NewSess(c)
		s.Do(r.def)
		s.Do(fmt.Sprintf(")maxstack %d", L))
		call := fmt.Sprintf(r.call, d)
		if d >= 1<<20 && strings.Contains(r.def, "iota n") {
			return // iota n first
		}
		c.Key(fmt.Sprint(L, r.def, call))
		v, e := s.Eval(call)
		if d <= L {
			c.Class("within")
			if e != "" {
				c.Fail("%s: %s under maxstack %d: %s", r.def, call, L, e)
			}
			for (v.K == Vec || v.K == Mat) && len(v.El) == 1 {
				v = v.El[0]
			}
			if Diff(v, Int(d)) != "" {
				c.Fail("%s: %s gives %s", r.def, call, v)
			}
		} else {
			c.Class("over")
			if e == "" {
				c.Fail("%s: %s under maxstack %d is no error: %s", r.def, call, L, v)
			}
			again := fmt.Sprintf(r.call, L)
			if _, e := s.Eval(again); e != "" {
				c.Fail("%s: after the error, %s under maxstack %d: %s", r.def, again, L, e)
			}
		}
	})
}

func TestC17_KnownDeepBody(t *testing.T) {
	if os.Getenv("VERIF_IVY") == "" {
		t.Skip("no ivy binary")
	}
	Known(t, "C17", "deep-body", "at the default maxstack of 1e5, endless recursion in an operator whose body nests 100 operations (op f x = - - ... - f x) overruns Go's stack before the limit is reached, and the process dies", func(c *C) bool {
		text := "op f x = " + strings.Repeat("- ", 100) + "f x\nf 1\n1+1\n"
		c.Step(text)
		cmd := exec.Command(os.Getenv("VERIF_IVY"))
		cmd.Stdin = strings.NewReader(text)
		out, err := cmd.CombinedOutput()
		return err != nil && strings.Contains(string(out), "fatal error: stack overflow")
	})
}
