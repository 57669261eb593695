package props

import (
	"fmt"
	"math/big"
	"testing"

	. "verif.local/harness/h"
)

// c24num is an operand: an exact number, or a float given by the exact number it is.
type c24num struct {
	r   *big.Rat
	flt bool
}

func pow2(n int) *big.Rat {
	z := new(big.Int).Lsh(big.NewInt(1), uint(max(n, -n)))
	if n < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), z)
	}
	return new(big.Rat).SetInt(z)
}

// c24Mant draws an odd-looking integer of at most bits bits.
func c24Mant(c *C, bits int) *big.Int {
	one := big.NewInt(1)
	b := c.Range(1, bits)
	if c.Bool() {
		b = bits
	}
	switch c.Idx(6) {
	case 0:
		return new(big.Int).Lsh(one, uint(b-1))
	case 1:
		x := new(big.Int).Lsh(one, uint(b))
		return x.Sub(x, one)
	case 2:
		x := new(big.Int).Lsh(one, uint(b-1))
		return x.Add(x, one)
	case 3:
		return big.NewInt(int64(c.Range(1, 1<<min(b, 20))))
	}
	x := new(big.Int)
	for x.BitLen() < b {
		x.Lsh(x, 16)
		x.Or(x, big.NewInt(int64(c.Idx(1<<16))))
		if x.Sign() == 0 {
			x.SetInt64(1)
		}
	}
	return x.Rsh(x, uint(x.BitLen()-b))
}

func c24Float(c *C, prec int) *big.Rat {
	m := c24Mant(c, prec)
	e := Pick(c, 0, -m.BitLen(), -m.BitLen()+1, -m.BitLen()+c.Range(-5, 5), c.Range(-20, 20), c.Range(-prec, prec), c.Range(-400, 400), -m.BitLen()+c.Range(60, 110))
	r := new(big.Rat).SetInt(m)
	r.Mul(r, pow2(e))
	if c.Prob(6) {
		r.Neg(r)
	}
	return r
}

// rnd rounds r to the precision.
func rnd(prec int, r *big.Rat) *big.Rat {
	f := new(big.Float).SetPrec(uint(prec)).SetRat(r)
	z, _ := f.Rat(nil)
	if z == nil {
		z = new(big.Rat)
	}
	return z
}

// c24Operand draws an operand; near, if not nil, is a number to be close to.
func c24Operand(c *C, prec int, near *big.Rat, float bool) c24num {
	if !float {
		var r *big.Rat
		switch c.Idx(4) {
		case 0:
			r = GenRat(c)
		case 1:
			r = new(big.Rat).SetInt(GenInt(c))
		case 2:
			r = new(big.Rat).SetInt64(int64(c.Range(-10, 10)))
		default:
			r = new(big.Rat).SetFrac64(int64(c.Range(-100, 100)), int64(c.Range(1, 50)))
		}
		if near != nil && c.Prob(3) {
			r = near
		}
		return c24num{r, false}
	}
	if near != nil && c.Prob(5) {
		// The same number, its opposite, or one a few units in the last place away.
		r := rnd(prec, near)
		if r.Sign() != 0 {
			f := new(big.Float).SetRat(r)
			ulp := pow2(f.MantExp(nil) - prec)
			ulp.Mul(ulp, new(big.Rat).SetInt64(int64(c.Range(-2, 2))))
			r = new(big.Rat).Add(r, ulp)
			if c.Prob(4) {
				r.Neg(r)
			}
			return c24num{rnd(prec, r), true}
		}
	}
	return c24num{c24Float(c, prec), true}
}

func (n c24num) src() string {
	if !n.flt {
		return Rat(n.r).Src()
	}
	return "float " + Rat(n.r).Src()
}

// val is the operand's value as a float of the precision.
func (n c24num) val(prec int) *big.Rat { return rnd(prec, n.r) }

// c24Val checks that the ivy value v is exactly the number want, held as an integer if it is one
// of moderate size.
func c24Val(v *V, want *big.Rat) string {
	var got *big.Rat
	switch {
	case v.K == Num && v.Im.Sign() == 0:
		got = v.Re
	case v.K == Flt && v.FI == nil && !v.FR.IsInf():
		got, _ = v.FR.Rat(nil)
		if got == nil {
			got = new(big.Rat)
		}
	default:
		return fmt.Sprintf("got %s, want %s", v, want.FloatString(60))
	}
	if got.Cmp(want) != 0 {
		return fmt.Sprintf("got %s, want %s (%s against %s)", got.FloatString(60), want.FloatString(60), got.RatString(), want.RatString())
	}
	if want.IsInt() && want.Num().BitLen() <= 64 && v.K != Num {
		return fmt.Sprintf("got %s as a float, not an integer", v)
	}
	return ""
}

func c24Prec(c *C) int {
	if c.Bool() {
		return Pick(c, 256, 53, 64, 100, 24, 500)
	}
	return c.Range(10, 700)
}

func ratFloor(r *big.Rat) *big.Rat {
	z := new(big.Int)
	z.Div(r.Num(), r.Denom()) // Euclidean: floor, as the denominator is positive
	return new(big.Rat).SetInt(z)
}

func TestC24_Arith(t *testing.T) {
	Check(t, "C24", 9000, "a precision (10 to 700 bits) and two operands, at least one a float given by its exact value (few or all bits, powers of two, all ones, of similar or very different size, a few units in the last place apart, opposite), the other a float, integer or rational: + - * / and unary / are the exact result rounded to nearest once; comparisons, min, max, logic, sgn, abs, negation, floor and ceil are exact; mod is in range and congruent; non-trivial: the exact result needs rounding or the operands compare close, distinct by expression", func(c *C) {
		prec := c24Prec(c)
		s := NewSess(c)
		s.Do(fmt.Sprintf(")prec %d", prec))
		fa := c.Prob(12)
		a := c24Operand(c, prec, nil, fa)
		b := c24Operand(c, prec, a.r, !fa || c.Prob(12))
		x, y := a.val(prec), b.val(prec)
		s.Do("a = " + a.src())
		s.Do("b = " + b.src())
		// The operands are what they should be.
		if v := s.Get("a"); a.flt {
			if r, _ := v.Float().Rat(nil); r == nil && x.Sign() != 0 || r != nil && r.Cmp(x) != 0 {
				c.Fail("%s gives %s", a.src(), v)
			}
		}
		bit := func(p bool) *big.Rat {
			if p {
				return big.NewRat(1, 1)
			}
			return new(big.Rat)
		}
		z := new(big.Rat)
		op := Pick(c, "+", "-", "*", "/", "+", "-", "*", "/", "<", "<=", "==", "!=", ">", ">=", "min", "max", "and", "or", "xor", "nand", "nor", "-u", "abs", "sgn", "not", "floor", "ceil", "/u", "mod", "float", "+u", "real", "imag", "conj")
		cmp := x.Cmp(y)
		tx, ty := x.Sign() != 0, y.Sign() != 0
		ex := "a " + op + " b"
		un := func(o string) {
			ex = o + " a"
			if !a.flt {
				ex = o + " b"
				x = y
			}
		}
		round := false
		switch op {
		case "+":
			z.Add(x, y)
			round = true
		case "-":
			z.Sub(x, y)
			round = true
		case "*":
			z.Mul(x, y)
			round = true
		case "/":
			if !ty {
				return
			}
			z.Quo(x, y)
			round = true
		case "<":
			z = bit(cmp < 0)
		case "<=":
			z = bit(cmp <= 0)
		case "==":
			z = bit(cmp == 0)
		case "!=":
			z = bit(cmp != 0)
		case ">":
			z = bit(cmp > 0)
		case ">=":
			z = bit(cmp >= 0)
		case "min":
			z = x
			if cmp > 0 {
				z = y
			}
		case "max":
			z = x
			if cmp < 0 {
				z = y
			}
		case "and":
			z = bit(tx && ty)
		case "or":
			z = bit(tx || ty)
		case "xor":
			z = bit(tx != ty)
		case "nand":
			z = bit(!(tx && ty))
		case "nor":
			z = bit(!(tx || ty))
		case "-u":
			un("-")
			z.Neg(x)
		case "+u", "real", "conj":
			un(map[string]string{"+u": "+", "real": "real", "conj": "conj"}[op])
			v, e := s.Eval(ex)
			if e != "" {
				c.Fail("%s: %s", ex, e)
			}
			if r, _ := v.Float().Rat(nil); r != nil && r.Cmp(x) != 0 {
				c.Fail("%s: got %s", ex, v)
			}
			return
		case "imag":
			un("imag")
		case "abs":
			un("abs")
			z.Abs(x)
		case "sgn":
			un("sgn")
			z.SetInt64(int64(x.Sign()))
		case "not":
			un("not")
			z = bit(x.Sign() == 0)
		case "floor":
			un("floor")
			z = ratFloor(x)
		case "ceil":
			un("ceil")
			z.Neg(ratFloor(new(big.Rat).Neg(x)))
		case "/u":
			un("/")
			if x.Sign() == 0 {
				s.WantErr(ex, "inverse of zero")
				return
			}
			z.Inv(x)
			round = true
		case "float":
			if a.flt && b.flt {
				return
			}
			n, m := "a", x
			if a.flt {
				n, m = "b", y
			}
			v, e := s.Eval("float " + n)
			if e != "" {
				c.Fail("float %s: %s", n, e)
			}
			if r, _ := v.Float().Rat(nil); r != nil && r.Cmp(m) != 0 {
				c.Fail("float %s: got %s", n, v)
			}
			return
		case "mod":
			c.Class("mod")
			if !ty {
				return
			}
			v, e := s.Eval(ex)
			if e != "" {
				c.Fail("%s: %s", ex, e)
			}
			r, _ := v.Float().Rat(nil)
			ay := new(big.Rat).Abs(y)
			if r.Sign() < 0 || r.Cmp(ay) > 0 {
				c.Fail("%s is %s, not between 0 and b", ex, v)
			}
			// a - r is a multiple of b, to within the rounding of a and b.
			q := new(big.Rat).Sub(x, r)
			q.Quo(q, ay)
			k := ratFloor(new(big.Rat).Add(q, big.NewRat(1, 2)))
			d := q.Sub(q, k)
			d.Mul(d.Abs(d), ay)
			tol := new(big.Rat).Add(new(big.Rat).Abs(x), ay)
			tol.Mul(tol, pow2(3-prec))
			if d.Cmp(tol) > 0 {
				c.Fail("%s is %s: off by %s from a multiple of b", ex, v, d.FloatString(40))
			}
			c.Key(fmt.Sprint(prec, a.src(), b.src(), op))
			return
		}
		if round {
			w := rnd(prec, z)
			if w.Cmp(z) != 0 {
				c.Class(op + " rounded")
				c.Key(fmt.Sprint(prec, a.src(), b.src(), op))
			}
			z = w
		} else {
			c.Class(op)
			c.Key(fmt.Sprint(prec, a.src(), b.src(), op))
		}
		v, e := s.Eval(ex)
		if e != "" {
			c.Fail("at precision %d, a = %s, b = %s: %s: %s", prec, a.src(), b.src(), ex, e)
		}
		if d := c24Val(v, z); d != "" {
			c.Fail("at precision %d, a = %s, b = %s: %s: %s", prec, a.src(), b.src(), ex, d)
		}
	})
}

// TestC24_Mixed: values made at one precision used at another.
func TestC24_Mixed(t *testing.T) {
	Check(t, "C24", 1500, "floats made at one precision and used after the precision is changed: + - * / round once to the new precision from the values as they are, comparisons are exact on them; non-trivial: every case, distinct by expression and precisions", func(c *C) {
		p1, p2 := c24Prec(c), c24Prec(c)
		p3 := c24Prec(c)
		s := NewSess(c)
		s.Do(fmt.Sprintf(")prec %d", p1))
		x := c24Float(c, p1)
		s.Do("a = float " + Rat(x).Src())
		s.Do(fmt.Sprintf(")prec %d", p2))
		y := c24Operand(c, p2, x, true).r
		s.Do("b = float " + Rat(y).Src())
		s.Do(fmt.Sprintf(")prec %d", p3))
		z := new(big.Rat)
		op := Pick(c, "+", "-", "*", "/", "<", "==", ">=", "-u", "abs")
		ex := "a " + op + " b"
		bit := func(p bool) {
			if p {
				z.SetInt64(1)
			}
		}
		switch op {
		case "+":
			z = rnd(p3, z.Add(x, y))
		case "-":
			z = rnd(p3, z.Sub(x, y))
		case "*":
			z = rnd(p3, z.Mul(x, y))
		case "/":
			if y.Sign() == 0 {
				return
			}
			z = rnd(p3, z.Quo(x, y))
		case "<":
			bit(x.Cmp(y) < 0)
		case "==":
			bit(x.Cmp(y) == 0)
		case ">=":
			bit(x.Cmp(y) >= 0)
		case "-u":
			ex = "- a"
			z = rnd(p3, z.Neg(x))
		case "abs":
			ex = "abs a"
			z = rnd(p3, z.Abs(x))
		}
		c.Class(op)
		c.Key(fmt.Sprint(p1, p2, p3, x, y, op))
		v, e := s.Eval(ex)
		if e != "" {
			c.Fail("%s: %s", ex, e)
		}
		if d := c24Val(v, z); d != "" {
			c.Fail("a = %s at precision %d, b = %s at %d: %s at %d: %s", x, p1, y, p2, ex, p3, d)
		}
	})
}

// TestC24_Complex: complex numbers with floating-point parts.
func TestC24_Complex(t *testing.T) {
	Check(t, "C24", 2500, "complex numbers at least one of whose parts is a float: + and - round each part once; * and / are within a few units in the last place of the size of the result; == and != compare exactly; real, imag, conj, negation and j are exact; non-trivial: every case, distinct by expression", func(c *C) {
		prec := c24Prec(c)
		s := NewSess(c)
		s.Do(fmt.Sprintf(")prec %d", prec))
		part := func(near *big.Rat, f bool) c24num {
			if c.Prob(2) {
				return c24num{new(big.Rat).SetInt64(int64(c.Range(-3, 3))), c.Bool()}
			}
			n := c24Operand(c, prec, near, f)
			if f {
				// Of moderate size.
				for n.r.Sign() != 0 {
					e := new(big.Float).SetRat(n.r).MantExp(nil)
					if e < 40 && e > -40 {
						break
					}
					n.r = new(big.Rat).Mul(n.r, pow2(-e))
				}
			}
			return n
		}
		ar := part(nil, true)
		ai := part(ar.r, c.Bool())
		br := part(ar.r, c.Bool())
		bi := part(ai.r, c.Bool())
		// A part that is exact stays exact when both operands' parts are.
		s.Do("a = (" + ar.src() + ") j " + ai.src())
		s.Do("b = (" + br.src() + ") j " + bi.src())
		// j converts both parts to one type: floats if one is a float.
		conv := func(p, q c24num) (*big.Rat, *big.Rat) {
			if p.flt || q.flt {
				return p.val(prec), q.val(prec)
			}
			return p.r, q.r
		}
		x, xi := conv(ar, ai)
		y, yi := conv(br, bi)
		op := Pick(c, "+", "-", "*", "/", "*", "/", "==", "!=", "real", "imag", "conj", "-u", "j")
		ex := "a " + op + " b"
		mul := func(p, q *big.Rat) *big.Rat { return new(big.Rat).Mul(p, q) }
		add := func(p, q *big.Rat) *big.Rat { return new(big.Rat).Add(p, q) }
		sub := func(p, q *big.Rat) *big.Rat { return new(big.Rat).Sub(p, q) }
		zero := new(big.Rat)
		zr, zi := zero, zero
		tol := zero // allowed error of each part, absolute
		eps := pow2(5 - prec)
		norm1 := func(p, q *big.Rat) *big.Rat { return add(new(big.Rat).Abs(p), new(big.Rat).Abs(q)) }
		switch op {
		case "+":
			zr, zi = add(x, y), add(xi, yi)
			tol = mul(eps, add(norm1(x, xi), norm1(y, yi)))
		case "-":
			zr, zi = sub(x, y), sub(xi, yi)
			tol = mul(eps, add(norm1(x, xi), norm1(y, yi)))
		case "*":
			zr = sub(mul(x, y), mul(xi, yi))
			zi = add(mul(x, yi), mul(xi, y))
			tol = mul(eps, mul(norm1(x, xi), norm1(y, yi)))
		case "/":
			d := add(mul(y, y), mul(yi, yi))
			if d.Sign() == 0 {
				return
			}
			zr = add(mul(x, y), mul(xi, yi))
			zr.Quo(zr, d)
			zi = sub(mul(xi, y), mul(x, yi))
			zi.Quo(zi, d)
			tol = mul(eps, mul(norm1(x, xi), norm1(y, yi)))
			tol.Quo(tol, d)
		case "==":
			if x.Cmp(y) == 0 && xi.Cmp(yi) == 0 {
				zr = big.NewRat(1, 1)
			}
		case "!=":
			if x.Cmp(y) != 0 || xi.Cmp(yi) != 0 {
				zr = big.NewRat(1, 1)
			}
		case "real":
			ex, zr = "real a", x
		case "imag":
			ex, zr = "imag a", xi
		case "conj":
			ex, zr, zi = "conj a", x, new(big.Rat).Neg(xi)
		case "-u":
			ex, zr, zi = "-a", new(big.Rat).Neg(x), new(big.Rat).Neg(xi)
		case "j":
			ex, zr, zi = "j a", new(big.Rat).Neg(xi), x
		}
		if op == "==" || op == "!=" {
			// Exact parts meeting floats are converted first.
			f := func(p, q *big.Rat) bool { return rnd(prec, p).Cmp(rnd(prec, q)) == 0 }
			same := f(x, y) && f(xi, yi)
			zr = new(big.Rat)
			if same == (op == "==") {
				zr.SetInt64(1)
			}
			// Exact parts compare exactly, so only settle the clear cases.
			if (x.Cmp(y) == 0 && xi.Cmp(yi) == 0) != same {
				return
			}
		}
		c.Class(op)
		c.Key(fmt.Sprint(prec, ar, ai, br, bi, op))
		v, e := s.Eval(ex)
		if e != "" {
			c.Fail("%s: %s", ex, e)
		}
		re, im := new(big.Rat), new(big.Rat)
		toRat := func(f *big.Float) *big.Rat {
			r, _ := f.Rat(nil)
			if r == nil {
				r = new(big.Rat)
			}
			return r
		}
		switch v.K {
		case Num:
			re, im = v.Re, v.Im
		case Flt:
			re = toRat(v.FR)
			if v.FI != nil {
				im = toRat(v.FI)
			}
		default:
			c.Fail("%s gives %s", ex, v)
		}
		dr, di := sub(re, zr), sub(im, zi)
		if dr.Abs(dr).Cmp(tol) > 0 || di.Abs(di).Cmp(tol) > 0 {
			c.Fail("at precision %d, a = (%s) j %s, b = (%s) j %s: %s gives %s, want %s j %s", prec, ar.src(), ai.src(), br.src(), bi.src(), ex, v, zr.FloatString(50), zi.FloatString(50))
		}
	})
}
