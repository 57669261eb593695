package props

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// c14Real draws a real number as ivy source and as an exact rational.
func c14Real(c *C, lo, hi int) *big.Rat {
	r := new(big.Rat)
	switch c.Idx(7) {
	case 0:
		r.SetInt64(int64(c.Range(0, 20)))
	case 1:
		r.SetFrac64(int64(c.Range(0, 5000)), 1000)
	case 2:
		r.SetFrac64(int64(c.Range(1, 40)), int64(c.Range(1, 40)))
	case 3: // a power of two or ten, or next to one
		b := Pick(c, 2, 10)
		k := c.Range(lo, hi)
		if b == 10 {
			k = k * 3 / 10
		}
		r.SetFrac(new(big.Int).Exp(big.NewInt(int64(b)), big.NewInt(int64(max(k, 0))), nil), new(big.Int).Exp(big.NewInt(int64(b)), big.NewInt(int64(max(-k, 0))), nil))
		if c.Bool() {
			r.Mul(r, big.NewRat(int64(1000+c.Range(-10, 10)), 1000))
		}
	case 4: // next to a small integer
		d := new(big.Rat).SetFrac(big.NewInt(int64(c.Range(-9, 9))), new(big.Int).Lsh(big.NewInt(1), uint(c.Range(1, 90))))
		r.SetInt64(int64(Pick(c, 0, 1, 1, 1, 2, 3)))
		r.Add(r, d)
		r.Abs(r)
	default:
		n := new(big.Int).SetInt64(int64(c.Range(1, 1<<30)))
		k := c.Range(lo, hi) - 30
		if k >= 0 {
			r.SetInt(n.Lsh(n, uint(k)))
		} else {
			r.SetFrac(n, new(big.Int).Lsh(big.NewInt(1), uint(-k)))
		}
	}
	if c.Prob(6) {
		r.Neg(r)
	}
	return r
}

// c14Src writes x, exact or as a float. The float is what the precision makes of it, so
// the oracle takes the value from the session.
func c14Src(c *C, x Z2) string {
	one := func(r *big.Rat) string {
		s := Rat(r).Src()
		if c.Prob(5) {
			return "(float " + s + ")"
		}
		return "(" + s + ")"
	}
	if x.im == nil || x.im.Sign() == 0 {
		return one(x.re)
	}
	return "(" + one(x.re) + " j " + one(x.im) + ")"
}

type Z2 struct{ re, im *big.Rat }

// c14Z is the exact value of a result or argument.
func c14Z(m MP, v *V) (z Z, ok bool) {
	switch v.K {
	case Num:
		return Z{m.Rat(v.Re), m.Rat(v.Im)}, true
	case Flt:
		if v.FR.IsInf() || v.FI != nil && v.FI.IsInf() {
			return z, false
		}
		im := m.Int(0)
		if v.FI != nil {
			im = m.Of(v.FI)
		}
		return Z{m.Of(v.FR), im}, true
	}
	return z, false
}

func c14Show(z Z) string {
	if z.I.Sign() == 0 {
		return z.R.Text('g', 40)
	}
	return z.R.Text('g', 40) + "j" + z.I.Text('g', 40)
}

// c14Close checks |got-want| <= 2**(slack-prec) * scale.
func c14Close(m MP, prec, slack int, got, want Z, scale *big.Float) bool {
	d := m.ZAbs(m.ZSub(got, want))
	if d.Sign() == 0 {
		return true
	}
	lim := m.Shift(scale, slack-prec)
	return d.Cmp(lim) <= 0
}

func c14Prec(c *C) int {
	return Pick(c, 64, 100, 128, 200, 256, 256, 256, 256, 300, 512, 700, 1000)
}

func c14Setup(c *C) (*Sess, int, MP) {
	prec := c14Prec(c)
	s := NewSess(c)
	if prec != 256 || c.Bool() {
		s.Do(fmt.Sprintf(")prec %d", prec))
	}
	return s, prec, MP{uint(prec + 200)}
}

// c14Arg evaluates an argument and returns its value.
func c14Arg(c *C, s *Sess, m MP, name string, x Z2) (Z, string) {
	src := c14Src(c, x)
	if _, e := s.Run(name + " = " + src); e != "" {
		c.Fail("%s: %s", src, e)
	}
	z, ok := c14Z(m, s.Get(name))
	if !ok {
		c.Fail("%s is not a number", src)
	}
	return z, src
}

func one(m MP, z ...*big.Float) *big.Float {
	r := m.Int(1)
	for _, x := range z {
		a := m.Abs(x)
		r = m.Mul(r, m.Add(a, m.Int(1)))
	}
	return r
}

func TestC14_Real(t *testing.T) {
	Check(t, "C14", 900, "a real argument (exact or float; tiny, huge, next to 0, 1 and other small integers, negative), a precision of 64 to 1000 bits and an operator (sqrt log ** sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh, binary ** and log): the result agrees with an independent computation at 200 bits more, to 2**12 units of the last place relative to max(1,|result|) and the condition of the problem; sqrt, ** and small-argument sin, tan, asin, atan, sinh, tanh, asinh, atanh relative to the result itself; non-trivial: result not exact, distinct by operator, argument and precision", func(c *C) {
		s, prec, m := c14Setup(c)
		op := Pick(c, "sqrt", "log", "**", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "b**", "blog")
		lo, hi := -60, 60
		switch op {
		case "sqrt":
			lo, hi = -500, 500
		case "log":
			lo, hi = -300, 300
		case "**", "sinh", "cosh", "tanh":
			hi = 6
		case "sin", "cos", "tan":
			hi = 20
		case "asin", "acos", "atanh":
			lo, hi = -100, 0
		case "atan":
			lo, hi = -100, 100
		case "asinh", "acosh":
			lo, hi = -100, 100
		case "b**", "blog":
			lo, hi = -40, 40
		}
		x := c14Real(c, lo, hi)
		switch op {
		case "sqrt", "b**", "blog", "log":
			x.Abs(x)
			if x.Sign() == 0 {
				x.SetInt64(2)
			}
		case "asin", "acos":
			for x.Num().CmpAbs(x.Denom()) > 0 {
				x.Quo(x, big.NewRat(2, 1))
			}
		case "atanh":
			for x.Num().CmpAbs(x.Denom()) >= 0 {
				x.Quo(x, big.NewRat(2, 1))
			}
		case "acosh":
			x.Abs(x)
			if x.Num().CmpAbs(x.Denom()) < 0 {
				x.Inv(orOne(x))
			}
		case "**", "sinh", "cosh", "tanh":
			for new(big.Rat).Abs(x).Cmp(big.NewRat(100, 1)) > 0 {
				x.Quo(x, big.NewRat(16, 1))
			}
		case "sin", "cos", "tan":
			for new(big.Rat).Abs(x).Cmp(big.NewRat(1<<20, 1)) > 0 {
				x.Quo(x, big.NewRat(1<<16, 1))
			}
		}
		a, src := c14Arg(c, s, m, "x", Z2{re: x})
		expr := op + " x"
		var want *big.Float
		scale := m.Int(1)
		slack := 12
		rel := false
		switch op {
		case "sqrt":
			want, rel = m.Sqrt(a.R), true
		case "log":
			want = m.Log(a.R)
		case "**":
			want, rel = m.Exp(a.R), true
			scale = one(m, a.R)
		case "sin":
			want, _ = m.SinCos(a.R)
			scale = one(m, a.R)
			rel = small(a.R)
		case "cos":
			_, want = m.SinCos(a.R)
			scale = one(m, a.R)
		case "tan":
			sn, cs := m.SinCos(a.R)
			if cs.Sign() == 0 {
				return
			}
			want = m.Div(sn, cs)
			scale = one(m, a.R, want)
			rel = small(a.R)
		case "asin", "acos":
			w := m.Sqrt(m.Sub(m.Int(1), m.Mul(a.R, a.R)))
			if w.Sign() == 0 {
				want = m.Shift(m.Pi(), -1)
				if a.R.Sign() < 0 {
					want = m.Neg(want)
				}
			} else {
				want = m.Atan(m.Div(a.R, w))
				scale = m.Add(m.Int(1), m.Div(m.Int(1), w)) // condition near 1
			}
			rel = small(a.R) && op == "asin"
			if op == "acos" {
				want = m.Sub(m.Shift(m.Pi(), -1), want)
			}
		case "atan":
			want = m.Atan(a.R)
			rel = small(a.R)
		case "sinh", "cosh", "tanh":
			p, n := m.Exp(a.R), m.Exp(m.Neg(a.R))
			sh, ch := m.Shift(m.Sub(p, n), -1), m.Shift(m.Add(p, n), -1)
			scale = one(m, a.R)
			switch op {
			case "sinh":
				want = sh
				if small(a.R) { // cancellation in the oracle: leave it absolute below the extra bits
					rel = a.R.Sign() == 0 || a.R.MantExp(nil) > -120
				} else {
					rel = true
				}
			case "cosh":
				want, rel = ch, true
			case "tanh":
				want = m.Div(sh, ch)
				if small(a.R) {
					rel = a.R.Sign() == 0 || a.R.MantExp(nil) > -120
				}
			}
		case "asinh":
			b := m.Abs(a.R)
			want = m.Log(m.Add(b, m.Sqrt(m.Add(m.Mul(b, b), m.Int(1)))))
			if a.R.Sign() < 0 {
				want = m.Neg(want)
			}
			rel = small(a.R)
		case "acosh":
			w := m.Sqrt(m.Sub(m.Mul(a.R, a.R), m.Int(1)))
			want = m.Log(m.Add(a.R, w))
			if w.Sign() != 0 {
				scale = m.Add(m.Int(1), m.Div(m.Int(1), w))
			}
		case "atanh":
			if t := new(big.Float).SetPrec(uint(prec)).Set(m.Abs(a.R)); t.Cmp(m.Int(1)) == 0 {
				return // x rounds to 1
			}
			want = m.Shift(m.Log(m.Div(m.Add(m.Int(1), a.R), m.Sub(m.Int(1), a.R))), -1)
			scale = m.Add(m.Int(1), m.Div(m.Int(1), m.Sub(m.Int(1), m.Abs(a.R))))
			rel = small(a.R)
		case "b**":
			y := c14Real(c, -10, 5)
			for new(big.Rat).Abs(y).Cmp(big.NewRat(50, 1)) > 0 {
				y.Quo(y, big.NewRat(16, 1))
			}
			if y.IsInt() && c.Bool() {
				y.Add(y, big.NewRat(1, 2))
			}
			if c.Prob(3) { // a square root, or one over it
				y = big.NewRat(int64(Pick(c, 1, -1)), 2)
			}
			b, src2 := c14Arg(c, s, m, "y", Z2{re: y})
			src += " " + src2
			expr = "x ** y"
			lg := m.Mul(m.Log(a.R), b.R)
			want, rel = m.Exp(lg), true
			scale = one(m, lg, b.R)
		case "blog":
			y := c14Real(c, -40, 40)
			y.Abs(y)
			if y.Sign() == 0 || y.Cmp(big.NewRat(1, 1)) == 0 {
				y.SetInt64(10)
			}
			if c.Prob(8) { // integers: a power of the base times a factor, which ivy splits off
				k := int64(c.Range(2, 40))
				y.SetInt64(k)
				if c.Prob(4) {
					k = int64(Pick(c, 1000, 65535, 65536, 70000, 1<<31-1, 1<<31, 1<<32, 3000000000))
					y.SetInt64(k)
				}
				n := new(big.Int).Exp(big.NewInt(k), big.NewInt(int64(c.Range(0, 40))), nil)
				if c.Bool() {
					n.Mul(n, big.NewInt(int64(c.Range(1, 100))))
					n.Add(n, big.NewInt(int64(Pick(c, 0, 0, 0, 1, -1))))
				}
				if n.Sign() == 0 {
					n.SetInt64(1)
				}
				if c.Prob(4) {
					y.SetInt(new(big.Int).Exp(big.NewInt(k), big.NewInt(int64(c.Range(1, 20))), nil))
				}
				a, src = c14Arg(c, s, m, "x", Z2{re: new(big.Rat).SetInt(n)})
			}
			b, src2 := c14Arg(c, s, m, "y", Z2{re: y})
			src += " " + src2
			expr = "y log x"
			if t := new(big.Float).SetPrec(uint(prec)).Set(b.R); t.Cmp(m.Int(1)) == 0 {
				return // y rounds to 1
			}
			ly := m.Log(b.R)
			if ly.Sign() == 0 {
				return // y rounds to 1
			}
			if x, y := s.Get("x"), s.Get("y"); x.K == Num && y.K == Num && x.Re.IsInt() && y.Re.IsInt() && y.Re.Cmp(big.NewRat(1, 1)) > 0 {
				p, k := big.NewInt(1), int64(0)
				for p.Cmp(x.Re.Num()) < 0 {
					p.Mul(p, y.Re.Num())
					k++
				}
				if p.Cmp(x.Re.Num()) == 0 {
					c.Class("log of a power")
					s.Want(expr, I(k))
				}
			}
			want = m.Div(m.Log(a.R), ly)
			scale = m.Add(m.Int(1), m.Div(m.Add(m.Int(1), m.Abs(want)), m.Abs(ly)))
		}
		v, e := s.Eval(expr)
		if e != "" {
			c.Fail("prec %d, x = %s (y): %s: %s", prec, src, expr, e)
		}
		got, ok := c14Z(m, v)
		if !ok {
			c.Fail("prec %d, %s: %s gives %s", prec, src, expr, v)
		}
		if v.K == Flt {
			c.Key(fmt.Sprint(prec, op, src))
			c.Class(op)
		} else {
			c.Class("exact result")
		}
		if rel {
			scale = m.Mul(scale, m.Abs(want))
		} else {
			scale = m.Mul(scale, m.Add(m.Int(1), m.Abs(want)))
		}
		if !c14Close(m, prec, slack, got, Z{want, m.Int(0)}, scale) {
			d := m.Sub(got.R, want)
			c.Fail("prec %d, x (y) = %s: %s gives\n %s, want\n %s\n off by 2**%d", prec, src, expr, c14Show(got), c14Show(Z{want, m.Int(0)}), d.MantExp(nil))
		}
	})
}

func orOne(x *big.Rat) *big.Rat {
	if x.Sign() == 0 {
		return big.NewRat(1, 1)
	}
	return new(big.Rat).Set(x)
}

func small(x *big.Float) bool { return x.MantExp(nil) <= 0 }

func TestC14_Complex(t *testing.T) {
	Check(t, "C14", 700, "a complex argument (all quadrants, on and next to the axes, negative reals, reals beyond the real domain), a precision of 64 to 1000 bits and an operator (sqrt log ** sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh phase abs, binary **): forward functions agree with an independent computation; an inverse function's result is a solution of its equation and lies in the principal range; non-trivial: every case, distinct by operator, argument and precision", func(c *C) {
		s, prec, m := c14Setup(c)
		op := Pick(c, "sqrt", "log", "**", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "phase", "abs", "b**")
		inverse := op[0] == 'a' && op != "abs" || op == "phase" || op == "log" || op == "sqrt"
		part := func() *big.Rat {
			if inverse && c.Prob(4) {
				return c14Real(c, -60, 200)
			}
			r := c14Real(c, -20, 6)
			for new(big.Rat).Abs(r).Cmp(big.NewRat(60, 1)) > 0 {
				r.Quo(r, big.NewRat(32, 1))
			}
			return r
		}
		x := Z2{part(), part()}
		if c.Prob(2) {
			x.re = new(big.Rat)
		} else if c.Prob(2) {
			x.im = new(big.Rat)
		}
		a, src := c14Arg(c, s, m, "x", x)
		expr := op + " x"
		v, e := (*V)(nil), ""
		if op != "b**" {
			v, e = s.Eval(expr)
		}
		c.Key(fmt.Sprint(prec, op, src))
		c.Class(op)
		slack := 14
		var want Z
		scale := one(m, a.R, a.I)
		var got Z
		result := func() {
			if e != "" {
				c.Fail("prec %d, x = %s: %s: %s", prec, src, expr, e)
			}
			var ok bool
			got, ok = c14Z(m, v)
			if !ok {
				c.Fail("prec %d, %s: %s gives %s", prec, src, expr, v)
			}
		}
		zero := a.R.Sign() == 0 && a.I.Sign() == 0
		onReal := func(r int64) bool { return a.I.Sign() == 0 && a.R.Cmp(m.Int(r)) == 0 }
		onImag := func(r int64) bool { return a.R.Sign() == 0 && a.I.Cmp(m.Int(r)) == 0 }
		mustErr := func(bad bool) bool {
			if bad && e == "" {
				c.Fail("prec %d, x = %s: %s is no error: %s", prec, src, expr, v)
			}
			return bad
		}
		inRange := func(x, lim *big.Float, what string) {
			t := m.Add(lim, m.Shift(m.Int(1), 20-prec))
			if m.Abs(x).Cmp(t) > 0 {
				c.Fail("prec %d, x = %s: %s gives %s: %s part outside the principal range", prec, src, expr, c14Show(got), what)
			}
		}
		halfPi := m.Shift(m.Pi(), -1)
		switch op {
		case "abs":
			want = Z{m.ZAbs(a), m.Int(0)}
		case "phase":
			if zero {
				return
			}
			want = Z{m.Arg(a), m.Int(0)}
		case "sqrt":
			want = m.ZSqrt(a)
		case "log":
			if mustErr(zero) {
				return
			}
			want = m.ZLog(a)
			scale = m.Add(m.Int(1), m.ZAbs(want))
		case "**":
			want = m.ZExp(a)
		case "sin":
			want = m.ZSin(a)
		case "cos":
			want = m.ZCos(a)
		case "sinh":
			want = m.ZSinh(a)
		case "cosh":
			want = m.ZCosh(a)
		case "tan", "tanh":
			cs := m.ZCos(a)
			if op == "tanh" {
				cs = m.ZCosh(a)
			}
			if n := m.ZAbs(cs); n.Sign() == 0 || n.MantExp(nil) < -30 {
				return
			}
			if op == "tan" {
				want = m.ZTan(a)
			} else {
				want = m.ZTanh(a)
			}
			scale = m.Mul(scale, one(m, want.R, want.I))
			scale = m.Mul(scale, one(m, want.R, want.I))
		case "b**":
			y := Z2{c14Real(c, -8, 3), c14Real(c, -8, 3)}
			for _, r := range []*big.Rat{y.re, y.im} {
				for new(big.Rat).Abs(r).Cmp(big.NewRat(10, 1)) > 0 {
					r.Quo(r, big.NewRat(16, 1))
				}
			}
			if c.Prob(5) {
				y.im = new(big.Rat)
			}
			if c.Prob(4) { // a square root, or one over it, or a small power
				y = Z2{Pick(c, big.NewRat(1, 2), big.NewRat(-1, 2), big.NewRat(3, 2), big.NewRat(1, 3), big.NewRat(2, 1), big.NewRat(-3, 1), big.NewRat(1, 1), big.NewRat(-1, 1)), new(big.Rat)}
			}
			if zero {
				return
			}
			b, src2 := c14Arg(c, s, m, "y", y)
			expr = "x ** y"
			src += " y = " + src2
			v, e = s.Eval(expr)
			lg := m.ZMul(m.ZLog(a), b)
			want = m.ZExp(lg)
			scale = one(m, lg.R, lg.I)
		}
		if want.R != nil {
			result()
			if !strings.HasPrefix(op, "log") {
				scale = m.Mul(scale, m.Add(m.ZAbs(want), m.Shift(m.Int(1), 0)))
			}
			if !c14Close(m, prec, slack, got, want, scale) {
				d := m.ZAbs(m.ZSub(got, want))
				c.Fail("prec %d, x = %s: %s gives\n %s, want\n %s\n off by 2**%d", prec, src, expr, c14Show(got), c14Show(want), d.MantExp(nil))
			}
			return
		}
		// Inverse functions.
		scale = m.Add(m.Int(1), m.ZAbs(a))
		var back Z
		cond := m.Int(1)
		switch op {
		case "asin":
			result()
			back = m.ZSin(got)
			inRange(got.R, halfPi, "real")
		case "acos":
			result()
			back = m.ZCos(got)
			inRange(m.Sub(got.R, halfPi), halfPi, "real")
		case "atan":
			if mustErr(onImag(1) || onImag(-1)) {
				return
			}
			result()
			back = m.ZTan(got)
			inRange(got.R, halfPi, "real")
			cond = one(m, m.ZAbs(a), m.ZAbs(a))
		case "asinh":
			result()
			back = m.ZSinh(got)
			inRange(got.I, halfPi, "imaginary")
		case "acosh":
			result()
			back = m.ZCosh(got)
			inRange(got.I, m.Pi(), "imaginary")
		case "atanh":
			if mustErr(onReal(1) || onReal(-1)) {
				return
			}
			if t := new(big.Float).SetPrec(uint(prec)).Set(m.Abs(a.R)); a.I.Sign() == 0 && t.Cmp(m.Int(1)) == 0 {
				return // x rounds to 1
			}
			result()
			back = m.ZTanh(got)
			inRange(got.I, halfPi, "imaginary")
			cond = one(m, m.ZAbs(a), m.ZAbs(a))
		}
		scale = m.Mul(m.Mul(scale, cond), one(m, m.ZAbs(got)))
		if !c14Close(m, prec, slack, back, a, scale) {
			d := m.ZAbs(m.ZSub(back, a))
			c.Fail("prec %d, x = %s: %s gives\n %s\n whose %s is %s: off by 2**%d", prec, src, expr, c14Show(got), strings.TrimPrefix(op, "a"), c14Show(back), d.MantExp(nil))
		}
	})
}

func TestC14_Constants(t *testing.T) {
	Check(t, "C14", 60, "e and pi at a precision of 64 to 9000 bits agree with an independent computation to the last places, after any change of precision; results computed under one precision keep their value under another; non-trivial: every case, distinct by precision", func(c *C) {
		s := NewSess(c)
		for i := 0; i < 2; i++ {
			prec := c.Range(64, Pick(c, 300, 1000, 3000, 9000))
			s.Do(fmt.Sprintf(")prec %d", prec))
			m := MP{uint(prec + 100)}
			c.Key(fmt.Sprint(prec))
			for name, want := range map[string]*big.Float{"pi": m.Pi(), "e": m.Exp(m.Int(1))} {
				v := s.Must(name)
				got, _ := c14Z(m, v)
				if !c14Close(m, prec, 4, got, Z{want, m.Int(0)}, m.Int(1)) {
					c.Fail("prec %d: %s is %s", prec, name, c14Show(got))
				}
			}
		}
	})
}

func TestC14_Domain(t *testing.T) {
	Check(t, "C14", 300, "arguments outside a function's domain (log of 0, atanh of 1 and -1, characters, 0 to a negative power) are errors, alone or as an element; non-trivial: every case, distinct by text", func(c *C) {
		s, _, _ := c14Setup(c)
		s.Do("z = 0\no = 1\nch = 'a'")
		expr := Pick(c, "log 0", "log z", "log float 0", "2 log 0", "0 log 5", "atanh 1", "atanh -1", "atanh o", "0 ** -1", "0 ** -1/2", "z ** -3", "(float 0) ** -2", "sqrt 'a'", "sin ch", "log 'x'", "** 'x'", "cosh ch",
			"sin 1 'a'", "sqrt 4 'b' 9", "log 1 0 2", "atanh 0 1", "sqrt (1 2) 'ab'", "tan 'q'", "'a' ** 2", "2 ** 'a'", "'a' log 3", "phase 'a'", "2 log 'c'", "0j0 ** -1", "log 0j0", "atan 0j1", "atan 0j-1", "acos 'x'", "0 ** 0 - 1/2")
		if c.Bool() {
			expr = Pick(c, "1 + %s", "(%s) , 3", "- %s", "box %s", "2 rho %s", "+/ %s")
			expr = strings.Replace(expr, "%s", Pick(c, "log 0", "atanh 1", "0 ** -1", "sqrt 'a'", "2 log 0", "log 3 0"), 1)
		}
		c.Key(expr)
		s.WantErr(expr, "outside the domain")
	})
}
