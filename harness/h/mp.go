package h

import (
	"math"
	"math/big"
	"sync"
)

// Independent high-precision elementary functions, the oracle for the irrational
// operators. They share no method with ivy: argument halving and doubling around short
// Taylor series, Newton for the logarithm, Machin's formula for pi.

// MP computes at P bits.
type MP struct{ P uint }

func (m MP) f() *big.Float                        { return new(big.Float).SetPrec(m.P) }
func (m MP) Of(x *big.Float) *big.Float           { return m.f().Set(x) }
func (m MP) Int(n int64) *big.Float               { return m.f().SetInt64(n) }
func (m MP) Rat(r *big.Rat) *big.Float            { return m.f().SetRat(r) }
func (m MP) Add(a, b *big.Float) *big.Float       { return m.f().Add(a, b) }
func (m MP) Sub(a, b *big.Float) *big.Float       { return m.f().Sub(a, b) }
func (m MP) Mul(a, b *big.Float) *big.Float       { return m.f().Mul(a, b) }
func (m MP) Div(a, b *big.Float) *big.Float       { return m.f().Quo(a, b) }
func (m MP) Neg(a *big.Float) *big.Float          { return m.f().Neg(a) }
func (m MP) Abs(a *big.Float) *big.Float          { return m.f().Abs(a) }
func (m MP) Shift(a *big.Float, n int) *big.Float { return m.f().SetMantExp(a, n) }
func (m MP) Sqrt(a *big.Float) *big.Float {
	if a.Sign() == 0 {
		return m.f()
	}
	return m.f().Sqrt(m.Of(a))
}

// tiny reports whether t is negligible next to 1.
func (m MP) tiny(t *big.Float) bool { return t.Sign() == 0 || t.MantExp(nil) < -int(m.P)-4 }

var mpLock sync.Mutex
var mpPi = map[uint]*big.Float{}
var mpLn2 = map[uint]*big.Float{}

// atanInv is atan(1/n) for an integer n.
func (m MP) atanInv(n int64) *big.Float {
	x := m.Div(m.Int(1), m.Int(n))
	x2 := m.Mul(x, x)
	sum, t := m.Of(x), m.Of(x)
	for k := int64(1); !m.tiny(t); k++ {
		t = m.Neg(m.Mul(t, x2))
		sum = m.Add(sum, m.Div(t, m.Int(2*k+1)))
	}
	return sum
}

// Pi is 16 atan 1/5 - 4 atan 1/239.
func (m MP) Pi() *big.Float {
	mpLock.Lock()
	defer mpLock.Unlock()
	if p, ok := mpPi[m.P]; ok {
		return p
	}
	w := MP{m.P + 64}
	p := w.Sub(w.Mul(w.Int(16), w.atanInv(5)), w.Mul(w.Int(4), w.atanInv(239)))
	mpPi[m.P] = m.Of(p)
	return mpPi[m.P]
}

// Ln2 is 2 atanh 1/3.
func (m MP) Ln2() *big.Float {
	mpLock.Lock()
	defer mpLock.Unlock()
	if p, ok := mpLn2[m.P]; ok {
		return p
	}
	w := MP{m.P + 64}
	t := w.Div(w.Int(2), w.Int(3))
	sum := w.Of(t)
	for k := int64(1); !w.tiny(t); k++ {
		t = w.Div(t, w.Int(9))
		sum = w.Add(sum, w.Div(t, w.Int(2*k+1)))
	}
	mpLn2[m.P] = m.Of(sum)
	return mpLn2[m.P]
}

// Exp is e**x: x is reduced by a multiple of log 2, then halved, and squared back.
func (m MP) Exp(x *big.Float) *big.Float {
	if x.Sign() == 0 {
		return m.Int(1)
	}
	e := x.MantExp(nil)
	if e > 40 {
		panic("mp: exp of a huge number")
	}
	w := MP{m.P + 96}
	if e > 0 {
		w.P += uint(e)
	}
	q := w.Div(w.Of(x), w.Ln2())
	k, _ := w.Add(q, w.Rat(big.NewRat(1, 2))).Int(nil)
	r := w.Sub(w.Of(x), w.Mul(w.f().SetInt(k), w.Ln2()))
	const h = 24
	r = w.Shift(r, -h)
	sum, t := w.Int(1), w.Int(1)
	for i := int64(1); ; i++ {
		t = w.Div(w.Mul(t, r), w.Int(i))
		if w.tiny(t) {
			break
		}
		sum = w.Add(sum, t)
	}
	for i := 0; i < h; i++ {
		sum = w.Mul(sum, sum)
	}
	return m.Shift(m.Of(sum), int(k.Int64()))
}

// Log is the natural logarithm of x > 0, by Newton's method on Exp.
func (m MP) Log(x *big.Float) *big.Float {
	if x.Sign() <= 0 {
		panic("mp: log of a non-positive number")
	}
	w := MP{m.P + 96}
	mant := w.f()
	e := w.Of(x).MantExp(mant)
	if mant.Cmp(w.Rat(big.NewRat(7, 10))) < 0 {
		mant = w.Shift(mant, 1)
		e--
	}
	// mant is in [0.7, 1.4). Close to 1, the series of log(1+u) is not needed: Newton's
	// error is absolute, so add precision for the cancelled bits.
	d := w.Sub(mant, w.Int(1))
	if d.Sign() == 0 {
		return m.Mul(m.Int(int64(e)), MP{m.P + 32}.Ln2())
	}
	if k := -d.MantExp(nil); k > 0 && e == 0 {
		w.P += uint(k)
	}
	mf, _ := mant.Float64()
	var y *big.Float
	if l := math.Log(mf); l != 0 {
		y = w.f().SetFloat64(l)
	} else {
		y = w.Of(d)
	}
	for p := 40; p < 8*int(w.P); p *= 3 {
		ey := w.Exp(y)
		t := w.Div(w.Sub(w.Of(mant), ey), w.Add(w.Of(mant), ey))
		y = w.Add(y, w.Shift(t, 1))
		if t.Sign() == 0 {
			break
		}
	}
	return m.Add(y, w.Mul(w.Int(int64(e)), w.Ln2()))
}

// SinCos reduces x by a multiple of 2 pi, halves, and doubles the angle back.
func (m MP) SinCos(x *big.Float) (sin, cos *big.Float) {
	w := MP{m.P + 128}
	if e := x.MantExp(nil); e > 0 {
		w.P += uint(e)
	} else {
		w.P += uint(min(-e, 4000)) // keep relative precision of small sines
	}
	r := w.Of(x)
	if r.MantExp(nil) > 1 {
		tau := w.Shift(w.Pi(), 1)
		k, _ := w.Div(r, tau).Int(nil)
		r = w.Sub(r, w.Mul(w.f().SetInt(k), tau))
	}
	const h = 20
	r = w.Shift(r, -h)
	r2 := w.Mul(r, r)
	s, t := w.Of(r), w.Of(r)
	for i := int64(2); ; i += 2 {
		t = w.Neg(w.Div(w.Mul(t, r2), w.Int(i*(i+1))))
		if w.tiny(t) {
			break
		}
		s = w.Add(s, t)
	}
	// 1-cos keeps its precision through the doublings: v = 1-cos.
	v, t := w.f(), w.Int(-1)
	for i := int64(1); ; i += 2 {
		t = w.Neg(w.Div(w.Mul(t, r2), w.Int(i*(i+1))))
		if w.tiny(t) {
			break
		}
		v = w.Add(v, t)
	}
	for i := 0; i < h; i++ {
		c := w.Sub(w.Int(1), v)
		s, v = w.Shift(w.Mul(s, c), 1), w.Shift(w.Mul(s, s), 1)
	}
	return m.Of(s), m.Of(w.Sub(w.Int(1), v))
}

// Atan halves the argument with x/(1+sqrt(1+x*x)) and doubles the result back.
func (m MP) Atan(x *big.Float) *big.Float {
	if x.Sign() == 0 {
		return m.f()
	}
	w := MP{m.P + 96}
	y := w.Of(x)
	const h = 20
	for i := 0; i < h; i++ {
		y = w.Div(y, w.Add(w.Int(1), w.Sqrt(w.Add(w.Int(1), w.Mul(y, y)))))
	}
	y2 := w.Mul(y, y)
	sum, t := w.Of(y), w.Of(y)
	for k := int64(1); t.Sign() != 0 && t.MantExp(nil) > y.MantExp(nil)-int(w.P)-4; k++ {
		t = w.Neg(w.Mul(t, y2))
		sum = w.Add(sum, w.Div(t, w.Int(2*k+1)))
	}
	return m.Shift(m.Of(sum), h)
}

// Z is a complex number.
type Z struct{ R, I *big.Float }

func (m MP) Z(r, i *big.Float) Z { return Z{m.Of(r), m.Of(i)} }
func (m MP) ZAdd(a, b Z) Z       { return Z{m.Add(a.R, b.R), m.Add(a.I, b.I)} }
func (m MP) ZSub(a, b Z) Z       { return Z{m.Sub(a.R, b.R), m.Sub(a.I, b.I)} }
func (m MP) ZMul(a, b Z) Z {
	return Z{m.Sub(m.Mul(a.R, b.R), m.Mul(a.I, b.I)), m.Add(m.Mul(a.R, b.I), m.Mul(a.I, b.R))}
}
func (m MP) ZDiv(a, b Z) Z {
	n := m.Add(m.Mul(b.R, b.R), m.Mul(b.I, b.I))
	x := m.ZMul(a, Z{b.R, m.Neg(b.I)})
	return Z{m.Div(x.R, n), m.Div(x.I, n)}
}
func (m MP) ZAbs(a Z) *big.Float {
	return m.Sqrt(m.Add(m.Mul(a.R, a.R), m.Mul(a.I, a.I)))
}

// Arg is in (-pi, pi].
func (m MP) Arg(a Z) *big.Float {
	switch {
	case a.R.Sign() > 0:
		return m.Atan(m.Div(a.I, a.R))
	case a.R.Sign() < 0 && a.I.Sign() >= 0:
		return m.Add(m.Atan(m.Div(a.I, a.R)), m.Pi())
	case a.R.Sign() < 0:
		return m.Sub(m.Atan(m.Div(a.I, a.R)), m.Pi())
	case a.I.Sign() > 0:
		return m.Shift(m.Pi(), -1)
	case a.I.Sign() < 0:
		return m.Neg(m.Shift(m.Pi(), -1))
	}
	return m.f()
}
func (m MP) ZLog(a Z) Z { return Z{m.Log(m.ZAbs(a)), m.Arg(a)} }
func (m MP) ZExp(a Z) Z {
	e := m.Exp(a.R)
	s, c := m.SinCos(a.I)
	return Z{m.Mul(e, c), m.Mul(e, s)}
}

// ZCosh and ZSinh by their definitions; the caller allows for the cancellation.
func (m MP) ZCosh(a Z) Z {
	x, y := m.ZExp(a), m.ZExp(Z{m.Neg(a.R), m.Neg(a.I)})
	z := m.ZAdd(x, y)
	return Z{m.Shift(z.R, -1), m.Shift(z.I, -1)}
}
func (m MP) ZSinh(a Z) Z {
	x, y := m.ZExp(a), m.ZExp(Z{m.Neg(a.R), m.Neg(a.I)})
	z := m.ZSub(x, y)
	return Z{m.Shift(z.R, -1), m.Shift(z.I, -1)}
}

// ZSin is -i sinh iz, ZCos is cosh iz.
func (m MP) ZSin(a Z) Z {
	z := m.ZSinh(Z{m.Neg(a.I), a.R})
	return Z{z.I, m.Neg(z.R)}
}
func (m MP) ZCos(a Z) Z  { return m.ZCosh(Z{m.Neg(a.I), a.R}) }
func (m MP) ZTan(a Z) Z  { return m.ZDiv(m.ZSin(a), m.ZCos(a)) }
func (m MP) ZTanh(a Z) Z { return m.ZDiv(m.ZSinh(a), m.ZCosh(a)) }
func (m MP) ZSqrt(a Z) Z {
	r := m.ZAbs(a)
	re := m.Sqrt(m.Shift(m.Add(r, m.Abs(a.R)), -1))
	if re.Sign() == 0 {
		return Z{m.f(), m.f()}
	}
	im := m.Shift(m.Div(m.Abs(a.I), re), -1)
	if a.R.Sign() < 0 {
		re, im = im, re
	}
	if a.I.Sign() < 0 {
		im = m.Neg(im)
	}
	return Z{re, im}
}
