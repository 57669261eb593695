package h

import (
	"math/big"
)

// Res is a model result: a value, a required error, or "the model does not say".
type Res struct {
	V    *V
	Err  string // non-empty: ivy must report an error
	Skip bool   // outside the modelled domain
}

func ok(v *V) Res      { return Res{V: v} }
func bad(s string) Res { return Res{Err: s} }
func skip() Res        { return Res{Skip: true} }
func rneg(a *big.Rat) *big.Rat {
	return new(big.Rat).Neg(a)
}
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func rquo(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }

// RFloor is the exact floor of a rational.
func RFloor(a *big.Rat) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a.Num(), a.Denom(), m) // Denom > 0, so Euclidean is floor.
	return q
}

func rceil(a *big.Rat) *big.Int {
	z := RFloor(rneg(a))
	return z.Neg(z)
}

func boolRes(b bool) Res { return ok(Bit(b)) }

// ScalarBinary models the elementwise binary operators on two scalars.
func ScalarBinary(op string, a, b *V) Res {
	switch op {
	case "==", "!=":
		eq := a.K == b.K && Same(a, b)
		if a.K == Flt || b.K == Flt {
			return skip()
		}
		return boolRes(eq == (op == "=="))
	}
	if a.K == Flt || b.K == Flt {
		return skip()
	}
	if a.K == Chr || b.K == Chr {
		if a.K != b.K {
			return bad("char with number")
		}
		switch op {
		case "<":
			return boolRes(a.R < b.R)
		case "<=":
			return boolRes(a.R <= b.R)
		case ">":
			return boolRes(a.R > b.R)
		case ">=":
			return boolRes(a.R >= b.R)
		case "max":
			if a.R > b.R {
				return ok(a)
			}
			return ok(b)
		case "min":
			if a.R < b.R {
				return ok(a)
			}
			return ok(b)
		case "and", "or", "xor", "nand", "nor":
			return skip()
		}
		return bad("arithmetic on chars")
	}
	za, zb := a.IsZero(), b.IsZero()
	switch op {
	case "+":
		return ok(Cx(radd(a.Re, b.Re), radd(a.Im, b.Im)))
	case "-":
		return ok(Cx(rsub(a.Re, b.Re), rsub(a.Im, b.Im)))
	case "*":
		return ok(Cx(rsub(rmul(a.Re, b.Re), rmul(a.Im, b.Im)), radd(rmul(a.Re, b.Im), rmul(a.Im, b.Re))))
	case "/":
		if zb {
			return bad("division by zero")
		}
		d := radd(rmul(b.Re, b.Re), rmul(b.Im, b.Im))
		re := radd(rmul(a.Re, b.Re), rmul(a.Im, b.Im))
		im := rsub(rmul(a.Im, b.Re), rmul(a.Re, b.Im))
		return ok(Cx(rquo(re, d), rquo(im, d)))
	case "and":
		return boolRes(!za && !zb)
	case "or":
		return boolRes(!za || !zb)
	case "xor":
		return boolRes(za != zb)
	case "nand":
		return boolRes(za || zb)
	case "nor":
		return boolRes(za && zb)
	}
	if op == "**" {
		if a.IsReal() && b.IsInt() {
			if zb {
				return ok(I(1))
			}
			if za {
				if b.Re.Sign() < 0 {
					return bad("negative power of zero")
				}
				return ok(I(0))
			}
			e := b.Re.Num()
			one := a.Re.IsInt() && a.Re.Num().CmpAbs(big.NewInt(1)) == 0
			if one {
				r := I(1)
				if a.Re.Sign() < 0 && e.Bit(0) == 1 {
					r = I(-1)
				}
				return ok(r)
			}
			if !e.IsInt64() {
				return bad("exponent too large")
			}
			n := e.Int64()
			if n < 0 {
				n = -n
			}
			if n > 100000 || int64(a.Re.Num().BitLen()+a.Re.Denom().BitLen())*n > 100000 {
				return skip()
			}
			num := new(big.Int).Exp(a.Re.Num(), big.NewInt(n), nil)
			den := new(big.Int).Exp(a.Re.Denom(), big.NewInt(n), nil)
			if e.Sign() < 0 {
				num, den = den, num
			}
			return ok(Rat(new(big.Rat).SetFrac(num, den)))
		}
		return skip()
	}
	if !a.IsReal() || !b.IsReal() {
		return bad("not defined on complex")
	}
	switch op {
	case "j":
		return ok(Cx(a.Re, b.Re))
	case "<":
		return boolRes(a.Re.Cmp(b.Re) < 0)
	case "<=":
		return boolRes(a.Re.Cmp(b.Re) <= 0)
	case ">":
		return boolRes(a.Re.Cmp(b.Re) > 0)
	case ">=":
		return boolRes(a.Re.Cmp(b.Re) >= 0)
	case "max":
		if a.Re.Cmp(b.Re) > 0 {
			return ok(a)
		}
		return ok(b)
	case "min":
		if a.Re.Cmp(b.Re) < 0 {
			return ok(a)
		}
		return ok(b)
	case "mod":
		if zb {
			return ok(a)
		}
		// Euclidean: a - b*q with 0 <= r < |b|.
		ab := new(big.Rat).Abs(b.Re)
		q := RFloor(rquo(a.Re, ab))
		return ok(Rat(rsub(a.Re, rmul(ab, new(big.Rat).SetInt(q)))))
	}
	if !a.IsInt() || !b.IsInt() {
		return bad("integers only")
	}
	x, y := a.Re.Num(), b.Re.Num()
	z := new(big.Int)
	switch op {
	case "div":
		if zb {
			return bad("division by zero")
		}
		return ok(BI(z.Div(x, y)))
	case "idiv":
		if zb {
			return bad("division by zero")
		}
		return ok(BI(z.Quo(x, y)))
	case "imod":
		if zb {
			return bad("modulo by zero")
		}
		return ok(BI(z.Rem(x, y)))
	case "&":
		return ok(BI(z.And(x, y)))
	case "|":
		return ok(BI(z.Or(x, y)))
	case "^":
		return ok(BI(z.Xor(x, y)))
	case "<<", ">>":
		if y.Sign() < 0 || y.BitLen() > 31 {
			return bad("bad shift count")
		}
		n := uint(y.Int64())
		if op == ">>" {
			return ok(BI(z.Rsh(x, n)))
		}
		if n > 100000 {
			return skip()
		}
		return ok(BI(z.Lsh(x, n)))
	case "!":
		if x.Sign() < 0 || y.Sign() < 0 {
			return skip()
		}
		if x.BitLen() > 31 || y.BitLen() > 31 {
			return skip() // not implemented on large integers
		}
		k, n := x.Int64(), y.Int64()
		if n > 3000 || n == 0 && k > 0 {
			return skip() // k!0 is 1 by the repository's own tests, 0 in mathematics
		}
		if k > n {
			return ok(I(0))
		}
		return ok(BI(z.Binomial(n, k)))
	}
	return skip()
}

// ScalarUnary models the elementwise unary operators on a scalar.
func ScalarUnary(op string, a *V) Res {
	if a.K == Flt {
		return skip()
	}
	if a.K == Chr {
		if op == "code" {
			return ok(I(int64(a.R)))
		}
		if op == "+" {
			return skip() // the identity: no change, or an error
		}
		return bad("not defined on chars")
	}
	switch op {
	case "+":
		return ok(a)
	case "-":
		return ok(Cx(rneg(a.Re), rneg(a.Im)))
	case "/":
		return ScalarBinary("/", I(1), a)
	case "not":
		return boolRes(a.IsZero())
	case "real":
		return ok(Rat(a.Re))
	case "imag":
		return ok(Rat(a.Im))
	case "conj":
		return ok(Cx(a.Re, rneg(a.Im)))
	case "j":
		return ok(Cx(rneg(a.Im), a.Re))
	case "floor":
		return ok(cfloor(a))
	case "ceil":
		f := cfloor(Cx(rneg(a.Re), rneg(a.Im)))
		return ok(Cx(rneg(f.Re), rneg(f.Im)))
	case "code":
		return bad("code of number")
	}
	if !a.IsReal() {
		if op == "abs" || op == "sgn" {
			return skip()
		}
		return bad("not defined on complex")
	}
	switch op {
	case "abs":
		return ok(Rat(new(big.Rat).Abs(a.Re)))
	case "sgn":
		return ok(I(int64(a.Re.Sign())))
	}
	if !a.IsInt() {
		return bad("integers only")
	}
	x := a.Re.Num()
	switch op {
	case "^":
		return ok(BI(new(big.Int).Not(x)))
	case "!":
		if x.Sign() < 0 {
			return bad("negative factorial")
		}
		if x.BitLen() > 11 {
			return skip()
		}
		return ok(BI(new(big.Int).MulRange(1, x.Int64())))
	case "char":
		if !x.IsInt64() || x.BitLen() > 31 {
			return bad("bad code point")
		}
		n := x.Int64()
		if n < 0 || n > 0x10FFFF || 0xD800 <= n && n < 0xE000 {
			return bad("bad code point")
		}
		return ok(Ch(rune(n)))
	}
	return skip()
}

// cfloor is McDonnell's complex floor; on reals it is the floor.
func cfloor(a *V) *V {
	fr, fi := RFloor(a.Re), RFloor(a.Im)
	dr, di := rsub(a.Re, new(big.Rat).SetInt(fr)), rsub(a.Im, new(big.Rat).SetInt(fi))
	if radd(dr, di).Cmp(big.NewRat(1, 1)) >= 0 {
		if dr.Cmp(di) >= 0 {
			fr.Add(fr, big.NewInt(1))
		} else {
			fi.Add(fi, big.NewInt(1))
		}
	}
	return Cx(new(big.Rat).SetInt(fr), new(big.Rat).SetInt(fi))
}
