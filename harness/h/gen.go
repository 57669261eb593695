package h

import (
	"math/big"
)

var edges = []uint{0, 1, 3, 7, 8, 15, 16, 24, 30, 31, 32, 33, 47, 52, 53, 62, 63, 64, 65, 96, 127, 128, 255, 256, 400}

// GenInt draws an integer: mostly small, often next to a power of two (where machine
// words end), sometimes with many random digits.
func GenInt(c *C) *big.Int {
	z := new(big.Int)
	switch c.Idx(8) {
	case 0, 1, 2:
		z.SetInt64(int64(c.Range(0, 12)))
	case 3:
		z.SetInt64(int64(c.Range(0, 1023)))
	case 4, 5, 6:
		z.Lsh(big.NewInt(1), edges[c.Idx(len(edges))])
		z.Add(z, big.NewInt(int64(c.Range(0, 4)-2)))
	case 7:
		n := c.Range(1, 14)
		for i := 0; i < n; i++ {
			z.Lsh(z, 16)
			z.Or(z, big.NewInt(int64(c.Idx(1<<16))))
		}
	}
	if c.Bool() {
		z.Neg(z)
	}
	return z
}

// GenRat draws an exact real number.
func GenRat(c *C) *big.Rat {
	if c.Idx(3) > 0 {
		return new(big.Rat).SetInt(GenInt(c))
	}
	num := GenInt(c)
	den := GenInt(c)
	if c.Bool() {
		den = big.NewInt(int64(c.Range(1, 12)))
	}
	den.Abs(den)
	if den.Sign() == 0 {
		den.SetInt64(1)
	}
	return new(big.Rat).SetFrac(num, den)
}

// GenNum draws an exact number, sometimes complex.
func GenNum(c *C) *V {
	re := GenRat(c)
	if c.Prob(3) {
		return Cx(re, GenRat(c))
	}
	return Rat(re)
}

// GenSmall draws a small exact real number (|x| <= 12, small denominators).
func GenSmall(c *C) *V {
	n := int64(c.Range(0, 24))
	n -= 12
	if c.Prob(3) {
		return Frac(n, int64(c.Range(1, 6)))
	}
	return I(n)
}

var runeSet = []rune{'a', 'b', 'z', ' ', '0', '\'', '"', '`', '\\', '\n', '\t', 'é', 'λ', '世', '😀', '#', ';', '%', 0, 0x7f, 0xfffd, 0x10ffff}

// GenRune draws a character.
func GenRune(c *C) rune {
	if c.Bool() {
		return rune('a' + c.Idx(4))
	}
	return runeSet[c.Idx(len(runeSet))]
}

// GenRelated draws a number that has to do with v: itself, its opposite, conjugate or inverse, the parts
// exchanged, a neighbour, a multiple, or one that shares a part with it.
func GenRelated(c *C, v *V) *V {
	neg := func(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }
	one := big.NewRat(1, 1)
	switch c.Idx(10) {
	case 0:
		return v
	case 1:
		return Cx(neg(v.Re), neg(v.Im))
	case 2:
		return Cx(v.Re, neg(v.Im))
	case 3:
		return Cx(neg(v.Re), v.Im)
	case 4:
		return Cx(v.Im, v.Re)
	case 5:
		return Cx(new(big.Rat).Add(v.Re, one), v.Im)
	case 6:
		return Cx(new(big.Rat).Sub(v.Re, one), v.Im)
	case 7:
		return Cx(v.Re, new(big.Rat).Add(v.Im, one))
	case 8:
		return Cx(v.Re, GenRat(c))
	}
	k := big.NewRat(int64(c.Range(1, 6)), int64(c.Range(1, 6)))
	return Cx(new(big.Rat).Mul(v.Re, k), new(big.Rat).Mul(v.Im, k))
}
