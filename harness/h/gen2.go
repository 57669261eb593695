package h

import (
	"fmt"
	"math/big"
	"strings"
)

// ElemKind says what kind of elements an array generator makes.
type ElemKind int

const (
	EInt    ElemKind = iota // small integers
	ENum                    // any exact real numbers
	ECplx                   // exact numbers, often complex
	EChar                   // characters
	EMixed                  // numbers and characters
	ENested                 // scalars, vectors and matrices of them
)

// GenElem draws one element.
func GenElem(c *C, k ElemKind, depth int) *V {
	switch k {
	case EInt:
		return Int(c.Range(0, 18) - 6)
	case ENum:
		if c.Bool() {
			return GenSmall(c)
		}
		return Rat(GenRat(c))
	case ECplx:
		if c.Bool() {
			return Cx(GenSmall(c).Re, GenSmall(c).Re)
		}
		return GenNum(c)
	case EChar:
		return Ch(GenRune(c))
	case EMixed:
		if c.Prob(5) {
			return Ch(GenRune(c))
		}
		return GenElem(c, ENum, 0)
	}
	if depth <= 0 || c.Prob(10) {
		return GenElem(c, Pick(c, EInt, EMixed, EChar), 0)
	}
	if c.Prob(4) {
		return GenMat(c, Pick(c, EInt, ENested, EChar), 2, depth-1, false)
	}
	return GenVec(c, Pick(c, EInt, ENested, EChar, EMixed), c.Range(0, 4), depth-1)
}

// GenVec draws a vector of n elements.
func GenVec(c *C, k ElemKind, n, depth int) *V {
	v := &V{K: Vec, El: []*V{}}
	if n > 40 {
		// Long vectors: draw a few distinct elements and a pattern, to keep cases cheap.
		m := c.Range(2, 12)
		base := make([]*V, m)
		for i := range base {
			base[i] = GenElem(c, k, depth)
		}
		a, b := c.Range(1, m), c.Idx(m)
		x := b
		for i := 0; i < n; i++ {
			v.El = append(v.El, base[x%m])
			x = (x*5 + a + i/7) % (m * 31)
		}
		return v
	}
	for i := 0; i < n; i++ {
		v.El = append(v.El, GenElem(c, k, depth))
	}
	return v
}

// GenShape draws a matrix shape; long allows many elements.
func GenShape(c *C, maxRank int, long bool) []int {
	r := 2
	if maxRank > 2 {
		r = c.Range(2, maxRank)
	}
	sh := make([]int, r)
	for i := range sh {
		sh[i] = Pick(c, 2, 1, 3, 4, 0, 2, 3, 5)
		if r > 2 && sh[i] > 3 {
			sh[i] = 3
		}
	}
	if long && c.Prob(3) {
		if r == 2 {
			sh = []int{Pick(c, 15, 2, 20, 101), Pick(c, 15, 101, 14, 3)}
		} else {
			sh[0] = 12
			sh[r-1] = 9
		}
	}
	return sh
}

// GenMat draws a matrix.
func GenMat(c *C, k ElemKind, maxRank, depth int, long bool) *V {
	sh := GenShape(c, maxRank, long)
	n := 1
	for _, d := range sh {
		n *= d
	}
	v := GenVec(c, k, n, depth)
	return MatOf(sh, v.El)
}

// GenLen draws a vector length: mostly short, sometimes past the sizes where the
// implementation changes strategy.
func GenLen(c *C, long bool) int {
	switch c.Idx(16) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 13:
		return c.Range(8, 33)
	case 14:
		if long {
			return Pick(c, 63, 64, 65, 100, 128)
		}
		return c.Range(2, 9)
	case 15:
		if long {
			return Pick(c, 199, 200, 201, 255, 256, 257, 300)
		}
		return c.Range(2, 9)
	}
	return c.Range(2, 7)
}

// GenValue draws any writable value.
func GenValue(c *C, long bool) *V {
	k := Pick(c, EInt, ENum, ECplx, EChar, EMixed, ENested, EInt)
	switch c.Idx(8) {
	case 0, 1, 2:
		if k == ENested {
			k = EMixed
		}
		return GenElem(c, k, 0)
	case 3, 4, 5:
		return GenVec(c, k, GenLen(c, long), 2)
	}
	return GenMat(c, k, 4, 2, long)
}

// Size is the number of scalars in v; Bits the size of its largest number.
func (v *V) Size() int {
	if v.Scalar() {
		return 1
	}
	n := 0
	for _, e := range v.El {
		n += e.Size()
	}
	return n
}

func (v *V) Bits() int {
	switch v.K {
	case Num:
		return v.Re.Num().BitLen() + v.Re.Denom().BitLen() + v.Im.Num().BitLen() + v.Im.Denom().BitLen()
	case Chr:
		return 21
	case Flt:
		b := 300
		if !v.FR.IsInf() && v.FR.Sign() != 0 {
			e := v.FR.MantExp(nil)
			if e < 0 {
				e = -e
			}
			b += e
		}
		if v.FI != nil && !v.FI.IsInf() && v.FI.Sign() != 0 {
			e := v.FI.MantExp(nil)
			if e < 0 {
				e = -e
			}
			b += e
		}
		return b
	}
	m := 0
	for _, e := range v.El {
		if b := e.Bits(); b > m {
			m = b
		}
	}
	return m
}

// Each calls f on every scalar in v.
func (v *V) Each(f func(*V)) {
	if v.Scalar() {
		f(v)
		return
	}
	for _, e := range v.El {
		e.Each(f)
	}
}

// MaxAbs is the largest absolute value of the numbers in v, rounded up, and the sum
// and product of them, capped.
func (v *V) MaxAbs() (max, sum, prod float64) {
	prod = 1
	v.Each(func(e *V) {
		var x float64
		switch e.K {
		case Num:
			x, _ = new(big.Rat).Abs(e.Re).Float64()
			y, _ := new(big.Rat).Abs(e.Im).Float64()
			x += y
		case Flt:
			x, _ = new(big.Float).Abs(e.FR).Float64()
			if e.FI != nil {
				y, _ := new(big.Float).Abs(e.FI).Float64()
				x += y
			}
		case Chr:
			x = float64(e.R)
		}
		if x > max {
			max = x
		}
		sum += x
		if x > 1 {
			prod *= x
		}
	})
	return
}

var _ = fmt.Sprint
var _ = strings.Join
