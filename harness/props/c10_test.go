package props

import (
	"fmt"
	"testing"

	. "verif.local/harness/h"
)

// pool draws values with many repeats, so that equalities occur.
func pool(c *C, k ElemKind) []*V {
	n := c.Range(1, 8)
	p := make([]*V, n)
	for i := range p {
		p[i] = GenElem(c, k, 2)
		if i > 0 && c.Prob(4) {
			p[i] = near(c, p[i-1])
		}
	}
	return p
}

// near draws a value that differs from v in one small way.
func near(c *C, v *V) *V {
	switch v.K {
	case Num:
		return ScalarBinary("+", v, Pick(c, I(1), I(-1), Frac(1, 7), Cx(I(0).Re, I(1).Re))).V
	case Chr:
		if v.R < 0x7f {
			return Ch(v.R + 1)
		}
		return v
	case Vec:
		if len(v.El) == 0 {
			return VecOf(I(0))
		}
		el := append([]*V{}, v.El...)
		i := c.Idx(len(el))
		switch c.Idx(4) {
		case 0:
			el = append(el, I(0))
		case 1:
			el = el[:len(el)-1]
		default:
			el[i] = near(c, el[i])
		}
		return VecOf(el...)
	}
	el := append([]*V{}, v.El...)
	sh := append([]int{}, v.Shape...)
	if len(sh) == 2 && c.Bool() {
		sh[0], sh[1] = sh[1], sh[0]
	} else if len(el) > 0 {
		i := c.Idx(len(el))
		el[i] = near(c, el[i])
	}
	return MatOf(sh, el)
}

// floats adds to the pool copies of some numbers, held as floats.
func floats(c *C, p []*V) []*V {
	for _, v := range p {
		if v.CanFloat() && c.Prob(8) {
			p = append(p, v.AsFloat())
		}
	}
	return p
}

func fromPool(c *C, p []*V, n int) *V {
	v := VecOf()
	if n > 40 {
		x := c.Idx(1000)
		for i := 0; i < n; i++ {
			v.El = append(v.El, p[(x>>3)%len(p)])
			x = (x*37 + 11) % 1009
		}
		return v
	}
	for i := 0; i < n; i++ {
		v.El = append(v.El, p[c.Idx(len(p))])
	}
	return v
}

func poolMat(c *C, p []*V) *V {
	sh := GenShape(c, 3, true)
	n := 1
	for _, d := range sh {
		n *= d
	}
	return MatOf(sh, fromPool(c, p, n).El)
}

func TestC10_Sets(t *testing.T) {
	Check(t, "C10", 5000, "membership, index-of, union, intersection, unique, match and not-match on vectors (up to 300) and matrices drawn with repeats from a small pool of related values (numbers of all exact types, some held as floats, chars, nested vectors and matrices differing in one place), origin 0 to 3, compared with pairwise comparison by the reference order; non-trivial: every case, distinct by operands", func(c *C) {
		s := NewSess(c)
		origin := Pick(c, 1, 0, 1, 3)
		s.Do(fmt.Sprintf(")origin %d", origin))
		p := pool(c, Pick(c, EInt, ENum, ECplx, EChar, EMixed, ENested, ENested))
		op := Pick(c, "in", "iota", "union", "intersect", "===", "!==", "unique")
		if op != "unique" && c.Prob(5) {
			p = floats(c, p)
		}
		gen := func() *V {
			switch c.Idx(6) {
			case 0:
				return p[c.Idx(len(p))]
			case 1:
				return poolMat(c, p)
			}
			return fromPool(c, p, GenLen(c, true))
		}
		a, b := gen(), gen()
		if op == "iota" && a.K == Mat && c.Prob(12) {
			// Make the cells conform.
			cell := a.Shape[1:]
			sh := append([]int{}, cell...)
			if c.Bool() {
				sh = append([]int{c.Range(0, 3)}, cell...)
			}
			n := 1
			for _, d := range sh {
				n *= d
			}
			b = MatOf(sh, fromPool(c, p, n).El)
			if len(sh) == 1 {
				b = VecOf(b.El...)
			}
		}
		if (op == "===" || op == "!==") && c.Bool() {
			b = near(c, a)
			if c.Bool() {
				b = a
			}
		}
		s.Do("a = " + a.Src())
		s.Do("b = " + b.Src())
		c.Class(op)
		c.Key(op + a.Src() + b.Src())
		if op == "unique" {
			s.WantRes("unique a", SetUnary("unique", a, origin))
			return
		}
		s.WantExact("a "+op+" b", SetBinary(op, a, b, origin))
	})
}

func TestC10_Grade(t *testing.T) {
	Check(t, "C10", 3000, "up and down on vectors (up to 300) and matrices drawn with repeats from a pool of related values: up must be the stable ascending permutation, down a descending permutation, in the origin's numbering, and indexing by them sorts; non-trivial: at least 2 items", func(c *C) {
		s := NewSess(c)
		origin := Pick(c, 1, 0, 1, 3)
		s.Do(fmt.Sprintf(")origin %d", origin))
		p := pool(c, Pick(c, EInt, ENum, ECplx, EChar, EMixed, ENested, ENested))
		if c.Prob(4) {
			p = floats(c, p)
		}
		var a *V
		if c.Prob(5) {
			a = poolMat(c, p)
		} else {
			a = fromPool(c, p, GenLen(c, true))
		}
		s.Do("a = " + a.Src())
		n := a.Dims()[0]
		if n >= 2 {
			c.Key(a.Src())
		}
		r := SetUnary("up", a, origin)
		s.WantRes("up a", r)
		d := s.Must("down a")
		if r.Skip {
			return
		}
		w := 1
		if a.K == Mat {
			w = len(a.El)
			if n > 0 {
				w /= n
			}
		}
		seen := make([]bool, n)
		prev := -1
		if d.K != Vec || len(d.El) != n {
			c.Fail("down a is not a vector of %d indexes: %s", n, d)
		}
		for _, e := range d.El {
			i, isInt := e.AsInt()
			i -= origin
			if !isInt || i < 0 || i >= n || seen[i] {
				c.Fail("down a is not a permutation: %s", d)
			}
			seen[i] = true
			if prev >= 0 {
				for k := 0; k < w; k++ {
					o := Order(a.El[prev*w+k], a.El[i*w+k])
					if o < 0 {
						c.Fail("down a does not sort: item %d before %d\n%s", prev+origin, i+origin, d)
					}
					if o != 0 {
						break
					}
				}
			}
			prev = i
		}
	})
}

// The elementwise comparisons and the total order agree where both are defined.
func TestC10_Agree(t *testing.T) {
	Check(t, "C10", 3000, "two related scalars: <, ==, ===, in, iota, up, max and min must agree with one order, whatever types hold the numbers; non-trivial: every case", func(c *C) {
		s := NewSess(c)
		k := Pick(c, EInt, ENum, ENum, EChar, ECplx)
		a := GenElem(c, k, 0)
		b := near(c, a)
		if c.Prob(5) {
			b = GenElem(c, k, 0)
		} else if a.K == Num && c.Prob(5) {
			b = GenRelated(c, a)
		}
		if k != ECplx && b.K == Num && !b.IsReal() {
			b = Rat(b.Re)
		}
		s.Do("a = " + a.Src())
		s.Do("b = " + b.Src())
		if c.Prob(4) && k != EChar {
			// The same number held as a float (exactly representable).
			if a.IsInt() && a.Bits() < 250 {
				s.Do("a = float a")
			}
			if b.IsInt() && b.Bits() < 250 {
				s.Do("b = float b")
			}
			if !a.IsInt() || !b.IsInt() {
				return
			}
		}
		c.Key(a.Src() + b.Src())
		o := Order(a, b)
		w := func(ex string, x bool) { s.Want(ex, Bit(x)) }
		if a.K == Chr || a.IsReal() && b.IsReal() {
			w("a < b", o < 0)
			w("a <= b", o <= 0)
			w("a > b", o > 0)
			w("a >= b", o >= 0)
		}
		w("a == b", o == 0)
		w("a != b", o != 0)
		w("a === b", o == 0)
		w("a !== b", o != 0)
		w("a in b", o == 0)
		w("a in b b '☃' (1 2)", o == 0)
		w("(a == b) == a === b", true)
		if o <= 0 {
			s.Want("up a b", Ints(1, 2))
		} else {
			s.Want("up a b", Ints(2, 1))
		}
		s.Want("(a b b a) iota b a", func() *V {
			if o == 0 {
				return Ints(1, 1)
			}
			return Ints(2, 1)
		}())
	})
}
