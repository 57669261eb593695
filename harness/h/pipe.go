package h

import (
	"fmt"
	"strings"
)

// WantSame is WantNorm that does not tell an array of rank one in the result from a vector.
func (s *Sess) WantSame(expr string, want *V) {
	v, e := s.Eval(expr)
	if e != "" {
		s.C.Fail("%s\n gives error: %s\n want value: %s", expr, e, want)
	}
	if d := Diff(NormV(v), NormV(want)); d != "" {
		s.C.Fail("%s\n got:  %s\n want: %s\n (%s)", expr, v, want, d)
	}
}

// WantNorm checks expr against a value. Arrays of rank one in want stand for vectors.
func (s *Sess) WantNorm(expr string, want *V) {
	v, e := s.Eval(expr)
	if e != "" {
		s.C.Fail("%s\n gives error: %s\n want value: %s", expr, e, want)
	}
	if d := Diff(v, NormV(want)); d != "" {
		s.C.Fail("%s\n got:  %s\n want: %s\n (%s)", expr, v, want, d)
	}
}

// WantExact is WantNorm that does not tell a float from the exact number it equals.
func (s *Sess) WantExact(expr string, r Res) {
	if r.Skip || r.Err != "" {
		s.WantRes(expr, r)
		return
	}
	v, e := s.Eval(expr)
	if e != "" {
		s.C.Fail("%s\n gives error: %s\n want value: %s", expr, e, r.V)
	}
	if d := Diff(v.Exact(), NormV(r.V).Exact()); d != "" {
		s.C.Fail("%s\n got:  %s\n want: %s\n (%s)", expr, v, r.V, d)
	}
}

// WantRes checks expr against a model result.
func (s *Sess) WantRes(expr string, r Res) {
	switch {
	case r.Skip:
		s.Eval(expr)
	case r.Err != "":
		s.WantErr(expr, r.Err)
	default:
		s.WantNorm(expr, r.V)
	}
}

// IntList writes integers as an operand.
func IntList(n []int) string {
	if len(n) == 0 {
		return "(iota 0)"
	}
	if len(n) == 1 {
		return fmt.Sprintf("(,%d)", n[0])
	}
	var b []string
	for _, x := range n {
		b = append(b, fmt.Sprint(x))
	}
	return "(" + strings.Join(b, " ") + ")"
}

var StructUnaryOps = []string{"rho", "count", "flatten", ",", "first", "rot", "flip", "transp", "split", "mix", "where", "iota"}
var StructBinaryOps = []string{"rho", ",", ",%", "take", "drop", "rot", "flip", "fill", "sel", "part", "transp"}

// GenLeft draws a left operand for the structural operator op on b, usually conforming.
func GenLeft(c *C, op string, b *V, origin int) *V {
	if c.Prob(1) {
		return GenValue(c, false)
	}
	d := b.Dims()
	if len(d) == 0 {
		d = []int{1}
	}
	last := d[len(d)-1]
	ints := func(n int, f func(i int) int) *V {
		v := Ints()
		for i := 0; i < n; i++ {
			v.El = append(v.El, Int(f(i)))
		}
		return v
	}
	scalarize := func(v *V) *V {
		if len(v.El) == 1 && c.Bool() {
			return v.El[0]
		}
		return v
	}
	switch op {
	case "rho":
		if c.Prob(4) {
			return Ints(d...)
		}
		n := c.Range(1, 4)
		if n == 1 {
			return scalarize(ints(1, func(int) int { return Pick(c, 3, 0, 1, 7, 12, 40, 150) }))
		}
		return ints(n, func(int) int { return Pick(c, 2, 3, 1, 4, 0, 2) })
	case "take", "drop":
		n := c.Range(1, len(d))
		if c.Prob(1) {
			n++
		}
		return scalarize(ints(n, func(i int) int {
			x := 2
			if i < len(d) {
				x = d[i]
			}
			k := c.Range(0, x+2)
			if c.Prob(2) {
				k = x
			}
			if c.Bool() {
				k = -k
			}
			return k
		}))
	case "rot", "flip":
		return scalarize(ints(1, func(int) int {
			if c.Prob(2) {
				return Pick(c, 1000, -1000, 1<<31-1, -1<<31, 65536)
			}
			return c.Range(0, 24) - 12
		}))
	case "fill":
		v := Ints()
		n := d[0]
		for i := 0; i < n; {
			if c.Prob(5) {
				v.El = append(v.El, Int(-c.Idx(4)))
				continue
			}
			v.El = append(v.El, Int(c.Range(1, 3)))
			i++
		}
		if c.Prob(4) {
			v.El = append(v.El, Int(-c.Idx(3)))
		}
		return v
	case "sel":
		n := last
		if c.Prob(3) {
			n = 1
		}
		return scalarize(ints(n, func(int) int { return Pick(c, 1, 0, 2, 3, -1, -2, 1, 0) }))
	case "part":
		n := last
		if c.Prob(2) {
			n = 1
		}
		return scalarize(ints(n, func(int) int { return Pick(c, 1, 2, 0, 3, 1, 0, 5) }))
	case "transp":
		r := len(d)
		p := make([]int, r)
		for i := range p {
			p[i] = i
		}
		if c.Prob(5) {
			for i := range p {
				p[i] = c.Idx(r)
			}
		} else {
			for i := r - 1; i > 0; i-- {
				j := c.Idx(i + 1)
				p[i], p[j] = p[j], p[i]
			}
		}
		return ints(r, func(i int) int { return p[i] + origin })
	case ",", ",%":
		k := Pick(c, EInt, EMixed, ENested, EChar)
		if b.K != Mat || c.Prob(3) {
			return GenValue(c, false)
		}
		axis := len(d) - 1
		if op == ",%" {
			axis = 0
		}
		switch c.Idx(3) {
		case 0:
			return GenElem(c, k, 1)
		case 1: // one slice
			sh := append([]int{}, d[:axis]...)
			sh = append(sh, d[axis+1:]...)
			return mk(sh, GenVec(c, k, prod(sh), 1).El)
		}
		sh := append([]int{}, d...)
		sh[axis] = c.Range(0, 3)
		return MatOf(sh, GenVec(c, k, prod(sh), 1).El)
	}
	return GenValue(c, false)
}
