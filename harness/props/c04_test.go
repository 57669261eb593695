package props

import (
	"testing"

	. "verif.local/harness/h"
)

var elemBinaryOps = []string{"+", "-", "*", "/", "div", "idiv", "mod", "imod", "max", "min", "<", "<=", "==", ">=", ">", "!=",
	"&", "|", "^", "and", "or", "xor", "nand", "nor", "j", "<<", ">>", "!", "**"}
var elemUnaryOps = []string{"+", "-", "/", "sgn", "^", "not", "!", "floor", "ceil", "abs", "real", "imag", "conj", "j", "code", "char"}

// small draws operands for the operators whose results grow.
func elemKind(c *C, op string) ElemKind {
	switch op {
	case "<<", ">>", "!", "**":
		return EInt
	case "code":
		return EChar
	}
	return Pick(c, EInt, ENum, ECplx, EInt, EMixed, EChar)
}

// likeShape draws an operand conforming to a (usually).
func likeShape(c *C, a *V, k ElemKind) *V {
	mkEl := func(n int) []*V { return GenVec(c, k, n, 0).El }
	switch c.Idx(10) {
	case 0, 1:
		return GenElem(c, k, 0)
	case 2:
		return VecOf(GenElem(c, k, 0))
	case 3:
		if a.K == Mat {
			return VecOf(mkEl(a.Shape[len(a.Shape)-1])...)
		}
	case 4:
		if c.Bool() {
			return GenVec(c, k, GenLen(c, true), 0)
		}
		return GenMat(c, k, 3, 0, false)
	}
	switch a.K {
	case Vec:
		return VecOf(mkEl(len(a.El))...)
	case Mat:
		return MatOf(a.Shape, mkEl(len(a.El)))
	}
	if c.Bool() {
		return GenVec(c, k, GenLen(c, true), 0)
	}
	return GenMat(c, k, 4, 0, true)
}

func genArr(c *C, k ElemKind) *V {
	switch c.Idx(4) {
	case 0:
		return GenElem(c, k, 0)
	case 1, 2:
		return GenVec(c, k, GenLen(c, true), 0)
	}
	return GenMat(c, k, 4, 0, true)
}

// nest replaces some elements by arrays that conform elementwise.
func nest(c *C, a, b *V, k ElemKind) {
	if len(a.El) == 0 || len(b.El) != len(a.El) {
		return
	}
	for n := c.Range(1, 3); n > 0; n-- {
		i := c.Idx(len(a.El))
		x := genArr(c, k)
		if x.Size() > 20 {
			continue
		}
		y := likeShape(c, x, k)
		if y.Size() > 100 {
			continue
		}
		a.El[i], b.El[i] = x, y
	}
}

func TestC04_Binary(t *testing.T) {
	Check(t, "C04", 5000, "an elementwise binary operator on two generated operands (scalars, one-element vectors, vectors up to 300, arrays of rank up to 4, nested elements; conforming or not) compared with element-by-element application of the scalar model; non-trivial: the model decides the result and at least one operand is an array", func(c *C) {
		op := Pick(c, elemBinaryOps...)
		k := elemKind(c, op)
		a := genArr(c, k)
		b := likeShape(c, a, k)
		if c.Prob(4) && k != EChar {
			nest(c, a, b, k)
		}
		if c.Bool() {
			a, b = b, a
		}
		if op == "<<" || op == ">>" || op == "!" || op == "**" {
			// small non-negative right operands mostly
			if c.Prob(12) {
				b = ElemUnary("abs", b).V
				a = ElemUnary("abs", a).V
			}
		}
		r := ElemBinary(op, a, b)
		if r.Skip || a.Scalar() && b.Scalar() {
			return
		}
		c.Class(op)
		s := NewSess(c)
		s.Do("a = " + a.Src())
		s.Do("b = " + b.Src())
		ex := "a " + op + " b"
		if c.Prob(3) {
			ex = a.Src() + " " + op + " " + b.Src()
		}
		c.Key(op + a.Src() + b.Src())
		if r.Err != "" {
			c.Class("error")
		}
		s.WantRes(ex, r)
	})
}

func TestC04_Unary(t *testing.T) {
	Check(t, "C04", 2500, "an elementwise unary operator on a generated array, possibly nested, compared with element-by-element application of the scalar model; non-trivial: the model decides the result", func(c *C) {
		op := Pick(c, elemUnaryOps...)
		k := elemKind(c, op)
		if op == "char" {
			k = EInt
		}
		a := genArr(c, k)
		if op == "char" {
			for _, e := range a.El {
				if c.Prob(14) {
					*e = *Int(Pick(c, 97, 0x4e16, 0x1f600, 0x10ffff, 0xd7ff, 0xe000, 0, 65))
				} else {
					*e = *Int(Pick(c, 0xd800, 0xdfff, 0x110000, -1, 97))
				}
			}
		}
		if op == "!" && c.Prob(13) {
			a = ElemUnary("abs", a).V
		}
		if c.Prob(4) {
			nest(c, a, &V{K: Vec, El: make([]*V, len(a.El))}, k)
		}
		r := ElemUnary(op, a)
		if r.Skip || a.Scalar() {
			return
		}
		c.Class(op)
		c.Key(op + a.Src())
		s := NewSess(c)
		s.Do("a = " + a.Src())
		s.WantRes(op+" a", r)
		if r.Err != "" {
			c.Class("error")
		}
	})
}

// The irrational functions have no exact model; they still extend elementwise: each
// element of the result must be what the function gives on that element alone.
func TestC04_Pointwise(t *testing.T) {
	Check(t, "C04", 250, "an operator with float results (roots, exponentials, logarithms, trigonometry, powers) on a vector or matrix gives, element by element, exactly what it gives on that element; non-trivial: at least 2 elements and no error", func(c *C) {
		s := NewSess(c)
		n := c.Range(2, 8)
		a := GenVec(c, Pick(c, EInt, ENum), n, 0)
		b := GenVec(c, EInt, n, 0)
		for _, v := range []*V{a, b} {
			if max, _, _ := v.MaxAbs(); max > 1000 {
				return
			}
		}
		if n%2 == 0 && c.Bool() {
			a = MatOf([]int{2, n / 2}, a.El)
			b = MatOf([]int{2, n / 2}, b.El)
		}
		s.Do("a = " + a.Src())
		s.Do("b = " + b.Src())
		unary := c.Bool()
		op := Pick(c, "**", "log")
		if unary {
			op = Pick(c, "sqrt", "**", "log", "sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh", "float", "phase", "asin")
		}
		ex := "a " + op + " b"
		if unary {
			ex = op + " a"
		}
		got, e := s.Eval(ex)
		want := &V{K: a.K, Shape: a.Shape}
		for i := range a.El {
			one := a.El[i].Src() + " " + op + " " + b.El[i].Src()
			if unary {
				one = op + " " + a.El[i].Src()
			}
			w, e1 := s.Eval(one)
			if e1 != "" {
				if e == "" {
					c.Fail("%s succeeds, but %s gives error %s", ex, one, e1)
				}
				return
			}
			want.El = append(want.El, w)
		}
		if e != "" {
			c.Fail("%s fails (%s) but succeeds on each element", ex, e)
		}
		c.Key(ex + a.Src() + b.Src())
		if d := Diff(got, want); d != "" {
			c.Fail("%s: %s", ex, d)
		}
	})
}
