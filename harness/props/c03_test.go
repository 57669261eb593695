package props

import (
	"testing"

	. "verif.local/harness/h"
)

var exactBinary = []string{"+", "-", "*", "/", "**", "div", "idiv", "mod", "imod", "max", "min",
	"<", "<=", "==", ">=", ">", "!=", "&", "|", "^", "<<", ">>", "!", "and", "or", "xor", "nand", "nor", "j"}
var exactUnary = []string{"+", "-", "/", "sgn", "^", "not", "!", "floor", "ceil", "abs", "real", "imag", "conj", "j"}

// tree is a generated expression with its model result.
type tree struct {
	src string
	res Res
	ops int
}

func numTree(c *C, depth int) tree {
	if depth == 0 || c.Prob(3) {
		v := GenNum(c)
		return tree{v.Src(), Res{V: v}, 0}
	}
	if c.Prob(5) {
		t := numTree(c, depth-1)
		op := Pick(c, exactUnary...)
		if t.res.V == nil {
			return t
		}
		for i := 0; i < 3 && ScalarUnary(op, t.res.V).Err != ""; i++ {
			op = Pick(c, exactUnary...)
		}
		r := ScalarUnary(op, t.res.V)
		return tree{"(" + op + " " + t.src + ")", r, t.ops + 1}
	}
	a := numTree(c, depth-1)
	if a.res.V == nil {
		return a
	}
	b := numTree(c, depth-1)
	if b.res.V == nil {
		return b
	}
	if c.Prob(3) && bits(a.res.V) < 2000 {
		v := GenRelated(c, a.res.V)
		b = tree{v.Src(), Res{V: v}, 0}
	}
	op := Pick(c, exactBinary...)
	for i := 0; i < 3 && ScalarBinary(op, a.res.V, b.res.V).Err != ""; i++ {
		op = Pick(c, exactBinary...)
	}
	if op == "**" || op == "<<" || op == ">>" || op == "!" {
		// Keep these within reach: small right operands (and left, for !).
		b = smallInt(c)
		if op == "!" {
			a = smallInt(c)
		}
		if bits(a.res.V) > 2000 {
			op = "+"
		}
	}
	r := ScalarBinary(op, a.res.V, b.res.V)
	return tree{"(" + a.src + " " + op + " " + b.src + ")", r, a.ops + b.ops + 1}
}

func smallInt(c *C) tree {
	v := Int(c.Range(0, 70) - 20)
	return tree{v.Src(), Res{V: v}, 0}
}

func bits(v *V) int {
	return v.Re.Num().BitLen() + v.Re.Denom().BitLen() + v.Im.Num().BitLen() + v.Im.Denom().BitLen()
}

func TestC03_Tree(t *testing.T) {
	Check(t, "C03", 6000, "a random expression tree (up to 4 levels) of the exact scalar operators over integers near machine-word edges, large integers, rationals and complex rationals, compared with math/big evaluation of the same tree; non-trivial: at least one operator is applied and the model decides the result", func(c *C) {
		tr := numTree(c, c.Range(1, 4))
		if tr.res.Skip || tr.ops == 0 {
			return
		}
		c.Key(tr.src)
		s := NewSess(c)
		if tr.res.Err != "" {
			c.Class("error")
			s.WantErr(tr.src, tr.res.Err)
			return
		}
		c.Class("value")
		if !tr.res.V.IsReal() {
			c.Class("complex")
		} else if !tr.res.V.IsInt() {
			c.Class("rational")
		}
		s.Want(tr.src, tr.res.V)
		// The result prints as the exact number.
		if bits(tr.res.V) < 20000 {
			out, _ := s.Run(tr.src)
			if want := tr.res.V.String() + "\n"; out != want {
				c.Fail("%s prints %q, want %q", tr.src, out, want)
			}
		}
	})
}
