package props

import (
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// numSrc draws an operand of any numeric type, with its source text; floats and
// complex floats included.
func numSrc(c *C) string {
	r := func() string { return Rat(GenRat(c)).Src() }
	small := func() string { return GenSmall(c).Src() }
	switch c.Idx(10) {
	case 0, 1:
		return r()
	case 2:
		return "(float " + r() + ")"
	case 3:
		return "(float " + small() + ")"
	case 4:
		return "(" + r() + " j " + r() + ")"
	case 5:
		return "((float " + r() + ") j float " + small() + ")"
	case 6:
		return "(sqrt " + small() + ")"
	case 7:
		return Pick(c, "pi", "e", "(-pi)", "(pi/2)", "(pi*3)", "(float 0)", "(float 1)", "(1e100*pi)", "(0 j pi)", "(2 j e)")
	case 8:
		return "(float " + small() + "/7)"
	}
	return small()
}

func TestC06_Operands(t *testing.T) {
	ops := []string{}
	for _, o := range WalkUnary {
		if o != "?" && o != "rand" && o != "print" && o != "iota" && o != "where" {
			ops = append(ops, o)
		}
	}
	Check(t, "C06", 6000, "every unary and binary operator applied to variables of every numeric type (integer, big integer, rational, float, complex of exact or float parts, the constants), alone or inside a vector, several times: the operands hold afterwards what they held, and repeating the operation gives the same result; non-trivial: an operation succeeded", func(c *C) {
		s := NewSess(c)
		s.Do("a = " + numSrc(c))
		s.Do("b = " + numSrc(c))
		s.Do("v = a b a b")
		s.Do("w = b a")
		names := []string{"a", "b", "v", "w", "e", "pi"}
		vals := map[string]*V{}
		for _, n := range names {
			vals[n] = s.Get(n)
		}
		hit := false
		for i := c.Range(1, 4); i > 0; i-- {
			var ex string
			x, y := Pick(c, "a", "b", "v", "a", "b", "e", "pi"), Pick(c, "a", "b", "v", "w", "a", "b", "e", "pi")
			if c.Bool() {
				op := Pick(c, ops...)
				if !CheapUnary(op, vals[x]) {
					continue
				}
				ex = op + " " + x
			} else {
				op := Pick(c, WalkBinary...)
				if op == "?" || op == "rho" || op == "take" || op == "fill" || op == "sel" || !CheapBinary(op, vals[x], vals[y]) {
					continue
				}
				ex = x + " " + op + " " + y
			}
			r1, e1 := s.Eval(ex)
			r2, e2 := s.Eval(ex)
			if e1 != e2 {
				c.Fail("%s gives error %q, then %q", ex, e1, e2)
			}
			if d := Diff(r1, r2); d != "" {
				c.Fail("%s evaluated twice gives different results: %s", ex, d)
			}
			if e1 == "" {
				hit = true
			}
			for _, n := range names {
				if d := Diff(s.Get(n), vals[n]); d != "" {
					c.Fail("%s changed %s: %s", ex, n, d)
				}
			}
		}
		if hit {
			c.Key(strings.Join(s.Log(), ";"))
		}
	})
}
