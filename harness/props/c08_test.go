package props

import (
	"fmt"
	"testing"

	. "verif.local/harness/h"
)

// structStep applies one random structural operator to (src, v).
func structStep(c *C, src string, v *V, origin int) (string, Res, string) {
	if c.Prob(6) {
		op := Pick(c, StructUnaryOps...)
		if op == "iota" || op == "where" {
			_, sum, prod := v.MaxAbs()
			if sum > 500 || prod > 500 {
				op = "rot"
			}
		}
		return op + " " + src, StructUnary(op, v, origin), op
	}
	op := Pick(c, StructBinaryOps...)
	if (op == "fill" || op == "sel") && v.Size() > 400 {
		op = "drop"
	}
	left := GenLeft(c, op, v, origin)
	if !CheapBinary(op, left, v) {
		op = ","
	}
	if c.Prob(3) && (op == "," || op == ",%") {
		return src + " " + op + " " + left.Src(), StructBinary(op, v, left, origin), op
	}
	return left.Src() + " " + op + " " + src, StructBinary(op, left, v, origin), op
}

// genNested makes an array of arrays whose shapes are alike: transposes of each other, of ranks that
// differ by one, or equal but for one axis.
func genNested(c *C) *V {
	k := Pick(c, EInt, EInt, EChar)
	base := []int{}
	for i, n := 0, c.Range(1, 3); i < n; i++ {
		base = append(base, c.Range(1, 4))
	}
	elem := func() *V {
		d := append([]int{}, base...)
		switch c.Idx(6) {
		case 1:
			for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
				d[i], d[j] = d[j], d[i]
			}
		case 2:
			d = d[1:]
		case 3:
			d = append([]int{c.Range(1, 3)}, d...)
		case 4:
			d[c.Idx(len(d))] = c.Range(0, 4)
		}
		n := 1
		for _, x := range d {
			n *= x
		}
		el := []*V{}
		for i := 0; i < n; i++ {
			el = append(el, GenElem(c, k, 0))
		}
		switch len(d) {
		case 0:
			return el[0]
		case 1:
			return VecOf(el...)
		}
		return MatOf(d, el)
	}
	sh := []int{c.Range(1, 4)}
	if c.Prob(4) {
		sh = append(sh, c.Range(1, 3))
	}
	n := 1
	for _, x := range sh {
		n *= x
	}
	el := []*V{}
	for i := 0; i < n; i++ {
		el = append(el, elem())
	}
	if len(sh) == 1 {
		return VecOf(el...)
	}
	return MatOf(sh, el)
}

func TestC08_Pipe(t *testing.T) {
	Check(t, "C08", 5000, "a pipeline of 1 to 4 structural operators over a generated scalar, vector or array of rank up to 4 (empty axes, nested, chars, long), with conforming and non-conforming left operands and origin 0 to 3, compared with the definitions on plain slices; non-trivial: the model decides the result", func(c *C) {
		s := NewSess(c)
		origin := Pick(c, 1, 0, 1, 3)
		s.Do(fmt.Sprintf(")origin %d", origin))
		v := GenValue(c, true)
		if c.Prob(5) {
			v = GenMat(c, Pick(c, EInt, EMixed, EChar), 4, 1, true)
		} else if c.Prob(3) {
			v = genNested(c)
		}
		s.Do("b = " + v.Src())
		src := "b"
		n := c.Range(1, 4)
		for i := 0; i < n; i++ {
			nsrc, r, op := structStep(c, src, v, origin)
			c.Class(op)
			if r.Skip {
				s.Eval(nsrc)
				return
			}
			c.Key(s.Log()[1] + nsrc)
			if r.Err != "" {
				c.Class("error")
				s.WantErr(nsrc, r.Err)
				return
			}
			s.WantNorm(nsrc, r.V)
			if r.V.Size() > 2000 {
				return
			}
			v, src = NormV(r.V), "("+nsrc+")"
			if c.Prob(4) {
				s.Do("b = " + nsrc)
				src = "b"
			}
		}
		// The operand is unchanged, and printing the parts is consistent with the shape.
		s.Want("rho "+src, Ints(v.Dims()...))
	})
}

// box and the inverse laws.
func TestC08_Laws(t *testing.T) {
	Check(t, "C08", 2000, "box, first, split and mix, ravel and reshape, transp twice, rot twice, take and drop complements, on generated arrays; non-trivial: every case", func(c *C) {
		s := NewSess(c)
		v := GenValue(c, true)
		s.Do("b = " + v.Src())
		c.Key(v.Src())
		if !v.Scalar() {
			s.Want("first box b", v)
			s.Want("(box b)[1]", v)
			s.Want("rho box b", Ints(1))
			s.Want("(rho b) rho , b", v)
			s.Want("(rho b) rho b", v)
			s.Want("rot rot b", v)
			s.Want("flip flip b", v)
			s.Want("transp transp b", v)
			n := len(v.El)
			if v.K == Vec {
				k := c.Range(0, n)
				s.Want(fmt.Sprintf("(%d take b) , %d drop b", k, k), v)
				s.Want(fmt.Sprintf("(%d drop b) , %d take b", -k, -k), v)
				s.Want(fmt.Sprintf("(-%d) rot %d rot b", k, k), v)
			} else {
				k := c.Range(0, v.Shape[0])
				s.Want(fmt.Sprintf("(%d take b) ,%% %d drop b", k, k), v)
				k = c.Range(0, 5)
				s.Want(fmt.Sprintf("(-%d) rot %d rot b", k, k), v)
				s.Want(fmt.Sprintf("(-%d) flip %d flip b", k, k), v)
				sc := true
				for _, e := range v.El {
					sc = sc && e.Scalar()
				}
				if sc && len(v.El) > 0 {
					s.Want("mix split b", v)
				}
			}
		} else {
			s.Want("first box b", v)
		}
	})
}

// TestC08_Sizes asks for arrays whose number of elements does not fit a machine word: it must not wrap
// around to a small number. (The shapes are such that a wrapped count is zero, so that nothing huge is
// ever allocated.)
func TestC08_Sizes(t *testing.T) {
	Check(t, "C08", 100, "rho, iota and take with shapes of powers of two whose product is a multiple of 2**64 are errors, and the session goes on; non-trivial: every case, distinct by expression", func(c *C) {
		var sh []string
		bits := 0
		rank := 0
		for bits < 64 {
			b := c.Range(16, 30)
			bits += b
			rank++
			sh = append(sh, fmt.Sprint(1<<b))
		}
		shape := ""
		ones := ""
		for i, d := range sh {
			if i > 0 {
				shape += " "
				ones += " "
			}
			shape += d
			ones += "1"
		}
		ex := Pick(c, shape+" rho 1", shape+" rho iota 5", "iota "+shape, shape+" take "+ones+" rho 5", "rho "+shape+" rho 1", shape+" rho 'a'")
		s := NewSess(c)
		c.Key(ex)
		s.WantErr(ex, "the array would have over 2**63 elements")
		s.Want("1 + 1", Int(2))
	})
}
