package props

import (
	"fmt"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// genIndex draws an index list for a, usually in range, with its source text.
func genIndex(c *C, a *V, origin int) ([]*V, string) {
	d := a.Dims()
	wrong := c.Prob(1)
	one := func(n int) *V {
		if wrong && c.Prob(6) {
			return Pick(c, Int(origin-1), Int(n+origin), I(-1), I(1<<40), Frac(1, 2), Ch('a'), Cx(I(1).Re, I(1).Re), Int(n+origin+5), I(0))
		}
		if n == 0 {
			return Int(origin)
		}
		return Int(origin + c.Idx(n))
	}
	list := func(k, n int) []*V {
		el := []*V{}
		for i := 0; i < k; i++ {
			el = append(el, one(n))
		}
		return el
	}
	if c.Prob(4) && len(d) > 0 {
		// A vector or matrix of index vectors.
		k := c.Range(1, len(d))
		if wrong && c.Prob(4) {
			k = Pick(c, 0, len(d)+1)
		}
		vec := func() *V {
			v := VecOf()
			for i := 0; i < k; i++ {
				n := 2
				if i < len(d) {
					n = d[i]
				}
				v.El = append(v.El, one(n))
			}
			if wrong && c.Prob(3) {
				v.El = append(v.El, Int(origin))
			}
			return v
		}
		sh := []int{c.Range(1, 4)}
		if c.Prob(4) {
			sh = []int{c.Range(1, 2), c.Range(1, 3)}
		}
		n := 1
		for _, x := range sh {
			n *= x
		}
		el := []*V{}
		for i := 0; i < n; i++ {
			el = append(el, vec())
		}
		if wrong && len(el) > 1 && c.Prob(4) {
			el[len(el)-1] = Int(origin)
		}
		x := VecOf(el...)
		if len(sh) > 1 {
			x = MatOf(sh, el)
		}
		return []*V{x}, "[" + x.Src() + "]"
	}
	n := len(d)
	if n == 0 {
		n = c.Range(1, 2)
	} else if n > 1 && c.Prob(5) {
		n = c.Range(1, n)
	}
	if wrong && c.Prob(4) {
		n++
	}
	var idx []*V
	var src []string
	for i := 0; i < n; i++ {
		m := 3
		if i < len(d) {
			m = d[i]
		}
		var x *V
		switch c.Idx(8) {
		case 0, 1:
			idx = append(idx, nil)
			src = append(src, "")
			continue
		case 2, 3, 4:
			x = one(m)
		case 5:
			x = VecOf(list(c.Range(1, 5), m)...)
		case 6:
			if m > 20 || c.Prob(2) {
				x = VecOf(list(Pick(c, 17, 33, 130, 0, 2), m)...)
			} else {
				x = VecOf(list(c.Range(0, 3), m)...)
			}
		case 7:
			sh := []int{c.Range(1, 3), c.Range(1, 3)}
			if c.Prob(3) {
				sh = append(sh, c.Range(0, 2))
			}
			k := 1
			for _, y := range sh {
				k *= y
			}
			x = MatOf(sh, list(k, m))
		}
		idx = append(idx, x)
		src = append(src, strings.TrimSuffix(strings.TrimPrefix(x.Src(), "("), ")"))
		if strings.Contains(src[i], ")") || x.Scalar() || !strings.HasPrefix(x.Src(), "(") {
			src[i] = x.Src()
		}
	}
	if n == 1 && idx[0] == nil {
		return idx, "[]"
	}
	return idx, "[" + strings.Join(src, Pick(c, "; ", ";", " ; ")) + "]"
}

func TestC07_Index(t *testing.T) {
	Check(t, "C07", 6000, "one index expression on a vector (up to 300) or matrix (rank up to 4, empty axes included) of any elements, written as a variable, a parenthesised expression or a chain of two indexings, with scalar, vector, array, omitted, repeated, empty and index-vector indexes, origin 0 to 3, sometimes ill-formed, compared with selection by position; non-trivial: the selection is legal and not empty", func(c *C) {
		s := NewSess(c)
		origin := Pick(c, 1, 0, 1, 3)
		s.Do(fmt.Sprintf(")origin %d", origin))
		a := GenElem(c, EMixed, 0)
		k := Pick(c, EInt, ENum, EChar, EMixed, ENested)
		switch c.Idx(8) {
		case 0, 1, 2, 3:
			a = GenMat(c, k, 4, 2, true)
		case 4:
			if c.Bool() {
				break
			}
			fallthrough
		default:
			a = GenVec(c, k, GenLen(c, true), 2)
		}
		idx, src := genIndex(c, a, origin)
		s.Do("x = " + a.Src())
		left := "x"
		if c.Prob(3) {
			left = a.Src()
			if a.Scalar() {
				left = "(" + left + ")"
			}
		}
		r := Index(a, idx, origin)
		if r.Err == "" && c.Prob(4) && r.V != nil {
			// Index the result again.
			idx2, src2 := genIndex(c, r.V, origin)
			src += src2
			r = Index(r.V, idx2, origin)
		}
		if r.Err == "" && r.V.Size() > 0 {
			c.Key(a.Src() + src)
			c.Class(fmt.Sprint("rank ", len(a.Dims()), " to ", len(r.V.Dims())))
		}
		s.WantRes(left+src, r)
		s.Want("x", a)
	})
}

func TestC07_Assign(t *testing.T) {
	Check(t, "C07", 4000, "histories of 2 to 8 steps over three variables: literal and copying assignments, indexed assignments (all index forms, repeated indexes, scalar, matching and mismatching right-hand sides, other variables and indexed variables as right-hand sides, at top level, in operators on locals and on globals, in simultaneous assignment), each variable compared after each step with a model that changes exactly the addressed elements of one array; non-trivial: an indexed assignment succeeded", func(c *C) {
		s := NewSess(c)
		origin := Pick(c, 1, 0, 1, 2)
		s.Do(fmt.Sprintf(")origin %d", origin))
		names := []string{"x", "y", "z"}
		env := map[string]*V{}
		gen := func() *V {
			k := Pick(c, EInt, ENum, EChar, EMixed, ENested)
			if c.Prob(6) {
				return GenMat(c, k, 4, 1, true)
			}
			return GenVec(c, k, GenLen(c, true), 1)
		}
		for _, n := range names {
			env[n] = gen()
			s.Do(n + " = " + env[n].Src())
		}
		check := func(what string) {
			for _, n := range names {
				got := s.Get(n)
				if d := Diff(got, NormV(env[n])); d != "" {
					c.Fail("after %s, %s is wrong\n got:  %s\n want: %s\n (%s)", what, n, got, env[n], d)
				}
			}
		}
		// rhs draws a right-hand side fitting sh most of the time.
		rhs := func(a *V, idx []*V) (*V, string) {
			r := Index(a, idx, origin)
			if r.Err != "" || c.Prob(4) {
				v := GenElem(c, Pick(c, EInt, EMixed, ENum), 0)
				return v, v.Src()
			}
			if c.Prob(2) {
				n := names[c.Idx(3)]
				return env[n], n
			}
			if r.V.Scalar() || len(r.V.Dims()) == 0 || c.Prob(1) {
				v := GenElem(c, Pick(c, EInt, ENested, EChar), 1)
				return v, v.Src()
			}
			// Elements of the right shape.
			el := GenVec(c, Pick(c, EInt, EMixed, ENested, EChar), len(r.V.El), 1).El
			v := VecOf(el...)
			if r.V.K == Mat {
				v = MatOf(r.V.Shape, el)
			}
			return v, v.Src()
		}
		steps := c.Range(2, 8)
		for i := 0; i < steps; i++ {
			n := names[c.Idx(3)]
			switch c.Idx(10) {
			case 0:
				env[n] = gen()
				s.Do(n + " = " + env[n].Src())
				check("assignment")
			case 1, 2:
				m := names[c.Idx(3)]
				env[n] = env[m]
				s.Do(n + " = " + m)
				check("copy")
			case 3:
				m := names[c.Idx(3)]
				idx, src := genIndex(c, env[m], origin)
				r := Index(env[m], idx, origin)
				_, e := s.Run(n + " = " + m + src)
				if (e != "") != (r.Err != "") {
					c.Fail("%s = %s%s: error %q, expected error %q", n, m, src, e, r.Err)
				}
				if r.Err == "" {
					env[n] = r.V
				}
				check("indexing")
			case 4:
				// A local of an operator: no effect on any global.
				m := names[c.Idx(3)]
				idx, src := genIndex(c, env[m], origin)
				v, vs := rhs(env[m], idx)
				if strings.Contains(vs, "x") || strings.Contains(vs, "y") || strings.Contains(vs, "z") {
					continue
				}
				s.Do("op f a = a" + src + " = " + vs + "; a")
				r := IndexAssign(env[m], idx, v, origin)
				s.WantRes("f "+m, r)
				if r.Err == "" {
					c.Key(m + env[m].Src() + src + vs)
				}
				check("indexed assignment to the argument of an operator")
			case 5:
				// A global assigned from inside an operator.
				idx, src := genIndex(c, env[n], origin)
				v, vs := rhs(env[n], idx)
				s.Do("op g a = " + n + src + " = a; 0")
				r := IndexAssign(env[n], idx, v, origin)
				_, e := s.Run("w = g " + vs)
				if (e != "") != (r.Err != "") {
					c.Fail("%s%s = %s inside an operator: error %q, expected error %q", n, src, vs, e, r.Err)
				}
				if r.Err == "" {
					c.Key(n + env[n].Src() + src + vs)
					env[n] = r.V
				}
				check("indexed assignment to a global inside an operator")
			case 6:
				// Simultaneous assignment, right to left.
				m := names[c.Idx(3)]
				if env[n].Scalar() || len(env[n].El) == 0 || env[m].Scalar() || len(env[m].El) == 0 {
					continue
				}
				pick := func(a *V) ([]*V, string) {
					var idx []*V
					var p []string
					for _, d := range a.Dims() {
						k := Int(origin + c.Idx(d))
						idx = append(idx, k)
						p = append(p, k.Src())
					}
					return idx, "[" + strings.Join(p, "; ") + "]"
				}
				i1, s1 := pick(env[n])
				i2, s2 := pick(env[m])
				v1, v2 := GenElem(c, ENested, 1), GenElem(c, EMixed, 1)
				s.Do("(" + n + s1 + " " + m + s2 + ") = " + v1.Src() + " " + v2.Src())
				env[m] = IndexAssign(env[m], i2, v2, origin).V
				env[n] = IndexAssign(env[n], i1, v1, origin).V
				c.Key(s1 + s2 + v1.Src() + v2.Src())
				check("simultaneous assignment")
			default:
				idx, src := genIndex(c, env[n], origin)
				v, vs := rhs(env[n], idx)
				r := IndexAssign(env[n], idx, v, origin)
				_, e := s.Run(n + src + " = " + vs)
				if (e != "") != (r.Err != "") {
					c.Fail("%s%s = %s: error %q, expected error %q", n, src, vs, e, r.Err)
				}
				if r.Err == "" {
					c.Key(n + env[n].Src() + src + vs)
					env[n] = r.V
				}
				check("indexed assignment")
			}
		}
	})
}
