package props

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

func op2(c *C, op string, a, b *V) *V {
	r := ScalarBinary(op, a, b)
	if r.V == nil {
		panic(fmt.Sprintf("reference %s: %v", op, r))
	}
	return r.V
}

// solve returns x with m x = b (columns of b), or nil if m is singular: Gaussian
// elimination with the reference arithmetic, choosing the last usable pivot.
func solve(c *C, n int, m []*V, k int, b []*V) []*V {
	w := n + k
	t := make([][]*V, n)
	for i := range t {
		t[i] = append(append([]*V{}, m[i*n:(i+1)*n]...), b[i*k:(i+1)*k]...)
	}
	for x := 0; x < n; x++ {
		p := -1
		for y := x; y < n; y++ {
			if !t[y][x].IsZero() {
				p = y
			}
		}
		if p < 0 {
			return nil
		}
		t[x], t[p] = t[p], t[x]
		d := t[x][x]
		for i := x; i < w; i++ {
			t[x][i] = op2(c, "/", t[x][i], d)
		}
		for y := 0; y < n; y++ {
			if y == x || t[y][x].IsZero() {
				continue
			}
			f := t[y][x]
			for i := x; i < w; i++ {
				t[y][i] = op2(c, "-", t[y][i], op2(c, "*", f, t[x][i]))
			}
		}
	}
	var out []*V
	for y := 0; y < n; y++ {
		out = append(out, t[y][n:]...)
	}
	return out
}

func c22Elem(c *C, kind int) *V {
	switch kind {
	case 0:
		return Int(c.Range(-3, 3))
	case 1:
		return Int(c.Range(0, 1))
	case 2:
		return Frac(int64(c.Range(-9, 9)), int64(c.Range(1, 9)))
	case 3:
		return Cx(big.NewRat(int64(c.Range(-3, 3)), 1), big.NewRat(int64(c.Range(-3, 3)), 1))
	case 4:
		return Cx(big.NewRat(int64(c.Range(-5, 5)), int64(c.Range(1, 4))), big.NewRat(int64(c.Range(-5, 5)), int64(c.Range(1, 4))))
	case 5:
		if c.Prob(10) {
			return Int(0)
		}
		return Int(c.Range(-2, 2))
	case 6:
		return BI(GenInt(c))
	}
	return c22Elem(c, c.Idx(7))
}

// c22Matrix draws an n by n matrix, often singular or nearly so.
func c22Matrix(c *C, n int) (m []*V, kind string) {
	k := c.Idx(8)
	for i := 0; i < n*n; i++ {
		m = append(m, c22Elem(c, k))
	}
	kind = fmt.Sprint("kind ", k)
	if n > 1 {
		switch c.Idx(8) {
		case 0: // a row that is a combination of others
			y := c.Idx(n)
			f, g := c22Elem(c, 0), c22Elem(c, 2)
			p, q := c.Idx(n), c.Idx(n)
			if p != y && q != y {
				for x := 0; x < n; x++ {
					m[y*n+x] = op2(c, "+", op2(c, "*", f, m[p*n+x]), op2(c, "*", g, m[q*n+x]))
				}
				kind += " dependent rows"
			}
		case 1: // a permutation of a diagonal
			perm := c.Range(0, n-1)
			for y := 0; y < n; y++ {
				for x := 0; x < n; x++ {
					if x != (y+perm)%n {
						m[y*n+x] = Int(0)
					}
				}
			}
			kind += " diagonal"
		case 2: // triangular, either way
			up := c.Bool()
			for y := 0; y < n; y++ {
				for x := 0; x < n; x++ {
					if up && x < y || !up && x > y {
						m[y*n+x] = Int(0)
					}
				}
			}
			kind += " triangular"
		case 3: // anti-triangular: zero pivots
			for y := 0; y < n; y++ {
				for x := 0; x < n-1-y; x++ {
					m[y*n+x] = Int(0)
				}
			}
			kind += " anti-triangular"
		}
	}
	return
}

func TestC22_Matrix(t *testing.T) {
	Check(t, "C22", 1500, "a matrix of up to 6x6 exact numbers (integers, rationals, complex, big; dense, sparse, triangular, permuted, with dependent rows) and a right side; inv and mdiv must equal an independent elimination, and the product with the matrix on either side the identity; non-trivial: at least 2x2, distinct by its elements", func(c *C) {
		n := c.Range(1, 4)
		if c.Prob(3) {
			n = c.Range(5, 6)
		}
		m, kind := c22Matrix(c, n)
		mv := MatOf([]int{n, n}, m)
		s := NewSess(c)
		s.Do("m = " + mv.Src())
		id := make([]*V, n*n)
		for i := range id {
			id[i] = Int(0)
			if i%(n+1) == 0 {
				id[i] = Int(1)
			}
		}
		if n > 1 {
			c.Key(mv.Src())
		}
		want := solve(c, n, m, n, id)
		k := c.Range(1, 3)
		var b []*V
		bk := c.Idx(8)
		for i := 0; i < n*k; i++ {
			b = append(b, c22Elem(c, bk))
		}
		if want == nil {
			c.Class("singular")
			c.Class("singular " + strings.TrimLeft(kind, "kind 01234567"))
			s.WantErr("inv m", "singular")
			s.Do("b = " + MatOf([]int{n, k}, b).Src())
			s.WantErr("b mdiv m", "singular")
			return
		}
		c.Class(kind)
		s.Want("inv m", MatOf([]int{n, n}, want))
		one := MatOf([]int{n, n}, id)
		if n <= 4 {
			s.Want("m +.* inv m", one)
			s.Want("(inv m) +.* m", one)
			s.Want("inv inv m", mv)
		}
		if c.Bool() {
			s.Do("b = " + MatOf([]int{n, k}, b).Src())
			s.WantNorm("b mdiv m", MatOf([]int{n, k}, solve(c, n, m, k, b)))
			c.Class("mdiv matrix")
		} else if n > 1 {
			b = b[:n]
			s.Do("b = " + VecOf(b...).Src())
			x := solve(c, n, m, 1, b)
			got, e := s.Eval("b mdiv m")
			if e != "" {
				c.Fail("b mdiv m: %s", e)
			}
			// A vector right side; the solution is the same list of numbers.
			if g := got.El; len(g) != n || Diff(VecOf(g...), VecOf(x...)) != "" {
				c.Fail("b mdiv m: got %v, want %v", got, VecOf(x...))
			}
			c.Class("mdiv vector")
		}
	})
}

func TestC22_Vector(t *testing.T) {
	Check(t, "C22", 700, "a vector of exact numbers, real or complex: inv is (conj v)/v+.*conj v, A mdiv B of real vectors is (A+.*B)/B+.*B; zero vectors, non-square and non-numeric operands are errors; non-trivial: at least two elements, distinct by them", func(c *C) {
		n := c.Range(1, 7)
		k := c.Idx(8)
		gen := func(n, k int) []*V {
			var el []*V
			for i := 0; i < n; i++ {
				el = append(el, c22Elem(c, k))
			}
			if c.Prob(1) {
				for i := range el {
					el[i] = Int(0)
				}
			}
			return el
		}
		v := gen(n, k)
		s := NewSess(c)
		src := "v = " + VecOf(v...).Src()
		if n == 1 {
			src = "v = ," + v[0].Src()
		}
		s.Do(src)
		if n > 1 {
			c.Key(src)
		}
		mag := Int(0)
		for _, x := range v {
			mag = op2(c, "+", mag, op2(c, "*", x, ScalarUnary("conj", x).V))
		}
		if mag.IsZero() {
			s.WantErr("inv v", "zero vector")
			c.Class("zero")
		} else {
			w := VecOf()
			for _, x := range v {
				w.El = append(w.El, op2(c, "/", ScalarUnary("conj", x).V, mag))
			}
			s.Want("inv v", w)
			c.Class("inv")
			s.WantNorm("v +.* inv v", Int(1))
		}
		rk := Pick(c, 0, 1, 2, 5, 6)
		m := n
		if c.Prob(2) {
			m = c.Range(1, 7)
		}
		a, b := gen(n, rk), gen(m, rk)
		if n < 2 || m < 2 {
			return
		}
		s.Do("a = " + VecOf(a...).Src() + "\nb = " + VecOf(b...).Src())
		if n != m {
			s.WantErr("a mdiv b", "lengths differ")
			return
		}
		num, den := Int(0), Int(0)
		for i := range a {
			num = op2(c, "+", num, op2(c, "*", a[i], b[i]))
			den = op2(c, "+", den, op2(c, "*", b[i], b[i]))
		}
		if den.IsZero() {
			s.WantErr("a mdiv b", "zero vector")
		} else {
			s.Want("a mdiv b", op2(c, "/", num, den))
			c.Class("projection")
		}
		// Ill-formed operands.
		s.WantErr(Pick(c, "inv 2 3 rho iota 6", "inv 3 2 rho 1 2 3", "inv 2 2 2 rho iota 8", "inv 2 2 1 rho 1 2 3 4", "inv 1 1 1 rho 1", "inv 3 3 2 rho 1 0 0 0", "inv 2 2 rho 'abcd'", "inv 2 2 rho (1 2) 3 4 5", "inv 1 (2 3) 4", "inv 2 2 rho 0 0 0 1", "(1 2 3) mdiv 2 2 rho 1 2 3 4", "inv iota 0", "inv 'abc'"), "not invertible")
	})
}
