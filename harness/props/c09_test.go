package props

import (
	"fmt"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// expander works out what applying an operator element by element gives, using the
// operator itself on single elements only.
type expander struct {
	c    *C
	s    *Sess
	memo map[string]*V // nil value: error
	give bool          // the case got too expensive
	n    int
}

func (x *expander) eval(src string) *V {
	if v, ok := x.memo[src]; ok {
		return v
	}
	v, e := x.s.Eval(src)
	if e != "" {
		v = nil
	}
	if v != nil && hasFlt(v) {
		x.give = true
		v = nil
	}
	x.memo[src] = v
	return v
}

func hasFlt(v *V) bool {
	r := false
	v.Each(func(e *V) { r = r || e.K == Flt })
	return r
}

// bin applies op to two values; nil is an error.
func (x *expander) bin(op string, a, b *V) *V {
	if a == nil || b == nil || x.give {
		return nil
	}
	x.n++
	if m, _, _ := a.MaxAbs(); strings.Contains(op, "urec") && m > 50 {
		x.give = true
		return nil
	}
	if x.n > 1500 || a.Size()+b.Size() > 300 || a.Bits()+b.Bits() > 4000 || !CheapBinary(strings.Trim(op, "@"), a, b) {
		x.give = true
		return nil
	}
	return x.eval(a.Src() + " " + op + " " + b.Src())
}

func (x *expander) un(op string, a *V) *V {
	if a == nil || x.give {
		return nil
	}
	x.n++
	if x.n > 1500 || a.Size() > 300 || a.Bits() > 4000 || !CheapUnary(op, a) {
		x.give = true
		return nil
	}
	return x.eval(op + " " + a.Src())
}

func (x *expander) reduce(op string, el []*V) *V {
	acc := el[len(el)-1]
	for i := len(el) - 2; i >= 0; i-- {
		acc = x.bin(op, el[i], acc)
	}
	return acc
}

// lines splits a into its lines along the axis (0 first, else last), calls f on each
// and puts the resulting lines back. An f giving one element per line drops the axis.
func lines(a *V, first bool, f func(el []*V) []*V) *V {
	sh := a.Dims()
	axis := len(sh) - 1
	if first {
		axis = 0
	}
	n := sh[axis]
	inner := 1
	for _, d := range sh[axis+1:] {
		inner *= d
	}
	outer := 1
	for _, d := range sh[:axis] {
		outer *= d
	}
	var m int
	failed := false
	var out [][]*V
	for o := 0; o < outer; o++ {
		for i := 0; i < inner; i++ {
			l := make([]*V, n)
			for k := range l {
				l[k] = a.El[(o*n+k)*inner+i]
			}
			r := f(l)
			if r == nil {
				failed = true // Go on: an expensive line must not go unnoticed.
				continue
			}
			m = len(r)
			out = append(out, r)
		}
	}
	if failed {
		return nil
	}
	el := make([]*V, outer*m*inner)
	for o := 0; o < outer; o++ {
		for i := 0; i < inner; i++ {
			for k := 0; k < m; k++ {
				el[(o*m+k)*inner+i] = out[o*inner+i][k]
			}
		}
	}
	nsh := append([]int{}, sh...)
	nsh[axis] = m
	return MatOf(nsh, el)
}

func dropAxis(v *V, first bool) *V {
	if v == nil {
		return nil
	}
	sh := append([]int{}, v.Shape...)
	if first {
		sh = sh[1:]
	} else {
		sh = sh[:len(sh)-1]
	}
	switch len(sh) {
	case 0:
		return v.El[0]
	case 1:
		return VecOf(v.El...)
	}
	return MatOf(sh, v.El)
}

// Reduction, or scan, of an array with no empty axis.
func (x *expander) reduceV(op string, a *V, first, scan bool) *V {
	if a.Scalar() {
		return a
	}
	r := lines(a, first, func(el []*V) []*V {
		if !scan {
			if v := x.reduce(op, el); v != nil {
				return []*V{v}
			}
			return nil
		}
		var out []*V
		for i := range el {
			v := x.reduce(op, el[:i+1])
			if v == nil {
				return nil
			}
			out = append(out, v)
		}
		return out
	})
	if !scan {
		return dropAxis(r, first)
	}
	if r != nil && len(r.Shape) == 1 {
		return VecOf(r.El...)
	}
	return r
}

func shapeEl(a *V) ([]int, []*V) {
	if a.Scalar() {
		return []int{1}, []*V{a}
	}
	return a.Dims(), a.El
}

func mkV(sh []int, el []*V) *V {
	switch len(sh) {
	case 0:
		return el[0]
	case 1:
		return VecOf(el...)
	}
	return MatOf(sh, el)
}

func num(sh []int) int {
	n := 1
	for _, d := range sh {
		n *= d
	}
	return n
}

func (x *expander) inner(f, g string, a, b *V) (v *V, bad bool) {
	ash, ael := shapeEl(a)
	bsh, bel := shapeEl(b)
	n := bsh[0]
	if ash[len(ash)-1] != n || n == 0 {
		return nil, true
	}
	rows, cols := len(ael)/n, len(bel)/n
	failed := false
	var out []*V
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			var el []*V
			for k := 0; k < n; k++ {
				el = append(el, x.bin(g, ael[i*n+k], bel[k*cols+j]))
			}
			r := x.reduce(f, el)
			failed = failed || r == nil
			out = append(out, r)
		}
	}
	if failed {
		return nil, false
	}
	return mkV(append(append([]int{}, ash[:len(ash)-1]...), bsh[1:]...), out), false
}

func (x *expander) outer(f string, a, b *V) *V {
	ash, ael := shapeEl(a)
	bsh, bel := shapeEl(b)
	out := []*V{}
	failed := false
	for _, p := range ael {
		for _, q := range bel {
			r := x.bin(f, p, q)
			failed = failed || r == nil
			out = append(out, r)
		}
	}
	if failed {
		return nil
	}
	return mkV(append(append([]int{}, ash...), bsh...), out)
}

// cells splits v into the items addressed by its first d axes.
func cells(v *V, d int) []*V {
	if d == 0 || v.Scalar() {
		return []*V{v}
	}
	sh := v.Dims()
	if d == len(sh) {
		return v.El
	}
	n, w := num(sh[:d]), num(sh[d:])
	var out []*V
	for i := 0; i < n; i++ {
		out = append(out, mkV(sh[d:], v.El[i*w:(i+1)*w]))
	}
	return out
}

func rankOf(v *V) int {
	if v.Scalar() {
		return 1
	}
	return len(v.Dims())
}

// eachU applies op to the items of v at n levels of @.
func (x *expander) eachU(op string, n int, v *V) *V {
	if n == 0 {
		return x.un(op, v)
	}
	d := min(n, rankOf(v))
	var out []*V
	for _, e := range cells(v, d) {
		r := x.eachU(op, n-d, e)
		if r == nil {
			return nil
		}
		out = append(out, r)
	}
	sh, _ := shapeEl(v)
	return mkV(sh[:d], out)
}

func (x *expander) eachB(op string, l, r int, a, b *V) *V {
	if l == 0 && r == 0 {
		return x.bin(op, a, b)
	}
	ld, rd := min(l, rankOf(a)), min(r, rankOf(b))
	var out []*V
	for _, p := range cells(a, ld) {
		for _, q := range cells(b, rd) {
			z := x.eachB(op, l-ld, r-rd, p, q)
			if z == nil {
				return nil
			}
			out = append(out, z)
		}
	}
	ash, _ := shapeEl(a)
	bsh, _ := shapeEl(b)
	return mkV(append(append([]int{}, ash[:ld]...), bsh[:rd]...), out)
}

var userOps = []string{
	"op a uminus b = a - b",
	"op a upair b = (,a), ,b",
	"op a ucond b = a < b : a; b + 1",
	"op a uglob b = g = g + 1; a + 2 * b",
	"op a uquiet b = t = (2*a) - b",
	"op a uerr b = (a == 3) and b == 2 : 1 / 0; a + b",
	"op a uleft b = a",
	"op a uright b = b",
	"op a urec b = a <= 0 : b; (a - 1) urec b + 1",
}

func hasEmpty(v *V) bool {
	if v.Scalar() {
		return false
	}
	if len(v.El) == 0 {
		return true
	}
	return false
}

func deepEmpty(v *V) bool {
	if v.Scalar() {
		return false
	}
	if len(v.El) == 0 {
		return true
	}
	for _, e := range v.El {
		if deepEmpty(e) {
			return true
		}
	}
	return false
}

// genArr draws an array without empty axes.
func genArr9(c *C, k ElemKind, long bool) *V {
	for i := 0; i < 4; i++ {
		var v *V
		switch c.Idx(10) {
		case 0:
			v = GenElem(c, k, 1)
		case 1, 2, 3, 4:
			n := GenLen(c, long)
			v = GenVec(c, k, n, 1)
		default:
			v = GenMat(c, k, 4, 1, long)
		}
		if !hasEmpty(v) {
			return v
		}
	}
	return GenVec(c, k, 2, 1)
}

func check9(c *C, s *Sess, x *expander, ex string, want *V, key string) {
	if x.give {
		return
	}
	if want == nil {
		c.Class("error")
		s.WantErr(ex, "an application of the operator to single elements fails")
		return
	}
	c.Key(key)
	s.WantSame(ex, want)
}

func setup9(c *C) (*Sess, *expander, []string) {
	s := NewSess(c)
	x := &expander{c: c, s: s, memo: map[string]*V{}}
	s.Do("g = 0")
	var ops []string
	for _, d := range userOps {
		s.Do(d)
		ops = append(ops, strings.Fields(d)[2])
	}
	ops = append(ops, ops...)
	if c.Prob(3) {
		// A built-in operator redefined.
		r := Pick(c, "min", "max", "or", "and", "xor", "mod", "take", "in")
		s.Do("op a " + r + " b = " + Pick(c, "a", "b", "(a == b)", "(a uminus b)", "b uminus a", "1 uminus a"))
		ops = append(ops, r, r, r, r, r, r)
		c.Class("redefined")
	}
	return s, x, ops
}

var builtin9 = []string{"+", "-", "*", "/", "min", "max", "and", "or", "xor", "nand", "nor", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "mod", "div", "idiv", "imod",
	",", "take", "drop", "in", "===", "!==", "j", "iota", "rot", "<<", ">>", "**", "!", ",%", "rho", "union", "intersect"}

func pickOp(c *C, user []string) string {
	if c.Prob(5) {
		return Pick(c, user...)
	}
	if c.Bool() {
		return Pick(c, builtin9[:24]...)
	}
	return Pick(c, builtin9...)
}

func TestC09_Reduce(t *testing.T) {
	Check(t, "C09", 5000, "f/ f\\ f/% f\\% of a vector (up to 300) or matrix (rank up to 4) of exact numbers, chars or nested items, for about 40 built-in operators, nine user-defined ones (non-associative, conditional, recursive, failing, with side effects) and built-in operators redefined by the user, compared with the right-to-left application of the operator to single elements written out; non-trivial: a value results", func(c *C) {
		s, x, user := setup9(c)
		op := pickOp(c, user)
		if c.Prob(2) {
			op = Pick(c, op+"@", "@"+op, "@"+op+"@")
		}
		scan := c.Bool()
		k := Pick(c, EInt, EInt, ENum, EMixed, ENested, ECplx)
		a := genArr9(c, k, !scan || c.Prob(4))
		if a.K == Chr {
			return
		}
		first := c.Prob(6)
		if scan && a.K == Mat && len(a.Shape) > 2 && false {
			return
		}
		suffix := "/"
		if scan {
			suffix = "\\"
		}
		if first {
			suffix += "%"
		}
		want := x.reduceV(op, a, first, scan)
		c.Class(suffix)
		src := a.Src()
		ex := op + suffix + " " + src
		if c.Bool() {
			s.Do("a = " + src)
			ex = op + suffix + " a"
		}
		check9(c, s, x, ex, want, op+suffix+src)
		if want == nil || x.give || a.K != Vec || scan || op != "uglob" {
			return
		}
		s.Do("g = 0")
		s.Must("uglob/ " + src)
		s.Want("g", Int(len(a.El)-1))
	})
}

func TestC09_Products(t *testing.T) {
	Check(t, "C09", 4000, "A f.g B and A o.f B for arrays of every rank up to 3 and size up to about 100 elements, built-in and user-defined f and g, compared with the expansion over single elements; operands that do not conform must fail; non-trivial: a value results", func(c *C) {
		s, x, user := setup9(c)
		k := Pick(c, EInt, EInt, ENum, EMixed, ENested)
		gen := func() *V {
			for {
				v := genArr9(c, k, false)
				if v.Size() < 80 {
					return v
				}
			}
		}
		a := gen()
		b := gen()
		f, g := pickOp(c, user), pickOp(c, user)
		if c.Prob(1) {
			f += "@"
		}
		if c.Bool() {
			c.Class("outer")
			if len(shapeElems(a))*len(shapeElems(b)) > 900 {
				return
			}
			if c.Prob(1) {
				if c.Bool() {
					a = VecOf()
				} else {
					b = VecOf()
				}
			}
			f = strings.Trim(f, "@")
			want := x.outer(f, a, b)
			check9(c, s, x, a.Src()+" o."+f+" "+b.Src(), want, a.Src()+" o."+f+" "+b.Src())
			return
		}
		c.Class("inner")
		if c.Prob(13) && !a.Scalar() {
			// Make b conform.
			n := a.Dims()[len(a.Dims())-1]
			sh := []int{n}
			for len(sh) < 3 && c.Bool() {
				sh = append(sh, c.Range(1, 4))
			}
			b = mkV(sh, GenVec(c, k, num(sh), 1).El)
		}
		if a.Size()*b.Size() > 3000 {
			return
		}
		ex := a.Src() + " " + f + "." + g + " " + b.Src()
		want, bad := x.inner(f, g, a, b)
		if bad {
			c.Class("not conforming")
			if !x.give {
				s.WantErr(ex, "the operands do not conform")
			}
			return
		}
		check9(c, s, x, ex, want, ex)
	})
}

func TestC09_Each(t *testing.T) {
	Check(t, "C09", 4000, "f@, f@@, @f, f@ and @f@ (one to three @ on a side) with unary and binary, built-in, user-defined, reduced and scanned operators on arrays of every rank up to 4 and nested arrays, compared with applying the operator to the items one by one; non-trivial: a value results", func(c *C) {
		s, x, user := setup9(c)
		s.Do("op unegate a = 1 - a")
		s.Do("op usum a = +/,a")
		s.Do("op udup a = (,a), ,a")
		k := Pick(c, EInt, ENested, ENum, EMixed, ENested, ENested)
		gen := func() *V {
			for i := 0; ; i++ {
				v := genArr9(c, k, false)
				if v.Size() < 60 && !deepEmpty(v) {
					return v
				}
				if i > 5 {
					return Ints(1, 2, 3)
				}
			}
		}
		a := gen()
		if c.Bool() {
			op := Pick(c, "-", "count", "rho", "first", "rot", "up", "flatten", ",", "iota", "box", "transp", "unique", "unegate", "usum", "udup", "flip", "down", "split", "not", "abs")
			n := c.Range(1, 3)
			want := x.eachU(op, n, a)
			ex := op + strings.Repeat("@", n) + " " + a.Src()
			check9(c, s, x, ex, want, ex)
			return
		}
		b := gen()
		op := pickOp(c, user)
		l, r := c.Idx(3), c.Idx(3)
		if l+r == 0 {
			r = 1
		}
		if c.Prob(2) {
			op = Pick(c, "+.*", "uminus.*", "max.uminus", ",.+")
			l, r = 1, 0
		}
		want := x.eachB(op, l, r, a, b)
		ex := a.Src() + " " + strings.Repeat("@", l) + op + strings.Repeat("@", r) + " " + b.Src()
		check9(c, s, x, ex, want, ex)
	})
}

// float9 is an element that is a float, or meets floats: rounding shows the order of application.
func float9(c *C) string {
	return Pick(c, "(sqrt 2)", "(float 1/3)", "(float 2/7)", "(1e20*sqrt 3)", "(1e-20*sqrt 5)", "(-sqrt 7)", "3", "1/3", "(1e25*sqrt 7)", "(-1e25*sqrt 7)", "(float 10)", "7", "(sqrt 1e9)", "(-1e20*sqrt 3)", "(**5)")
}

// TestC09_Order compares with the expression written out in full, run by ivy itself: rounding of floats
// and side effects of user-defined operators show the order in which the operator is applied.
func TestC09_Order(t *testing.T) {
	Check(t, "C09", 2500, "f/ f/% f.g o.f of vectors and matrices of floats (of very different sizes, so that each order of application rounds differently) and, for vectors, of operators that log their operands, compared with the same thing written out in full with indexes; f\\ likewise for operators that are not associative. Non-trivial: a value results", func(c *C) {
		s := NewSess(c)
		s.Do("g = 0")
		s.Do("op a lplus b = g = g, 1, a, b; a + b")
		s.Do("op a ltimes b = g = g, 2, a, b; a * b")
		s.Do("op a lright b = g = g, 3, a, b; b - 1")
		s.Do("op a uminus b = a - b")
		s.Do(Pick(c, ")prec 256", ")prec 60", ")prec 24", ")prec 500"))
		op := func() string {
			return Pick(c, "+", "*", "-", "+", "*", "/", "min", "max", "lplus", "ltimes", "lright", "uminus", "<", "+")
		}
		f, g := op(), op()
		el := func(n int) string {
			var x []string
			for i := 0; i < n; i++ {
				x = append(x, float9(c))
			}
			return strings.Join(x, ", ")
		}
		fold := func(f string, parts []string) string { return strings.Join(parts, " "+f+" ") }
		logged := func(ex string) (*V, *V, string) {
			s.Do("g = 0")
			v, e := s.Eval(ex)
			return v, s.Get("g"), e
		}
		// same: whole is what the written out parts give; with log, side effects are the same too.
		same := func(ex, full string, log bool) {
			v, gv, e := logged(ex)
			w, gw, e2 := logged(full)
			if (e == "") != (e2 == "") {
				c.Fail("%s: error %q; written out in full, %s: error %q", ex, e, full, e2)
			}
			if e != "" {
				c.Class("error")
				return
			}
			if !Same(v, w) {
				c.Fail("%s = %s; written out in full, %s, %s", ex, v, full, w)
			}
			if log && !Same(gv, gw) {
				c.Fail("%s applies the operators to %s; written out in full, %s, to %s", ex, gv, full, gw)
			}
			c.Key(ex + full + s.Get("u").String())
		}
		n := c.Range(1, 9)
		if c.Prob(2) {
			n = c.Range(10, 40)
		}
		switch c.Idx(6) {
		case 0: // vector reduce
			s.Do("u = ," + el(n))
			var parts []string
			for i := 1; i <= n; i++ {
				parts = append(parts, Sprint("u[", i, "]"))
			}
			c.Class("f/ vector")
			same(f+Pick(c, "/", "/%")+" u", fold(f, parts), true)
		case 1: // inner of vectors
			s.Do("u = ," + el(n))
			s.Do("v = ," + el(n))
			var parts []string
			for i := 1; i <= n; i++ {
				parts = append(parts, Sprint("(u[", i, "] ", g, " v[", i, "])"))
			}
			c.Class("f.g vectors")
			same("u "+f+"."+g+" v", fold(f, parts), true)
		case 2: // scan of vector
			for f == "+" || f == "*" || f == "min" || f == "max" {
				f = op()
			}
			s.Do("u = ," + el(min(n, 12)))
			n = min(n, 12)
			var out []string
			for i := 1; i <= n; i++ {
				var parts []string
				for k := 1; k <= i; k++ {
					parts = append(parts, Sprint("u[", k, "]"))
				}
				out = append(out, "("+fold(f, parts)+")")
			}
			c.Class("f\\ vector")
			same(f+"\\ u", ","+strings.Join(out, " , "), false)
		case 3: // matrix reduce
			r, k := c.Range(1, 12), c.Range(1, 12)
			if c.Prob(4) {
				r = c.Range(12, 40)
			}
			s.Do(Sprint("u = ", r, " ", k, " rho ", el(min(r*k, c.Range(3, 20)))))
			first := c.Bool()
			rows, m := r, k
			if first {
				rows, m = k, r
			}
			var out []string
			for i := 1; i <= rows; i++ {
				var parts []string
				for j := 1; j <= m; j++ {
					if first {
						parts = append(parts, Sprint("u[", j, ";", i, "]"))
					} else {
						parts = append(parts, Sprint("u[", i, ";", j, "]"))
					}
				}
				out = append(out, "("+fold(f, parts)+")")
			}
			sfx := "/"
			if first {
				sfx = "/%"
			}
			c.Class("f/ matrix")
			same(f+sfx+" u", ","+strings.Join(out, " , "), false)
		case 4: // inner of matrices
			r, k, m := c.Range(1, 6), c.Range(1, 9), c.Range(1, 6)
			s.Do(Sprint("u = ", r, " ", k, " rho ", el(min(r*k, c.Range(3, 20)))))
			s.Do(Sprint("v = ", k, " ", m, " rho ", el(min(m*k, c.Range(3, 20)))))
			var out []string
			for i := 1; i <= r; i++ {
				for j := 1; j <= m; j++ {
					var parts []string
					for x := 1; x <= k; x++ {
						parts = append(parts, Sprint("(u[", i, ";", x, "] ", g, " v[", x, ";", j, "])"))
					}
					out = append(out, "("+fold(f, parts)+")")
				}
			}
			c.Class("f.g matrices")
			same(", u "+f+"."+g+" v", ","+strings.Join(out, " , "), false)
		default: // outer
			k := c.Range(1, 6)
			n = min(n, 6)
			s.Do("u = ," + el(n))
			s.Do("v = ," + el(k))
			var out []string
			for i := 1; i <= n; i++ {
				for j := 1; j <= k; j++ {
					out = append(out, Sprint("(u[", i, "] ", f, " v[", j, "])"))
				}
			}
			c.Class("o.f")
			same(", u o."+f+" v", ","+strings.Join(out, " , "), false)
		}
	})
}

func shapeElems(v *V) []*V { _, e := shapeEl(v); return e }

var _ = fmt.Sprint
