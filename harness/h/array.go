package h

import "sort"

// Reference definitions of the array operators, on plain Go slices. They are written
// from the documentation, with no regard to how ivy does it.

func prod(sh []int) int {
	n := 1
	for _, d := range sh {
		n *= d
	}
	return n
}

// vecOf views a scalar or vector as a vector.
func (v *V) vec() []*V {
	if v.Scalar() {
		return []*V{v}
	}
	return v.El
}

// asMat views v as an array with a shape of rank at least one.
func (v *V) asMat() ([]int, []*V) {
	if v.K == Mat {
		return v.Shape, v.El
	}
	e := v.vec()
	return []int{len(e)}, e
}

// mk makes an array of the given shape: a vector if its rank is one.
func mk(sh []int, el []*V) *V {
	if len(sh) == 1 {
		return VecOf(el...)
	}
	return MatOf(sh, el)
}

// NormV writes arrays of rank one as vectors, everywhere in v.
func NormV(v *V) *V {
	if v == nil || v.Scalar() {
		return v
	}
	el := make([]*V, len(v.El))
	for i, e := range v.El {
		el[i] = NormV(e)
	}
	return mk(v.Dims(), el)
}

func allRes(el []Res) ([]*V, *Res) {
	skipped := false
	out := make([]*V, len(el))
	for i, r := range el {
		if r.Err != "" {
			return nil, &Res{Err: r.Err}
		}
		if r.Skip {
			skipped = true
		}
		out[i] = r.V
	}
	if skipped {
		r := skip()
		return nil, &r
	}
	return out, nil
}

// ElemUnary extends a scalar operator over an array.
func ElemUnary(op string, a *V) Res {
	if a.Scalar() {
		return ScalarUnary(op, a)
	}
	rs := make([]Res, len(a.El))
	for i, e := range a.El {
		rs[i] = ElemUnary(op, e)
	}
	el, r := allRes(rs)
	if r != nil {
		return *r
	}
	return ok(&V{K: a.K, Shape: a.Shape, El: el})
}

// ElemBinary extends a scalar operator over arrays: equal shapes, a one-element
// operand with anything, and a vector with every row of a matrix.
func ElemBinary(op string, a, b *V) Res { return extend(a, b, func(x, y *V) Res { return ElemBinary(op, x, y) }, op) }

func extend(a, b *V, f func(x, y *V) Res, op string) Res {
	if a.Scalar() && b.Scalar() {
		return ScalarBinary(op, a, b)
	}
	run := func(shape []int, k Kind, n int, x, y func(i int) *V) Res {
		rs := make([]Res, n)
		for i := range rs {
			rs[i] = f(x(i), y(i))
		}
		el, r := allRes(rs)
		if r != nil {
			return *r
		}
		if k == Vec || len(shape) == 1 {
			return ok(VecOf(el...))
		}
		return ok(MatOf(shape, el))
	}
	at := func(el []*V) func(int) *V { return func(i int) *V { return el[i] } }
	one := func(e *V) func(int) *V { return func(int) *V { return e } }
	if a.K != Mat && b.K != Mat {
		x, y := a.vec(), b.vec()
		switch {
		case len(x) == 1:
			return run(nil, Vec, len(y), one(x[0]), at(y))
		case len(y) == 1:
			return run(nil, Vec, len(x), at(x), one(y[0]))
		case len(x) != len(y):
			return bad("length mismatch")
		}
		return run(nil, Vec, len(x), at(x), at(y))
	}
	ash, ael := a.asMat()
	bsh, bel := b.asMat()
	switch {
	case allOnes(ash) && !(allOnes(bsh) && len(ash) > len(bsh)):
		return run(bsh, Mat, len(bel), one(ael[0]), at(bel))
	case allOnes(bsh):
		return run(ash, Mat, len(ael), at(ael), one(bel[0]))
	case len(ash) == 1 && len(bsh) > 1 && ash[0] == bsh[len(bsh)-1]:
		return run(bsh, Mat, len(bel), func(i int) *V { return ael[i%ash[0]] }, at(bel))
	case len(bsh) == 1 && len(ash) > 1 && bsh[0] == ash[len(ash)-1]:
		return run(ash, Mat, len(ael), at(ael), func(i int) *V { return bel[i%bsh[0]] })
	case eqInts(ash, bsh):
		return run(ash, Mat, len(ael), at(ael), at(bel))
	}
	return bad("shape mismatch")
}

func allOnes(sh []int) bool {
	for _, d := range sh {
		if d != 1 {
			return false
		}
	}
	return true
}

// smallInts returns v's elements as machine integers.
func smallInts(el []*V) ([]int, bool) {
	r := make([]int, len(el))
	for i, e := range el {
		n, isInt := e.AsInt()
		if e.K != Num || !isInt || n > 1<<31-1 || n < -1<<31 {
			return nil, false
		}
		r[i] = n
	}
	return r, true
}

// fillOf is what take pads with: blanks for text, zeros otherwise, in the shape of the
// first element.
func fillOf(el []*V) *V {
	if len(el) == 0 {
		return I(0)
	}
	f := I(0)
	if allChars(el) {
		f = Ch(' ')
	}
	if el[0].Scalar() {
		return f
	}
	r := &V{K: el[0].K, Shape: el[0].Shape, El: make([]*V, len(el[0].El))}
	for i := range r.El {
		r.El[i] = f
	}
	return r
}

func allChars(el []*V) bool {
	for _, e := range el {
		if e.K != Chr {
			return false
		}
	}
	return true
}

func zeroOf(v *V) *V {
	switch {
	case v.K == Chr:
		return Ch(' ')
	case v.Scalar():
		return I(0)
	}
	r := &V{K: v.K, Shape: v.Shape, El: make([]*V, len(v.El))}
	for i, e := range v.El {
		r.El[i] = zeroOf(e)
	}
	return r
}

// coords converts a ravel position to coordinates, and back.
func coords(i int, sh []int) []int {
	c := make([]int, len(sh))
	for k := len(sh) - 1; k >= 0; k-- {
		c[k] = i % sh[k]
		i /= sh[k]
	}
	return c
}

func ravelPos(c, sh []int) int {
	p := 0
	for k := range sh {
		p = p*sh[k] + c[k]
	}
	return p
}

// Reverse reverses along axis; Rotate rotates along axis.
func alongAxis(sh []int, el []*V, axis int, from func(i, n int) int) []*V {
	out := make([]*V, len(el))
	for i := range el {
		c := coords(i, sh)
		c[axis] = from(c[axis], sh[axis])
		out[i] = el[ravelPos(c, sh)]
	}
	return out
}

// StructUnary models the structural unary operators under the given origin.
func StructUnary(op string, b *V, origin int) Res {
	switch op {
	case "rho":
		if b.Scalar() {
			return ok(Ints())
		}
		return ok(Ints(b.Dims()...))
	case "count":
		if b.Scalar() {
			return ok(I(1))
		}
		return ok(Int(b.Dims()[0]))
	case "flatten":
		r := VecOf()
		b.Each(func(e *V) { r.El = append(r.El, e) })
		return ok(r)
	case ",":
		return ok(VecOf(b.vec()...))
	case "first":
		if b.Scalar() {
			return ok(b)
		}
		if len(b.El) == 0 {
			return ok(I(0))
		}
		return ok(b.El[0])
	case "rot", "flip":
		if b.Scalar() {
			return ok(b)
		}
		sh := b.Dims()
		axis := len(sh) - 1
		if op == "flip" {
			axis = 0
		}
		return ok(&V{K: b.K, Shape: b.Shape, El: alongAxis(sh, b.El, axis, func(i, n int) int { return n - 1 - i })})
	case "transp":
		if b.K != Mat {
			return ok(b)
		}
		p := make([]int, len(b.Shape))
		for i := range p {
			p[i] = len(p) - 1 - i
		}
		return ok(transp(p, b))
	case "iota":
		if b.Scalar() || b.K == Vec && len(b.El) == 1 {
			n, isInt := smallInts(b.vec())
			if !isInt || n[0] < 0 {
				return bad("bad iota")
			}
			r := VecOf()
			for i := 0; i < n[0]; i++ {
				r.El = append(r.El, Int(i+origin))
			}
			return ok(r)
		}
		if b.K == Mat {
			return bad("iota of matrix")
		}
		if len(b.El) == 0 {
			return ok(VecOf())
		}
		sh, isInt := smallInts(b.El)
		if !isInt {
			return bad("bad iota")
		}
		for _, d := range sh {
			if d < 0 {
				return bad("bad iota")
			}
		}
		n := prod(sh)
		el := make([]*V, n)
		for i := range el {
			c := coords(i, sh)
			for k := range c {
				c[k] += origin
			}
			el[i] = Ints(c...)
		}
		return ok(MatOf(sh, el))
	case "where":
		if b.Scalar() {
			return skip()
		}
		n, isInt := smallInts(b.El)
		if !isInt {
			return bad("where of non-integers")
		}
		r := VecOf()
		for i, k := range n {
			if k < 0 {
				return bad("where of negative")
			}
			for ; k > 0; k-- {
				if b.K == Vec {
					r.El = append(r.El, Int(i+origin))
					continue
				}
				c := coords(i, b.Shape)
				for j := range c {
					c[j] += origin
				}
				r.El = append(r.El, Ints(c...))
			}
		}
		return ok(r)
	case "split":
		if b.K == Chr || b.K == Vec {
			return bad("split needs a matrix")
		}
		if b.Scalar() {
			return ok(b)
		}
		sh := b.Shape
		if len(sh) < 2 {
			return skip()
		}
		n := sh[len(sh)-1]
		outer := sh[:len(sh)-1]
		el := make([]*V, prod(outer))
		for i := range el {
			el[i] = VecOf(b.El[i*n : (i+1)*n]...)
		}
		return ok(mk(outer, el))
	case "mix":
		return mix(b)
	}
	return skip()
}

func mix(b *V) Res {
	if b.K == Chr {
		return bad("mix of char")
	}
	if b.Scalar() {
		return ok(b)
	}
	sh, el := b.asMat()
	scalars := true
	rank := 1
	for _, e := range el {
		scalars = scalars && e.Scalar()
		if r := len(e.Dims()); r > rank {
			rank = r
		}
	}
	if scalars {
		return ok(b)
	}
	inner := make([]int, rank)
	padded := func(e *V) []int {
		d := e.Dims()
		p := make([]int, rank)
		for i := range p {
			p[i] = 1
			if j := i - (rank - len(d)); j >= 0 {
				p[i] = d[j]
			}
		}
		return p
	}
	for _, e := range el {
		for i, d := range padded(e) {
			if d > inner[i] {
				inner[i] = d
			}
		}
	}
	out := []*V{}
	for _, e := range el {
		r := takeMat(inner, padded(e), e.vec())
		out = append(out, r...)
	}
	return ok(MatOf(append(append([]int{}, sh...), inner...), out))
}

// takeMat takes counts (one for each axis) from the array.
func takeMat(count, sh []int, el []*V) []*V {
	res := make([]int, len(count))
	for i, n := range count {
		res[i] = n
		if n < 0 {
			res[i] = -n
		}
	}
	fill := fillOf(el)
	out := make([]*V, prod(res))
	for i := range out {
		c := coords(i, res)
		in := true
		for k := range c {
			if count[k] < 0 {
				c[k] += sh[k] - res[k]
			}
			in = in && c[k] >= 0 && c[k] < sh[k]
		}
		out[i] = fill
		if in {
			out[i] = el[ravelPos(c, sh)]
		}
	}
	return out
}

// transp orders b's axes: axis k of b becomes axis p[k] of the result.
func transp(p []int, b *V) *V {
	rank := 0
	for _, k := range p {
		if k+1 > rank {
			rank = k + 1
		}
	}
	sh := make([]int, rank)
	for i := range sh {
		sh[i] = -1
	}
	for k, d := range b.Shape {
		if sh[p[k]] < 0 || d < sh[p[k]] {
			sh[p[k]] = d
		}
	}
	for _, d := range sh {
		if d < 0 {
			return nil
		}
	}
	out := make([]*V, prod(sh))
	for i := range out {
		c := coords(i, sh)
		src := make([]int, len(b.Shape))
		for k := range src {
			src[k] = c[p[k]]
		}
		out[i] = b.El[ravelPos(src, b.Shape)]
	}
	return MatOf(sh, out)
}

// StructBinary models the structural binary operators.
func StructBinary(op string, a, b *V, origin int) Res {
	switch op {
	case "rho":
		if a.K == Mat {
			return bad("shape is a matrix")
		}
		sh, isInt := smallInts(a.vec())
		if !isInt {
			return bad("bad shape")
		}
		if len(sh) == 0 {
			return skip()
		}
		for _, d := range sh {
			if d < 0 {
				return bad("negative shape")
			}
		}
		src := b.vec()
		if len(src) == 0 {
			src = []*V{I(0)}
		}
		el := make([]*V, prod(sh))
		for i := range el {
			el[i] = src[i%len(src)]
		}
		return ok(mk(sh, el))
	case ",", ",%":
		return catenate(a, b, op == ",%")
	case "take", "drop":
		if a.K == Mat {
			return bad("count is a matrix")
		}
		n, isInt := smallInts(a.vec())
		sh, el := b.asMat()
		if len(n) == 0 {
			return skip()
		}
		if len(n) > len(sh) {
			if op == "take" && len(el) == 1 {
				// A single element has any rank.
				sh = nil
				for range n {
					sh = append(sh, 1)
				}
			} else {
				return bad("too many counts")
			}
		}
		if !isInt {
			return bad("bad count")
		}
		n = append([]int{}, n...)
		for len(n) < len(sh) {
			if op == "take" {
				n = append(n, sh[len(n)])
			} else {
				n = append(n, 0)
			}
		}
		if op == "drop" {
			for i, k := range n {
				switch {
				case k >= sh[i] || -k >= sh[i]:
					n[i] = 0
				case k >= 0:
					n[i] = k - sh[i]
				default:
					n[i] = k + sh[i]
				}
			}
		}
		out := takeMat(n, sh, el)
		for i := range n {
			if n[i] < 0 {
				n[i] = -n[i]
			}
		}
		if b.K == Mat || len(n) > 1 {
			return ok(MatOf(n, out))
		}
		return ok(VecOf(out...))
	case "rot", "flip":
		if a.K == Mat {
			return bad("count is a matrix")
		}
		n, isInt := smallInts(a.vec())
		if len(n) != 1 || !isInt {
			return bad("bad count")
		}
		sh, el := b.asMat()
		axis := len(sh) - 1
		if op == "flip" {
			axis = 0
		}
		out := alongAxis(sh, el, axis, func(i, d int) int { return ((i+n[0])%d + d) % d })
		if b.K == Mat {
			return ok(MatOf(sh, out))
		}
		return ok(VecOf(out...))
	case "fill":
		if a.K == Mat || b.K == Mat {
			return bad("fill of matrix")
		}
		src := b.vec()
		if len(a.vec()) == 0 {
			return skip()
		}
		n, isInt := smallInts(a.vec())
		if !isInt {
			return bad("bad count")
		}
		z := I(0)
		if allChars(src) {
			z = Ch(' ')
		}
		r := VecOf()
		used := 0
		for _, k := range n {
			if k > 0 {
				if used >= len(src) {
					return bad("count of positive items")
				}
				for ; k > 0; k-- {
					r.El = append(r.El, src[used])
				}
				used++
				continue
			}
			if k == 0 {
				k = -1
			}
			for ; k < 0; k++ {
				r.El = append(r.El, z)
			}
		}
		if used != len(src) {
			return bad("count of positive items")
		}
		return ok(r)
	case "sel":
		if a.K == Mat {
			return bad("count is a matrix")
		}
		sh, el := b.asMat()
		last := sh[len(sh)-1]
		cnt := a.vec()
		if len(cnt) != 1 && len(cnt) != last {
			return bad("length mismatch")
		}
		if len(el) == 0 {
			return skip() // counts are not looked at
		}
		n, isInt := smallInts(cnt)
		if !isInt {
			return bad("bad count")
		}
		out := []*V{}
		for i, e := range el {
			k := n[0]
			if len(n) > 1 {
				k = n[i%last]
			}
			if k < 0 {
				k, e = -k, zeroOf(e)
			}
			for ; k > 0; k-- {
				out = append(out, e)
			}
		}
		if b.K != Mat {
			return ok(VecOf(out...))
		}
		rows := prod(sh[:len(sh)-1])
		nsh := append([]int{}, sh...)
		nsh[len(nsh)-1] = len(out) / rows
		return ok(MatOf(nsh, out))
	case "part":
		return part(a, b)
	case "transp":
		if a.K == Mat {
			return bad("axes are a matrix")
		}
		if b.K != Mat {
			return skip()
		}
		p, isInt := smallInts(a.vec())
		if !isInt || len(p) != len(b.Shape) {
			return bad("bad axes")
		}
		p = append([]int{}, p...)
		for i := range p {
			p[i] -= origin
			if p[i] < 0 || p[i] >= len(b.Shape) {
				return bad("bad axis")
			}
		}
		r := transp(p, b)
		if r == nil {
			return bad("missing axis")
		}
		return ok(r)
	}
	return skip()
}

func part(a, b *V) Res {
	if a.K == Mat {
		return bad("score is a matrix")
	}
	sh, el := b.asMat()
	last := sh[len(sh)-1]
	sc := a.vec()
	if b.K == Mat && len(sc) == 1 && last != 1 {
		s := sc[0]
		sc = nil
		for i := 0; i < last; i++ {
			sc = append(sc, s)
		}
		if n, isInt := smallInts([]*V{s}); !isInt || n[0] < 0 {
			return bad("bad score")
		}
	}
	if len(sc) != last {
		return bad("length mismatch")
	}
	if len(el) == 0 {
		return skip()
	}
	n, isInt := smallInts(sc)
	if !isInt {
		return bad("bad score")
	}
	for _, k := range n {
		if k < 0 {
			return bad("bad score")
		}
	}
	rows := prod(sh[:len(sh)-1])
	out := []*V{}
	for r := 0; r < rows; r++ {
		prev := 0
		var cur *V
		for j, k := range n {
			if k != 0 {
				if k > prev || cur == nil {
					cur = VecOf()
					out = append(out, cur)
				}
				cur.El = append(cur.El, el[r*last+j])
			} else {
				cur = nil
			}
			prev = k
		}
	}
	if b.K != Mat {
		return ok(VecOf(out...))
	}
	nsh := append([]int{}, sh...)
	nsh[len(nsh)-1] = len(out) / rows
	return ok(MatOf(nsh, out))
}

func catenate(a, b *V, first bool) Res {
	if a.K != Mat && b.K != Mat {
		return ok(VecOf(append(append([]*V{}, a.vec()...), b.vec()...)...))
	}
	ash, ael := a.asMat()
	bsh, bel := b.asMat()
	ra, rb := len(ash), len(bsh)
	rank := ra
	if rb > rank {
		rank = rb
	}
	axis := rank - 1
	if first {
		axis = 0
	}
	// Bring both to the same rank: an item of one lower rank is one slice; a single
	// element is extended.
	without := func(sh []int) []int {
		r := append([]int{}, sh[:axis]...)
		return append(r, sh[axis+1:]...)
	}
	norm := func(sh []int, el []*V, other []int) ([]int, []*V) {
		if len(sh) == rank {
			return sh, el
		}
		slice := without(other)
		n := append([]int{}, other...)
		n[axis] = 1
		if len(sh) == rank-1 && eqInts(sh, slice) {
			return n, el
		}
		if len(sh) == 1 && sh[0] == 1 {
			r := make([]*V, prod(n))
			for i := range r {
				r[i] = el[0]
			}
			return n, r
		}
		return nil, nil
	}
	x, xel := norm(ash, ael, bsh)
	y, yel := norm(bsh, bel, ash)
	if x == nil || y == nil || !eqInts(without(x), without(y)) {
		return bad("shape mismatch")
	}
	sh := append([]int{}, x...)
	sh[axis] += y[axis]
	out := make([]*V, prod(sh))
	for i := range out {
		c := coords(i, sh)
		if c[axis] < x[axis] {
			out[i] = xel[ravelPos(c, x)]
		} else {
			c[axis] -= x[axis]
			out[i] = yel[ravelPos(c, y)]
		}
	}
	return ok(MatOf(sh, out))
}

// Order is the total order on values: chars, then real numbers, then complex numbers
// (real part first), vectors, matrices; arrays by number of elements, then element by
// element, then shape.
func Order(a, b *V) int {
	class := func(v *V) int {
		switch {
		case v.K == Chr:
			return 0
		case v.K == Vec:
			return 3
		case v.K == Mat:
			return 4
		case v.IsReal():
			return 1
		}
		return 2
	}
	ca, cb := class(a), class(b)
	if ca != cb {
		return sgn(ca - cb)
	}
	switch ca {
	case 0:
		return sgn(int(a.R) - int(b.R))
	case 1, 2:
		if s := a.Re.Cmp(b.Re); s != 0 {
			return s
		}
		return a.Im.Cmp(b.Im)
	}
	if len(a.El) != len(b.El) {
		return sgn(len(a.El) - len(b.El))
	}
	for i := range a.El {
		if s := Order(a.El[i], b.El[i]); s != 0 {
			return s
		}
	}
	if ca == 4 {
		if len(a.Shape) != len(b.Shape) {
			return 2 // different; which comes first is not specified
		}
		for i := range a.Shape {
			if a.Shape[i] != b.Shape[i] {
				return 2
			}
		}
	}
	return 0
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// SetBinary models the searching and set operators.
func SetBinary(op string, a, b *V, origin int) Res {
	eq := func(x, y *V) bool { return Order(x, y) == 0 }
	has := func(el []*V, x *V) bool {
		for _, e := range el {
			if eq(e, x) {
				return true
			}
		}
		return false
	}
	switch op {
	case "===":
		return boolRes(eq(a, b))
	case "!==":
		return boolRes(!eq(a, b))
	case "in":
		out := []*V{}
		for _, e := range a.vec() {
			out = append(out, Bit(has(b.vec(), e)))
		}
		if a.K == Mat {
			return ok(MatOf(a.Shape, out))
		}
		if len(out) == 1 {
			return ok(out[0])
		}
		return ok(VecOf(out...))
	case "iota":
		ash, ael := a.asMat()
		bsh, bel := b.asMat()
		if a.K != Mat && b.K != Mat {
			out := []*V{}
			for _, x := range bel {
				k := -1
				for i, e := range ael {
					if eq(e, x) {
						k = i
						break
					}
				}
				out = append(out, Int(k+origin))
			}
			return ok(VecOf(out...))
		}
		cell := ash[1:]
		if len(cell) > len(bsh) || !eqInts(cell, bsh[len(bsh)-len(cell):]) {
			return bad("mismatched shapes")
		}
		sh := append([]int{}, bsh[:len(bsh)-len(cell)]...)
		n := prod(cell)
		cnt := prod(sh)
		if len(sh) == 0 {
			sh = []int{1}
		}
		out := []*V{}
		for i := 0; i < cnt; i++ {
			k := -1
			for j := 0; j < ash[0] && k < 0; j++ {
				same := true
				for x := 0; x < n; x++ {
					same = same && eq(ael[j*n+x], bel[i*n+x])
				}
				if same {
					k = j
				}
			}
			out = append(out, Int(k+origin))
		}
		return ok(mk(sh, out))
	case "union", "intersect":
		if a.K == Mat || b.K == Mat {
			return bad("set operation on matrix")
		}
		if op == "union" {
			if a.Scalar() && b.Scalar() && eq(a, b) {
				return ok(a)
			}
			out := append([]*V{}, a.vec()...)
			for _, x := range b.vec() {
				if !has(a.vec(), x) {
					out = append(out, x)
				}
			}
			return ok(VecOf(out...))
		}
		if a.Scalar() && b.Scalar() && eq(a, b) {
			return ok(a)
		}
		out := []*V{}
		for _, x := range a.vec() {
			if has(b.vec(), x) {
				out = append(out, x)
			}
		}
		return ok(VecOf(out...))
	}
	return skip()
}

// SetUnary models unique, up and down.
func SetUnary(op string, b *V, origin int) Res {
	switch op {
	case "unique":
		if b.K == Mat {
			return bad("unique of matrix")
		}
		if b.Scalar() {
			return ok(b)
		}
		out := []*V{}
		for _, x := range b.El {
			dup := false
			for _, e := range out {
				dup = dup || Order(e, x) == 0
			}
			if !dup {
				out = append(out, x)
			}
		}
		return ok(VecOf(out...))
	case "up", "down":
		if b.Scalar() {
			return skip()
		}
		n := b.Dims()[0]
		w := 1
		if b.K == Mat {
			w = prod(b.Shape[1:])
		}
		unspecified := false
		ix := make([]int, n)
		for i := range ix {
			ix[i] = i
		}
		cmp := func(i, j int) int {
			for k := 0; k < w; k++ {
				s := Order(b.El[i*w+k], b.El[j*w+k])
				if s == 2 {
					unspecified = true
				}
				if s != 0 {
					return s
				}
			}
			return 0
		}
		sort.SliceStable(ix, func(i, j int) bool { return cmp(ix[i], ix[j]) < 0 })
		if unspecified {
			return skip()
		}
		if op == "down" {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ix[i], ix[j] = ix[j], ix[i]
			}
		}
		for i := range ix {
			ix[i] += origin
		}
		return ok(Ints(ix...))
	}
	return skip()
}
