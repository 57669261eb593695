package h

// Index models a[idx...]; a nil entry is an omitted index.
func Index(a *V, idx []*V, origin int) Res {
	pos, sh, err := indexPlan(a, idx, origin)
	if err != "" {
		return bad(err)
	}
	el := make([]*V, len(pos))
	for i, p := range pos {
		el[i] = a.El[p]
	}
	if len(sh) == 0 {
		return ok(el[0])
	}
	return ok(mk(sh, el))
}

// indexPlan returns the positions in a addressed by the indexes, in result order, and
// the shape of the result.
func indexPlan(a *V, idx []*V, origin int) (pos []int, sh []int, err string) {
	if a.Scalar() {
		return nil, nil, "indexing a scalar"
	}
	dims := a.Dims()
	if len(idx) == 1 && idx[0] != nil && !idx[0].Scalar() && len(idx[0].El) > 0 && idx[0].El[0].K == Vec {
		// A collection of index vectors.
		x := idx[0]
		n := len(x.El[0].El)
		if n > len(dims) {
			return nil, nil, "index vector too long"
		}
		rest := prod(dims[n:])
		sh = append(append([]int{}, x.Dims()...), dims[n:]...)
		for _, e := range x.El {
			if e.K != Vec || len(e.El) != n {
				return nil, nil, "mixed index vectors"
			}
			off := 0
			for j, q := range e.El {
				k, isInt := q.AsInt()
				k -= origin
				if !isInt || k < 0 || k >= dims[j] {
					return nil, nil, "index out of range"
				}
				off = off*dims[j] + k
			}
			for r := 0; r < rest; r++ {
				pos = append(pos, off*rest+r)
			}
		}
		return pos, sh, ""
	}
	if len(idx) > len(dims) {
		return nil, nil, "too many indexes"
	}
	lists := make([][]int, len(dims))
	for i := range dims {
		if i >= len(idx) || idx[i] == nil {
			for k := 0; k < dims[i]; k++ {
				lists[i] = append(lists[i], k)
			}
			sh = append(sh, dims[i])
			continue
		}
		x := idx[i]
		for _, e := range x.vec() {
			k, isInt := e.AsInt()
			k -= origin
			if !isInt || k < 0 || k >= dims[i] {
				return nil, nil, "bad index"
			}
			lists[i] = append(lists[i], k)
		}
		sh = append(sh, x.Dims()...)
	}
	pos = []int{0}
	for i, l := range lists {
		var next []int
		for _, p := range pos {
			for _, k := range l {
				next = append(next, p*dims[i]+k)
			}
		}
		pos = next
	}
	return pos, sh, ""
}

// IndexAssign models a[idx...] = rhs and returns the new value of a.
func IndexAssign(a *V, idx []*V, rhs *V, origin int) Res {
	pos, sh, err := indexPlan(a, idx, origin)
	if err != "" {
		return bad(err)
	}
	out := &V{K: a.K, Shape: a.Shape, El: append([]*V{}, a.El...)}
	switch {
	case len(sh) == 0:
		out.El[pos[0]] = rhs
	case rhs.Scalar():
		for _, p := range pos {
			out.El[p] = rhs
		}
	default:
		if !eqInts(sh, rhs.Dims()) {
			return bad("shape mismatch in assignment")
		}
		for i, p := range pos {
			out.El[p] = rhs.El[i]
		}
	}
	return ok(out)
}
