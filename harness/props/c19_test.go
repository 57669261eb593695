package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	. "verif.local/harness/h"
)

// euclid is the integer q and remainder r of a by b with 0 <= r < |b|; by zero, 0 and a.
func euclid(a, b *big.Rat) (q, r *big.Rat) {
	if b.Sign() == 0 {
		return new(big.Rat), a
	}
	abs := new(big.Rat).Abs(b)
	n := RFloor(new(big.Rat).Quo(a, abs))
	q = new(big.Rat).SetInt(n)
	r = new(big.Rat).Sub(a, new(big.Rat).Mul(q, abs))
	if b.Sign() < 0 {
		q.Neg(q)
	}
	return q, r
}

func digits(a []*V, b *V) []*V {
	out := make([]*V, len(a))
	x := b.Re
	for i := len(a) - 1; i >= 0; i-- {
		q, r := euclid(x, a[i].Re)
		out[i], x = Rat(r), q
	}
	return out
}

func horner(a, b []*V) *V {
	n := max(len(a), len(b))
	get := func(v []*V, i int) *V {
		if len(v) == 1 {
			return v[0]
		}
		return v[i]
	}
	sum := Int(0)
	for i := 0; i < n; i++ {
		sum = ScalarBinary("*", sum, get(a, i)).V
		sum = ScalarBinary("+", sum, get(b, i)).V
	}
	return sum
}

func radix(c *C, kind int) *V {
	switch kind {
	case 0:
		return Int(Pick(c, 2, 10, 3, 16, 60, 24))
	case 1:
		return Int(c.Range(1, 100))
	case 2:
		return BI(new(big.Int).Add(new(big.Int).Abs(GenInt(c)), big.NewInt(1)))
	case 3:
		return Int(Pick(c, 0, 1, 2, -1, -2, -7, 10))
	case 4:
		return Frac(int64(c.Range(1, 30)), int64(c.Range(1, 9)))
	}
	return Int(7)
}

func c19Value(c *C, k int) *V {
	switch k {
	case 0:
		return Int(c.Range(0, 100000))
	case 1:
		return BI(GenInt(c))
	case 2:
		return Int(c.Range(-500, 500))
	}
	return Rat(GenRat(c))
}

func vsrc(el []*V, asVec bool) string {
	if len(el) == 1 {
		if asVec {
			return "(,(" + el[0].Src() + "))"
		}
		return "(" + el[0].Src() + ")"
	}
	return "(" + VecOf(el...).Src() + ")"
}

func TestC19_Radix(t *testing.T) {
	Check(t, "C19", 3000, "radix vectors (uniform, mixed, big, fractional, zero, negative) against values (big, negative, fractional; scalar, vector, matrix up to rank 3); encode must be the digits by repeated Euclidean division and decode the mixed-radix polynomial, column by column, and decode the inverse of encode modulo the product; non-trivial: at least two radices, distinct by the expressions", func(c *C) {
		n := c.Range(1, 6)
		kind := c.Idx(5)
		var a []*V
		for i := 0; i < n; i++ {
			if i == 0 || kind > 0 {
				a = append(a, radix(c, kind))
			} else {
				a = append(a, a[0])
			}
		}
		if c.Prob(3) {
			a[0] = Int(0)
		}
		avec := c.Bool()
		s := NewSess(c)
		s.Do("a = " + vsrc(a, avec))
		vk := c.Idx(4)
		var b []*V
		var sh []int
		m := c.Range(1, 5)
		if c.Prob(1) {
			m = c.Range(100, 1200)
		}
		rank := c.Idx(4)
		switch rank {
		case 0:
			m, sh = 1, nil
		case 1:
			sh = []int{m}
		default:
			sh = nil
			m = 1
			for i := 0; i < rank; i++ {
				sh = append(sh, c.Range(1, 4))
				m *= sh[i]
			}
		}
		for i := 0; i < m; i++ {
			b = append(b, c19Value(c, vk))
		}
		switch rank {
		case 0, 1:
			s.Do("b = " + vsrc(b, rank == 1))
		default:
			s.Do("b = " + MatOf(sh, b).Src())
		}
		if n > 1 {
			c.Key(strings.Join(s.Log(), "; "))
		}
		c.Class(fmt.Sprintf("radix %d value %d rank %d", kind, vk, rank))
		// Encode.
		cols := make([][]*V, m)
		for j := range b {
			cols[j] = digits(a, b[j])
		}
		var flat []*V
		for i := 0; i < n; i++ {
			for j := 0; j < m; j++ {
				flat = append(flat, cols[j][i])
			}
		}
		var want *V
		switch {
		case rank >= 2:
			want = MatOf(append([]int{n}, sh...), flat)
		case n == 1 && m == 1:
			want = flat[0]
		case n == 1 || m == 1:
			want = VecOf(flat...)
		default:
			want = MatOf([]int{n, m}, flat)
		}
		s.Want("a encode b", want)
		// And back, modulo the product.
		prod := big.NewRat(1, 1)
		for _, x := range a[1:] {
			prod.Mul(prod, x.Re)
		}
		all := new(big.Rat).Mul(prod, a[0].Re)
		back := make([]*V, m)
		for j := range b {
			back[j] = horner(a, cols[j])
			if kind <= 2 && a[0].Re.Sign() != 0 {
				if _, r := euclid(b[j].Re, all); r.Cmp(back[j].Re) != 0 {
					c.Fail("reference: digits of %s in %v decode to %s", b[j], a, back[j])
				}
			} else if kind <= 2 && back[j].Re.Cmp(b[j].Re) != 0 && vk != 3 {
				c.Fail("reference: digits of %s in %v decode to %s", b[j], a, back[j])
			}
		}
		if n > 1 && (rank > 0 && m > 1 || rank >= 2) {
			var w *V
			switch rank {
			case 1:
				w = VecOf(back...)
			default:
				w = MatOf(sh, back)
			}
			s.WantNorm("a decode a encode b", w)
			c.Class("round trip")
		} else if n > 1 {
			s.Want("a decode a encode b", back[0])
		}
	})
}

func TestC19_Decode(t *testing.T) {
	Check(t, "C19", 2000, "decode of any coefficients (integers, rationals, complex, big; digits in range or not) at scalar and vector radices, vectors and matrices: the polynomial's value per column; lengths that do not conform are errors; non-trivial: at least two coefficients", func(c *C) {
		n := c.Range(1, 6)
		k := n
		if c.Prob(5) {
			k = 1
		} else if c.Prob(2) {
			k = c.Range(1, 6)
		}
		rk, vk := c.Idx(6), c.Idx(5)
		el := func(k int) *V {
			if k >= 4 {
				return GenNum(c)
			}
			return c19Value(c, k)
		}
		var a, b []*V
		for i := 0; i < k; i++ {
			if rk == 5 {
				a = append(a, GenNum(c))
			} else {
				a = append(a, radix(c, rk))
			}
		}
		rank := c.Range(0, 3)
		if rank == 0 {
			n = 1
		}
		var rest []int
		m := 1
		for i := 1; i < rank; i++ {
			rest = append(rest, c.Range(1, 4))
			m *= rest[i-1]
		}
		for i := 0; i < n*m; i++ {
			b = append(b, el(vk))
		}
		s := NewSess(c)
		s.Do("a = " + vsrc(a, c.Bool()))
		if rank <= 1 {
			s.Do("b = " + vsrc(b, rank == 1))
		} else {
			s.Do("b = " + MatOf(append([]int{n}, rest...), b).Src())
		}
		if n > 1 {
			c.Key(strings.Join(s.Log(), "; "))
		}
		if k != 1 && n != 1 && k != n {
			s.WantErr("a decode b", "lengths differ")
			c.Class("mismatch")
			return
		}
		out := make([]*V, m)
		for j := range out {
			var col []*V
			for i := 0; i < n; i++ {
				col = append(col, b[i*m+j])
			}
			out[j] = horner(a, col)
		}
		switch rank {
		case 0, 1:
			s.Want("a decode b", out[0])
		case 2:
			s.WantNorm("a decode b", VecOf(out...))
		default:
			s.Want("a decode b", MatOf(rest, out))
		}
		c.Class(fmt.Sprintf("rank %d", rank))
	})
}

var zones = []string{"UTC", "America/New_York", "Europe/London", "Asia/Kathmandu", "Australia/Sydney", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Africa/Monrovia", "Asia/Pyongyang", "Europe/Dublin", "America/Sao_Paulo", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Marquesas", "Europe/Moscow", "Africa/Casablanca", "Antarctica/Troll"}

func c19Instant(c *C) (sec int64, nsec int64) {
	switch c.Idx(5) {
	case 0:
		sec = int64(c.Range(-1000, 1000))
	case 1:
		sec = int64(c.Range(0, 1<<31-1))
	case 2:
		sec = -int64(c.Range(0, 1<<31-1))
	case 3: // around the ends of days and the usual changes of clocks
		t := time.Date(c.Range(1960, 2036), time.Month(Pick(c, 3, 10, 11, 4, 12, 1, 2)), c.Range(1, 31), c.Range(0, 23), Pick(c, 0, 59, 30, 29), Pick(c, 0, 59), 0, time.UTC)
		sec = t.Unix()
	case 4: // years far off
		sec = time.Date(c.Range(-4000, 9000), time.Month(c.Range(1, 12)), c.Range(1, 28), c.Range(0, 23), c.Range(0, 59), c.Range(0, 59), 0, time.UTC).Unix()
	}
	switch c.Idx(3) {
	case 1:
		nsec = int64(Pick(c, 1, 999999999, 500000000, 1000, 1000000))
	case 2:
		nsec = int64(c.Range(0, 999999999))
	}
	return
}

func closeTo(v *V, want *big.Rat, tol float64) bool {
	var r *big.Rat
	switch {
	case v.K == Num && v.Im.Sign() == 0:
		r = v.Re
	case v.K == Flt:
		r, _ = v.FR.Rat(nil)
	default:
		return false
	}
	d := new(big.Rat).Sub(r, want)
	f, _ := d.Float64()
	return math.Abs(f) <= tol
}

func TestC19_Time(t *testing.T) {
	Check(t, "C19", 1200, "an instant (any second and nanosecond within years -4000 to 9000, often near a change of clocks) in one of 18 time zones: 'T' encode must give the calendar fields and offset Go's library gives, 'T' text its Unix date, 'T' decode of the vector the instant again, and 'T' decode of the first one to six fields (the seconds a whole number, a rational or a float) the instant Go's time.Date gives; non-trivial: every instant, distinct by zone and instant", func(c *C) {
		zone := Pick(c, zones...)
		loc, err := time.LoadLocation(zone)
		if err != nil {
			return
		}
		sec, nsec := c19Instant(c)
		s := NewSess(c)
		s.Do(fmt.Sprintf(")timezone %q", zone))
		exact := new(big.Rat).SetFrac(big.NewInt(nsec), big.NewInt(1e9))
		exact.Add(exact, new(big.Rat).SetInt64(sec))
		src := exact.RatString()
		if strings.HasPrefix(src, "-") {
			src = "(" + src + ")"
		}
		if c.Prob(5) {
			src = "(float " + src + ")"
		}
		s.Do("s = " + src)
		if sec < 0 && nsec > 0 {
			c.Class("before 1970 with a fraction")
		}
		tm := time.Unix(sec, nsec).In(loc)
		_, off := tm.Zone()
		c.Class(zone)
		c.Key(fmt.Sprintf("%s %s", zone, src))
		if off == 0 {
			c.Class("offset 0")
		}
		v := s.Must("'T' encode s")
		want := []int{tm.Year(), int(tm.Month()), tm.Day(), tm.Hour(), tm.Minute(), tm.Second(), off}
		if v.K != Vec || len(v.El) != 7 {
			c.Fail("'T' encode %s in %s: got %v", src, zone, v)
		}
		for i, w := range want {
			if i == 5 {
				f := new(big.Rat).SetFrac(big.NewInt(int64(tm.Nanosecond())), big.NewInt(1e9))
				f.Add(f, new(big.Rat).SetInt64(int64(w)))
				if !closeTo(v.El[5], f, 1.5e-9) {
					c.Fail("'T' encode %s in %s: seconds %v, want %s", src, zone, v.El[5], f.FloatString(9))
				}
				continue
			}
			if Diff(v.El[i], Int(w)) != "" {
				c.Fail("'T' encode %s in %s: got %v, want %v", src, zone, v, want)
			}
		}
		txt := s.Must("'T' text s")
		w := tm.In(time.FixedZone(zone, off)).Format(time.UnixDate)
		if Diff(txt, Str(w)) != "" {
			c.Fail("'T' text %s in %s: got %v, want %q", src, zone, txt, w)
		}
		// Back, in this zone or another: the vector carries its offset.
		tol := 1.5e-9 + math.Abs(float64(sec))*1e-18
		if c.Bool() {
			s.Do("v = 'T' encode s")
			s.Do(fmt.Sprintf(")timezone %q", Pick(c, zones...)))
			if got := s.Must("'T' decode v"); !closeTo(got, exact, tol) {
				c.Fail("'T' decode 'T' encode %s in %s (decoded in another zone): %v", src, zone, got)
			}
			s.Do(fmt.Sprintf(")timezone %q", zone))
		}
		if got := s.Must("'T' decode 'T' encode s"); !closeTo(got, exact, tol) {
			c.Fail("'T' decode 'T' encode %s in %s: %v", src, zone, got)
		}
		// Without the offset, and with fewer fields.
		k := c.Range(1, 6)
		f := []int{tm.Year(), int(tm.Month()), tm.Day(), tm.Hour(), tm.Minute(), tm.Second()}
		g := []int{0, 1, 1, 0, 0, 0}
		copy(g, f[:k])
		if c.Prob(4) {
			i := c.Idx(k)
			g[i] += c.Range(-70, 70) // normalized as Go does
		}
		var parts []string
		for _, x := range g[:k] {
			parts = append(parts, fmt.Sprint(x))
		}
		when := time.Date(g[0], time.Month(g[1]), g[2], g[3], g[4], g[5], 0, loc)
		wantSec := new(big.Rat).SetInt64(when.Unix())
		tol2 := 1e-6
		if k == 6 && c.Bool() { // a fraction of a second, as a rational or a float
			tol2 = 1.5e-9 + math.Abs(float64(when.Unix()))*1e-18
			den := Pick(c, int64(2), 3, 7, 8, 1000, 1000000, 1000000000)
			fr := big.NewRat(1+int64(c.Idx(int(den-1))), den)
			if g[5] < 0 {
				fr.Neg(fr)
			}
			wantSec.Add(wantSec, fr)
			fr.Add(fr, new(big.Rat).SetInt64(int64(g[5])))
			parts[5] = "(" + Pick(c, "", "float ", "1*") + fr.RatString() + ")"
			c.Class("fraction of a second")
		}
		got := s.Must("'T' decode , " + strings.Join(parts, " "))
		if !closeTo(got, wantSec, tol2) {
			c.Fail("'T' decode %v in %s: got %v, want %s", parts, zone, got, wantSec.FloatString(9))
		}
		c.Class(fmt.Sprint("fields ", k))
		s.WantErr(Pick(c, "'T' decode 1 2 3 4 5 6 7 8", "'x' decode 1 2 3", "'x' encode 3", "'T' decode 1 2 'x'", "'T' decode 1 (2 3)", "'T' encode 'x'", "'T' encode iota 0", "'T' decode 1 1/2", "'Q' text 3 ? 2"), "not a time")
	})
}
