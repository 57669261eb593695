package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

func c18Bound(c *C) *big.Int {
	switch c.Idx(6) {
	case 0:
		return big.NewInt(int64(c.Range(1, 12)))
	case 1:
		return big.NewInt(int64(c.Range(1, 5000)))
	case 2:
		return big.NewInt(int64(Pick(c, 1<<31-2, 1<<31-1, 1<<31-3, 1<<30, 1<<16)))
	case 3:
		return big.NewInt(int64(Pick(c, 1<<31, 1<<31+1, 1<<32, 1<<33-1, 1<<40+1, 1<<62, 1<<63-1)))
	case 4:
		x := new(big.Int).Lsh(big.NewInt(1), uint(c.Range(31, 300)))
		return x.Add(x, big.NewInt(int64(c.Range(-1, 1))))
	}
	x := GenInt(c)
	x.Abs(x)
	return x.Add(x, big.NewInt(1))
}

func scalars(v *V) []*V {
	if v.Scalar() {
		return []*V{v}
	}
	return v.El
}

var smallLimit = big.NewInt(1 << 31)

// inRoll reports whether x is among the first b integers. Above 2^31 the origin is
// ignored (a known finding), so either numbering is taken.
func inRoll(x *V, b *big.Int, origin int) bool {
	if !x.IsInt() {
		return false
	}
	n := x.Re.Num()
	lo := big.NewInt(int64(origin))
	hi := new(big.Int).Add(lo, b)
	if b.Cmp(smallLimit) >= 0 && n.Sign() >= 0 && n.Cmp(b) < 0 {
		return true
	}
	return n.Cmp(lo) >= 0 && n.Cmp(hi) < 0
}

// spread checks counts of n draws over k equally likely outcomes, at eight standard deviations.
func spread(c *C, what string, counts []int, n int) {
	k := len(counts)
	p := 1 / float64(k)
	mean, dev := float64(n)*p, math.Sqrt(float64(n)*p*(1-p))
	for i, x := range counts {
		if x == 0 || math.Abs(float64(x)-mean) > 8*dev+2 {
			c.Fail("%s: outcome %d of %d came up %d times in %d draws (expected %.0f): %v", what, i, k, x, n, mean, counts)
		}
	}
}

func TestC18_Range(t *testing.T) {
	Check(t, "C18", 1200, "bounds from 1 to 300 bits (around every integer size), origins 0 to 5, random seeds, scalar, vector and matrix operands: every roll is among the first B integers, every rand in [0,B), every deal distinct and in range; bounds that are not positive integers are errors; non-trivial: a bound above 1, distinct by bound, origin and seed", func(c *C) {
		s := NewSess(c)
		origin := c.Range(0, 5)
		seed := c.Range(0, 1<<20)
		s.Do(fmt.Sprintf(")origin %d\n)seed %d", origin, seed))
		n := c.Range(1, 8)
		var b []*big.Int
		var el []*V
		for i := 0; i < n; i++ {
			x := c18Bound(c)
			b = append(b, x)
			el = append(el, BI(x))
		}
		src := VecOf(el...).Src()
		if n == 1 {
			src = el[0].Src()
		}
		s.Do("b = " + src)
		if b[0].Cmp(big.NewInt(1)) > 0 {
			c.Key(fmt.Sprint(src, origin, seed))
		}
		for i := 0; i < 5; i++ {
			v := s.Must("? b")
			for j, x := range scalars(v) {
				if !inRoll(x, b[j], origin) {
					c.Fail("? %s under origin %d gives %s", b[j], origin, x)
				}
			}
			v = s.Must("rand b")
			for j, x := range scalars(v) {
				f := x.Float()
				if f == nil || f.Sign() < 0 || f.Cmp(new(big.Float).SetInt(b[j])) >= 0 {
					c.Fail("rand %s gives %s", b[j], x)
				}
			}
		}
		if n > 2 {
			v := s.Must("? 2 2 rho b")
			if len(v.El) != 4 || len(v.Shape) != 2 {
				c.Fail("? 2 2 rho %s gives %s", src, v)
			}
			for j, x := range v.El {
				if !inRoll(x, b[j%n], origin) {
					c.Fail("? 2 2 rho %s under origin %d gives %s", src, origin, v)
				}
			}
		}
		B := c.Range(0, 60)
		if c.Prob(1) {
			B = c.Range(1000, 5000)
		}
		A := c.Range(0, B)
		if c.Prob(4) {
			A = B
		}
		v := s.Must(fmt.Sprintf("%d ? %d", A, B))
		if v.K != Vec || len(v.El) != A {
			c.Fail("%d ? %d gives %v", A, B, v)
		}
		seen := map[int]bool{}
		for _, x := range v.El {
			k, ok := x.AsInt()
			if !ok || k < origin || k >= origin+B || seen[k] {
				c.Fail("%d ? %d under origin %d gives %v", A, B, origin, v)
			}
			seen[k] = true
		}
		c.Class("deal")
		s.WantErr(Pick(c, "? 0", "? -1", "? 1/2", "? 'a'", "? 1j1", "? 3 0 3", "? -10000000000", "rand -1", "rand 'a'", "rand -1/2", "rand 1j1", "3 ? 2", "-1 ? 3", "1 ? -1", "1/2 ? 3", "'a' ? 3", "1 ? 1/2", "1e10 ? 5"), "bad bound")
		r := GenRat(c)
		if r.Sign() > 0 {
			s.Do("r = " + Rat(r).Src())
			x := s.Must("rand r")
			f := x.Float()
			if f == nil || f.Sign() < 0 || f.Cmp(new(big.Float).SetPrec(600).SetRat(r)) > 0 {
				c.Fail("rand %s gives %s", r, x)
			}
		}
	})
}

func TestC18_Spread(t *testing.T) {
	Check(t, "C18", 60, "a bound, an origin and a seed; 2000 rolls (or rands, or deals) must show every outcome, each about equally often (8 standard deviations), and successive draws must differ; non-trivial: every case, distinct by bound, origin and seed", func(c *C) {
		s := NewSess(c)
		origin := c.Range(0, 3)
		seed := c.Range(0, 1<<20)
		s.Do(fmt.Sprintf(")origin %d\n)seed %d", origin, seed))
		const n = 2000
		switch kind := c.Idx(5); kind {
		case 0: // small bound
			b := c.Range(2, 20)
			c.Key(fmt.Sprint("roll", b, origin, seed))
			counts := make([]int, b)
			pairs := map[[2]int]int{}
			last := 0
			for i, x := range s.Must(fmt.Sprintf("? %d rho %d", n, b)).El {
				k, _ := x.AsInt()
				counts[k-origin]++
				if i > 0 {
					pairs[[2]int{last, k}]++
				}
				last = k
			}
			spread(c, fmt.Sprintf("? %d", b), counts, n)
			if b <= 8 && len(pairs) != b*b {
				c.Fail("? %d: only %d of %d successive pairs occur", b, len(pairs), b*b)
			}
			c.Class("small")
		case 1, 2: // large bound or float, in eight equal parts
			b := c18Bound(c)
			b.Add(b, big.NewInt(1<<30))
			op, o := "?", origin
			if kind == 2 {
				op, o = "rand", 0
			} else if b.Cmp(smallLimit) >= 0 {
				o = 0
			}
			c.Key(fmt.Sprint(op, b, origin, seed))
			counts := make([]int, 8)
			distinct := map[string]bool{}
			for _, x := range s.Must(fmt.Sprintf("%s %d rho %s", op, n, b)).El {
				f := x.Float()
				f.Sub(f, big.NewFloat(float64(o)))
				f.Quo(f, new(big.Float).SetInt(b))
				f.Mul(f, big.NewFloat(8))
				k, _ := f.Int64()
				if k < 0 || k > 7 {
					k = 7
				}
				counts[k]++
				distinct[x.String()] = true
			}
			spread(c, fmt.Sprintf("%s %s in eight parts", op, b), counts, n)
			if len(distinct) < n*99/100 {
				c.Fail("%s %s: only %d distinct values in %d draws", op, b, len(distinct), n)
			}
			c.Class("large")
		case 3: // deals of all
			b := c.Range(2, 4)
			f := []int{0, 1, 2, 6, 24}[b]
			c.Key(fmt.Sprint("deal all", b, origin, seed))
			seen := map[string]int{}
			for i := 0; i < 1000; i++ {
				seen[s.Must(fmt.Sprintf("%d ? %d", b, b)).String()]++
			}
			var counts []int
			for _, k := range seen {
				counts = append(counts, k)
			}
			if len(counts) != f {
				c.Fail("%d ? %d: %d of %d orders occur", b, b, len(counts), f)
			}
			spread(c, fmt.Sprintf("%d ? %d", b, b), counts, 1000)
			c.Class("deals")
		case 4: // deals of some: every integer, in every place
			b := c.Range(3, 12)
			a := c.Range(1, min(b, 4))
			c.Key(fmt.Sprint("deal", a, b, origin, seed))
			counts := make([][]int, a)
			for i := range counts {
				counts[i] = make([]int, b)
			}
			for i := 0; i < 1000; i++ {
				for p, x := range s.Must(fmt.Sprintf("%d ? %d", a, b)).El {
					k, _ := x.AsInt()
					counts[p][k-origin]++
				}
			}
			for p := range counts {
				spread(c, fmt.Sprintf("%d ? %d, place %d", a, b, p), counts[p], 1000)
			}
			c.Class("deals of some")
		}
	})
}

func TestC18_Repeat(t *testing.T) {
	Check(t, "C18", 300, "a seed of up to 64 bits and up to 8 lines using roll, rand and deal in every position (operators, each, reductions, arrays of up to 5000 elements, user operators, ivy): a fresh session, and the same session seeded again, must print the same text; another seed must not; a session's reported seed repeats it; non-trivial: every case, distinct by the lines", func(c *C) {
		seed := new(big.Int)
		for i := c.Range(1, 62); i > 0; i-- {
			seed.Lsh(seed, 1)
			if c.Bool() {
				seed.Add(seed, big.NewInt(1))
			}
		}
		var lines []string
		setup := "op roll n = ? n\nop a pick b = a , ? b\nop rec n = n <= 0 : 0; (? 10) , rec n - 1"
		n := c.Range(1, 8)
		for i := 0; i < n; i++ {
			lines = append(lines, Pick(c, "? 1000000000", "? 10 rho 1000000", "rand 1", "5 ? 100", "+/ ? 5000 rho 1000", "? 50 100 rho 1000", "rand 30 rho 1", "roll 1000000", "roll 20 rho 1000000", "roll@ 20 rho 1000000",
				"(iota 10) pick@ 100", "rec 20", "x = ? 6 6 6\nx", "ivy '? 1000000'", "? 1e30", "? 1e30 5 1e20 7", "+/ code char 65 + ? 3000 rho 26", "(? 10 rho 100) o.+ ? 10 rho 100", "pick/ ? 10 rho 1000", "pick\\ 4 rho 1000", "(3 ? 10)[1]", "up ? 100 rho 1000", "1 2 3 +.pick 4 5 6", "rand 1/3 5 1e30", "10 ? 10", "? (1000000 1000000) 1000000", "(1000 rho 2) o.roll2 1 2 3"))
		}
		setup += "\nop a roll2 b = ? 1000 * a * b"
		text := strings.Join(lines, "\n")
		c.Key(text)
		run := func(s *Sess, sd *big.Int) string {
			s.Do(")seed " + sd.String())
			o, e := s.Run(text)
			return o + e
		}
		s1, s2 := NewSess(c), NewSess(c)
		s1.Do(setup)
		s2.Do(setup)
		first := run(s1, seed)
		if again := run(s1, seed); again != first {
			c.Fail("seed %s: %q gives %q, and seeded again %q", seed, text, clipTo(first), clipTo(again))
		}
		if other := run(s2, seed); other != first {
			c.Fail("seed %s: %q gives %q, and in another session %q", seed, text, clipTo(first), clipTo(other))
		}
		// One bit of the seed matters.
		diff := new(big.Int).Xor(seed, new(big.Int).Lsh(big.NewInt(1), uint(c.Range(0, 61))))
		s1.Do(")seed " + seed.String())
		a := s1.Must("? 8 rho 1000000000")
		s1.Do(")seed " + diff.String())
		if b := s1.Must("? 8 rho 1000000000"); Same(a, b) {
			c.Fail("seeds %s and %s give the same rolls", seed, diff)
		}
		// The seed a fresh session reports repeats it.
		f1, f2 := NewSess(c), NewSess(c)
		rep, e := f1.Run(")seed")
		if e != "" {
			c.Fail(")seed: %s", e)
		}
		o1, _ := f1.Run("? 5 rho 1000000000")
		f2.Do(")seed " + strings.TrimSpace(rep))
		o2, _ := f2.Run("? 5 rho 1000000000")
		if o1 != o2 {
			c.Fail("a session reporting seed %s rolls %q; seeded with it %q", strings.TrimSpace(rep), o1, o2)
		}
	})
}

func clipTo(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func TestC18_KnownOrigin(t *testing.T) {
	Known(t, "C18", "big-roll-origin", "? B for B of 2**31 or more ignores )origin: it rolls 0 to B-1 under every origin (testdata/unary_bigint.ivy records such a value)", func(c *C) bool {
		s := NewSess(c)
		s.Do(")origin 0\n)seed 1")
		a := s.Must("? 1e30")
		s.Do(")origin 7\n)seed 1")
		return Same(a, s.Must("? 1e30"))
	})
}
