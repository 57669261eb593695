package props

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	. "verif.local/harness/h"

	"robpike.io/ivy/value/persist"
)

const undef = -1 // an element whose value is unspecified

type pubSlice struct {
	s    *persist.Slice[int]
	want []int
}

type editSlice struct {
	t    *persist.TransientSlice[int]
	want []int
}

// pLen draws a length near the places where the tree changes shape.
func pLen(c *C) int {
	switch c.Idx(10) {
	case 0, 1, 2:
		return c.Range(0, 40)
	case 3:
		return 16*c.Range(0, 20) + Pick(c, 0, 1, 15)
	case 4, 5:
		return Pick(c, 16, 32, 240, 255, 256, 257, 271, 272, 273, 288, 512)
	case 6:
		return c.Range(200, 600)
	case 7:
		return Pick(c, 4095, 4096, 4097, 4112, 4113, 4080, 4352)
	case 8:
		if c.Prob(2) {
			return Pick(c, 65535, 65536, 65537, 65552)
		}
		return c.Range(0, 20)
	}
	return c.Range(0, 20)
}

func TestC13_Slices(t *testing.T) {
	Check(t, "C13", 1500, "histories of up to 40 operations (new editor, edit a published slice, Set, concurrent Sets of distinct elements with reads of others, Append of 0 to 4,400 elements, Resize up and down, Persist, At, All, Slice, iteration stopped early, out-of-range access) over several editors and published slices whose lengths cluster at the tree's boundaries (16, 256, 4096, 65536), each compared with plain copied arrays, all published slices in full at the end; non-trivial: a slice was published and something derived from it was then changed", func(c *C) {
		var pubs []*pubSlice
		edits := []*editSlice{{t: new(persist.TransientSlice[int])}}
		next := 0
		val := func() int { next++; return next }
		var log strings.Builder
		changedAfter := false
		step := func(format string, args ...any) {
			s := fmt.Sprintf(format, args...)
			log.WriteString(s + "; ")
			c.Step(s)
		}
		at := func(what string, get func(i int) int, want []int, i int) {
			got := get(i)
			if want[i] != undef && got != want[i] {
				c.Fail("%s: element %d is %d, want %d", what, i, got, want[i])
			}
		}
		full := func(what string, n int, get func(i int) int, all func(func(int, int) bool), want []int) {
			if n != len(want) {
				c.Fail("%s: length %d, want %d", what, n, len(want))
			}
			k := 0
			for i, x := range all {
				if i != k || k >= len(want) || want[k] != undef && x != want[k] {
					w := "nothing"
					if k < len(want) {
						w = fmt.Sprint(want[k])
					}
					c.Fail("%s: All yields %d,%d at step %d, want %s", what, i, x, k, w)
				}
				k++
			}
			if k != len(want) {
				c.Fail("%s: All yields %d elements, want %d", what, k, len(want))
			}
			if n <= 700 {
				for i := range want {
					at(what, get, want, i)
				}
			} else {
				for j := 0; j < 40; j++ {
					at(what, get, want, (j*7919+n/2)%n)
				}
				for _, i := range []int{0, 15, 16, 255, 256, n - 1, n - 16, n - 17, n &^ 15} {
					if i >= 0 && i < n {
						at(what, get, want, i)
					}
				}
			}
		}
		mustPanic := func(what string, f func()) {
			defer func() {
				if e := recover(); e == nil {
					c.Fail("%s did not panic", what)
				} else if s := fmt.Sprint(e); !strings.Contains(s, "out of range") || strings.Contains(s, "runtime error") {
					panic(e)
				}
			}()
			f()
		}
		steps := c.Range(3, 40)
		for st := 0; st < steps; st++ {
			ei := c.Idx(len(edits))
			e := edits[ei]
			n := len(e.want)
			switch c.Idx(14) {
			case 0:
				if len(edits) < 5 {
					step("new editor %d", len(edits))
					edits = append(edits, &editSlice{t: new(persist.TransientSlice[int])})
				}
			case 1, 2:
				if len(pubs) > 0 && len(edits) < 8 {
					pi := c.Idx(len(pubs))
					step("editor %d = edit slice %d", len(edits), pi)
					edits = append(edits, &editSlice{t: pubs[pi].s.Transient(), want: append([]int{}, pubs[pi].want...)})
				}
			case 3, 4:
				step("slice %d = publish editor %d", len(pubs), ei)
				pubs = append(pubs, &pubSlice{e.t.Persist(), append([]int{}, e.want...)})
				p := pubs[len(pubs)-1]
				if p.s.Len() != n {
					c.Fail("published slice has length %d, want %d", p.s.Len(), n)
				}
			case 5, 6, 7:
				if n == 0 {
					continue
				}
				for k := c.Range(1, 4); k > 0; k-- {
					i := c.Idx(n)
					if c.Bool() {
						i = n - 1 - c.Idx(min(n, 20))
					}
					x := val()
					step("editor %d: Set(%d, %d)", ei, i, x)
					e.t.Set(i, x)
					e.want[i] = x
					changedAfter = changedAfter || len(pubs) > 0
				}
			case 8, 9:
				k := pLen(c)
				if n+k > 70000 {
					k = c.Idx(20)
				}
				src := make([]int, k)
				for i := range src {
					src[i] = val()
				}
				step("editor %d: Append(%d elements)", ei, k)
				e.t.Append(src...)
				e.want = append(append([]int{}, e.want...), src...)
				for i := range src {
					src[i] = -77 // The editor must not keep src.
				}
				changedAfter = changedAfter || len(pubs) > 0
			case 10:
				k := pLen(c)
				if c.Prob(4) {
					k = n
				} else if c.Prob(4) && n > 0 {
					k = c.Idx(n)
				}
				step("editor %d: Resize(%d)", ei, k)
				e.t.Resize(k)
				w := make([]int, k)
				copy(w, e.want)
				for i := n; i < k; i++ {
					w[i] = undef
				}
				e.want = w
				changedAfter = changedAfter || len(pubs) > 0
				if k > n && c.Bool() {
					step("editor %d: fill", ei)
					for i := n; i < k; i++ {
						x := val()
						e.t.Set(i, x)
						w[i] = x
					}
				}
			case 11:
				// Concurrent stores of distinct elements and loads of others.
				if n < 2 {
					continue
				}
				start := c.Idx(n)
				cnt := min(n-start, Pick(c, 8, 20, 64, 300))
				base := next
				next += cnt
				step("editor %d: concurrently Set(%d..%d)", ei, start, start+cnt-1)
				// Reads are concurrent with stores only once the editor owns its tail,
				// as it does in the evaluator's loops.
				reads := c.Bool()
				if reads {
					x := val()
					e.t.Set(n-1, x)
					e.want[n-1] = x
				}
				var wg sync.WaitGroup
				bad := make([]string, 4)
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := start + g; i < start+cnt; i += 4 {
							e.t.Set(i, base+1+i-start)
							if e.t.Len() != n {
								bad[g] = "Len changed during Set"
							}
							if !reads {
								continue
							}
							if got := e.t.At(i); got != base+1+i-start {
								bad[g] = fmt.Sprintf("At(%d) after a Set in the same goroutine gave %d, want %d", i, got, base+1+i-start)
							}
						}
					}()
				}
				wg.Wait()
				for _, b := range bad {
					if b != "" {
						c.Fail("%s", b)
					}
				}
				for i := 0; i < cnt; i++ {
					e.want[start+i] = base + 1 + i
				}
				changedAfter = changedAfter || len(pubs) > 0
			case 12:
				// Sub-ranges and stopped iterations.
				want, sl, what := e.want, e.t.Slice, fmt.Sprintf("editor %d", ei)
				if len(pubs) > 0 && c.Bool() {
					p := pubs[c.Idx(len(pubs))]
					want, sl, what = p.want, p.s.Slice, "published slice"
				}
				m := len(want)
				i := c.Idx(m + 1)
				j := i + c.Idx(m-i+1)
				stop := -1
				if c.Prob(5) && j > i {
					stop = i + c.Idx(j-i)
				}
				step("%s: Slice(%d, %d)", what, i, j)
				k := i
				for x, y := range sl(i, j) {
					if x != k || k >= j || want[k] != undef && y != want[k] {
						c.Fail("%s: Slice(%d,%d) yields %d,%d where element %d is due", what, i, j, x, y, k)
					}
					k++
					if x == stop {
						break
					}
				}
				if stop >= 0 && k != stop+1 || stop < 0 && k != j {
					c.Fail("%s: Slice(%d,%d) ended at %d (stop %d)", what, i, j, k, stop)
				}
			case 13:
				if c.Prob(4) {
					mustPanic("At beyond the end", func() { e.t.At(n) })
					mustPanic("At(-1)", func() { e.t.At(-1) })
					mustPanic("Set beyond the end", func() { e.t.Set(n, 1) })
					mustPanic("Slice beyond the end", func() { e.t.Slice(0, n+1) })
				}
				step("check editor %d", ei)
				full(fmt.Sprintf("editor %d", ei), e.t.Len(), e.t.At, e.t.All(), e.want)
			}
		}
		for i, p := range pubs {
			full(fmt.Sprintf("published slice %d", i), p.s.Len(), p.s.At, p.s.All(), p.want)
		}
		for i, e := range edits {
			full(fmt.Sprintf("editor %d", i), e.t.Len(), e.t.At, e.t.All(), e.want)
		}
		if changedAfter {
			c.Key(log.String())
		}
	})
}
