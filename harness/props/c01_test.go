package props

import (
	"testing"

	. "verif.local/harness/h"
)

func TestC01_Walk(t *testing.T) {
	Check(t, "C01", 400, "a session of up to 25 lines over 4 variables: every operator on every type and shape (empty axes, nested, mixed, boundary integers), reductions, products, each, indexing, indexed assignment, settings; every line must end in values or an error line and the session must still compute 1+1; non-trivial: at least 5 lines ran", func(c *C) {
		w := NewWalk(c, 4, false)
		w.Settings = true
		n := 0
		for _, l := range w.Init() {
			w.S.Do(l)
			c.Key(l)
		}
		steps := c.Range(3, 25)
		for i := 0; i < steps; i++ {
			w.Refresh()
			line, _, kind := w.Line()
			if line == "" {
				continue
			}
			n++
			_, e := w.S.Run(line)
			c.Class(kind)
			if e != "" {
				c.Class("error line")
			} else {
				c.Class("value line")
			}
			c.Key(line)
			for _, nm := range w.Names {
				if v := w.S.Get(nm); v.Size() > 3000 || v.Bits() > 20000 {
					w.S.Do(nm + " = 1 2 3")
				}
			}
		}
		w.S.Do(`)format ""`)
		w.S.Do(`)obase 10`)
		out, e := w.S.Run("1+1")
		if out != "2\n" || e != "" {
			c.Fail("after the session, 1+1 gives %q, error %q", out, e)
		}
	})
}
