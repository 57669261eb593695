package props

import (
	"fmt"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// opsForWalk are user-defined operators that copy, change and return their arguments,
// globals and literals in many ways.
var c06Ops = []string{
	"op k1 x = x[1] = 99; x",
	"op x k2 y = x = y; x[1] = 'q'; y",
	"op k3 x = t = x; t[1] = t[2]; x , t",
	"op k4 (x y) = x = 7; y[1] = 8; x y",
	"op k5 x = t = 1 2 3; t[2] = x; t",
	"op x k6 y = (x = y) (y = x)",
	"op k7 x =\n t = x\n u = t\n u[1] = 'u'\n t[1] = 't'\n x u t\n",
	"op k8 x = x === 0 : 1\n",
}

func TestC06_Walk(t *testing.T) {
	Check(t, "C06", 700, "a session of up to 25 lines over 5 variables (any operator, reduction, product, each, index, copy, indexed assignment, user-defined operators that change their arguments): after every line, failing or not, every variable the line does not assign, and the constants e and pi, must hold exactly what they held; non-trivial: at least 5 lines ran over non-scalar variables", func(c *C) {
		w := NewWalk(c, 5, c.Prob(4))
		w.S.Do(strings.Join(c06Ops, "\n\n"))
		for _, l := range w.Init() {
			w.S.Do(l)
		}
		w.Refresh()
		n := 0
		steps := c.Range(3, 25)
		for i := 0; i < steps; i++ {
			line, assigns, kind := w.Line()
			if c.Prob(3) {
				a, b := Pick(c, w.Names...), Pick(c, w.Names...)
				if w.Vals[a].Size() > 300 || w.Vals[b].Size() > 300 {
					continue
				}
				switch c.Idx(5) {
				case 0, 1:
					line = fmt.Sprintf("%s = %s %s", a, Pick(c, "k1", "k3", "k4", "k5", "k7"), b)
				case 2:
					line = fmt.Sprintf("%s = %s %s %s", a, b, Pick(c, "k2", "k6"), Pick(c, w.Names...))
				case 3:
					line = fmt.Sprintf("%s = %s %s", a, b, Pick(c, w.Names...))
				case 4:
					line = fmt.Sprintf("%s = %s@ %s", a, Pick(c, "k1", "k3", "k5", "k7"), b)
				}
				assigns, kind = []string{a}, "user op or strand"
			}
			if line == "" {
				continue
			}
			n++
			if n == 5 {
				c.Key(strings.Join(w.S.Log(), "\n"))
			}
			_, e := w.S.Run(line)
			c.Class(kind)
			if e != "" {
				c.Class("error line")
				// A plain assignment that failed assigns nothing.
				if !strings.Contains(kind, "index assign") {
					assigns = nil
				}
			}
			for _, nm := range w.Names {
				v := w.S.Get(nm)
				isAssigned := false
				for _, a := range assigns {
					isAssigned = isAssigned || a == nm
				}
				if !isAssigned {
					if d := Diff(v, w.Vals[nm]); d != "" {
						c.Fail("line %q changed %s, which it does not assign: %s\nbefore: %s\nafter:  %s", line, nm, d, w.Vals[nm], v)
					}
				}
				if v.Size() > 3000 || v.Bits() > 20000 {
					w.S.Do(nm + " = 1 2 3")
					v = w.S.Get(nm)
				}
				w.Vals[nm] = v
			}
		}
		// Literals and constants still mean what they say.
		w.S.Want("k5 8", Ints(1, 8, 3))
		w.S.Want("k5 9", Ints(1, 9, 3))
		out, e := w.S.Run("e\npi")
		if want := "2.71828182846\n3.14159265359\n"; out != want || e != "" {
			c.Fail("the constants now print %q, error %q", out, e)
		}
	})
}

// Aliasing: the same value reached through many names and places; then one of them is
// changed by indexed assignment.
func TestC06_Alias(t *testing.T) {
	Check(t, "C06", 3000, "one array stored in many places (other variables, elements of vectors and matrices, boxes, a global read by an operator, an operator's local), in random order, then changed through one of them by a chain of indexed assignments; all the others must be unchanged; non-trivial: an assignment changed its target", func(c *C) {
		s := NewSess(c)
		var a *V
		if c.Bool() {
			a = GenVec(c, Pick(c, EInt, EMixed, ENested), c.Range(1, 200), 1)
			if c.Bool() {
				a = GenVec(c, Pick(c, EInt, EMixed, ENested), c.Range(1, 12), 1)
			}
		} else {
			a = GenMat(c, Pick(c, EInt, EMixed, ENested), 3, 1, true)
			if len(a.El) == 0 {
				return
			}
		}
		s.Do("v1 = " + a.Src())
		s.Do("op rd x = v1\nop mk x = g = x; g[1] = 5; g\nop lc x = y = x; y\n")
		names := []string{"v1"}
		k := c.Range(1, 6)
		for i := 0; i < k; i++ {
			n := fmt.Sprintf("w%d", i)
			o := Pick(c, names...)
			s.Run(n + " = " + Pick(c, o, o, o+" "+o, o+" , "+o, "box "+o, "rd 1", "lc "+o, ", "+o, "rot rot "+o, "0 rot "+o, "0 drop "+o, "flip "+o, "split "+o, "transp "+o,
				"mix 1 rho box "+o, "(rho "+o+") rho "+o, "1 1 rho box "+o, "first "+o+" "+o, "(count "+o+") take "+o, o+"[]", "(2 rho box "+o+")[1]", "1 drop 0 "+o, "+ "+o, o+" + 0", "sel@ "+o, "unique "+o, o+"[1]"))
			if s.Raw(n) != nil {
				names = append(names, n)
			}
		}
		vals := map[string]*V{}
		for _, n := range names {
			vals[n] = s.Get(n)
		}
		changed := 0
		for i := c.Range(1, 5); i > 0; i-- {
			n := Pick(c, names...)
			d := vals[n].Dims()
			idx := []string{}
			for j := range d {
				if d[j] == 0 {
					idx = nil
					break
				}
				switch c.Idx(4) {
				case 0:
					idx = append(idx, "")
				case 1:
					idx = append(idx, fmt.Sprintf("%d %d", c.Range(1, d[j]), c.Range(1, d[j])))
				default:
					idx = append(idx, fmt.Sprint(c.Range(1, d[j])))
				}
			}
			if len(idx) == 0 {
				continue
			}
			_, e := s.Run(n + "[" + strings.Join(idx, ";") + "] = " + Pick(c, "1000", "'Z'", "v1", Pick(c, names...), "1j1", "1/3"))
			for _, m := range names {
				v := s.Get(m)
				if m != n || e != "" {
					if df := Diff(v, vals[m]); df != "" {
						c.Fail("assigning to elements of %s (error %q) changed %s: %s", n, e, m, df)
					}
				} else if !Same(v, vals[m]) {
					changed++
				}
				if v.Size() > 3000 {
					return
				}
				vals[m] = v
			}
		}
		if changed > 0 {
			c.Key(strings.Join(s.Log(), "\n"))
		}
	})
}
