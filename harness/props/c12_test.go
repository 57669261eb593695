package props

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"

	"robpike.io/ivy/value"
	. "verif.local/harness/h"
)

func init() {
	if os.Getenv("VERIF_MAXPAR") != "" {
		value.MaxParallelismForTesting()
	}
}

var c12Ops = []string{
	"op cnt x = g = g + 1; g + x",
	"op x cnt2 y = g = g + x; g - y",
	"op x er y = x == 3 : 1 / 0; x == 5 : 'a' + 1; x + y",
	"op eu x = x > 3 : x / 0; x",
	"op x sub y = t = x; u = y; t - u",
	"op lst x = h = h , x; x",
	"op x rn y = x + y + ?10",
	"op fib n = n <= 1 : n; (fib n-1) + fib n-2",
	"op x nest y = +/ (x y) o.+ (y x) , 1",
}

// c12Line draws lines with enough elements to be split up.
func c12Line(c *C, w *Walk, traced bool) string {
	n := Pick(c, 3, 5, 12, 150, 201, 250, 400)
	m := Pick(c, 2, 3, 7, 20)
	src := Pick(c, fmt.Sprintf("(iota %d)", n), fmt.Sprintf("(%d rho 3 1 4 1 5 9 2 6)", n), fmt.Sprintf("(%d rho 1/3 2 5j1 'a')", n), fmt.Sprintf("(%d %d rho iota 50)", m, n), fmt.Sprintf("(%d rho 2 3 (4 5) 6)", n), fmt.Sprintf("(%d 3 2 rho 1 5 8 2)", m),
		fmt.Sprintf("(%d rho 'hello' 3 (2 2 rho 4))", n), fmt.Sprintf("(%d rho 10 0 20)", n))
	src2 := Pick(c, "(iota 5)", "(4 rho 3 2)", "(7 rho 1 2 0)", "(2 20 rho iota 9)", "(12 rho 3 5)", "(3 5 1)")
	bop := Pick(c, "+", "-", "*", "/", "max", "==", "<", ",", "cnt2", "er", "sub", "rn", "nest", "mod", "?", "encode", "in", "===", "idiv", "and")
	uop := Pick(c, "cnt", "eu", "lst", "-", "sqrt", "not", "?", "rand", "count", "rho", "code", "text", "up", "unique", "/", "!", "floor", "box", "print", "first", "**")
	sm := Pick(c, "1", "2", "'a'", "3")
	rop := Pick(c, "+", "-", "*", "max", "==", "<", "cnt2", "er", "sub", "rn", "mod", "idiv", "and", "or", "===")
	if traced { // a user-defined operator's scan traces n*n calls
		rop = Pick(c, "+", "-", "*", "max", "==", "<", "mod", "idiv", "and", "or")
	}
	if uop == "iota" && strings.Count(src, " ") > 1 {
		uop = "-"
	}
	switch c.Idx(20) {
	case 16:
		// Random numbers are drawn in order.
		return fmt.Sprintf("(%d rho 1 2 3) %s (%d rho 5 40 3)", m, Pick(c, "o.?", "@?@", "o.?", "o.rn"), n)
	case 17:
		return fmt.Sprintf("(%d 3 rho 1 2 3) %s.%s (3 %d rho 5 40 3 9)", Pick(c, 3, 20, 90), Pick(c, "+", "-", "max", "cnt2", "sub", "rn", "min"), Pick(c, "?", "*", "-", "cnt2", "er", "rn", "max", "sub"), Pick(c, 2, 15, 80))
	case 18, 19:
		// Operators that may be redefined.
		scan := "\\ "
		if traced {
			scan = "/ "
		}
		rsrc := Pick(c, fmt.Sprintf("(%d %d rho iota 50)", m, n), fmt.Sprintf("(%d %d rho iota 7)", n, m))
		return Pick(c, "floor "+src, "abs "+rsrc, src+" max 3", rsrc+" min "+rsrc, Pick(c, "max", "min")+Pick(c, "/ ", scan, "/% ")+rsrc, src2+" o.max "+src, src+" @min@ 2 3", "floor@ "+rsrc)
	case 0:
		return uop + " " + src
	case 1:
		return src + " " + bop + " " + sm
	case 2:
		return sm + " " + bop + " " + src
	case 3:
		return rop + "/ " + src
	case 4:
		return rop + "\\ " + src
	case 5:
		return rop + "/% " + src
	case 6:
		return src2 + " o." + bop + " " + src
	case 7:
		return src2 + " " + Pick(c, "+", "max", "and", "cnt2", "sub") + "." + bop + " " + Pick(c, src2, src)
	case 8:
		return uop + "@ " + src
	case 9:
		return src + " " + bop + "@ " + sm
	case 10:
		return src + " @" + bop + " " + src2
	case 11:
		return "(split " + src + ") " + bop + "@ " + sm
	case 12:
		return src + " " + bop + " " + src
	case 13:
		return "(rho " + src + ") rho " + src + Pick(c, " in ", " iota ", " union ", " === ", " intersect ") + src2
	case 14:
		return Pick(c, "3 rot ", "3 flip ", "transp ", "rot ", "flip ", "2 1 transp ", "5 drop ", "mix box ", "+/+\\ ", "decode ") + src
	default:
		return "x = " + src + "\nx[" + Pick(c, "1 2 3", "iota 3", "2 2", ";1", "1;", "") + "] = " + sm + "\nx"
	}
}

func TestC12_Equal(t *testing.T) {
	Check(t, "C12", 250, "a program of up to 15 lines (array operators, reductions, scans, products, each, indexed assignment, random numbers, user-defined operators with side effects and errors, on arrays of up to 400 elements), run with GOMAXPROCS 1 and again with 2 to 8, some with tracing on: printed text (the trace with it), errors and variables must be equal; non-trivial: at least 4 lines ran", func(c *C) {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		w := NewWalk(c, 3, true)
		lines := append([]string{}, ")seed "+fmt.Sprint(c.Idx(50)), "g = 0", "h = 0 0", strings.Join(c12Ops, "\n"))
		for _, l := range []string{"op x max y = g = g + 1; x - y", "op x min y = x rn y", "op floor x = cnt x", "op abs x = x > 4 : x / 0; lst x"} {
			if c.Prob(3) {
				lines = append(lines, l)
				c.Class("redefined")
			}
		}
		lines = append(lines, w.Init()...)
		type res struct{ out, err string }
		var rs []res
		for _, l := range lines {
			o, e := w.S.Run(l)
			rs = append(rs, res{o, e})
			if e != "" {
				c.Fail("set-up line failed: %s", e)
			}
		}
		k := c.Range(4, 12)
		traced := c.Prob(3)
		if traced { // the trace is printed text too
			c.Class("traced")
			l := Pick(c, ")debug trace 2", ")debug trace 1")
			w.S.Run(l)
			lines, rs = append(lines, l), append(rs, res{})
			k = 4
		}
		for i := 0; i < k; i++ {
			w.Refresh()
			var line string
			if c.Prob(9) {
				line = c12Line(c, w, traced)
			} else {
				line, _, _ = w.Line()
			}
			if line == "" {
				continue
			}
			o, e := w.S.Run(line)
			lines = append(lines, line)
			rs = append(rs, res{o, e})
			if e != "" && !traced {
				c.Class("error line")
			} else {
				c.Class("value line")
			}
			if v := w.S.Get("g"); v.Size() > 20 || v.Bits() > 2000 {
				w.S.Run("g = 0")
				lines = append(lines, "g = 0")
				rs = append(rs, res{})
			}
			for _, nm := range append(w.Names, "h") {
				if v := w.S.Get(nm); v.Size() > 2000 || v.Bits() > 20000 {
					w.S.Run(nm + " = 1 2 3")
					lines = append(lines, nm+" = 1 2 3")
					rs = append(rs, res{})
				}
			}
		}
		if len(lines) > 10 {
			c.Key(strings.Join(lines, "\n"))
		}
		p := Pick(c, 2, 3, 4, 8)
		runtime.GOMAXPROCS(p)
		s2 := NewSess(c)
		for i, l := range lines {
			o, e := s2.Run(l)
			if o != rs[i].out {
				c.Fail("line %d (%s) prints with GOMAXPROCS=1\n%s\nand with %d\n%s", i+1, l, rs[i].out, p, o)
			}
			if e != rs[i].err {
				c.Fail("line %d (%s): error with GOMAXPROCS=1 %q, with %d %q", i+1, l, rs[i].err, p, e)
			}
		}
		for _, n := range append(w.Names, "g", "h") {
			a, b := w.S.Get(n), s2.Get(n)
			if d := Diff(b, a); d != "" {
				c.Fail("variable %s differs between GOMAXPROCS=1 and %d: %s", n, p, d)
			}
		}
	})
}
