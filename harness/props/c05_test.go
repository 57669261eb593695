package props

import (
	"strings"
	"testing"

	. "verif.local/harness/h"
)

var c05Vars = []string{"x", "y", "zed", "q2", "_u", "v_"}

// Grouping: however an expression is spaced and parenthesized, it means its
// right to left grouping.
func TestC05_Grouping(t *testing.T) {
	Check(t, "C05", 1500, "a case is non-trivial if an expression has at least two operators and is not skipped by the model; distinct by text", func(c *C) {
		s := NewSess(c)
		full := NewSess(c)
		env := &Env{Vars: map[string]*V{}, Origin: 1}
		for _, n := range c05Vars {
			v := GenSmall(c)
			if c.Prob(8) || n == "x" && c.Prob(12) {
				v = GenVec(c, EInt, c.Range(2, 4), 0)
			} else if c.Prob(3) {
				v = GenMat(c, EInt, 2, 0, false)
			}
			env.Vars[n] = v
			s.Do(n + " = " + v.Src())
			full.Do(n + " = " + v.Src())
		}
		base := 0
		if c.Prob(5) {
			base = c.Range(2, 16)
			s.Do(Sprint(")ibase ", base))
			full.Do(Sprint(")ibase ", base))
			c.Class("base")
		}
		// Several statements, on one line or more.
		k := c.Range(1, 3)
		var text, ftext strings.Builder
		var want *V
		errAt := -1
		ops := 0
		for i := 0; i < k; i++ {
			e := GenSyn(c, c05Vars, base, c.Range(1, 4))
			saved := map[string]*V{}
			for n, v := range env.Vars {
				saved[n] = v
			}
			v, msg, skip := env.Try(e)
			if skip {
				env.Vars = saved
				c.Class("skip")
				break
			}
			ops += e.Depth()
			want = v
			if i > 0 {
				sep := Pick(c, ";", " ; ", "\n", " # c; 'x\n", "\n\n", "\t\n")
				text.WriteString(sep)
				ftext.WriteString("\n")
			} else {
				text.WriteString(Pick(c, "", "", " ", "\t"))
			}
			text.WriteString("r" + Pick(c, "=", " = ", " =") + e.Text(c, base))
			ftext.WriteString("r = " + e.Op())
			if msg != "" {
				errAt = i
				c.Class("error")
				break
			}
			c.Class("value")
		}
		if text.Len() == 0 {
			return
		}
		text.WriteString(Pick(c, "", "\n", " # comment", "\t"))
		s.Run("r = 1")
		full.Run("r = 1")
		_, e1 := s.Run(text.String())
		_, e2 := full.Run(ftext.String())
		if (e1 != "") != (errAt >= 0) {
			c.Fail("%q\n error %q; the model has error: %v\n grouping %q", text.String(), e1, errAt >= 0, ftext.String())
		}
		if (e1 != "") != (e2 != "") {
			c.Fail("%q error %q, but grouped %q error %q", text.String(), e1, ftext.String(), e2)
		}
		if errAt < 0 && want != nil {
			if d := Diff(s.Get("r"), NormV(want)); d != "" {
				c.Fail("%q\n got  %v\n want %v\n grouping %q (%s)", text.String(), s.Get("r"), want, ftext.String(), d)
			}
		}
		for _, n := range c05Vars {
			if d := Diff(s.Get(n), NormV(env.Vars[n])); d != "" {
				c.Fail("%q\n variable %s: got %v, want %v", text.String(), n, s.Get(n), env.Vars[n])
			}
			if d := Diff(full.Get(n), s.Get(n)); d != "" {
				c.Fail("%q and grouped %q\n variable %s: got %v and %v", text.String(), ftext.String(), n, s.Get(n), full.Get(n))
			}
		}
		if ops >= 2 {
			c.Key(text.String())
		}
	})
}

// c05Bad draws text that is not a well-formed token, or makes any expression
// it is added to ill-formed; atEnd says that it does so only at the end.
func c05Bad(c *C) (kind, bad string, atEnd bool) {
	letters := "ghiklmnqrstuvwyzéλ"
	letter := func() string {
		r := []rune(letters)
		return string(r[c.Idx(len(r))])
	}
	lit, _ := GenLit(c, 0)
	d := c.Range(1, 99)
	switch c.Idx(14) {
	case 0:
		return "letter", lit + letter(), false
	case 1:
		return "o", lit + "o" + letter(), false
	case 2:
		return "dots", Sprint(lit, ".", Pick(c, "", "5"), ".", Pick(c, "", "5")), false
	case 3:
		lit, _, _ := strings.Cut(lit, "j")
		return "j", lit + "j" + Pick(c, "", "", "q"), false
	case 4:
		return "exponent", Sprint(d, Pick(c, "e", "E", "p", "P"), Pick(c, "", "+", "-", "5e5", "5x", "5.5", "+q")), false
	case 5:
		return "prefix", Pick(c, "0x", "0b", "0o", "0X", "0b2", "0o8", "08", "019", "0xg", "0x1g", "-0b3", "0b", "1/0b2", "0o9/2"), false
	case 6:
		return "underscore", Pick(c, "1_", "1__0", "0_", "-2_", "1_/2", "1/2_", "1_.5"), false
	case 7:
		return "zero denominator", Sprint(d, "/0", Pick(c, "", ".0", "j1", "e5")), false
	case 8, 9:
		return "bracket", Pick(c, "(", ")", "[", "]"), false
	case 10:
		return "character", Pick(c, "$", "{", "}", "~", "§", "\u00a0", "→", "x$", "\a"), false
	case 11:
		return "operand", Pick(c, "+", "-", "*", "iota", "rho", ",", "+/", "max\\", "+.*", "o.-", "==", "mod", "x ="), true
	case 12:
		return "assign", Pick(c, "; 3 = 4", "; (x + 1) = 3", "; x + 1 = 3", "; 'a' = 3", "; x 3 = 4 5", "; iota = 3", "; 1 + (2) = 5", "; x[1][1] = 2", "; x[1] + 1 = 2"), true
	}
	return "product", Pick(c, "3 +.x 4", "3 o.y 4", "3 o.q9 4", "3 +.é 4", "@ 3", "@@", "3 zed.+ 4"), false
}

// Malformed: text that is not a well-formed expression is an error, and
// nothing of the line is evaluated.
func TestC05_Malformed(t *testing.T) {
	Check(t, "C05", 800, "a case is non-trivial if the ill-formed piece stands in an expression with at least one operator; distinct by text", func(c *C) {
		s := NewSess(c)
		for i, n := range c05Vars {
			s.Do(Sprint(n, " = ", i+1))
		}
		s.Do("r = 77")
		e := GenSyn(c, c05Vars, 0, c.Range(0, 3))
		kind, bad, atEnd := c05Bad(c)
		text := "r = " + e.Broken(c, 0, bad, atEnd)
		if c.Bool() {
			text = "r = 5; x = 6; " + text
		}
		out, err := s.Run(text)
		if err == "" {
			c.Fail("%q (%s): no error, output %q, r is %v", text, kind, out, s.Get("r"))
		}
		if d := Diff(s.Get("r"), Int(77)); d != "" {
			c.Fail("%q (%s): r was assigned %v", text, kind, s.Get("r"))
		}
		for i, n := range c05Vars {
			if d := Diff(s.Get(n), Int(i+1)); d != "" {
				c.Fail("%q (%s): %s was assigned %v", text, kind, n, s.Get(n))
			}
		}
		c.Class(kind)
		if e.Depth() >= 1 {
			c.Key(text)
		}
	})
}
