package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// c11Value draws a value without floats (their text is decimal digits that
// read back as an exact number; see known_findings.jsonl).
func c11Value(c *C) *V {
	var strip func(v *V) *V
	strip = func(v *V) *V {
		if v.Scalar() {
			if v.F || v.K == Flt {
				return Int(7)
			}
			return v
		}
		w := *v
		w.El = make([]*V, len(v.El))
		for i, e := range v.El {
			w.El[i] = strip(e)
		}
		return &w
	}
	switch c.Idx(8) {
	case 0:
		n := c.Idx(5)
		v := VecOf()
		for i := 0; i < n; i++ {
			v.El = append(v.El, Ch(GenRune(c)))
		}
		return v
	case 1:
		return strip(GenElem(c, ECplx, 0))
	case 2:
		return strip(GenVec(c, ENested, c.Range(0, 4), 3))
	case 3:
		return strip(GenMat(c, ENested, 3, 2, false))
	}
	return strip(GenValue(c, false))
}

type c11op struct {
	name string
	bin  bool
	text string
}

// c11Body draws the body of an operator over its arguments.
func c11Body(c *C, vars []string, base int) []string {
	body := []string{}
	for i, n := 0, c.Range(0, 2); i < n; i++ {
		st := GenSynCheap(c, vars, base, c.Range(1, 3)).Text(c, base)
		if c.Prob(6) {
			st = GenSynCheap(c, vars, base, 2).Text(c, base) + Pick(c, " : ", ":") + st
		}
		body = append(body, st)
	}
	return append(body, GenSynCheap(c, vars, base, c.Range(1, 4)).Text(c, base))
}

func c11Rare(c *C, name string, bin bool) string {
	return Pick(c,
		"y = x; y[1] = 9; y",
		"x == 0 : 1; "+map[bool]string{true: "(x-1) " + name + " y", false: name + " x - 1"}[bin],
		"(u v) = x x; u v u",
		"x[;1]", "x[]", "(1 2 3)[x]", "'héllo\\n'[x]", "\"a'b\" 'c' `d\"\\`",
		"+/ x", "-\\ x", "+/% x", "x o.+ x", "x +.* x", "x +@ x", "x @+ x", "abs@ x", "x @,@ x",
		"_ = 3; x", "'' rho x", "text x", "(x, x)[1 2]", "x 'T' 1/2 1j2 -3", "-x -1", "- 1 2 3 + x", "(- 1) 2", "1/3 + x", "x / 3", "x/ 3", "1e3 * 1.25 * x",
		"0x1F + 0b11", "12345678901234567890123 + x", "-12345678901234567890123/7 1j-1/2", "x : 'a'", "(x = 3) + x", "iota x ; x", "print x", "x > 2 : x ; - x",
		"ivy '3 4'", "up x", "not not x", "3 3 rho 'abc'", "x \"\"", "'a' 'b'", "'ab' 'cd'", "'a' 'bc'", "(1 2) (3 4)", ",3", "((x))", "x;x;x", "-x", "+ x", "x - -3", "x, -3", "x[1]-3", "x[1] -3", "(x) -3", "(2 max x)[1]", "x max 3 min 4")
}

func c11File(c *C, s *Sess, dir string) string {
	f := filepath.Join(dir, "w.ivy")
	s.Do(")save " + QuoteIvy(f))
	b, err := os.ReadFile(f)
	if err != nil {
		c.Fail("save wrote nothing: %v", err)
	}
	return string(b)
}

func c11Settings(s *Sess) string {
	i, o := s.Conf.Base()
	return fmt.Sprintf("prec %d maxbits %d maxdigits %d origin %d prompt %q format %q base %d %d",
		s.Conf.FloatPrec(), s.Conf.MaxBits(), s.Conf.MaxDigits(), s.Conf.Origin(), s.Conf.Prompt(), s.Conf.Format(), i, o)
}

func dropConsts(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "e = ") && !strings.HasPrefix(l, "pi = ") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func c11Vars(s *Sess) []string {
	out, _ := s.Run(")vars")
	f := strings.Fields(out)
	var r []string
	for _, n := range f {
		if n != "e" && n != "pi" && n != "zz" {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

func TestC11_Save(t *testing.T) {
	Check(t, "C11", 700, "a case is non-trivial if the workspace held at least one operator and two variables; distinct by the saved text", func(c *C) {
		dir, err := os.MkdirTemp("", "c11")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		s := NewSess(c)
		nv := c.Range(0, 4)
		for i := 0; i < nv; i++ {
			v := c11Value(c)
			s.Do(fmt.Sprintf("%s = %s", Pick(c, "x", "v1", "vw", "zed", "Über"), v.Src()))
		}
		base := 0
		if c.Prob(4) {
			base = c.Range(2, 16)
		}
		var ops []c11op
		names := []string{"f", "g", "hh", "kop", "idiv", "log", "union"} // the last three hide built-ins that no body uses
		declared := map[string]bool{}
		for i, n := 0, c.Range(0, 5); i < n; i++ {
			o := c11op{name: Pick(c, names...), bin: c.Bool()}
			vars := []string{"x", "loc"}
			head := "op " + o.name + " x"
			if o.bin {
				head = "op y " + o.name + " x"
				vars = append(vars, "y")
			}
			key := fmt.Sprint(o.name, o.bin)
			if !declared[key] && c.Prob(2) {
				s.Do(head)
				declared[key] = true
				ops = append(ops, o)
				continue
			}
			var body []string
			if c.Prob(5) {
				b := c11Rare(c, o.name, o.bin)
				if base != 0 {
					s.Do(")ibase 0")
				}
				body = strings.Split(b, "; ")
			} else {
				if base != 0 {
					s.Do(Sprint(")ibase ", base))
				}
				body = c11Body(c, vars, base)
			}
			// Use an operator defined or declared before.
			if len(ops) > 0 && c.Prob(9) && !declared[key] { // no cycles
				p := ops[c.Idx(len(ops))]
				use := p.name + " x"
				if p.bin {
					use = Pick(c, "x "+p.name+" x", p.name+"/ x", "x o."+p.name+" x", "x +."+p.name+" x", p.name+"\\ x", "x "+p.name+"@ x", "x @"+p.name+" x", "x "+p.name+".+ x", p.name+"/% x")
				} else if c.Prob(5) {
					use = p.name + "@ x"
				}
				body = append(body, use)
			}
			text := head + " = " + strings.Join(body, "; ")
			if c.Prob(8) || strings.Contains(text, "`") {
				text = head + " =\n  " + strings.Join(body, "\n  ") + "\n"
			}
			if _, e := s.Run(text + "\n"); e != "" {
				c.Class("bad definition")
				if base != 0 {
					s.Do(")ibase 0")
				}
				continue
			}
			if base != 0 {
				s.Do(")ibase 0")
			}
			o.text = text
			ops = append(ops, o)
			declared[key] = true
		}
		if len(ops) > 1 && c.Prob(3) {
			// One that no other uses.
			i := c.Idx(len(ops))
			o := ops[i]
			used := false
			for j, p := range ops {
				used = used || i != j && strings.Contains(p.text, o.name)
			}
			if !used {
				if o.bin {
					s.Run("opdelete y " + o.name + " x")
				} else {
					s.Run("opdelete " + o.name + " x")
				}
				ops = append(ops[:i:i], ops[i+1:]...)
				c.Class("opdelete")
			}
		}
		for i, n := 0, c.Range(0, 4); i < n; i++ {
			line := Pick(c, Sprint(")prec ", c.Range(32, 500)), Sprint(")maxbits ", Pick(c, 0, 64, 1000, 123456)), Sprint(")maxdigits ", Pick(c, 0, 1, 5, 77)),
				Sprint(")origin ", c.Range(0, 3)), ")prompt "+QuoteIvy(string(c11Runes(c))), ")format "+QuoteIvy(Pick(c, "%.3f", "%x", "%10d", "%.2g", "%e", "%12.3v", "", "<%d>", "%q%%")),
				Sprint(")ibase ", Pick(c, 0, 2, 8, 10, 16, 13)), Sprint(")obase ", Pick(c, 0, 2, 8, 10, 16, 13)), Sprint(")base ", Pick(c, 0, 2, 8, 10, 16)))
			s.Do(line)
		}
		before := map[string]*V{}
		vars := c11Vars(s)
		for _, n := range vars {
			before[n] = s.Get(n)
		}
		set := c11Settings(s)
		text := c11File(c, s, dir)
		if got := c11Settings(s); got != set {
			c.Fail("saving changed the settings: %s\n to %s", set, got)
		}
		for _, n := range vars {
			if !Same(s.Get(n), before[n]) {
				c.Fail("saving changed %s", n)
			}
		}
		fresh := NewSess(c)
		how := "get"
		if c.Bool() {
			how = "input"
			if _, e := fresh.Run(text); e != "" {
				c.Fail("reading the saved workspace: %s\n%s", e, text)
			}
		} else {
			_, e := fresh.Run(")get " + QuoteIvy(filepath.Join(dir, "w.ivy")))
			if e != "" {
				c.Fail(")get of the saved workspace: %s\n%s", e, text)
			}
		}
		c.Class(how)
		if c.Prob(3) {
			l := ")save " + QuoteIvy(filepath.Join(dir, Pick(c, "none/w.ivy", "w.ivy/x", "", ".")))
			if _, e := fresh.Run(l); e == "" {
				c.Fail("%s: no error, though the file cannot be written", l)
			}
			if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
				if _, e := fresh.Run(")save '/dev/full'"); e == "" {
					c.Fail(")save '/dev/full': no error, though the device is full")
				}
				c.Class("full")
			}
		}
		if got := c11Settings(fresh); got != set {
			c.Fail("settings after %s:\n got  %s\n want %s", how, got, set)
		}
		again := c11File(c, fresh, dir)
		if dropConsts(again) != dropConsts(text) {
			c.Fail("saving again gives another file (%s)\n first: %s\n again: %s", how, text, again)
		}
		if got := c11Vars(fresh); strings.Join(got, " ") != strings.Join(vars, " ") {
			c.Fail("variables after %s: got %v, want %v\n%s", how, got, vars, text)
		}
		for _, n := range vars {
			if d := Diff(fresh.Get(n), before[n]); d != "" {
				c.Fail("variable %s after %s: got %v, want %v (%s)\n%s", n, how, fresh.Get(n), before[n], d, text)
			}
		}
		// Behaviour of the operators.
		s.Do(")base 0\n)maxbits 20000\n)format ''")
		fresh.Do(")base 0\n)maxbits 20000\n)format ''")
		s.Do(")maxstack 50")
		fresh.Do(")maxstack 50")
		shown := NewSess(c)
		for i, n := 0, len(ops); i < n; i++ {
			o := ops[i]
			pre := ""
			if o.bin {
				pre = "_ "
			}
			shown.Run("op " + pre + o.name + " _")
		}
		for i, o := range ops {
			a, b := Pick(c, "3", "1 2 3", "0", "'ab'", "(2 2 rho iota 4)", "1/2"), Pick(c, "2", "1", "3 1", "1 2 3")
			expr := o.name + " " + b
			if o.bin {
				expr = a + " " + o.name + " " + b
			}
			if i > 3 {
				break
			}
			for _, n := range []string{"x", "loc", "u", "v", "y"} { // forget what a call assigned
				if before[n] == nil {
					s.Do(n + " = 5")
					fresh.Do(n + " = 5")
				} else {
					s.Do(n + " = " + before[n].Src())
					fresh.Do(n + " = " + before[n].Src())
				}
			}
			v1, e1 := s.Eval(expr)
			v2, e2 := fresh.Eval(expr)
			if (e1 == "") != (e2 == "") {
				c.Fail("%s: error %q, after %s error %q\n%s", expr, e1, how, e2, text)
			}
			if e1 == "" {
				c.Class("op value")
				if d := Diff(v2, v1); d != "" {
					c.Fail("%s: got %v, before saving %v\n%s", expr, v2, v1, text)
				}
			} else {
				c.Class("op error")
			}
			// The text shown recreates it.
			out, e := s.Run(")op " + o.name)
			if e != "" || strings.Count(out, "op ") > 0 && countDefs(out) != 1 {
				continue
			}
			if _, e := shown.Run(out + "\n\n"); e != "" {
				c.Fail(")op %s shows %q, which gives error %s", o.name, out, e)
			}
			out2, _ := shown.Run(")op " + o.name)
			// The placeholders of the other arity may be shown too.
			if !strings.Contains(out2, out) {
				c.Fail(")op %s shows %q; entered, it shows %q", o.name, out, out2)
			}
		}
		for _, n := range vars {
			out, e := s.Run(")var " + n)
			if e != "" {
				c.Fail(")var %s: %s", n, e)
			}
			if n == "x" || n == "y" {
				continue
			}
			one := NewSess(c)
			if _, e := one.Run(out); e != "" {
				c.Fail(")var %s shows %q, which gives error %s", n, out, e)
			}
			if d := Diff(one.Get(n), s.Get(n)); d != "" {
				c.Fail(")var %s shows %q, which gives %v, not %v", n, out, one.Get(n), s.Get(n))
			}
		}
		if len(ops) > 0 && len(vars) > 1 {
			c.Key(text)
		}
	})
}

func countDefs(out string) int {
	n := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "op ") {
			n++
		}
	}
	return n
}

func c11Runes(c *C) []rune {
	r := make([]rune, c.Idx(4))
	for i := range r {
		r[i] = Pick(c, '>', ' ', '"', '\\', 'é', '世', '\t', '\'', '%', 'x')
	}
	return r
}

func TestC11_KnownFloat(t *testing.T) {
	Known(t, "C11", "save-float", "a floating-point variable (x = sqrt 2) is saved as decimal digits that read back as an exact rational, so it is not equal and the second save differs", func(c *C) bool {
		s, u := NewSess(c), NewSess(c)
		s.Do("x = sqrt 2")
		text, _ := s.Run(")var x")
		u.Do(text)
		return Diff(u.Get("x"), s.Get("x")) != ""
	})
}

func TestC11_KnownRho(t *testing.T) {
	Known(t, "C11", "save-redefined-rho", "with rho redefined (op a rho b = 5), a saved matrix (m = 2 2 rho iota 4) reads back as what the user's rho gives", func(c *C) bool {
		s := NewSess(c)
		s.Do("m = 2 2 rho iota 4\nop a rho b = 5")
		text, _ := s.Run(`)save "<conf.out>"`)
		u := NewSess(c)
		u.Run(text)
		return u.Get("m") == nil || Diff(u.Get("m"), s.Get("m")) != ""
	})
}
