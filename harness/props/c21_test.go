package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"robpike.io/ivy/mobile"
	"robpike.io/ivy/parse"
	"robpike.io/ivy/run"
	"robpike.io/ivy/scan"
	. "verif.local/harness/h"
)

// c21Chunk is a piece of a program that stands on its own: a line, or a whole operator
// definition. out and err are what it wrote when entered alone.
type c21Chunk struct{ text, out, err string }

var c21Loc = regexp.MustCompile(`(?m)^\S* ?:\d+: `)

func c21NoLoc(s string) string { return c21Loc.ReplaceAllString(s, "") }

// c21Line draws the text of the next chunk.
func c21Line(c *C, w *Walk, ops *[]string, settings bool) string {
	switch c.Idx(14) {
	case 0, 1:
		defs := []string{
			"op dbl x = x + x",
			"op a plus b = a + b",
			"op fact n =\n n <= 1: 1\n n * fact n - 1",
			"op a pick b =\n\ta > b: a\n\ta == b: 'same'\n\tb",
			"op bump x = cnt = cnt + x; cnt",
			"op gcd2 (a b) =\n a == b: a\n a > b: gcd2 b, a - b\n gcd2 a, b - a",
			"op show x = print x\n",
			"op odd n\nop even n =\n n == 0: 1\n odd n - 1\n\nop odd n =\n n == 0: 0\n even n - 1\n",
			"op s x = 'a b\\tc', text x",
			"op dbl x =\n # redefined\n y = x * 3\n\n",
			"op bad x = x / 0",
			"op a plus b =\n t = a - b\n t < 0: -t\n t",
		}
		d := Pick(c, defs...)
		if strings.Contains(d, "\n") && !strings.HasSuffix(d, "\n") {
			d += "\n" // the blank line that ends a definition
		}
		*ops = append(*ops, d)
		return d
	case 2, 3:
		if len(*ops) > 0 {
			v := w.Names[c.Idx(len(w.Names))]
			return Pick(c, "dbl "+v, v+" plus "+v, "fact 20", "fact 5 6", "3 pick 4", "4 pick 4", "bump 3", "gcd2 12 18", "show 3 4", "odd 7", "s 12", "bad 3", "plus/ iota 5", "dbl@ 1 2 3", v+" = dbl 4", "1 2 3 plus@ 4 5 6", "show "+v, "even 4", "(iota 3) o.plus iota 3")
		}
		fallthrough
	case 4:
		if settings {
			return Pick(c, ")origin 0", ")origin 1", ")obase 16", ")obase 0", ")obase 2", ")obase 10", `)format "%.3f"`, `)format "%5d"`, `)format ""`, ")prec 100", ")prec 300", ")prec 256", ")maxdigits 5", ")maxdigits 10000", ")maxbits 500", ")maxbits 1000000", ")seed 33", ")timezone \"UTC\"", ")origin", ")base", ")format", ")prec", ")maxbits", ")maxdigits", ")op", ")var", ")origin -1", ")nosuch", ")obase 77", "? 10 10 10", "3 ? 10", "rand 1", ")ibase 16\nff + 10\n)ibase 0", ")maxstack 50", ")maxstack 100000", ")origin 1 # comment")
		}
		fallthrough
	case 5:
		v, v2 := w.Names[c.Idx(len(w.Names))], w.Names[c.Idx(len(w.Names))]
		return Pick(c, "", "   ", "# only a comment", v+" # trailing", v+"; "+v2, "1; 2; 3", v+" = 3; "+v+"; "+v, "1 2 ; 'a'", v+" = 1 2 3;", " "+v+"  ", "\t"+v, v+" ; ; "+v2, "'x' ; 'y'", ";", "_", "x = "+v+"; x", "(2 2 rho 4); 5", "5; 2 3 rho iota 6; 7", "print 3; print 4")
	case 6:
		return Pick(c, `'a\tb'`, `"q\"uo\\te"`, `'back\\slash'`, "`raw \\n`", `'<b>&amp;'`, `'  two  spaces  '`, `'日本 é'`, `'a\nb'`, `text 3 4 rho iota 12`, `print 'p q'`, `'x' , ' ' , 'y'`, `"don't # not comment"`, `3 4 rho 'ab c'`, `box 'in box' 3`, `ivy '3 + 4'`, `ivy "1\n2\n3"`, `'\'; 'b'`)
	case 7:
		return Pick(c, "1 / 0", "undefd", "1 +", "1 2 + 1 2 3", "(3", "3)", "'a' + 1", "v1[77]", "$", "bad 3", "'unterminated", "1x2", "log 0", "iota -1", "1 2 3[9]; 4", "4; 1 / 0; 5", "print 6; 1 / 0", "v2 = 99; v2[0 0 0] = 1", "op", "op 3 = 4", "nosuch 4", "ivy '1 +'", "(float 0) / float 0", "0 / 0", "10 decode", "= 3", "3 = 4", "x[1", "2 ** ** 1000", "\"abc", "1e", "-", "@ 3", "v1[", "+/", "o.+", "1 o. 2")
	default:
		l, _, _ := w.Line()
		return l
	}
}

// c21Prog draws a program, by running it chunk by chunk in a session.
func c21Prog(c *C, settings, errs bool) ([]c21Chunk, *Sess) {
	w := NewWalk(c, 3, false)
	w.NoFloat = true
	var chunks []c21Chunk
	var ops []string
	do := func(text string) bool {
		o, e := w.S.Run(text)
		if e != "" && !errs && len(chunks) > 0 {
			// Undo is not possible, so the program goes on with the error in it, but
			// one is enough.
			_ = e
		}
		chunks = append(chunks, c21Chunk{text, o, e})
		return e == ""
	}
	do(fmt.Sprintf(")seed %d", c.Range(1, 1000)))
	do("cnt = 100")
	for _, l := range w.Init() {
		do(l)
	}
	w.Refresh()
	n := c.Range(2, 14)
	for i := 0; i < n; i++ {
		if l := c21Line(c, w, &ops, settings); l != "" || c.Prob(2) {
			do(l)
			w.Refresh()
		}
	}
	for _, v := range w.Names {
		do(v)
	}
	do("cnt")
	return chunks, w.S
}

func c21Text(ch []c21Chunk) (text, out, err string) {
	var t, o, e []string
	for _, k := range ch {
		t = append(t, k.text)
		o = append(o, k.out)
		e = append(e, c21NoLoc(k.err))
	}
	return strings.Join(t, "\n") + "\n", strings.Join(o, ""), strings.Join(e, "")
}

// c21First is the program up to and including its first failing chunk.
func c21First(ch []c21Chunk) []c21Chunk {
	for i, k := range ch {
		if k.err != "" {
			return ch[:i+1]
		}
	}
	return ch
}

func unspace(s string) string { return strings.Join(strings.Fields(s), "") }

func noBlank(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimRight(x, " "); x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

// c21Ivy runs the command.
func c21Ivy(c *C, dir, stdin string, args ...string) (out, err string, code int) {
	cmd := exec.Command(os.Getenv("VERIF_IVY"), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	er := cmd.Run()
	if er != nil {
		if x, ok := er.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else {
			c.Fail("cannot run ivy: %v", er)
		}
	}
	return o.String(), e.String(), code
}

func c21Dir(c *C) (string, func()) {
	dir, err := os.MkdirTemp("", "c21")
	if err != nil {
		c.Fail("%v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func c21Same(c *C, way, what, got, want string) {
	if got != want {
		c.Fail("%s: %s differs from the line-by-line session: %s\n got %q\nwant %q", way, what, firstDiff(got, want), got, want)
	}
}

var mobileEsc = strings.NewReplacer(" ", "\u00A0", "\t", "    ", "\\", "&#92;")

func TestC21_Ways(t *testing.T) {
	if os.Getenv("VERIF_IVY") == "" {
		t.Skip("no ivy binary")
	}
	Check(t, "C21", 150, "a program (assignments, walks over every operator, operator definitions on one or several lines, calls, settings, comments, semicolons, blank lines, strings, failing lines) run line by line in a session and again in another way: whole text, file, several files, -e, -i, -f, standard input, -, )get, the ivy operator, mobile Eval, mobile Demo: the same output, errors up to where that way stops, exit status and final state; non-trivial: the program prints something, distinct by program and way", func(c *C) {
		ch, s := c21Prog(c, c.Bool(), true)
		first := c21First(ch)
		failed := first[len(first)-1].err != ""
		dir, done := c21Dir(c)
		defer done()
		way := Pick(c, "whole", "file", "files", "files", "-e", "-i", "-f", "stdin", "-", "get", "getpieces", "ivyop", "mobile", "demo")
		text, out, errs := c21Text(ch)
		ftext, fout, ferr := c21Text(first)
		if c.Prob(4) && !failed && !strings.HasSuffix(ftext, "\n\n") {
			// No newline at the end.
			ftext = strings.TrimSuffix(ftext, "\n")
		}
		if out != "" {
			c.Key(way + text)
		}
		c.Class(way)
		c.Step("WAY " + way + "\n" + text)
		write := func(name, t string) string {
			p := filepath.Join(dir, name)
			if err := os.WriteFile(p, []byte(t), 0o600); err != nil {
				c.Fail("%v", err)
			}
			return p
		}
		code := func(got int) {
			want := 0
			if failed {
				want = 1
			}
			if got != want {
				c.Fail("%s: exit status %d, want %d\n%s", way, got, want, ftext)
			}
		}
		switch way {
		case "whole":
			s2 := NewSess(c)
			o, e := s2.Run(text)
			c21Same(c, way, "output", o, out)
			c21Same(c, way, "errors", c21NoLoc(e), errs)
			c21Same(c, way, "state", c02State(s2), c02State(s))
		case "file":
			o, e, x := c21Ivy(c, dir, "", write("p.ivy", ftext))
			c21Same(c, way, "output", o, fout)
			c21Same(c, way, "error", c21NoLoc(e), ferr)
			code(x)
			if c.Prob(3) {
				if _, e, x := c21Ivy(c, dir, "", dir); e == "" || x != 1 {
					c.Fail("a directory as the program: error %q, exit status %d", e, x)
				}
			}
		case "files":
			// The program in pieces: -f, then -i, then -e or files. After a failure
			// nothing more runs.
			rest := first
			piece := func(all bool) string {
				k := len(rest)
				if !all {
					k = c.Range(0, min(len(rest), 1+len(first)/2))
				}
				t, _, _ := c21Text(rest[:k])
				rest = rest[k:]
				if k == 0 {
					t = ""
				}
				if len(rest) == 0 && failed {
					t += Pick(c, "", "'not run'\n")
				}
				return t
			}
			var args []string
			if c.Prob(5) {
				args = append(args, "-f", write("f.ivy", piece(false)))
			}
			if c.Prob(5) {
				if t := piece(false); t != "" {
					args = append(args, "-i", t)
				}
			}
			if c.Prob(4) {
				t := piece(true)
				if t == "" {
					t = "# nothing\n"
				}
				args = append(args, "-e", t)
				if c.Bool() { // not used
					args = append(args, write("z.ivy", "'not run'\n"))
				}
			} else {
				n := c.Range(1, 4)
				for i := 0; i < n; i++ {
					t := piece(i == n-1)
					args = append(args, write(Sprint("p", i, ".ivy"), t))
				}
				if failed && c.Bool() {
					args = append(args, write("z.ivy", "'not run'\n"))
				}
				if failed && c.Prob(4) {
					args = append(args, filepath.Join(dir, "nosuchfile"))
				}
			}
			c.Step(fmt.Sprintf("ivy %q", args))
			o, e, x := c21Ivy(c, dir, "'not read'\n", args...)
			c21Same(c, way, "output", o, fout)
			c21Same(c, way, "error", c21NoLoc(e), ferr)
			code(x)
		case "-e":
			o, e, x := c21Ivy(c, dir, "1/0\n'not read'\n", "-e", ftext)
			c21Same(c, way, "output", o, fout)
			c21Same(c, way, "error", c21NoLoc(e), ferr)
			code(x)
		case "-i", "-f":
			// The first part as the argument, the rest on standard input.
			k := c.Range(1, len(first))
			if k == len(first) && failed || failed && c.Prob(4) {
				arg := ftext
				if way == "-f" {
					arg = write("p.ivy", ftext)
				}
				o, e, x := c21Ivy(c, dir, "'not read'\n", way, arg)
				c21Same(c, way, "output", o, fout)
				c21Same(c, way, "error", c21NoLoc(e), ferr)
				code(x)
				break
			}
			if failed && k == len(first) {
				k--
			}
			a, _, _ := c21Text(ch[:k])
			b, _, _ := c21Text(ch[k:])
			arg := a
			if way == "-f" {
				arg = write("p.ivy", a)
			}
			o, e, x := c21Ivy(c, dir, b, way, arg)
			c21Same(c, way, "output", noBlank(o), noBlank(out))
			c21Same(c, way, "errors", c21NoLoc(e), errs)
			if x != 0 {
				c.Fail("%s: exit status %d", way, x)
			}
		case "stdin":
			o, e, x := c21Ivy(c, dir, text)
			c21Same(c, way, "output", noBlank(o), noBlank(out))
			c21Same(c, way, "errors", c21NoLoc(e), errs)
			if x != 0 {
				c.Fail("%s: exit status %d", way, x)
			}
		case "-":
			o, e, x := c21Ivy(c, dir, ftext, "-")
			c21Same(c, way, "output", noBlank(o), noBlank(fout))
			c21Same(c, way, "error", c21NoLoc(e), ferr)
			code(x)
		case "get", "getpieces":
			s2 := NewSess(c)
			for _, k := range first {
				if strings.Contains(k.text, ";") && (strings.Contains(k.text, "_") || k.err != "") {
					return // )get prints each statement's value at once
				}
			}
			after := ""
			if failed && c.Bool() {
				after = Pick(c, "'not run'\n", "cnt = 12345\ncnt\n", "1 2 3\n4 5 6\n")
			}
			var o, e string
			if way == "getpieces" && strings.Contains(ftext, "base") {
				return // the inner )get is read, and prints, in base 0
			}
			if way == "get" {
				o, e = s2.Run(fmt.Sprintf(")get %q", write("p.ivy", ftext+after)))
			} else {
				// A file that gets another in the middle.
				k := c.Range(1, len(first)-1)
				a, _, _ := c21Text(first[:k])
				b, _, _ := c21Text(first[k:])
				p := write("p.ivy", a+fmt.Sprintf(")get %q\n", write("q.ivy", b+after)))
				o, e = s2.Run(fmt.Sprintf(")get %q", p))
			}
			c21Same(c, way, "output", unspace(o), unspace(fout))
			if (e != "") != failed || !strings.HasPrefix(c21NoLoc(e), strings.TrimSuffix(ferr, "\n")) {
				c.Fail("%s: error %q, want %q", way, e, ferr)
			}
			s3 := NewSess(c)
			for _, k := range first {
				s3.Run(k.text)
			}
			if !strings.Contains(ftext, "ibase") { // )get brackets the input base
				c21Same(c, way, "state", c02State(s2), c02State(s3))
			}
		case "ivyop":
			// The text as the operand of the ivy operator, or the first part as
			// lines and the rest so.
			if strings.Contains(text, "_") || strings.Contains(text, "base") {
				return // _ is set by the line that prints; the operand is in the base in force when read
			}
			k := c.Range(0, len(first)-1)
			if failed {
				if len(first) < 3 {
					return
				}
				k = c.Range(0, len(first)-2)
			}
			a, _, _ := c21Text(first[:k])
			n := len(first)
			if failed {
				n-- // the values of the line before a failure are not printed
			}
			n = c.Range(k+1, n)
			b, bout, _ := c21Text(first[k:n])
			s2 := NewSess(c)
			if k > 0 {
				s2.Run(a)
			}
			if c.Bool() {
				b = strings.TrimRight(b, "\n")
			}
			o, e := s2.Run("ivy " + QuoteIvy(b))
			if e != "" {
				c.Fail("ivy %q: %s", b, e)
			}
			// )var lists _ once a line has printed a value.
			got := strings.Fields(strings.ReplaceAll(o, "_", " "))
			want := strings.Fields(strings.ReplaceAll(bout, "_", " "))
			slices.Sort(got)
			slices.Sort(want)
			c21Same(c, way, "output", strings.Join(got, " "), strings.Join(want, " "))
			s3 := NewSess(c)
			for _, k := range first[:n] {
				s3.Run(k.text)
			}
			s2.Do("_ = 0")
			s3.Do("_ = 0")
			c21Same(c, way, "state", c02State(s2), c02State(s3))
		case "mobile":
			mobile.Reset()
			o, e := mobile.Eval(text)
			c21Same(c, way, "output", o, mobileEsc.Replace(out))
			es := ""
			if e != nil {
				es = e.Error()
			}
			c21Same(c, way, "errors", c21NoLoc(es), errs)
		case "demo":
			for _, k := range ch {
				if strings.Contains(k.text, "\n") {
					c.Class("demo: not by lines")
					return
				}
			}
			d := mobile.NewDemo(text)
			for _, k := range ch {
				o, e := d.Next()
				es := ""
				if e != nil {
					es = e.Error()
				}
				c21Same(c, way, "output of "+k.text, o, mobileEsc.Replace(k.out))
				c21Same(c, way, "error of "+k.text, c21NoLoc(es), c21NoLoc(k.err))
			}
			if o, e := d.Next(); o != "" || e != io.EOF {
				c.Fail("demo at the end: %q %v", o, e)
			}
		}
	})
}

// c21Probe is a program whose output shows every setting a flag can set.
var c21Probe = []string{"iota 3", "(iota 5)[2]", "1/3", "22/7 3.5 12", "2 ** 100", "!30", "2**700", "op f x = x == 0: 0; 1 + f x - 1\nf 40", "f 200", "1e30", "v = 10 20 30", "v[1]", "up v", "1 2 3 iota 2", "2 ** 3000", ")origin", ")format", ")maxbits", ")maxdigits", ")maxstack", ")prompt", "'abc'", "sqrt 2", "3j4", "!60", "1<<200", "2**64", "-3/4", "(2 2 rho 1 2 3 4/3)", "e"}

func TestC21_Flags(t *testing.T) {
	if os.Getenv("VERIF_IVY") == "" {
		t.Skip("no ivy binary")
	}
	Check(t, "C21", 40, "a choice of command-line flags (-origin -format -g -maxbits -maxdigits -stack -prompt) and a program whose output depends on them: the output equals that of the same program after the corresponding commands; an illegal origin is refused; non-trivial: at least one flag, distinct by flags and program", func(c *C) {
		var flags, cmds []string
		add := func(flag, cmd string) {
			flags = append(flags, flag)
			cmds = append(cmds, cmd)
		}
		if c.Bool() {
			n := Pick(c, 0, 1, 2, 5, 100)
			add(fmt.Sprintf("-origin=%d", n), fmt.Sprintf(")origin %d", n))
		}
		switch c.Idx(6) {
		case 0:
			add("-g", `)format "%.12g"`)
		case 1, 2:
			f := Pick(c, "%.3f", "%8d", "%v", "%x", "%e", "%.20g", "", "%6.2f")
			add("-format="+f, fmt.Sprintf(")format %q", f))
		}
		if c.Prob(5) {
			n := Pick(c, 0, 64, 200, 500, 100000)
			add(fmt.Sprintf("-maxbits=%d", n), fmt.Sprintf(")maxbits %d", n))
		}
		if c.Prob(5) {
			n := Pick(c, 0, 1, 5, 20, 31, 1000)
			add(fmt.Sprintf("-maxdigits=%d", n), fmt.Sprintf(")maxdigits %d", n))
		}
		if c.Prob(5) {
			n := Pick(c, 10, 41, 100, 1000)
			add(fmt.Sprintf("-stack=%d", n), fmt.Sprintf(")maxstack %d", n))
		}
		if c.Prob(4) {
			p := Pick(c, "", "> ", "ivy% ", "\t")
			add("-prompt="+p, fmt.Sprintf(")prompt %q", p))
		}
		dir, done := c21Dir(c)
		defer done()
		if c.Prob(1) {
			_, e, x := c21Ivy(c, dir, "1\n", fmt.Sprintf("-origin=%d", -c.Range(1, 9)))
			if x == 0 || e == "" {
				c.Fail("negative -origin accepted")
			}
			return
		}
		s := NewSess(c)
		for _, k := range cmds {
			s.Do(k)
		}
		var text, out, errs string
		n := c.Range(1, 6)
		for i := 0; i < n; i++ {
			l := Pick(c, c21Probe...)
			o, e := s.Run(l)
			text += l + "\n"
			out += o
			errs += c21NoLoc(e)
		}
		if len(flags) > 0 {
			c.Key(strings.Join(flags, " ") + text)
		}
		c.Step(strings.Join(flags, " ") + "\n" + text)
		if strings.Contains(strings.Join(flags, " "), "prompt") {
			if errs == "" {
				o, e, _ := c21Ivy(c, dir, "", append(flags, "-e", text)...)
				c21Same(c, "flags "+strings.Join(flags, " "), "output", o, out)
				c21Same(c, "flags", "errors", c21NoLoc(e), errs)
			}
			return
		}
		o, e, _ := c21Ivy(c, dir, text, flags...)
		c21Same(c, "flags "+strings.Join(flags, " "), "output", noBlank(o), noBlank(out))
		c21Same(c, "flags", "errors", c21NoLoc(e), errs)
	})
}

func TestC21_Sessions(t *testing.T) {
	Check(t, "C21", 150, "two programs over the same names (definitions, settings, errors), run in two sessions whose lines are interleaved: each line gives what it gave when its program ran alone; non-trivial: every case, distinct by the pair", func(c *C) {
		var progs [2][]c21Chunk
		key := ""
		for i := range progs {
			p, _ := c21Prog(c, true, true)
			for _, k := range p {
				if strings.Contains(k.text, "prec") {
					return // the constants are shared: see known findings
				}
				key += k.text + "\n"
			}
			progs[i] = p
		}
		c.Key(key)
		ss := [2]*Sess{NewSess(c), NewSess(c)}
		at := [2]int{}
		for at[0] < len(progs[0]) || at[1] < len(progs[1]) {
			i := c.Idx(2)
			if at[i] >= len(progs[i]) {
				i = 1 - i
			}
			k := progs[i][at[i]]
			at[i]++
			o, e := ss[i].Run(k.text)
			if o != k.out || e != k.err {
				c.Fail("session %d, interleaved with another: %q gives\n %q %q, alone\n %q %q", i+1, k.text, o, e, k.out, k.err)
			}
		}
	})
}

func TestC21_Reset(t *testing.T) {
	Check(t, "C21", 150, "a program run in the mobile session, which it leaves with other settings, variables, operators, redefinitions and random state; then Reset (or NewDemo) and a second program over the same names: as in a fresh session; non-trivial: every case, distinct by the pair", func(c *C) {
		p, _ := c21Prog(c, true, true)
		q, _ := c21Prog(c, true, true)
		a, _, _ := c21Text(p)
		b, out, errs := c21Text(q)
		extra := Pick(c, "", ")prompt \"x\"", ")debug types 1", ")debug tokens 1", ")ibase 16", ")base 2 8", ")timezone \"UTC\"", ")maxstack 9", ")maxbits 70", "op iota2 x = x", "op rho x = 17", ")debug parse 1")
		a += extra + "\n"
		c.Key(a + b)
		c.Step("FIRST\n" + a)
		c.Step("THEN\n" + b)
		mobile.Reset()
		mobile.Eval(a)
		if c.Bool() {
			mobile.Reset()
		} else {
			mobile.NewDemo("")
		}
		o, e := mobile.Eval(b)
		c21Same(c, "mobile after a reset", "output", o, mobileEsc.Replace(out))
		es := ""
		if e != nil {
			es = e.Error()
		}
		c21Same(c, "mobile after a reset", "errors", c21NoLoc(es), errs)
	})
}

func TestC21_KnownSharedConstants(t *testing.T) {
	Known(t, "C21", "shared-constants", "the floating-point constants the functions use (pi, log 2, ...) are package variables set to the precision of the session that last set its precision or was created: with sessions A ()prec 1000) and then B (default), log 7 in A is only accurate to B's precision", func(c *C) bool {
		alone := NewSess(c)
		alone.Do(")prec 1000")
		want := alone.Must("log 7")
		a := NewSess(c)
		a.Do(")prec 1000")
		NewSess(c).Do("1")
		return !Same(a.Must("log 7"), want)
	})
}

// c21Buf is a buffer one goroutine writes and another reads.
type c21Buf struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (b *c21Buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.Write(p)
}

func (b *c21Buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.String()
}

// Demo: the interpreter behind the demo command.
func TestC21_Demo(t *testing.T) {
	Check(t, "C21", 40, "one to twelve demos, one after the other, are each sent a program of lines, failing ones and floating-point errors among them, and print what an ordinary session prints; afterwards files that get files still run; non-trivial: at least two demos, distinct by program", func(c *C) {
		ch, _ := c21Prog(c, c.Bool(), true)
		text, out, _ := c21Text(ch)
		for _, k := range ch {
			if k.err != "" && strings.Contains(k.text, ";") {
				c.Class("value before the error") // the demo prints it, a session does not
				return
			}
		}
		text = ")maxbits 1000000000\n)maxdigits 10000\n" + text // the demo's own defaults are smaller
		k := c.Range(1, 12)
		c.Step(Sprint("DEMO ", k, " times\n", text))
		if k > 1 {
			c.Key(text)
		}
		for i := 0; i < k; i++ {
			var b c21Buf
			w := parse.DemoRunner(nil, &b)
			if c.Prob(4) {
				text += "nn9 = 1/float 0\nnn9 - nn9\n"
			}
			io.WriteString(w, text+"\n'demo', 'end'\n")
			want := out + "demoend\n"
			deadline := time.Now().Add(40 * time.Second)
			for !strings.HasSuffix(b.String(), "demoend\n") && time.Now().Before(deadline) {
				time.Sleep(time.Millisecond)
			}
			if got := b.String(); unspace(got) != unspace(want) {
				c.Fail("demo %d of\n%s\nprinted %q, want %q", i+1, text, got, want)
			}
		}
		dir, done := c21Dir(c)
		defer done()
		for i := 0; i < 3; i++ {
			t := Sprint("v", i, " = ", i, "\n")
			if i > 0 {
				t += ")get " + QuoteIvy(filepath.Join(dir, Sprint("f", i-1))) + "\n"
			}
			os.WriteFile(filepath.Join(dir, Sprint("f", i)), []byte(t), 0o600)
		}
		s := NewSess(c)
		s.Do(")get " + QuoteIvy(filepath.Join(dir, "f2")))
		s.Want("v0", Int(0))
	})
}

// c21Reader delivers text and then fails.
type c21Reader struct {
	text string
	err  error
}

func (r *c21Reader) ReadByte() (byte, error) {
	if r.text == "" {
		return 0, r.err
	}
	b := r.text[0]
	r.text = r.text[1:]
	return b, nil
}

// Faults: input that fails part way.
func TestC21_Faults(t *testing.T) {
	Check(t, "C21", 150, "a program whose input fails after a random number of its lines: they run as in a session, the failure is reported once and the run is not a success; non-trivial: at least one line before it, distinct by program", func(c *C) {
		n := c.Range(0, 8)
		text := ""
		s := NewSess(c)
		for i := 0; i < n; i++ {
			l := Pick(c, "x = 3", "y = iota 4", "x, 5", "op f a =\n a + 1\n", "f 3", "# comment", "", "z = 'text'", "z", "1 2 3 + 4")
			if _, e := s.Run("x = 1; y = 2; z = 3\n" + l); e != "" {
				continue
			}
			text += l + "\n"
		}
		want := NewSess(c)
		want.Do("x = 1; y = 2; z = 3\nop f a = a")
		wantOut, wantErr := want.Run(text)
		got := NewSess(c)
		got.Do("x = 1; y = 2; z = 3\nop f a = a")
		var out, errs bytes.Buffer
		got.Conf.SetOutput(&out)
		got.Conf.SetErrOutput(&errs)
		fault := fmt.Errorf("fault %d", c.Range(1, 1000))
		c.Step(Sprint("input that ends in an error:\n", text))
		p := parse.NewParser("in", scan.New(got.Ctx, "in", &c21Reader{text, fault}), got.Ctx)
		if run.Run(p, got.Ctx, false) {
			c.Fail("%q and then a failing read: success", text)
		}
		if o := out.String(); o != wantOut {
			c.Fail("%q and then a failing read: output %q, want %q", text, o, wantOut)
		}
		if e := errs.String(); wantErr != "" || strings.Count(e, fault.Error()) != 1 || strings.Count(e, "\n") != 1 {
			c.Fail("%q and then a failing read: errors %q", text, e)
		}
		if !run.Run(p, got.Ctx, false) {
			c.Fail("%q and then a failing read: no end of file", text)
		}
		for _, v := range []string{"x", "y", "z"} {
			if d := Diff(got.Get(v), want.Get(v)); d != "" {
				c.Fail("%q and then a failing read: %s is %v, want %v", text, v, got.Get(v), want.Get(v))
			}
		}
		if n > 0 {
			c.Key(text)
		}
	})
}
