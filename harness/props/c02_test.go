package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

// c02State is everything a later line can see.
func c02State(s *Sess) string {
	var b strings.Builder
	i, o := s.Conf.Base()
	seed := s.Conf.RandomSeed()
	fmt.Fprintf(&b, "prec %d maxbits %d maxdigits %d maxstack %d origin %d prompt %q format %q base %d %d seed %v\n",
		s.Conf.FloatPrec(), s.Conf.MaxBits(), s.Conf.MaxDigits(), s.Conf.MaxStack(), s.Conf.Origin(), s.Conf.Prompt(), s.Conf.Format(), i, o, seed)
	fmt.Fprintf(&b, "tz %v\n", s.Conf.TimeZone())
	for _, d := range []string{"tokens", "types", "parse", "trace", "cpu", "panic"} {
		fmt.Fprintf(&b, "%s %d\n", d, s.Conf.Debug(d))
	}
	vars, _ := s.Run(")vars")
	names := strings.Fields(vars)
	sort.Strings(names)
	for _, n := range append(names, "_") {
		v := s.Get(n)
		if v == nil {
			fmt.Fprintf(&b, "%s undefined\n", n)
			continue
		}
		fmt.Fprintf(&b, "%s = %s\n", n, v)
	}
	ops, _ := s.Run(")op")
	fmt.Fprintf(&b, "ops %s\n", strings.TrimSpace(ops))
	seen := map[string]bool{}
	for _, f := range regexp.MustCompile(`\b[a-z][a-z0-9]*`).FindAllString(ops, -1) {
		if !seen[f] {
			seen[f] = true
			t, e := s.Run(")op " + f)
			if e == "" {
				b.WriteString(t)
			}
		}
	}
	// What is saved shows the order of the definitions too.
	sv, e := s.Run(")save '<conf.out>'")
	b.WriteString(sv + e)
	return b.String()
}

var errLoc = regexp.MustCompile(`(?m)^ :\d+: `)

func errCount(e string) int { return len(errLoc.FindAllString(e, -1)) }

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("%q against %q", x[i], z)
		}
	}
	return "lengths differ"
}

// c02Err is an expression that fails when it is evaluated, whatever the settings.
func c02Err(c *C) string {
	return Pick(c, "1 / 0", "vec + 1 2 3 4 5 6 7", "undefd", "vec[77]", "mat[1;9]", "'a' + 1", "mat +.* vec, 1 1 1", "nest + vec", "inv 2 2 rho 0", "(1 2 3)[1 2 3 77]", "1 2 rot@ 1 2 3", "boom 3", "3 boomb 4",
		"boom@ 1 2 3", "vec boomb@ 1", "boomb/ 1 2 3", "boomb\\ 1 2 3", "vec o.boomb 1 2", "vec +.boomb vec", "boomb/% mat", "deep -1", "deepb 3", "mut1 5", "rec 3", "boom vec", "ivy '1 / 0'", "ivy '1 +'", "ivy 'undefd'", "ivy 'boom 1'", "log 0",
		"-1 iota@ vec", "char -1", "1 2 3 encode 'x'", "iota -1", "(iota 2) drop 3", "nosuch 'x'", "deepl 3", "vec deepx 3", "acos 'a'", "sqrt 'x'", "vec - 'abcdef'", "box 1 / 0")
}

// c02Sure fails whatever has been assigned.
func c02Sure(c *C) string {
	return Pick(c, "1 / 0", "undefd", "(1 2 3)[77]", "'a' + 1", "boom 3", "3 boomb 4", "boom@ 1 2 3", "1 2 boomb@ 1", "boomb/ 1 2 3", "boomb\\ 1 2 3", "1 2 o.boomb 1 2", "1 2 +.boomb 3 4", "deep -1", "deepb 3", "mut1 5", "rec 3", "ivy '1 / 0'", "ivy '1 +'", "ivy 'undefd'", "ivy 'boom 1'", "char -1", "iota -1", "deepl 3", "2 deepx 3", "log 0", "1 2 + 1 2 3")
}

// c02ParseErr is text that cannot be parsed.
func c02ParseErr(c *C) string {
	return Pick(c, "1 +", "(1", "1)", "vec[", "vec]", "'abc", "\"abc", "1 + * 2", "= 3", "x = ", "1 2 = 3", "(a 1) = 2 3", "[1]", "1e", "3x", "1//2", "o. 3", "vec o. 1", "@ vec", "vec +. 1", "op", "op 3", "op a b c d = 1", "op fq", "op fq = 3", "op (a a) fq b = 1",
		"opdelete nosuch x", "opdelete", "opdelete x nosuch y", "1 ; (2", "vec[1;2", "a : 3 : 4", "`abc", "'\\x'", "\x01", "1 ~ 2", "$", "{", "vec[1] [2", "not", "+/", "1 plusone 2 3 )", "plusone", "x boomb", "op fq x = y +", "op x fq y = (", "op zv x = x + (", "op x zv y = 3 3x", "op zv x x = 3", "op gv x = 3", "op zv x = y = (1", "op plusone x = x + (", "op a addb b = a + [", "op plusone x = 'abc", "op plusone (x = x", "op plusone x = )", "op plusone x = x; y = (3")
}

// c02Cmd is a special command that is refused.
func c02Cmd(c *C) string {
	return Pick(c, ")origin -1", ")origin x", ")origin 'a'", ")base 1", ")base 40", ")base 16 2 3", ")ibase 77", ")obase -3", ")ibase x", ")prec 0", ")prec -5", ")prec x", ")maxbits -1", ")maxbits x", ")maxdigits -1", ")maxstack -1", ")maxstack x", ")seed x", ")format 3", ")format x", ")prompt 3", ")nosuch", ")nosuch 3", ")",
		")get '/nonexistent/file'", ")get 3", ")save '/nonexistent/dir/x'", ")save 3", ")op nosuch", ")var nosuch", ")debug nosuch", ")debug nosuch 3", ")timezone 'no/where'", ")timezone 3", ")help nosuchthing extra stuff", ")origin 1 2", ")maxdigits 3 4", ")prec 100 200", ")ibase 8 8", ")seed 3 4", ")format '%d' 3", ")base 8 x", ")debug types x", ")cpu x", ")var 3", ")op 3")
}

var c02Setup = []string{"vec = 1 2 3 4", "mat = 2 2 rho iota 4", "nest = (1 2) 'ab' (box 3)", "gv = 10", "gw = 'text'", "zv = 0",
	"op plusone x = x + 1", "op a addb b = a + b", "op boom x =\n loc = x\n loc / 0\n", "op a boomb b =\n arg = a\n arg / 0\n",
	"op deep n = n == -30 : n / 0; deep n - 1", "op deepb n = loc = n; n <= 0 : boom n; 1 + deepb n - 1", "op deepl n = n <= 0 : undefd; loc = n; (deepl n - 1) , loc",
	"op a deepx n = n <= 0 : a boomb n; hidden = a; hidden addb a deepx n - 1",
	"op rec n = rec n + 1", // runs out of stack
	"op mut1 n = n / 0", "op mut2 n = mut1 n",
	"op fine n = n <= 0 : 0; loc = n; loc + fine n - 1",
	"op setg x =\n gv\n gv = x\n x / 0\n",
	"op setgi x =\n gv\n gv = vec\n gv[2] = x\n gv[77] = x\n",
}

// c02Fail draws a statement that should fail, and the statements it completes first.
func c02Fail(c *C, dir string) (line string, done []string, kind string) {
	lit := func() string {
		return Pick(c, "3", "1 2 3", "'xyz'", "1/3", "2 2 rho 5", "vec", "mat + 1", "'a'", "gw", "nest", "iota 5")
	}
	name := func() string { return Pick(c, "gv", "gw", "newv", "newb", "loc", "x") }
	switch c.Idx(13) {
	case 0:
		return c02ParseErr(c), nil, "parse"
	case 1:
		// A parse error anywhere means nothing of the line is executed.
		return name() + " = " + lit() + "; " + Pick(c, "1 +", "(", "'ab", "vec[", "= 2", "1 ~"), nil, "parse after assignment"
	case 2:
		return c02Cmd(c), nil, "maybe command"
	case 3:
		if c.Bool() {
			return c02Err(c), nil, "maybe runtime"
		}
		return c02Sure(c), nil, "runtime"
	case 4:
		// Assignments completed before the failure stay.
		k := c.Range(1, 3)
		var parts []string
		for i := 0; i < k; i++ {
			st := name() + " = " + lit()
			if c.Prob(4) {
				st = Pick(c, "vec[1] = 77", "vec[2 3] = 7 6", "vec[1] = 'q'", "(gv gw) = 5 6", "(newv newb) = 5 6", "(newv (newb gv)) = 5 (6 7)")
			} else if c.Prob(4) {
				st = "gv = fine 3"
			}
			parts = append(parts, st)
		}
		done = append(done, parts...)
		after := ""
		if c.Bool() {
			after = "; " + name() + " = 1"
		}
		return strings.Join(parts, "; ") + "; " + c02Sure(c) + after, done, "after assignments"
	case 5:
		// The right operand is evaluated first.
		n, l := name(), lit()
		return "(" + c02Sure(c) + ") , (" + n + " = " + l + ")", []string{n + " = " + l}, "operand assigned"
	case 6:
		n := name()
		return n + " = " + Pick(c, "", "1 , ", "3 + ", "box ") + c02Sure(c), nil, "assignment of failing value"
	case 7:
		return Pick(c, "vec[77] = 3", "vec[1 2 77] = 3", "vec[1 2] = 3 4 5", "mat[1;9] = 3", "mat[;1] = 1 2 3", "mat[1;1;1] = 3", "vec['a'] = 3", "vec[1/2] = 3", "(gv gw) = 1 2 3", "(gv gw) = 1", "(gv (gw vec)) = 1 (2 3 4)", "(gv (gw vec)) = 1 2", "gv[1] = 3", "undefd[1] = 3", "vec[1 2 3 0 -1] = 5", "vec[boom 1] = 3", "vec[1] = boom 3", "mat[1] = 1 2 3 4", "mat[0 1 2 3 9;] = 5", "(vec[1]) = 3"), nil, "maybe indexed or multiple assignment"
	case 8:
		a := Pick(c, "3", "1 2", "'ab'")
		if c.Bool() {
			return "setg " + a, []string{"gv = " + a}, "global assigned in a call"
		}
		z := Pick(c, "5", "'z'")
		return "setgi " + z, []string{"gv = vec", "gv[2] = " + z}, "global assigned in a call"
	case 9:
		n, l := name(), lit()
		q := Pick(c, "\"", "`")
		if strings.Contains(l, "'") || c.Bool() {
			q = "`"
		}
		return "ivy " + q + n + " = " + l + "; " + Pick(c, "1 / 0", "undefd", "boom 2", "(1 2)[77]") + q, []string{n + " = " + l}, "ivy"
	case 10:
		// A file that fails part of the way through.
		f := filepath.Join(dir, "get.ivy")
		n, l := name(), lit()
		var lines []string
		if c.Bool() {
			lines = append(lines, n+" = "+l)
			done = append(done, n+" = "+l)
		}
		if c.Prob(4) {
			d := "op getop x = x + 5"
			lines, done = append(lines, d), append(done, d)
		}
		e := c02Sure(c)
		if c.Bool() {
			e = c02ParseErr(c)
		}
		lines = append(lines, e)
		lines = append(lines, "gv = 'after'")
		os.WriteFile(f, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		c.Step("file get.ivy:\n" + strings.Join(lines, "\n"))
		return ")get " + QuoteIvy(f), done, "get"
	case 11:
		// A definition whose body fails on its last line.
		head := Pick(c, "op plusone x =", "op a addb b =", "op fine n =", "op newop n =", "op a newop2 b =", "op rho x =", "op zv x =", "op a zv b =")
		good := Pick(c, "", " loc = 3\n", " vec = 3\n gv\n", " newop 3\n", " 1 newop2 2\n", " gv = 3\n", " plusone 1\n")
		bad := Pick(c, " 1 +", " (", " 'abc", " vec[", " x : y : z", " )base 10", " undefd nosuch (", " = 3", " op z y = 3 (", " 1 ~ 1")
		return head + "\n" + good + bad, nil, "definition"
	default:
		// Other things the earlier fixes touched: names made local by a failed definition, stale frames.
		l := soup(c)
		if c.Prob(4) {
			l = mutateText(c, l)
		}
		if tooBig(l) || strings.ContainsAny(l, "=\n;:") || strings.Contains(l, "op") || strings.Contains(l, "print") {
			return c02ParseErr(c), nil, "parse"
		}
		return l, nil, "maybe soup"
	}
}

// c02Later draws a line to run afterwards.
func c02Later(c *C) string {
	return Pick(c, "vec", "mat", "zv", "zv + 1", "zv 2", "gv", "gw", "newv", "newb", "loc", "x", "arg", "hidden", "_", "plusone vec", "vec addb gv", "fine 5", "fine 20", "fine 100", "fine 59", "fine 60", "? 1000 1000 1000", "5 ? 100", "vec[1]", "mat[1;]", "gv = 5\ngv + 1", "rand 1", "text vec", "10 + 15", "1/3", "op plusone x = x + 2\nplusone 3",
		"op newop n = gv = n; gv\nnewop 3\ngv", "op newop n = gv , n\nnewop 3", "newop 5", "1 newop2 2", ")origin", ")base", "iota 3", "getop 3", "boom 3", "deepb 2", "rec 1", "mut2 3", "op x x = 3", "loc = 7\nloc", "sqrt 2", "pi", "+/ iota 10", "nosuch 3", "'", "(1 2) 3", "plusone@ vec", "addb/ 1 2 3", "opdelete plusone x\nplusone 3", "f1 x", "x = 5\nx", "op f1 x = x\nf1 3", "ivy 'gv'",
		")op", ")vars", "? 10", "16", "'abc' 12", "rho 3", ")var gv", "(gv gw) = 3 4\ngv gw", "vec[1] = 5\nvec")
}

func TestC02_Fail(t *testing.T) {
	Check(t, "C02", 900, "two sessions with the same variables, operators and settings; one of them also runs lines that fail (parse errors, run-time errors at every nesting, in operators, reductions, each, indexes, assignments, files, definitions, commands), the other only the statements those lines complete; then both run the same lines and must print the same and end in the same state. Non-trivial: a line failed; distinct by the lines", func(c *C) {
		dir, err := os.MkdirTemp("", "c02")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		a, b := NewSess(c), NewSess(c)
		both := func(l string) {
			oa, ea := a.Run(l)
			ob, eb := b.Run(l)
			if oa != ob || ea != eb {
				c.Fail("%q after the failures gives %q, error %q; without them %q, error %q", l, oa, ea, ob, eb)
			}
		}
		complete := func(done []string) {
			for _, d := range done {
				if _, e := b.Run(d); e != "" {
					return // then that was the failure
				}
			}
		}
		both(")maxstack 60")
		both(Sprint(")seed ", c.Idx(50)))
		a.Do(strings.Join(c02Setup, "\n"))
		b.Do(strings.Join(c02Setup, "\n"))
		if c.Prob(6) {
			// Names that mean the opposite of what operators use.
			both(Pick(c, "arg = 1", "loc = 'L'", "hidden = 5", "x = 9", "newv = 0"))
		}
		if c.Prob(4) {
			both(Pick(c, ")origin 0", ")obase 16", ")obase 2", ")format '%d'", ")prec 100", ")maxdigits 3", ")prompt 'p'", ")timezone 'UTC'"))
		}
		ibase := c.Prob(4)
		if ibase {
			both(Pick(c, ")ibase 8", ")ibase 10", ")base 8"))
		}
		n := c.Range(1, 4)
		failed := false
		for i := 0; i < n; i++ {
			line, done, kind := c02Fail(c, dir)
			if ibase && strings.Contains(kind, "soup") {
				continue
			}
			single := !strings.Contains(line, "\n") && strings.Count(line, "`")%2 == 0 && kind != "get" && !strings.HasPrefix(kind, "maybe")
			if single && c.Prob(5) {
				// In the middle of a longer text.
				l1, l2 := c02Later(c), c02Later(c)
				oa, ea := a.Run(l1 + "\n" + line + "\n" + l2)
				o1, e1 := b.Run(l1)
				complete(done)
				o2, e2 := b.Run(l2)
				if ea == "" || errCount(ea) != 1+errCount(e1+e2) {
					c.Fail("%q in the middle of a text: errors %q; the lines around it alone give errors %q %q", line, ea, e1, e2)
				}
				if oa != o1+o2 {
					c.Fail("%q between %q and %q: output %q, without it %q", line, l1, l2, oa, o1+o2)
				}
				c.Class("in a text")
			} else {
				_, e := a.Run(line)
				if e != "" && (kind == "parse" || kind == "runtime") && c.Prob(3) {
					// The same failure many times over.
					for k := c.Range(1, 70); k > 0; k-- {
						a.Run(line)
					}
					c.Class("many times")
				}
				if e == "" {
					if !strings.HasPrefix(kind, "maybe") {
						c.Fail("%q gives no error", line)
					}
					if _, e := b.Run(line); e != "" {
						c.Fail("%q succeeds after the failures, fails without them: %s", line, e)
					}
					c.Class("no failure: " + kind)
					continue
				}
				complete(done)
			}
			failed = true
			c.Class(kind)
			c.Key(line)
			if sa, sb := c02State(a), c02State(b); sa != sb {
				c.Fail("after the failing line %q the state differs: %s", line, firstDiff(sa, sb))
			}
			for k := c.Range(0, 2); k > 0; k-- {
				l := c02Later(c)
				both(l)
			}
		}
		if !failed {
			return
		}
		for k := c.Range(1, 4); k > 0; k-- {
			both(c02Later(c))
		}
		// The stack is exactly as deep as before: no frame was left behind, none taken away.
		for _, d := range []int{57, 58, 59, 60, 61} {
			both(Sprint("fine ", d))
		}
		both("? 1000000 1000000")
		if sa, sb := c02State(a), c02State(b); sa != sb {
			c.Fail("afterwards the state differs: %s", firstDiff(sa, sb))
		}
	})
}
