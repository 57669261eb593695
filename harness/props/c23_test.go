package props

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	. "verif.local/harness/h"
)

// settings is the model of everything the special commands set.
type settings struct {
	ibase, obase                 int
	format, prompt               string
	maxbits, maxdigits, maxstack int
	origin, prec                 int
	seed                         int64
	zone                         string
	debug                        map[string]int
	vars                         map[string]int
	ops                          map[string]string // name to definition
	binary                       map[string]bool
}

var c23Debug = []string{"cpu", "panic", "parse", "tokens", "trace", "types"}

// c23Quiet keeps what is written to the process's own output while f runs.
func c23Quiet(c *C, f func()) {
	tmp, err := os.CreateTemp("", "c23")
	if err != nil {
		c.Fail("scratch file: %v", err)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = tmp, tmp
	defer func() {
		os.Stdout, os.Stderr = so, se
		data, _ := os.ReadFile(tmp.Name())
		tmp.Close()
		os.Remove(tmp.Name())
		if len(data) > 0 {
			c.Fail("a session with its own output wrote to the process's output: %.200q", data)
		}
	}()
	f()
}

// c23Report checks what every command without argument, and sys, reports.
func c23Report(c *C, s *Sess, m *settings) {
	rep := func(cmd, want string) {
		out, e := s.Run(cmd)
		if e != "" || strings.TrimSpace(out) != strings.TrimSpace(want) {
			c.Fail("%s reports %q, error %q, want %q", cmd, out, e, want)
		}
	}
	rep(Pick(c, ")base", ")ibase", ")obase"), fmt.Sprintf("ibase\t%d\nobase\t%d", m.ibase, m.obase))
	rep(")format", strconv.Quote(m.format))
	rep(")prompt", strconv.Quote(m.prompt))
	rep(")maxbits", fmt.Sprint(m.maxbits))
	rep(")maxdigits", fmt.Sprint(m.maxdigits))
	rep(")maxstack", fmt.Sprint(m.maxstack))
	rep(") origin", fmt.Sprint(m.origin))
	rep(")prec", fmt.Sprint(m.prec))
	rep(")seed # comment", fmt.Sprint(m.seed))
	if m.zone != "" {
		loc, err := time.LoadLocation(m.zone)
		if err != nil {
			c.Fail("%v", err)
		}
		_, off := time.Now().In(loc).Zone()
		rep(")timezone", fmt.Sprint(m.zone, " ", off))
	}
	out, e := s.Run(")debug")
	for _, d := range c23Debug {
		if e != "" || !strings.Contains(out, fmt.Sprintf("%s\t%d\n", d, m.debug[d])) {
			c.Fail(")debug reports %q, error %q, want %s %d", out, e, d, m.debug[d])
		}
	}
	var names []string
	for n := range m.vars {
		names = append(names, n)
	}
	names = append(names, "e", "pi")
	sort.Strings(names)
	got := strings.Fields(func() string { o, _ := s.Run(Pick(c, ")var", ")vars")); return o }())
	var list []string
	for _, g := range got {
		if g != "_" {
			list = append(list, g)
		}
	}
	if strings.Join(list, " ") != strings.Join(names, " ") {
		c.Fail(")var lists %q, want %q", list, names)
	}
	var un, bi []string
	for n := range m.ops {
		if m.binary[n] {
			bi = append(bi, n)
		} else {
			un = append(un, n)
		}
	}
	sort.Strings(un)
	sort.Strings(bi)
	var want []string
	if len(un) > 0 {
		want = append(append(want, "Unary:"), un...)
	}
	if len(bi) > 0 {
		want = append(append(want, "Binary:"), bi...)
	}
	o, _ := s.Run(Pick(c, ")op", ")ops"))
	if strings.Join(strings.Fields(o), " ") != strings.Join(want, " ") {
		c.Fail(")op lists %q, want %q", o, want)
	}
	// Show one variable and one operator; numbers are base 10 always.
	for n, v := range m.vars {
		rep(")var "+n, fmt.Sprintf("%s = %d", n, v))
	}
	for n, d := range m.ops {
		rep(Pick(c, ")op ", ")ops ")+n, d)
	}
}

func c23Sys(c *C, s *Sess, m *settings) {
	for _, x := range []struct {
		name string
		v    int
	}{{"ibase", m.ibase}, {"obase", m.obase}, {"maxbits", m.maxbits}, {"maxdigits", m.maxdigits}, {"maxstack", m.maxstack}, {"origin", m.origin}} {
		s.Want("sys '"+x.name+"'", Int(x.v))
	}
	s.Want("sys 'base'", Ints(m.ibase, m.obase))
	s.Want("sys 'format'", Str(strconv.Quote(m.format)))
	s.Want("sys 'prompt'", Str(strconv.Quote(m.prompt)))
}

// c23Probe checks that evaluation goes by the settings.
func c23Probe(c *C, s *Sess, m *settings) {
	one := func(n int) string { // the number n in the input base
		if m.ibase == 0 {
			return strconv.Itoa(n)
		}
		return strconv.FormatInt(int64(n), m.ibase)
	}
	show := func(n int) string {
		switch {
		case m.format != "":
			return fmt.Sprintf(m.format, n)
		case m.obase == 0:
			return strconv.Itoa(n)
		}
		return strconv.FormatInt(int64(n), m.obase)
	}
	loud := m.debug["cpu"]+m.debug["parse"]+m.debug["tokens"]+m.debug["trace"]+m.debug["types"] > 0
	switch c.Idx(7) {
	case 0:
		n := c.Range(0, 5000)
		s.Want(one(n), Int(n))
	case 1:
		s.Want("iota "+one(3), Ints(m.origin, m.origin+1, m.origin+2))
		s.Want("'abc'["+one(m.origin)+"]", Ch('a'))
	case 2:
		n := c.Range(0, 5000)
		out, e := s.Run(one(n))
		if !loud && (e != "" || strings.TrimSpace(out) != strings.TrimSpace(show(n))) {
			c.Fail("%d (entered as %s) prints as %q, want %q; error %q", n, one(n), out, show(n), e)
		}
	case 3: // precision
		if m.prec < 24 {
			break
		}
		v := s.Must("sqrt " + one(2) + " " + one(3))
		for i, sq := range []int64{2, 3} {
			f := v.El[i].Float()
			if f == nil {
				c.Fail("sqrt %d is %s", sq, v.El[i])
			}
			r := new(big.Float).SetPrec(uint(2*m.prec + 100)).Set(f)
			r.Mul(r, r)
			r.Sub(r, new(big.Float).SetInt64(sq))
			if int(f.MinPrec()) > m.prec {
				c.Fail("under prec %d, sqrt %d has a mantissa of %d bits", m.prec, sq, f.MinPrec())
			}
			if r.Sign() != 0 && r.MantExp(nil) > -m.prec+4 {
				c.Fail("under prec %d, (sqrt %d)**2 is off by 2**%d", m.prec, sq, r.MantExp(nil))
			}
		}
		if a, b := int(v.El[0].Float().MinPrec()), int(v.El[1].Float().MinPrec()); a < m.prec-24 && b < m.prec-24 {
			c.Fail("under prec %d, mantissas of sqrt 2 and sqrt 3 have only %d and %d bits", m.prec, a, b)
		}
	case 4: // seed
		if m.origin > 1<<20 {
			break
		}
		cmd := fmt.Sprintf(")seed %d", m.seed)
		s.Do(cmd)
		a := s.Must(one(5) + " rho ? 10 rho " + one(100000))
		s2 := NewSess(c)
		s2.Do(fmt.Sprintf(")origin %d\n%s", m.origin, cmd))
		b := s2.Must("5 rho ? 10 rho 100000")
		_ = a
		if m.ibase == 10 || m.ibase == 0 {
			if Diff(a, b) != "" {
				c.Fail("%s then ? 10 rho 100000 gives %s, elsewhere %s", cmd, a, b)
			}
		}
	case 5: // maxbits
		if m.maxbits > 0 && m.maxbits < 100000 {
			s.WantErr(fmt.Sprintf("%s ** %s", one(7), one(m.maxbits+64)), "over maxbits")
		}
		if m.maxbits == 0 || m.maxbits > 1000 {
			s.Want(fmt.Sprintf("%s ** %s", one(2), one(400)), BI(new(big.Int).Lsh(big.NewInt(1), 400)))
		}
	case 6: // maxdigits
		if m.format != "" || m.obase != 0 && m.obase != 10 || loud {
			break
		}
		n := 30
		if m.maxdigits > 0 && m.maxdigits < 500 {
			n = m.maxdigits + 5
		}
		x := new(big.Int).Exp(big.NewInt(7), big.NewInt(int64(float64(n)/0.845)), nil)
		if m.maxbits > 0 && x.BitLen() >= m.maxbits/2 {
			break
		}
		out, _ := s.Run(one(7) + " ** " + one(int(float64(n)/0.845)))
		out = strings.TrimSpace(out)
		over := m.maxdigits > 0 && len(x.String()) > m.maxdigits
		if !over && out != x.String() || over && len(x.String()) > 12 && !strings.Contains(out, "e+") {
			c.Fail("under maxdigits %d, %s prints as %q", m.maxdigits, x, out)
		}
	}
}

func TestC23_Settings(t *testing.T) {
	Check(t, "C23", 400, "a history of 4 to 14 special commands (every setting, legal and illegal arguments, any spacing), definitions and evaluations, in whatever bases and formats are then set; after each, every command's report, sys and behaviour of evaluation are compared with a model of all settings; non-trivial: at least three settings changed, distinct by history", func(c *C) {
		c23Quiet(c, func() { c23Run(c) })
	})
}

func c23Run(c *C) {
	s := NewSess(c)
	m := &settings{maxbits: 1e9, maxdigits: 1e4, maxstack: 100000, origin: 1, prec: 256, debug: map[string]int{}, vars: map[string]int{}, ops: map[string]string{}, binary: map[string]bool{}}
	m.seed = int64(c.Range(0, 1000))
	s.Do(fmt.Sprintf(")seed %d", m.seed))
	changed := 0
	var hist []string
	for n := c.Range(4, 14); n > 0; n-- {
		line, bad := "", false
		set := func() {}
		num := func(p *int, legal ...int) string {
			v := Pick(c, legal...)
			set = func() { *p = v; changed++ }
			if c.Prob(2) { // not octal
				return "0" + strconv.Itoa(v)
			}
			return strconv.Itoa(v)
		}
		quote := func(x string) string {
			if c.Bool() && !strings.Contains(x, "'") {
				return "'" + x + "'"
			}
			return strconv.Quote(x)
		}
		sp := Pick(c, "", "", "", " ", "\t")
		k := c.Idx(16)
		switch k {
		case 0:
			line = "ibase " + num(&m.ibase, 0, 2, 3, 8, 10, 10, 11, 12, 15, 16, 16)
		case 1:
			line = "obase " + num(&m.obase, 0, 2, 3, 8, 10, 10, 11, 12, 15, 16, 16)
		case 2:
			b := Pick(c, 0, 0, 2, 7, 8, 10, 10, 16, 16, 13, 14)
			line = fmt.Sprint("base ", b)
			set = func() { m.ibase, m.obase = b, b; changed++ }
		case 3:
			f := Pick(c, "", "", "%d", "%x", "%o", "%b", "%5d", "%06d", "%X", "%+d", "<%d>", "%#x", "%v")
			line = "format " + quote(f)
			set = func() { m.format = f; changed++ }
		case 4:
			f := Pick(c, "", ">", "ivy> ", "a\"b", "日本", "%d", ")x", "0")
			line = "prompt " + quote(f)
			set = func() { m.prompt = f; changed++ }
		case 5:
			line = "maxbits " + num(&m.maxbits, 0, 64, 100, 1024, 99, 123456, 1000000000, 2147483647)
		case 6:
			line = "maxdigits " + num(&m.maxdigits, 0, 1, 8, 10, 11, 99, 400, 10000, 2147483647)
		case 7:
			line = "maxstack " + num(&m.maxstack, 10, 99, 1000, 123456, 2147483647)
		case 8:
			line = "origin " + num(&m.origin, 0, 0, 1, 1, 2, 9, 10, 11, 100, 2147483647)
		case 9:
			line = "prec " + num(&m.prec, 24, 53, 64, 99, 100, 256, 512, 1000, 1011, 2000)
		case 10:
			v := Pick(c, int64(0), 1, 9, 10, 99, 1<<31, 1<<53+1, 1<<62, 1<<63-1, int64(c.Range(0, 1<<30)))
			line = fmt.Sprint("seed ", v)
			set = func() { m.seed = v; changed++ }
		case 11:
			z := Pick(c, "UTC", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "Asia/Tokyo")
			line = "timezone " + quote(z)
			set = func() { m.zone = z; changed++ }
		case 12:
			d := Pick(c, c23Debug...)
			if d == "panic" {
				d = "cpu"
			}
			if c.Bool() {
				v := Pick(c, 0, 0, 1, 2, 9, 10)
				line = fmt.Sprint("debug ", d, " ", v)
				set = func() { m.debug[d] = v; changed++ }
			} else {
				line = "debug " + d
				if c.Prob(4) {
					v := Pick(c, 1, 2, 9)
					s.Run(fmt.Sprint(")debug ", d, " ", v))
					m.debug[d] = v
				}
				set = func() {
					if m.debug[d] == 0 {
						m.debug[d] = 1
					} else {
						m.debug[d] = 0
					}
					changed++
				}
			}
			sp = ""
		case 13: // not a legal command
			bad = true
			cmd := Pick(c, "base", "ibase", "obase", "maxbits", "maxdigits", "maxstack", "origin", "prec", "seed", "format", "prompt", "timezone", "nosuch", "debug cpu", "x", "iota")
			arg := Pick(c, "-1", "-10", "1/2", "3.5", "12345678901234567890123", "'a", "x", "(1)", "1 2", "[", "+", "iota 3", ")", "= 3", "1;2")
			isStr := cmd == "format" || cmd == "prompt" || cmd == "timezone"
			switch {
			case isStr:
				arg = Pick(c, "1", "x", "'a' 'b'", "\"a\" 1", "'a", "(", "'a' x")
			case cmd == "base" || cmd == "ibase" || cmd == "obase":
				arg = Pick(c, arg, "1", "17", "256", "3000000000", "10 10", "2 x")
			case cmd == "prec":
				arg = Pick(c, arg, "0", "1000001", "2147483648", "100 100")
			case cmd != "seed":
				arg = Pick(c, arg, "2147483648", "4294967296", "3 'a'")
			}
			if cmd == "timezone" {
				arg = Pick(c, arg, "'Nowhere/City'", "'UTC' 1")
			}
			if cmd == "nosuch" || cmd == "x" || cmd == "iota" {
				arg = Pick(c, "", arg)
			}
			line = cmd + " " + arg
		case 14: // a variable
			name := Pick(c, "vx", "vy", "zig")
			v := c.Range(0, 40000)
			in := m.ibase
			if in == 0 {
				in = 10
			}
			if v == 8 || v == 9 {
				v = 10
			}
			line = "\x00" + name + " = " + strconv.FormatInt(int64(v), in)
			set = func() { m.vars[name] = v }
		case 15:
			name := Pick(c, "vop", "zap", "iffy")
			in := m.ibase
			if in == 0 {
				in = 10
			}
			v := c.Range(10, 40000)
			n := strconv.FormatInt(int64(v), in)
			if _, ok := m.ops[name]; ok {
				continue
			}
			if c.Bool() {
				line = fmt.Sprintf("\x00op %s x = x + %s", name, n)
				set = func() { m.ops[name] = fmt.Sprintf("op %s x = x + %d", name, v) }
			} else {
				line = fmt.Sprintf("\x00op x %s y = y * x - %s", name, n)
				set = func() { m.ops[name] = fmt.Sprintf("op x %s y = y * x - %d", name, v); m.binary[name] = true }
			}
		}
		if strings.HasPrefix(line, "\x00") {
			line = line[1:]
		} else {
			line = sp + ")" + Pick(c, "", "", " ") + strings.Replace(line, " ", Pick(c, " ", " ", "  ", "\t"), 1) + Pick(c, "", "", " ", " # comment", "\t#)base 5")
		}
		if c.Prob(2) && (k <= 11 && !(k <= 2 && strings.Contains(strings.SplitN(line, "#", 2)[0], "0") && !strings.Contains(line, "10")) || bad) {
			// From a file. (A file is read in base 0, which it cannot ask for.)
			tmp, err := os.CreateTemp("", "c23*.ivy")
			if err != nil {
				c.Fail("scratch file: %v", err)
			}
			defer os.Remove(tmp.Name())
			tmp.WriteString(Pick(c, "", "\n", "# a comment\n") + line + Pick(c, "", "\n"))
			tmp.Close()
			c.Step("file: " + line)
			line = ")get " + QuoteIvy(tmp.Name())
			c.Class("from a file")
		}
		hist = append(hist, line)
		_, e := s.Run(line)
		// Turn the noisy flags off again, after checking them.
		if bad {
			c.Class("illegal " + strings.Fields(line)[0])
			if e == "" {
				c.Fail("%q is accepted", line)
			}
		} else {
			c.Class(fmt.Sprint("kind ", k))
			if e != "" {
				c.Fail("%q: %s", line, e)
			}
			set()
		}
		noisy := m.debug["parse"]+m.debug["tokens"]+m.debug["trace"]+m.debug["types"]+m.debug["cpu"] > 0
		if noisy {
			out, e := s.Run(")debug")
			for _, d := range c23Debug {
				if e != "" || !strings.Contains(out, fmt.Sprintf("%s\t%d\n", d, m.debug[d])) {
					c.Fail(")debug reports %q, error %q, want %s %d", out, e, d, m.debug[d])
				}
			}
			for _, d := range c23Debug {
				s.Do(fmt.Sprintf(")debug %s 0", d))
				m.debug[d] = 0
			}
		}
		c23Report(c, s, m)
		c23Sys(c, s, m)
		for i := 0; i < 3; i++ {
			c23Probe(c, s, m)
		}
		m.vars["zz"] = 0
		s.Do("zz = 0")
	}
	if changed >= 3 {
		c.Key(strings.Join(hist, "\n"))
	}
}
