package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"

	. "verif.local/harness/h"
)

func strV(s string) *V {
	r := []rune(s)
	if len(r) == 1 {
		return Ch(r[0])
	}
	return Str(s)
}

func c20Rune(c *C) rune {
	switch c.Idx(6) {
	case 0:
		return rune(c.Range(32, 126))
	case 1:
		return Pick(c, '#', ';', ' ', '\t', '(', ')', '[', ']', '@', '.', '/', '%', ':', '=', '_', '-', '\'', '"', '`', '\\', '$', '~')
	case 2:
		return rune(c.Range(0x80, 0x2fff))
	case 3:
		return rune(c.Range(0x10000, 0x10ffff))
	case 4:
		return Pick(c, 'é', '世', '界', '\u00a0', '\u2028', '\u200d', '\ufeff', '\ufffd', '\u0301', '😀', '\U0010ffff', '\ud7ff', '\ue000', '\x7f', '\u0080')
	}
	return GenRune(c)
}

// c20Literal draws a string literal and what it denotes; ok is false if it is malformed.
func c20Literal(c *C) (src, val string, ok bool, class string) {
	q := Pick(c, "'", "\"", "`")
	n := c.Range(0, 8)
	var b strings.Builder
	var v []byte
	ok = true
	if q == "`" {
		for i := 0; i < n; i++ {
			r := c20Rune(c)
			if c.Prob(2) {
				r = Pick(c, '\n', '\\', '\'', '"')
			}
			if r == '`' || r == '\r' {
				continue
			}
			b.WriteRune(r)
			v = append(v, string(r)...)
		}
		return q + b.String() + q, string(v), true, "raw"
	}
	class = "plain"
	for i := 0; i < n; i++ {
		if c.Prob(9) {
			r := c20Rune(c)
			if string(r) == q || r == '\\' || r == '\n' || r == '\r' {
				continue
			}
			b.WriteRune(r)
			v = append(v, string(r)...)
			continue
		}
		class = "escapes"
		switch c.Idx(8) {
		case 0:
			p := Pick(c, [2]string{"a", "\a"}, [2]string{"b", "\b"}, [2]string{"f", "\f"}, [2]string{"n", "\n"}, [2]string{"r", "\r"}, [2]string{"t", "\t"}, [2]string{"v", "\v"}, [2]string{"\\", "\\"}, [2]string{q, q})
			b.WriteString("\\" + p[0])
			v = append(v, p[1]...)
		case 1:
			x := c.Range(0, 127)
			if c.Prob(2) {
				x = c.Range(128, 511)
			}
			fmt.Fprintf(&b, "\\%03o", x)
			if x > 255 {
				ok = false
			} else {
				v = append(v, byte(x))
			}
		case 2:
			x := c.Range(0, 127)
			if c.Prob(2) {
				x = c.Range(128, 255)
			}
			fmt.Fprintf(&b, Pick(c, "\\x%02x", "\\x%02X"), x)
			v = append(v, byte(x))
		case 3:
			r := c20Rune(c)
			if r > 0xffff {
				r = 'u'
			}
			fmt.Fprintf(&b, Pick(c, "\\u%04x", "\\u%04X"), r)
			v = append(v, string(r)...)
		case 4:
			r := c20Rune(c)
			fmt.Fprintf(&b, Pick(c, "\\U%08x", "\\U%08X"), r)
			v = append(v, string(r)...)
		case 5:
			// A character spelled as its bytes.
			for _, x := range []byte(string(c20Rune(c))) {
				fmt.Fprintf(&b, Pick(c, "\\x%02x", "\\%03o"), x)
				v = append(v, x)
			}
		case 6:
			if !c.Prob(5) {
				continue
			}
			other := "'"
			if q == "'" {
				other = "\""
			}
			b.WriteString(Pick(c, "\\q", "\\8", "\\x4g", "\\xg", "\\u12g4", "\\ud800", "\\udfff", "\\U00110000", "\\Uffffffff", "\\08z", "\\ ", "\\"+other, "\\1z", "\\12z", "\\é", "\\N", "\\x", "\\uD800\\uDC00", "\\400"))
			b.WriteString("z") // so that the escape is cut by neither the end nor what follows
			ok = false
		case 7:
			if c.Prob(1) {
				b.WriteString(Pick(c, "\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80"))
				v = append(v, 0xff)
			}
		}
	}
	if !utf8.Valid(v) {
		ok = false
	}
	return q + b.String() + q, string(v), ok, class
}

func TestC20_Literal(t *testing.T) {
	Check(t, "C20", 6000, "a string literal in any of the three quoting styles with characters of every plane, quotes, comment and separator characters, and every kind of escape, good and bad; it must denote exactly the code points it spells or be an error; printed, shown by text, converted to codes and back, and executed from quoted program text it must stay the same; non-trivial: well formed with at least two characters, distinct by source", func(c *C) {
		src, val, ok, class := c20Literal(c)
		s := NewSess(c)
		s.Do("zz = 5")
		if !ok {
			c.Class("malformed")
			_, e := s.Run("zz = " + src)
			if e == "" {
				c.Fail("%q is malformed but gives %v", src, s.Get("zz"))
			}
			if Diff(s.Get("zz"), Int(5)) != "" {
				c.Fail("the malformed %q was assigned: %v", src, s.Get("zz"))
			}
			return
		}
		c.Class(class)
		rs := []rune(val)
		if len(rs) >= 2 {
			c.Key(src)
		}
		want := strV(val)
		// What follows the literal must be seen as following it.
		pre := Pick(c, "", "yy = 1; ", "  ")
		post := Pick(c, "", " # 'comment\"", "; xx = 'after'", "\t", "\nxx = 'after'")
		if _, e := s.Run(pre + "zz = " + src + post); e != "" {
			c.Fail("%q: %s", src, e)
		}
		if d := Diff(s.Get("zz"), want); d != "" {
			c.Fail("%q is %v, want %v", src, s.Get("zz"), want)
		}
		if strings.Contains(post, "xx") && Diff(s.Get("xx"), Str("after")) != "" {
			c.Fail("after %q: the next statement was lost", src)
		}
		s.Do("s = zz")
		// Code points.
		var codes []*V
		for _, r := range rs {
			codes = append(codes, Int(int(r)))
		}
		if len(codes) == 1 {
			s.Want("code s", codes[0])
		} else {
			s.Want("code s", VecOf(codes...))
		}
		s.Want("char code s", want)
		n := len(rs)
		s.Want("count s", Int(n))
		// Printed.
		out, e := s.Run("s")
		w := val + "\n"
		if out != w || e != "" {
			c.Fail("printing %q gives %q, error %q", src, out, e)
		}
		if n != 1 {
			s.Want("text s", want)
		}
		out, _ = s.Run("qq = print s")
		if out != w {
			c.Fail("print %q gives %q", src, out)
		}
		// Executed as program text, quoted once and twice.
		s.Want("ivy "+QuoteIvy(src), want)
		if c.Bool() {
			s.Want("ivy "+QuoteIvy("ivy "+QuoteIvy(src)), want)
		}
		// In company.
		if n > 1 {
			s.Want(src+" , 'xy'", Str(val+"xy"))
			s.Want("'x' , "+src, Str("x"+val))
			s.Want("(1 2) "+src, VecOf(VecOf(Int(1), Int(2)), want))
			out, _ := s.Run("2 " + itoa(n) + " rho s")
			if out != val+"\n"+val+"\n" {
				c.Fail("two rows of %q print as %q", val, out)
			}
		}
		s.Want("s === "+QuoteIvy(val), Int(1))
	})
}

func itoa(n int) string { return fmt.Sprint(n) }

func TestC20_Code(t *testing.T) {
	Check(t, "C20", 3000, "char of integers around every boundary of the code space and of integer sizes, and of other numbers; valid code points give the character whose code is the number, all others are errors; non-trivial: every number", func(c *C) {
		s := NewSess(c)
		var x *V
		switch c.Idx(6) {
		case 0:
			x = Int(c.Range(-5, 0x110005))
		case 1:
			x = Int(Pick(c, 0, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, -1, 0x7f, 0x80, 0xff, 0x100, 1<<31-1, 1<<31, 1<<32, 1<<32+65, 1<<33+97, 1<<40+0x41, 1<<62+65))
		case 2:
			x = Int(Pick(c, 1<<32, -1<<32, 1<<31, 1<<16, -1<<31) + c.Range(0, 200))
		case 3:
			x = BI(GenInt(c))
		case 4:
			x = GenNum(c)
		case 5:
			x = Int(c.Range(0xd700, 0xe100))
		}
		s.Do("x = " + x.Src())
		c.Key(x.Src())
		n, isInt := x.AsInt()
		if isInt && n >= 0 && n <= utf8.MaxRune && !(n >= 0xd800 && n < 0xe000) {
			c.Class("valid")
			s.Want("char x", Ch(rune(n)))
			s.Want("code char x", Int(n))
			s.Want("char x x 65", VecOf(Ch(rune(n)), Ch(rune(n)), Ch('A')))
			out, e := s.Run("char x")
			if out != string(rune(n))+"\n" || e != "" {
				c.Fail("char %d prints %q, error %q", n, out, e)
			}
		} else {
			c.Class("invalid")
			s.WantErr("char x", "not a code point")
			s.WantErr("char 65 x", "not a code point")
		}
		s.WantErr("code x", "a number has no code")
		s.WantErr("char 'a'", "a char is not a number")
	})
}

func TestC20_Read(t *testing.T) {
	Check(t, "C20", 500, "a file of up to 12 lines of characters of every plane, empty ones, one-character ones and very long ones among them, ended by newlines or by carriage returns and newlines, with or without a final one: sys 'read' gives its lines as strings; a program file with string literals run by get assigns exactly those strings; non-trivial: at least two lines", func(c *C) {
		dir, err := os.MkdirTemp("", "c20")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		n := c.Range(0, 12)
		var lines []string
		var want []*V
		for i := 0; i < n; i++ {
			var b strings.Builder
			k := c.Range(2, 9)
			switch c.Idx(8) {
			case 0:
				k = 0
			case 1:
				k = 1
			case 2:
				if c.Prob(3) {
					k = 70000 // longer than any buffer
				}
			}
			for ; k > 0; k-- {
				r := c20Rune(c)
				if r == '\n' || r == '\r' {
					r = 'x'
				}
				b.WriteRune(r)
				if k > 10 {
					b.WriteString(strings.Repeat("y", k-10))
					k = 10
				}
			}
			lines = append(lines, b.String())
			want = append(want, Str(b.String()))
		}
		f := filepath.Join(dir, "f.txt")
		eol := "\n"
		if c.Prob(4) {
			eol = "\r\n"
		}
		text := strings.Join(lines, eol)
		if n > 0 && (c.Bool() || lines[n-1] == "") {
			text += eol
		}
		os.WriteFile(f, []byte(text), 0o644)
		c.Step("file f.txt: " + text)
		s := NewSess(c)
		s.Want("sys 'read' "+QuoteIvy(f), VecOf(want...))
		if n > 1 {
			c.Key(text)
		}
		var prog strings.Builder
		for i, l := range lines {
			fmt.Fprintf(&prog, "v%d = %s\n", i, QuoteIvy(l))
		}
		os.WriteFile(f, []byte(prog.String()), 0o644)
		s.Do(")get " + QuoteIvy(f))
		for i := range lines {
			if len(want[i].El) == 1 {
				want[i] = want[i].El[0]
			}
			if d := Diff(s.Get(fmt.Sprint("v", i)), want[i]); d != "" {
				c.Fail("read from a file, %s gives %v", QuoteIvy(lines[i]), s.Get(fmt.Sprint("v", i)))
			}
		}
		c.Class("files")
		s.WantErr("sys 'read' "+QuoteIvy(f+Pick(c, "x", "/x", " ", "é")), "no such file")
		s.WantErr("sys 'read' "+QuoteIvy(dir), "a directory")
		if g := ")get " + QuoteIvy(f+Pick(c, "x", "/x", " ", "é")); true {
			if _, e := s.Run(g); e == "" {
				c.Fail("%s of no file: no error", g)
			}
		}
		s.WantErr(Pick(c, "ivy 1 2", "ivy 'a' 3", "ivy 3", "ivy 2 2 rho '1234'", "ivy ('ab' 'cd')", "ivy 1 'a'", "sys 1 2", "sys 'a' 3", "sys 3", "sys 'nosuch'", "sys 'read' 3", "sys 'read' 1 2"), "not text")
	})
}
