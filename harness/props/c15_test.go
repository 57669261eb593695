package props

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"time"

	. "verif.local/harness/h"
)

var c15F = regexp.MustCompile(`^-?\d+(\.(\d+))?$`)
var c15E = regexp.MustCompile(`^-?(\d)(\.(\d+))?[eE][-+]\d\d+$`)

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(n, -n))), nil)
	if n < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), p)
	}
	return new(big.Rat).SetInt(p)
}

// exp10 is the decimal exponent of x: 10**e <= |x| < 10**(e+1).
func exp10(x *big.Rat) int {
	a := new(big.Rat).Abs(x)
	e := int(float64(a.Num().BitLen()-a.Denom().BitLen()) * 0.30103)
	for pow10(e).Cmp(a) > 0 {
		e--
	}
	for pow10(e+1).Cmp(a) <= 0 {
		e++
	}
	return e
}

// decOK says what is wrong with out as the text of x in verb and precision; units is
// how many half units of the last place it may be off.
func decOK(out string, verb byte, prec int, x *big.Rat, halves int64) string {
	up := verb >= 'A' && verb <= 'Z'
	if up && strings.Contains(out, "e") || !up && strings.Contains(out, "E") {
		return "exponent in the wrong case"
	}
	v, ok := new(big.Rat).SetString(out)
	if !ok {
		return "not a number"
	}
	e := 0
	if x.Sign() != 0 {
		e = exp10(x)
	}
	last := 0 // exponent of the last place
	isE := strings.ContainsAny(out, "eE")
	switch verb | ' ' {
	case 'f':
		m := c15F.FindStringSubmatch(out)
		if m == nil || len(m[2]) != prec {
			return fmt.Sprintf("not in %%.%df form", prec)
		}
		last = -prec
	case 'e':
		m := c15E.FindStringSubmatch(out)
		if m == nil || len(m[3]) != prec {
			return fmt.Sprintf("not in %%.%de form", prec)
		}
		last = e - prec
		if x.Sign() != 0 && m[1] == "0" {
			return "leading zero"
		}
	case 'g':
		if prec == 0 {
			prec = 1
		}
		last = e - prec + 1
		if strings.Contains(out, ".") {
			mant := strings.FieldsFunc(out, func(r rune) bool { return r == 'e' || r == 'E' })[0]
			if strings.HasSuffix(mant, "0") {
				return "trailing zero"
			}
		}
		if isE && !c15E.MatchString(out) || !isE && !c15F.MatchString(out) {
			return fmt.Sprintf("not in %%.%dg form", prec)
		}
		// The choice of form, except next to a power of ten, where rounding decides.
		if x.Sign() != 0 && exp10(v) == e {
			if want := e < -4 || e >= prec; want != isE {
				return fmt.Sprintf("exponent %d in the wrong form for %%.%dg", e, prec)
			}
		}
	}
	d := new(big.Rat).Sub(v, x)
	d.Abs(d)
	tol := new(big.Rat).Mul(pow10(last), big.NewRat(halves, 2))
	tol.Mul(tol, big.NewRat(1000001, 1000000))
	if d.Cmp(tol) > 0 {
		return "off by more than the last place"
	}
	return ""
}

func c15Rat(c *C) *big.Rat {
	switch c.Idx(6) {
	case 0:
		return new(big.Rat).SetInt64(int64(c.Range(-1000, 1000)))
	case 1: // around powers of ten
		e := c.Range(-25, 25)
		r := pow10(e)
		d := new(big.Rat).Mul(r, pow10(-c.Range(1, 15)))
		d.Mul(d, big.NewRat(int64(c.Range(-5, 5)), int64(c.Range(1, 5))))
		r.Add(r, d)
		r.Mul(r, big.NewRat(int64(Pick(c, 1, 1, 2, 5, -1)), 1))
		return r
	case 2: // halves of a place
		r := new(big.Rat).SetFrac64(int64(c.Range(-20000, 20000)), int64(Pick(c, 2, 4, 8, 20, 200, 2000, 2000000)))
		return r
	case 3:
		return new(big.Rat).SetInt(GenInt(c))
	default:
		return GenRat(c)
	}
}

func TestC15_Floats(t *testing.T) {
	Check(t, "C15", 3000, "a floating-point format (verbs eEfFgG, 0 to 30 digits) set with )format and integers, rationals and complex numbers of any size, near powers of ten and halves of a place: the text has the form of the verb and differs from the exact value by less than one unit of its last place (half a unit for %f); non-trivial: not a small integer, distinct by format and number", func(c *C) {
		verb := byte(Pick(c, 'e', 'E', 'f', 'F', 'g', 'G', 'g', 'f', 'e'))
		prec := Pick(c, 0, 1, 2, 3, 6, 12, 30, c.Range(0, 20))
		f := fmt.Sprintf("%%.%d%c", prec, verb)
		if c.Prob(2) {
			f, prec = fmt.Sprintf("%%%c", verb), 6
		}
		s := NewSess(c)
		s.Do(fmt.Sprintf(")format %q", f))
		if c.Prob(4) {
			s.Do(fmt.Sprintf(")obase %d", Pick(c, 2, 16, 10)))
		}
		x := c15Rat(c)
		src := Rat(x).Src()
		parts := []*big.Rat{x}
		if c.Prob(3) {
			y := c15Rat(c)
			if y.Sign() != 0 {
				parts = append(parts, y)
				src = Cx(x, y).Src()
			}
		}
		out, e := s.Run(src)
		out = strings.TrimSpace(out)
		if e != "" {
			c.Fail("%s in %s: %s", src, f, e)
		}
		c.Key(f + src)
		txt := strings.Split(out, "j")
		if len(txt) != len(parts) {
			c.Fail("%s in %s prints as %s", src, f, out)
		}
		for i, p := range parts {
			halves := int64(2)
			if verb|' ' == 'f' {
				halves = 1
			}
			if d := decOK(txt[i], verb, prec, p, halves); d != "" {
				c.Fail("%s in %s prints as %s: %s", p.RatString(), f, txt[i], d)
			}
		}
		c.Class(fmt.Sprintf("%c", verb|' '))
		v := Pick(c, "text", "print", "x")
		if v == "text" {
			s.Want("text "+src, Str(out))
		} else if v == "print" {
			if o, _ := s.Run("print " + src); strings.TrimSpace(o) != out {
				c.Fail("print %s shows %q, but the value alone %q", src, o, out)
			}
		}
	})
}

func TestC15_BigFloats(t *testing.T) {
	Check(t, "C15", 1500, "floats of every magnitude (2**±60 to 2**±2,000,000, and powers of ten), positive and negative, at several precisions, printed by default (12 digits) and, below 10**3000, in floating-point formats: the text is the exact value of the float rounded to its last place; non-trivial: every case, distinct by expression", func(c *C) {
		s := NewSess(c)
		prec := Pick(c, 100, 256, 256, 256, 1000)
		s.Do(fmt.Sprintf(")prec %d", prec))
		k := Pick(c, 0, 1, 5, 12, 40, 300, 3000, 3010, 10000, 20000, 100000, c.Range(0, 600000))
		if c.Bool() {
			k = -k
		}
		base := Pick(c, "10", "10", "2", "7", "3/2", "10", "1/10")
		src := fmt.Sprintf("%s(float %s) ** %d", Pick(c, "", "", "-", "(sqrt 2) * ", "(float 1/3) * ", "(-sqrt 7) * ", "1e-5*", "9.99999999999 * ", "(float 9999999999995/1000000000000) * ", "(float 9.9999999999949) * ", "(float 1.00000000000050001) * "), base, k)
		v, e := s.Eval(src)
		if e != "" {
			c.Fail("%s: %s", src, e)
		}
		c.Key(src)
		verb, dig := byte('g'), 12
		if v.K == Num && v.Re.IsInt() {
			return // became an integer
		}
		var x *big.Rat
		bits := 0
		if v.K == Num {
			x = v.Re
		} else {
			bits = v.Float().MantExp(nil)
		}
		if bits > -10000 && bits < 10000 {
			if v.K != Num {
				x, _ = v.Float().Rat(nil)
			}
			if c.Bool() {
				verb, dig = byte(Pick(c, 'e', 'f', 'g', 'G', 'E')), c.Range(0, 40)
				s.Do(fmt.Sprintf(")format %q", fmt.Sprintf("%%.%d%c", dig, verb)))
			} else if v.K == Num {
				return
			}
		}
		out, e := s.Run("zz")
		out = strings.TrimSpace(out)
		if x != nil {
			h := int64(1)
			if v.K == Num && verb|' ' != 'f' {
				h = 2
			}
			if verb|' ' == 'g' && dig == 0 {
				dig = 1
			}
			c.Class("exact")
			if d := decOK(out, verb, dig, x, h); d != "" {
				c.Fail("%s in %%.%d%c prints as %s: %s", src, dig, verb, out, d)
			}
			return
		}
		// Huge: compare as floats with more than enough precision.
		c.Class("huge")
		m := c15E.FindStringSubmatch(out)
		if m == nil || m[1] == "0" || len(m[3]) > 11 {
			c.Fail("%s prints as %q, not in %%.12g form", src, out)
		}
		g, _, err := big.ParseFloat(out, 10, 400, big.ToNearestEven)
		if err != nil {
			c.Fail("%s prints as %q: %v", src, out, err)
		}
		d := new(big.Float).SetPrec(400).Sub(g, v.Float())
		d.Quo(d, v.Float())
		lim := 5.0001e-12
		if q, _ := d.Float64(); q > lim || q < -lim {
			c.Fail("%s prints as %q: off by %g", src, out, q)
		}
	})
}

// inBase writes n in the base (0 is 10).
func inBase(n *big.Int, base int) string {
	if base == 0 {
		base = 10
	}
	return n.Text(base)
}

func TestC15_Bases(t *testing.T) {
	Check(t, "C15", 4000, "an input base, an output base (each 0 or 2 to 16), and an integer, rational or complex of any size or a vector of them, written in the input base (upper or lower case, signs, leading zeros, C-style prefixes in base 0): it denotes the number its digits spell, prints as its digits in the output base (large ones in 0 2 8 10 16, else an error) and reads back as itself in that base; a digit not below the base is an error; non-trivial: a base other than 10, distinct by bases and text", func(c *C) {
		ib := Pick(c, 0, 2, 3, 7, 8, 9, 10, 11, 12, 13, 15, 16, 16)
		ob := Pick(c, 0, 2, 3, 7, 8, 9, 10, 11, 12, 13, 15, 16, 16)
		s := NewSess(c)
		cmds := []string{fmt.Sprintf(")ibase %d", ib), fmt.Sprintf(")obase %d", ob)}
		if ib == ob && c.Bool() {
			cmds = []string{fmt.Sprintf(")base %d", ib)}
		} else if c.Bool() {
			cmds[0], cmds[1] = cmds[1], cmds[0]
		}
		for _, x := range cmds {
			s.Do(x)
		}
		wr := func(n *big.Int) string {
			t := inBase(new(big.Int).Abs(n), ib)
			if c.Prob(4) {
				t = strings.ToUpper(t)
			}
			switch {
			case ib == 0 && n.Sign() != 0 && c.Prob(4):
				a := new(big.Int).Abs(n)
				t = Pick(c, "0x"+a.Text(16), "0"+a.Text(8), "0x"+strings.ToUpper(a.Text(16)))
			case ib != 0 && c.Prob(2):
				t = "00" + t
				if ib <= 10 {
					t = "0" + t
				}
			}
			if n.Sign() < 0 {
				t = "-" + t
			}
			return t
		}
		bigPart := false
		exact := func(n *big.Int) string {
			if n.BitLen() >= 32 {
				switch ob {
				case 0, 2, 8, 10, 16:
				default:
					bigPart = true
				}
			}
			return inBase(n, ob)
		}
		n := Pick(c, 1, 1, 1, 2, 5)
		var in, want []string
		var val []*V
		for i := 0; i < n; i++ {
			x := Rat(GenRat(c))
			if c.Bool() {
				x = BI(GenInt(c))
			}
			if c.Prob(5) {
				x = Int(c.Range(-300, 300))
			}
			rat := func(r *big.Rat) (string, string) {
				a, b := wr(r.Num()), exact(r.Num())
				if !r.IsInt() {
					a += "/" + wr(r.Denom())
					b += "/" + exact(r.Denom())
				}
				return a, b
			}
			a, b := rat(x.Re)
			if c.Prob(2) {
				y := GenRat(c)
				if y.Sign() != 0 {
					a2, b2 := rat(y)
					a, b = a+"j"+a2, b+"j"+b2
					x = Cx(x.Re, y)
				}
			}
			in = append(in, a)
			want = append(want, b)
			val = append(val, x)
		}
		v := val[0]
		if n > 1 {
			v = VecOf(val...)
		}
		src := strings.Join(in, " ")
		if ib != 10 || ob != 10 {
			c.Key(fmt.Sprint(ib, ob, src))
		}
		c.Class(fmt.Sprint("ibase ", ib))
		s.Want(src, v)
		out, e := s.Run("zz")
		out = strings.TrimSpace(out)
		if bigPart {
			c.Class("no print")
			if e == "" && out != strings.Join(want, " ") {
				c.Fail("%s in obase %d prints as %s, want %s or an error", src, ob, out, strings.Join(want, " "))
			}
			return
		}
		if e != "" || out != strings.Join(want, " ") {
			c.Fail("%s in ibase %d, obase %d prints as %s %s, want %s", src, ib, ob, out, e, strings.Join(want, " "))
		}
		s.Do(fmt.Sprintf(")ibase %d", ob))
		s.Want(out, v)
		// A digit that is not below the base.
		if ob >= 2 && ob <= 9 {
			bad := Pick(c, "1%d1", "%d", "1%d", "-%d", "1/%d", "%d/3")
			s.WantErr(fmt.Sprintf(bad, Pick(c, ob, 9)), "not a digit of the base")
		}
	})
}

func c15IntVerb(c *C) string {
	return "%" + Pick(c, "", "", "+", "#", "0", "-", " ") + Pick(c, "", "", "3", "8", "12") + Pick(c, "d", "d", "x", "X", "o", "b", "v")
}

func TestC15_Format(t *testing.T) {
	Check(t, "C15", 2500, "an integer format (verbs d x X o b v with flags, width, text around), set by )format or given to text, and integers, rationals, floats and vectors of them: exactly what Go's fmt gives for the exact integer (rationals: numerator / denominator, each in the format); also text with a count of decimals, width and decimals, and with a verb; non-trivial: every case, distinct by format and value", func(c *C) {
		s := NewSess(c)
		f := c15IntVerb(c)
		if strings.Contains(f, "#") && strings.Contains(f, "o") {
			f = strings.Replace(f, "#", "", 1) // Go's int and big.Int differ for zero
		}
		if c.Prob(3) {
			f = Pick(c, "<", "a ", "", "%%", "50%% ", "%%%%|") + f + Pick(c, ">", "", "%%")
		}
		n := Pick(c, 1, 1, 2, 4)
		var src, want []string
		for i := 0; i < n; i++ {
			r := new(big.Rat).SetInt(GenInt(c))
			if c.Prob(5) {
				r = GenRat(c)
			}
			src = append(src, Rat(r).Src())
			if r.IsInt() {
				want = append(want, fmt.Sprintf(f, r.Num()))
			} else if strings.Contains(f, "v") {
				want = append(want, "")
			} else {
				want = append(want, fmt.Sprintf(f, r.Num())+"/"+fmt.Sprintf(f, r.Denom()))
			}
		}
		expr := strings.Join(src, " ")
		w := strings.Join(want, " ")
		c.Key(f + expr)
		if strings.Contains(f, "v") && (strings.Contains(expr, "/") || len(f) > 2) {
			return // %v is for the default form
		}
		if c.Bool() {
			c.Class("set")
			s.Do(fmt.Sprintf(")format %q", f))
			out, e := s.Run(expr)
			if e != "" || strings.TrimRight(out, " \n") != strings.TrimRight(w, " ") {
				c.Fail("%s in format %q prints as %q %s, want %q", expr, f, out, e, w)
			}
			return
		}
		switch c.Idx(3) {
		case 0:
			c.Class("text")
			s.Want(fmt.Sprintf("%q text %s", f, expr), Str(w))
		case 1:
			c.Class("text bare")
			g := Pick(c, "d", "x", "5d", "+d", "o", "X")
			r := new(big.Rat).SetInt(GenInt(c))
			s.Want(fmt.Sprintf("%q text %s", g, "0 + "+Rat(r).Src()), Str(fmt.Sprintf("%"+g, r.Num())))
		case 2:
			c.Class("text decimals")
			dec, wid := c.Range(0, 20), c.Range(1, 30)
			r := c15Rat(c)
			left, verb, width := fmt.Sprint(dec), byte('f'), 0
			switch c.Idx(3) {
			case 1:
				left, width = fmt.Sprint(wid, " ", dec), wid
			case 2:
				verb = byte(Pick(c, 'e', 'f', 'g'))
				left, width = fmt.Sprintf("%d %d '%c'", wid, dec, verb), wid
			}
			if r.Num().BitLen() > 200 || r.Denom().BitLen() > 200 {
				return
			}
			got := s.Must(left + " text " + Rat(r).Src())
			str := ""
			for _, x := range got.El {
				str += string(x.R)
			}
			if len(str) < width || len(str) > width && strings.HasPrefix(str, " ") {
				c.Fail("%s text %s gives %q, not %d wide", left, r.RatString(), str, width)
			}
			if verb == 'g' && dec == 0 {
				dec = 1
			}
			if d := decOK(strings.TrimSpace(str), verb, dec, r, 1); d != "" {
				c.Fail("%s text %s gives %q: %s", left, r.RatString(), str, d)
			}
		}
	})
}

func TestC15_Text(t *testing.T) {
	Check(t, "C15", 1500, "text with a format (verbs d x X o b c U s q t T f e with flags, width, text and %% around) applied to integers, characters, strings, mixed vectors and matrices of rank 2 to 4: each element is what Go's fmt gives for it (numbers as code points for c U s q, truth for t, the UTC date for T), a string is one unit for s q x X, elements are separated by blanks, rows by a newline and blocks by one more for each level; non-trivial: every case, distinct by format and value", func(c *C) {
		s := NewSess(c)
		verb := Pick(c, "d", "x", "X", "o", "b", "c", "U", "s", "q", "t", "T", "d", "c", "f", "e")
		mid := Pick(c, "", "", "", "3", "8", "-6", "+", "0")
		if verb == "t" || verb == "T" || verb == "c" || verb == "s" || verb == "q" || verb == "U" {
			mid = strings.Trim(mid, "+0")
		}
		dec := ""
		if verb == "f" || verb == "e" {
			dec = Pick(c, ".0", ".2", ".10")
		}
		f := "%" + mid + dec + verb
		switch c.Idx(5) {
		case 0:
			f = Pick(c, "<", "a ", "%%", "50%% ", "%%%%|", "é") + f
		case 1:
			f += Pick(c, ">", "%%", " b", "%%%%", ".")
		case 2:
			f = Pick(c, "[", "%% ") + f + Pick(c, "]", " %%")
		}
		if c.Prob(1) {
			bad := Pick(c, "(2 2 rho 'a')", "1 2 3 4", "'a' 3", "(3 'g' 2)", "('g' 3)", "3.5", "1 2.5", "1/2", "(1 2) 3", "'%'", "'%%'", "'abc'", "'%5'", "'%y'", "'%.y'")
			s.WantErr(bad+" text "+Pick(c, "3", "'a'", "1 2", "(2 2 rho 1)", "3/2"), "not a format")
		}
		elem := func() (*V, string) {
			if verb == "T" {
				n := int64(c.Range(-2000000000, 2000000000))
				g := strings.Replace(f, verb, "s", 1)
				if i := strings.LastIndex(f, "%"+mid+"T"); i >= 0 {
					g = f[:i] + "%" + mid + "s" + f[i+len(mid)+2:]
				}
				return I(n), fmt.Sprintf(g, time.Unix(n, 0).UTC().Format(time.UnixDate))
			}
			if verb == "t" {
				n := int64(c.Range(0, 2))
				return I(n), fmt.Sprintf(f, n != 0)
			}
			if c.Prob(6) {
				r := GenRune(c)
				switch verb {
				case "c", "U", "d", "x", "X", "o", "b":
					return Ch(r), fmt.Sprintf(f, r)
				case "s", "q":
					return Ch(r), fmt.Sprintf(f, string(r))
				}
				return Ch(r), fmt.Sprintf(f, float64(r))
			}
			switch verb {
			case "c", "U", "s", "q":
				r := GenRune(c)
				if verb == "s" || verb == "q" {
					return I(int64(r)), fmt.Sprintf(f, string(r))
				}
				return I(int64(r)), fmt.Sprintf(f, r)
			case "f", "e":
				n := c.Range(-1000000, 1000000)
				if m := c.Range(-1000000, 1000000); m != 0 && c.Prob(3) {
					g := func(n int) string { return fmt.Sprintf(f, new(big.Float).SetPrec(256).SetFloat64(float64(n)/8)) }
					return Cx(big.NewRat(int64(n), 8), big.NewRat(int64(m), 8)), g(n) + "j" + g(m)
				}
				return Frac(int64(n), 8), fmt.Sprintf(f, new(big.Float).SetPrec(256).SetFloat64(float64(n)/8))
			}
			n := GenInt(c)
			if m := GenInt(c); m.Sign() != 0 && c.Prob(3) {
				return Cx(new(big.Rat).SetInt(n), new(big.Rat).SetInt(m)), fmt.Sprintf(f, n) + "j" + fmt.Sprintf(f, m)
			}
			if v := BI(n); strings.Contains("dob", verb) && v.CanFloat() && c.Prob(3) {
				// Floats are truncated to integers.
				if q := int64(c.Range(1, 3)); c.Bool() {
					v = Rat(new(big.Rat).SetFrac(n, big.NewInt(1<<q)))
					n = new(big.Int).Quo(n, big.NewInt(1<<q))
				}
				if v.CanFloat() {
					return v.AsFloat(), fmt.Sprintf(f, n)
				}
			}
			return BI(n), fmt.Sprintf(f, n)
		}
		s.Do(`)timezone "UTC"`)
		shape := []int{}
		switch c.Idx(4) {
		case 1:
			shape = []int{c.Range(2, 6)}
		case 2:
			shape = []int{c.Range(1, 3), c.Range(1, 4)}
		case 3:
			for k := c.Range(2, 4); k > 0; k-- {
				shape = append(shape, c.Range(1, 3))
			}
		}
		n := 1
		for _, d := range shape {
			n *= d
		}
		var vals []*V
		var b strings.Builder
		for i := 0; i < n; i++ {
			v, t := elem()
			vals = append(vals, v)
			if i > 0 {
				sep := " "
				p := 1
				nl := ""
				for k := len(shape) - 1; k > 0; k-- {
					p *= shape[k]
					if i%p == 0 {
						nl += "\n"
					}
				}
				if nl != "" {
					sep = nl
				}
				b.WriteString(sep)
			}
			b.WriteString(t)
		}
		var v *V
		want := b.String()
		switch len(shape) {
		case 0:
			v = vals[0]
		case 1:
			v = VecOf(vals...)
			str := ""
			chars := true
			for _, e := range vals {
				if e.K != Chr {
					chars = false
					break
				}
				str += string(e.R)
			}
			if chars && strings.Contains("boqsxX", verb) {
				if verb == "b" || verb == "o" {
					return
				}
				want = fmt.Sprintf(f, str)
			}
		default:
			v = MatOf(shape, vals)
		}
		c.Key(f + v.Src())
		c.Class("%" + verb)
		s.Want(QuoteIvy(f)+" text "+v.Src(), Str(want))
	})
}

// c15Show is the text of a scalar in the output base.
func c15Show(v *V, ob int) string {
	rat := func(r *big.Rat) string {
		if r.IsInt() {
			return inBase(r.Num(), ob)
		}
		return inBase(r.Num(), ob) + "/" + inBase(r.Denom(), ob)
	}
	if v.K == Chr {
		return string(v.R)
	}
	if v.Im.Sign() != 0 {
		return rat(v.Re) + "j" + rat(v.Im)
	}
	return rat(v.Re)
}

func TestC15_Layout(t *testing.T) {
	Check(t, "C15", 2000, "vectors and matrices (rank 2 to 5) of integers, rationals and complex numbers in several bases, strings and character matrices, and nested vectors: the printed text holds exactly the elements' texts in row order, rows of a matrix on lines of their own with every column's right edge aligned, blocks separated by blank lines; nested vectors read back as themselves; text gives the same text; non-trivial: at least two elements, distinct by value", func(c *C) {
		s := NewSess(c)
		ob := Pick(c, 0, 10, 10, 16, 2, 8)
		kind := c.Idx(5)
		elem := func() *V {
			switch c.Idx(5) {
			case 0:
				return Rat(GenRat(c))
			case 1:
				return BI(GenInt(c))
			case 2:
				if c.Prob(4) {
					return Cx(GenRat(c), big.NewRat(int64(c.Range(1, 9)), int64(c.Range(1, 5))))
				}
				fallthrough
			default:
				return Int(c.Range(-99, 200))
			}
		}
		show := func(v *V) string {
			_, e := s.Run("x = " + v.Src())
			if e != "" {
				c.Fail("%s: %s", v.Src(), e)
			}
			s.Do(fmt.Sprintf(")obase %d", ob))
			out, e := s.Run("x")
			if e != "" {
				c.Fail("printing %s: %s", v, e)
			}
			out = strings.TrimSuffix(out, "\n")
			if c.Prob(5) {
				if po, _ := s.Run("print x"); strings.TrimRight(po, "\n") != strings.TrimRight(out, "\n") {
					c.Fail("print x shows %q, x alone %q", po, out)
				}
				s.Want("text x", Str(out))
			}
			return out
		}
		switch kind {
		case 0:
			n := GenLen(c, c.Prob(3))
			if n < 2 {
				n = 2
			}
			var el []*V
			var w []string
			for i := 0; i < n; i++ {
				x := elem()
				el = append(el, x)
				w = append(w, c15Show(x, ob))
			}
			v := VecOf(el...)
			c.Key(v.Src() + fmt.Sprint(ob))
			c.Class("vector")
			if out := show(v); out != strings.Join(w, " ") {
				c.Fail("prints as %q, want %q", out, strings.Join(w, " "))
			}
		case 1, 2:
			sh := []int{c.Range(1, 5), c.Range(1, 6)}
			for c.Prob(5) && len(sh) < 5 {
				sh = append([]int{c.Range(1, 3)}, sh...)
			}
			n := 1
			for _, d := range sh {
				n *= d
			}
			var el []*V
			for i := 0; i < n; i++ {
				el = append(el, elem())
			}
			v := MatOf(sh, el)
			c.Key(v.Src() + fmt.Sprint(ob))
			c.Class(fmt.Sprint("rank ", len(sh)))
			c15Matrix(c, v, show(v), ob)
		case 3:
			var el []*V
			sh := []int{c.Range(1, 4), c.Range(1, 8)}
			if c.Prob(3) {
				sh = append([]int{c.Range(1, 3)}, sh...)
			}
			n := 1
			for _, d := range sh {
				n *= d
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				r := Pick(c, 'a', 'z', 'B', '0', '.', '(', ' ', '|', 'é', '日', '\'', '"', '#')
				if i > 0 && i%sh[len(sh)-1] == 0 {
					b.WriteByte('\n')
					if len(sh) == 3 && i%(sh[1]*sh[2]) == 0 {
						b.WriteByte('\n')
					}
				}
				b.WriteRune(r)
				el = append(el, Ch(r))
			}
			v := MatOf(sh, el)
			if c.Bool() {
				v = VecOf(el[:sh[len(sh)-1]]...)
				if len(v.El) == 1 {
					return
				}
			}
			c.Key(v.Src())
			c.Class("text")
			w := b.String()
			if v.K == Vec {
				w = strings.SplitN(w, "\n", 2)[0]
			}
			if out := show(v); strings.TrimRight(out, "\n") != strings.TrimRight(w, "\n") {
				c.Fail("prints as %q, want %q", out, w)
			}
		case 4:
			v := c15Nest(c, elem, 0)
			c.Key(v.Src() + fmt.Sprint(ob))
			c.Class("nested")
			out := show(v)
			if w := c15NestText(v, ob, true); out != w {
				c.Fail("prints as %q, want %q", out, w)
			}
			s.Do(fmt.Sprintf(")ibase %d", ob))
			s.Want(out, v)
		}
	})
}

func c15Nest(c *C, elem func() *V, depth int) *V {
	n := c.Range(2, 4)
	v := VecOf()
	for i := 0; i < n; i++ {
		if depth < 3 && c.Prob(7-depth) {
			v.El = append(v.El, c15Nest(c, elem, depth+1))
		} else {
			v.El = append(v.El, elem())
		}
	}
	return v
}

func c15NestText(v *V, ob int, top bool) string {
	if v.K != Vec {
		return c15Show(v, ob)
	}
	var w []string
	for _, e := range v.El {
		w = append(w, c15NestText(e, ob, false))
	}
	t := strings.Join(w, " ")
	if top {
		return t
	}
	return "(" + t + ")"
}

func c15Matrix(c *C, v *V, out string, ob int) {
	cols := v.Shape[len(v.Shape)-1]
	rowsPer := v.Shape[len(v.Shape)-2]
	row := 0
	var edges []int
	blank := false
	for _, line := range strings.Split(out, "\n") {
		if strings.TrimSpace(line) == "" {
			if row%rowsPer != 0 {
				c.Fail("blank line inside a block:\n%s", out)
			}
			blank = true
			continue
		}
		if len(v.Shape) > 3 && strings.HasSuffix(line, "]:") {
			blank = true
			continue
		}
		if row > 0 && row%rowsPer == 0 && !blank {
			c.Fail("no blank line between blocks:\n%s", out)
		}
		blank = false
		f := strings.Fields(line)
		if len(f) != cols {
			c.Fail("row %d has %d elements, want %d:\n%s", row, len(f), cols, out)
		}
		var ends []int
		pos := 0
		for j, x := range f {
			i := row*cols + j
			if i >= len(v.El) {
				c.Fail("too many rows:\n%s", out)
			}
			if w := c15Show(v.El[i], ob); x != w {
				c.Fail("element %d prints as %s, want %s:\n%s", i, x, w, out)
			}
			k := strings.Index(line[pos:], x)
			pos += k + len(x)
			ends = append(ends, pos)
		}
		if row%rowsPer == 0 {
			edges = ends
		} else {
			for j := range ends {
				if ends[j] != edges[j] {
					c.Fail("column %d is not aligned in row %d:\n%s", j, row, out)
				}
			}
		}
		row++
	}
	if row*cols != len(v.El) {
		c.Fail("%d rows of %d, but %d elements:\n%s", row, cols, len(v.El), out)
	}
}
