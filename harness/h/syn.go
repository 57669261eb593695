package h

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Syn is an expression with its documented grouping, which can be written
// out in full or with as few parentheses and spaces as the rules allow.
type Syn struct {
	K   string // lit var un bin idx vec asg
	T   string // text of a literal, name of a variable, operator
	V   *V     // value of a literal
	A   *Syn   // left operand, indexed expression
	B   *Syn   // right operand
	L   []*Syn // elements, indexes (nil: omitted)
	Red bool   // T is the operator of a reduction
}

// Env is what the reference evaluation of a Syn knows.
type Env struct {
	Vars   map[string]*V
	Origin int
	writes int
}

// SynErr is an error the expression must give; Skip means the model cannot say.
type SynErr struct {
	Skip bool
	Msg  string
}

func (env *Env) chk(r Res) *V {
	if r.Skip {
		panic(SynErr{Skip: true})
	}
	if r.Err != "" {
		panic(SynErr{Msg: r.Err})
	}
	if r.V.Size() > 200 || r.V.Bits() > 5000 {
		panic(SynErr{Skip: true})
	}
	return r.V
}

var synElem = map[string]bool{"+": true, "-": true, "*": true, "/": true, "min": true, "max": true, "==": true, "!=": true, "<": true, ">": true, "<=": true, ">=": true,
	"**": true, "mod": true, "div": true, "and": true, "or": true, "^": true, "&": true, "|": true, "<<": true, ">>": true, "!": true}

// Try evaluates s: a value, or whether it is an error, or skip.
func (env *Env) Try(s *Syn) (v *V, err string, skip bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case SynErr:
			v, err, skip = nil, x.Msg, x.Skip
		default:
			panic(x)
		}
	}()
	return env.Eval(s), "", false
}

// Eval is the right to left evaluation of s.
func (env *Env) Eval(s *Syn) *V {
	switch s.K {
	case "lit":
		return s.V
	case "var":
		v := env.Vars[s.T]
		if v == nil {
			panic(SynErr{Msg: "undefined"})
		}
		return v
	case "vec":
		el := make([]*V, len(s.L))
		for i := len(s.L) - 1; i >= 0; i-- {
			el[i] = env.Eval(s.L[i])
		}
		return VecOf(el...)
	case "asg":
		v := env.Eval(s.B)
		env.Vars[s.T] = v
		env.writes++
		return v
	case "idx":
		idx := make([]*V, len(s.L))
		for i := len(s.L) - 1; i >= 0; i-- {
			if s.L[i] != nil {
				idx[i] = env.Eval(s.L[i])
			}
		}
		w := env.writes
		a := env.Eval(s.A)
		r := Index(a, idx, env.Origin)
		if a.Scalar() || r.Err != "" && env.writes != w {
			panic(SynErr{Skip: true}) // a bad index may be seen before a is evaluated
		}
		return env.chk(r)
	case "un":
		b := env.Eval(s.B)
		if s.Red {
			if b.Scalar() || len(b.Dims()) != 1 || len(b.El) == 0 {
				panic(SynErr{Skip: true})
			}
			acc := b.El[len(b.El)-1]
			for i := len(b.El) - 2; i >= 0; i-- {
				acc = env.binary(s.T, b.El[i], acc)
			}
			return acc
		}
		if !CheapUnary(s.T, b) {
			panic(SynErr{Skip: true})
		}
		switch s.T {
		case "-", "+", "/", "not", "abs", "sgn", "floor", "ceil", "!", "^":
			return env.chk(ElemUnary(s.T, b))
		}
		return env.chk(StructUnary(s.T, b, env.Origin))
	case "bin":
		b := env.Eval(s.B)
		a := env.Eval(s.A)
		return env.binary(s.T, a, b)
	}
	panic("bad syntax " + s.K)
}

func (env *Env) binary(op string, a, b *V) *V {
	if f, g, ok := strings.Cut(op, "."); ok {
		// Products, of vectors only.
		if a.K != Vec || b.K != Vec || len(a.El) == 0 || len(b.El) == 0 || f != "o" && len(a.El) != len(b.El) {
			panic(SynErr{Skip: true})
		}
		if f == "o" {
			var el []*V
			for _, x := range a.El {
				for _, y := range b.El {
					el = append(el, env.binary(g, x, y))
				}
			}
			return MatOf([]int{len(a.El), len(b.El)}, el)
		}
		n := len(a.El)
		acc := env.binary(g, a.El[n-1], b.El[n-1])
		for i := n - 2; i >= 0; i-- {
			acc = env.binary(f, env.binary(g, a.El[i], b.El[i]), acc)
		}
		return acc
	}
	if !CheapBinary(op, a, b) {
		panic(SynErr{Skip: true})
	}
	if synElem[op] {
		return env.chk(ElemBinary(op, a, b))
	}
	if op == "in" || op == "===" || op == "!==" {
		return env.chk(SetBinary(op, a, b, env.Origin))
	}
	return env.chk(StructBinary(op, a, b, env.Origin))
}

// Full writes s with every grouping in parentheses.
func (s *Syn) Full() string {
	switch s.K {
	case "lit", "var":
		return s.T
	case "vec":
		t := []string{}
		for _, x := range s.L {
			t = append(t, x.Op())
		}
		return strings.Join(t, " ")
	case "asg":
		return s.T + " = " + s.B.Op()
	case "idx":
		t := []string{}
		for _, x := range s.L {
			if x == nil {
				t = append(t, "")
			} else {
				t = append(t, x.Op())
			}
		}
		return s.A.Op() + "[" + strings.Join(t, "; ") + "]"
	case "un":
		op := s.T
		if s.Red {
			op += "/"
		}
		return op + " " + s.B.Op()
	case "bin":
		return s.A.Op() + " " + s.T + " " + s.B.Op()
	}
	panic("bad syntax")
}

// Op writes s as a single operand.
func (s *Syn) Op() string { return "(" + s.Full() + ")" }

type stok struct {
	t string
	k byte // n number, w word (name or named operator), s string, o operator symbol, p punctuation
	// operand: the token ends an operand (for the sign rule)
	operand bool
}

func isWord(s string) bool { return s != "" && (s[0] >= 'a' && s[0] <= 'z' || s[0] == '_') }

func opTok(op string, red bool) stok {
	if red {
		return stok{t: op + "/", k: 'r'}
	}
	if isWord(op) {
		return stok{t: op, k: 'w'}
	}
	return stok{t: op, k: 'o'}
}

func litTok(t string) stok {
	switch t[0] {
	case '\'', '"', '`':
		return stok{t: t, k: 's'}
	}
	return stok{t: t, k: 'n'}
}

// toks lists the tokens of s at the start of an expression, adding redundant
// parentheses at random.
func (s *Syn) toks(c *C) []stok {
	paren := func(in []stok) []stok {
		out := append([]stok{{t: "(", k: 'p'}}, in...)
		return append(out, stok{t: ")", k: 'p'})
	}
	if c.Idx(24) == 0 {
		t := paren(s.toks(c))
		return t
	}
	switch s.K {
	case "lit", "var", "vec", "idx":
		return s.operand(c)
	case "asg":
		return append([]stok{{t: s.T, k: 'w'}, {t: "=", k: 'o'}}, s.B.toks(c)...)
	case "un":
		return append([]stok{opTok(s.T, s.Red)}, s.B.toks(c)...)
	case "bin":
		t := append(s.A.operand(c), opTok(s.T, false))
		return append(t, s.B.toks(c)...)
	}
	panic("bad syntax")
}

// operand lists the tokens of s as a left operand.
func (s *Syn) operand(c *C) []stok {
	switch s.K {
	case "vec":
		var t []stok
		for _, x := range s.L {
			t = append(t, x.elem(c)...)
		}
		return t
	}
	return s.elem(c)
}

// elem lists the tokens of s as an element of a vector or an indexed operand.
func (s *Syn) elem(c *C) []stok {
	switch s.K {
	case "lit":
		return []stok{litTok(s.T)}
	case "var":
		return []stok{{t: s.T, k: 'w'}}
	case "idx":
		var t []stok
		if s.A.K == "var" {
			t = s.A.elem(c)
		} else {
			// An index after anything but a name applies to the whole operand.
			t = append([]stok{{t: "(", k: 'p'}, {t: "(", k: 'p'}}, s.A.toks(c)...)
			t = append(t, stok{t: ")", k: 'p'})
		}
		t = append(t, stok{t: "[", k: 'p'})
		for i, x := range s.L {
			if i > 0 {
				t = append(t, stok{t: ";", k: 'p'})
			}
			if x != nil {
				t = append(t, x.toks(c)...)
			}
		}
		t = append(t, stok{t: "]", k: 'p'})
		if s.A.K != "var" {
			t = append(t, stok{t: ")", k: 'p'})
		}
		return t
	}
	t := append([]stok{{t: "(", k: 'p'}}, s.toks(c)...)
	return append(t, stok{t: ")", k: 'p'})
}

func alnum(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// needSpace reports whether the rules demand a space between a and b, and
// whether a space must not be there only if none follows b.
func needSpace(a, b stok, base int) bool {
	la, fb := a.t[len(a.t)-1], b.t[0]
	switch {
	case a.t == "-" || a.t == "+":
		// Before a word that begins with a digit of the base it would be a sign.
		if b.k == 'w' && base > 10 && fb >= 'a' && int(fb-'a') < base-10 {
			return true
		}
	}
	switch {
	case a.k == 'n' && base <= 10 && strings.HasPrefix(b.t, "o.") && la >= '1' && la <= '9':
		// An outer product may follow a number directly (but not 0: 0o7 is a number).
		return false
	case alnum(la) && (alnum(fb) || fb == '.'), la == '.' && (alnum(fb) || fb == '.'):
		return true
	case b.k == 'n' && (fb == '-' || fb == '+'):
		// A sign directly after an operand or a word would be an operator, and
		// with a dot perhaps a product.
		return alnum(la) || la == ')' || la == ']' || la == '.' || b.t[1] == '.' && a.k != 's'
	case (a.k == 'o' || a.k == 'w' || a.k == 'r') && (fb == '/' || fb == '\\' || fb == '.'):
		// Would be a reduction or a product. After an operand it is not, but
		// the token does not say whether a word is an operator.
		return true
	case a.k == 'n' && fb == '/':
		// A division unless a digit or a dot follows, which gets a space.
		return la == '.' || b.k == 'r'
	case la == '/' && b.k == 'n':
		return true
	case (a.k == 'o' || a.k == 'r') && (b.k == 'o' || b.k == 'r'):
		return !(fb == '-' || fb == '+') || la == '/'
	case a.k == 'w' && (fb == '-' || fb == '+'):
		return false
	}
	return false
}

// Text writes s with the parentheses and spaces drawn at random among those
// that leave its meaning as it is.
func (s *Syn) Text(c *C, base int) string {
	return joinToks(c, s.toks(c), base)
}

// Broken writes s with the text bad put in somewhere as a token of its own, or
// at the end.
func (s *Syn) Broken(c *C, base int, bad string, end bool) string {
	t := s.toks(c)
	k := c.Range(0, len(t))
	if end {
		k = len(t)
	}
	b := ""
	if k > 0 {
		b = joinToks(c, t[:k], base) + " "
	}
	b += bad
	if k < len(t) {
		b += " " + joinToks(c, t[k:], base)
	}
	return b
}

func joinToks(c *C, t []stok, base int) string {
	var b strings.Builder
	wide := c.Idx(3) // 0 tight, 1 mixed, 2 wide
	sp := func(need bool) bool {
		switch wide {
		case 0:
			if need {
				b.WriteByte(' ')
			}
			return need
		case 2:
			b.WriteString(Pick(c, " ", " ", "  ", "\t"))
			return true
		}
		if need || c.Bool() {
			b.WriteString(Pick(c, " ", " ", "  ", "\t"))
			return true
		}
		return false
	}
	for i, x := range t {
		if i > 0 {
			p := t[i-1]
			need := needSpace(p, x, base)
			// A sign operator before a number: no space before it, after an
			// operand, or a space after it.
			if p.k == 'o' && (p.t == "-" || p.t == "+") && x.k == 'n' {
				str := b.String()
				direct := len(str) >= 2 && (alnum(str[len(str)-2]) || str[len(str)-2] == ')' || str[len(str)-2] == ']')
				if !direct && x.t[0] != '-' && x.t[0] != '+' {
					need = true
				}
			}
			sp(need)
		}
		b.WriteString(x.t)
	}
	return b.String()
}

// GenLit draws a numeric literal and the number it denotes.
func GenLit(c *C, base int) (string, *V) {
	if base != 0 {
		n, s := c.Range(0, 300), ""
		if c.Prob(3) {
			s = "-"
		}
		t := strconv.FormatInt(int64(n), base)
		if c.Bool() {
			t = strings.ToUpper(t)
		}
		if c.Prob(2) {
			u, m := Pick(c, "", "-", "+"), c.Range(0, 40)
			x := strconv.FormatInt(int64(m), base)
			return s + t + "j" + u + x, Cx(sgnRat(s, big.NewRat(int64(n), 1)), sgnRat(u, big.NewRat(int64(m), 1)))
		}
		if c.Prob(2) {
			x := fmt.Sprintf("%s%d.%d", s, c.Range(0, 1), c.Range(0, 99)) // a decimal in any base
			return x, Rat(ratOf(x))
		}
		if c.Prob(3) {
			d := c.Range(1, 40)
			return s + t + "/" + strconv.FormatInt(int64(d), base), Rat(sgnRat(s, big.NewRat(int64(n), int64(d))))
		}
		return s + t, Rat(sgnRat(s, big.NewRat(int64(n), 1)))
	}
	dec := func(signed bool) (string, *big.Rat) {
		s := ""
		if signed {
			s = Pick(c, "", "", "", "", "", "-", "-", "+")
		}
		n := c.Range(0, 30)
		switch c.Idx(18) {
		case 0:
			t := s + Pick(c, "0x", "0x", "0X") + fmt.Sprintf(Pick(c, "%x", "%X"), n)
			if c.Prob(4) {
				if c.Bool() {
					t += fmt.Sprintf(".%x", c.Range(0, 255))
				}
				if c.Bool() {
					t += fmt.Sprintf("%s%d", Pick(c, "p", "P"), c.Range(-3, 3))
				}
				return t, ratOf(t)
			}
			return t, sgnRat(s, big.NewRat(int64(n), 1))
		case 1:
			t := s + Pick(c, "0b", "0b", "0B") + fmt.Sprintf("%b", n)
			return t, sgnRat(s, big.NewRat(int64(n), 1))
		case 2:
			t := s + Pick(c, "0o", "0o", "0O") + fmt.Sprintf("%o", n)
			return t, sgnRat(s, big.NewRat(int64(n), 1))
		case 3:
			t := fmt.Sprintf("%s%d.%d", s, n, c.Range(0, 99))
			if c.Prob(4) {
				t += fmt.Sprintf("%s%d", Pick(c, "e", "E"), c.Range(-3, 3))
			}
			return t, ratOf(t)
		case 4:
			t := fmt.Sprintf("%s%d%s%s%d", s, n, Pick(c, "e", "e", "E"), Pick(c, "", "+"), c.Range(0, 3))
			if c.Bool() {
				t = fmt.Sprintf("%s%d%s-%d", s, n, Pick(c, "e", "e", "E"), c.Range(0, 3))
			}
			return t, ratOf(t)
		case 6:
			t := fmt.Sprintf("%s%d.", s, n)
			return t, sgnRat(s, big.NewRat(int64(n), 1))
		case 7:
			t := fmt.Sprintf("%s%d_%03d", s, n+1, n)
			return t, sgnRat(s, big.NewRat(int64(n+1)*1000+int64(n), 1))
		case 8:
			t := fmt.Sprintf("%s%d%s%d", s, n, Pick(c, "p", "P"), c.Range(-3, 3))
			return t, ratOf(t)
		case 5:
			t := fmt.Sprintf("%s.%d", s, c.Range(1, 99))
			return t, ratOf(t)
		}
		return fmt.Sprintf("%s%d", s, n), sgnRat(s, big.NewRat(int64(n), 1))
	}
	rat := func(signed bool) (string, *big.Rat) {
		t, r := dec(signed)
		if c.Prob(3) {
			u, d := dec(false)
			if d.Sign() == 0 {
				u, d = "7", big.NewRat(7, 1)
			}
			return t + "/" + u, new(big.Rat).Quo(r, d)
		}
		return t, r
	}
	t, r := rat(true)
	if c.Prob(1) {
		u, i := rat(true)
		return t + "j" + u, Cx(r, i)
	}
	return t, Rat(r)
}

func sgnRat(s string, r *big.Rat) *big.Rat {
	if s == "-" {
		return new(big.Rat).Neg(r)
	}
	return r
}

func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("bad literal " + s)
	}
	return r
}

// GenSyn draws an expression over the variables.
func GenSyn(c *C, vars []string, base, depth int) *Syn {
	return genSyn(c, vars, base, depth, false)
}

// GenSynCheap leaves out the operators that can make big values.
func GenSynCheap(c *C, vars []string, base, depth int) *Syn {
	return genSyn(c, vars, base, depth, true)
}

func genSyn(c *C, vars []string, base, depth int, cheap bool) *Syn {
	lit := func() *Syn {
		if c.Prob(3) {
			n := Pick(c, 0, 1, 2, 3)
			r := make([]rune, n)
			for i := range r {
				r[i] = Pick(c, 'a', 'b', ' ', '#', ';', '(', '+', '3', '-', 'é')
			}
			q := Pick(c, "'", "\"", "`")
			v := Str(string(r))
			if n == 1 {
				v = Ch(r[0])
			}
			return &Syn{K: "lit", T: q + string(r) + q, V: v}
		}
		t, v := GenLit(c, base)
		return &Syn{K: "lit", T: t, V: v}
	}
	name := func() *Syn { return &Syn{K: "var", T: vars[c.Idx(len(vars))]} }
	leaf := func() *Syn {
		if c.Prob(6) {
			return name()
		}
		return lit()
	}
	if depth <= 0 {
		return leaf()
	}
	switch c.Idx(12) {
	case 0:
		return leaf()
	case 1, 2:
		n := c.Range(2, 4)
		s := &Syn{K: "vec"}
		for i := 0; i < n; i++ {
			if c.Prob(12) {
				s.L = append(s.L, leaf())
			} else {
				s.L = append(s.L, genSyn(c, vars, base, depth-1, cheap))
			}
		}
		return s
	case 3, 4:
		if c.Prob(4) {
			return &Syn{K: "un", Red: true, T: Pick(c, "+", "-", "*", "max", "min", ",", "/"), B: genSyn(c, vars, base, depth-1, cheap)}
		}
		if cheap {
			return &Syn{K: "un", T: Pick(c, "-", "-", "+", "/", ",", "rho", "abs", "not", "sgn", "floor", "count", "rot", "first", "box", "flatten", "^"), B: genSyn(c, vars, base, depth-1, cheap)}
		}
		return &Syn{K: "un", T: Pick(c, "-", "-", "+", "/", ",", "iota", "rho", "abs", "not", "sgn", "floor", "count", "rot", "first", "box", "flatten", "!", "^"), B: genSyn(c, vars, base, depth-1, cheap)}
	case 5:
		s := &Syn{K: "idx", A: name()}
		if c.Prob(5) {
			s.A = genSyn(c, vars, base, depth-1, cheap)
		}
		n := Pick(c, 1, 1, 1, 1, 2)
		for i := 0; i < n; i++ {
			switch {
			case c.Prob(3):
				s.L = append(s.L, nil)
			case c.Prob(12):
				k := c.Range(1, 2)
				s.L = append(s.L, &Syn{K: "lit", T: strconv.FormatInt(int64(k), max(2, base+10*b2i(base == 0))), V: Int(k)})
			default:
				s.L = append(s.L, genSyn(c, vars, base, depth-1, cheap))
			}
		}
		// The order in which an index is checked and evaluated is not specified.
		if s.A.hasAsg() {
			s.A = name()
		}
		for i, x := range s.L {
			if x.hasAsg() {
				s.L[i] = name()
			}
		}
		return s
	case 6:
		return &Syn{K: "asg", T: vars[c.Idx(len(vars))], B: genSyn(c, vars, base, depth-1, cheap)}
	}
	if c.Prob(2) {
		// A sign between an operand and a number: with no space before it, an
		// operator.
		a := name()
		if c.Bool() {
			k := c.Range(1, 2)
			a = &Syn{K: "idx", A: a, L: []*Syn{{K: "lit", T: strconv.FormatInt(int64(k), max(2, base+10*b2i(base == 0))), V: Int(k)}}}
		} else if c.Prob(4) {
			a = genSyn(c, vars, base, depth-1, cheap)
		}
		b := lit()
		if c.Prob(4) {
			b = &Syn{K: "bin", T: Pick(c, "+", "-", "*"), A: b, B: leaf()}
		}
		return &Syn{K: "bin", T: Pick(c, "-", "+"), A: a, B: b}
	}
	if c.Prob(1) {
		vec := func() *Syn {
			if c.Prob(5) {
				return name()
			}
			return &Syn{K: "vec", L: []*Syn{lit(), lit()}}
		}
		if base <= 10 && c.Prob(3) {
			// In a larger base this could be a number.
			return &Syn{K: "bin", T: Pick(c, "+.and", "-.and"), A: vec(), B: vec()}
		}
		return &Syn{K: "bin", T: Pick(c, "o.+", "o.-", "o.max", "+.*", "-.*", "max.+", "*.-", "+.min", "o.=="), A: vec(), B: vec()}
	}
	if cheap {
		return &Syn{K: "bin", T: Pick(c, "+", "-", "*", "/", "-", "+", ",", "min", "max", "==", "<", ">=", "!=", "===", "iota", "in", "mod", "&", "^", "and"),
			A: genSyn(c, vars, base, depth-1, cheap), B: genSyn(c, vars, base, depth-1, cheap)}
	}
	return &Syn{K: "bin", T: Pick(c, "+", "-", "*", "/", "-", "+", ",", "min", "max", "==", "<", ">=", "!=", "===", "rho", "take", "drop", "iota", "in", "rot", "mod", "<<", "&", "^", "!", "**", "and"),
		A: genSyn(c, vars, base, depth-1, cheap), B: genSyn(c, vars, base, depth-1, cheap)}
}

// Depth is the number of operators in s.
func (s *Syn) Depth() int {
	if s == nil {
		return 0
	}
	n := s.A.Depth() + s.B.Depth()
	for _, x := range s.L {
		n += x.Depth()
	}
	if s.K == "un" || s.K == "bin" || s.K == "idx" {
		n++
	}
	return n
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *Syn) hasAsg() bool {
	if s == nil {
		return false
	}
	for _, x := range s.L {
		if x.hasAsg() {
			return true
		}
	}
	return s.K == "asg" || s.A.hasAsg() || s.B.hasAsg()
}
