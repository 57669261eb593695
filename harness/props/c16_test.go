package props

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	. "verif.local/harness/h"
)

var c16Unary = []string{"f", "g", "h", "abs", "sgn"}
var c16Binary = []string{"f", "k", "h", "min", "max"}
var c16Globals = []string{"a", "b", "t", "u", "w"}
var c16Locals = []string{"x", "y", "z", "a", "b", "t", "p", "q"}

type c16gen struct {
	c      *C
	p      *Prog
	vars   []string // names usable in the expression
	fuel   string   // the argument that counts down, or ""
	un     []string
	bin    []string
	hidden map[string]bool // operators hidden by arguments
	inop   bool
}

func (g *c16gen) num() *Ex { return &Ex{K: "const", V: Int(g.c.Range(-2, 5))} }

func (g *c16gen) variable() *Ex {
	if len(g.vars) == 0 {
		return g.num()
	}
	return &Ex{K: "var", Op: g.vars[g.c.Idx(len(g.vars))]}
}

// pattern fills a formal argument with expressions, the first name getting
// the countdown.
func (g *c16gen) actual(p *Pat, depth int, first bool) *Ex {
	if p.L == nil {
		if first {
			if g.inop && g.fuel != "" {
				return &Ex{K: "bin", Op: "-", A: &Ex{K: "var", Op: g.fuel}, B: &Ex{K: "const", V: I(1)}}
			}
			if g.inop {
				return &Ex{K: "const", V: I(0)}
			}
			return &Ex{K: "const", V: Int(g.c.Range(0, 4))}
		}
		return g.expr(depth - 1)
	}
	if g.c.Idx(40) == 0 {
		return g.expr(0) // likely the wrong shape
	}
	e := &Ex{K: "vec"}
	for i, q := range p.L {
		e.L = append(e.L, g.actual(q, depth, first && i == 0))
	}
	return e
}

func (g *c16gen) call(depth int) *Ex {
	c := g.c
	bin := c.Bool()
	names := g.un
	if bin {
		names = g.bin
	}
	var use []string
	for _, n := range names {
		if !g.hidden[n] {
			use = append(use, n)
		}
	}
	if len(use) == 0 {
		return g.variable()
	}
	n := use[c.Idx(len(use))]
	if bin {
		d := g.p.Bin[n]
		if d == nil {
			return &Ex{K: "call2", Op: n, A: g.expr(depth - 1), B: g.expr(depth - 1)}
		}
		if d.Right.L == nil && d.Left.L == nil && c.Prob(2) {
			return &Ex{K: "red", Op: n, B: g.vector(depth-1, 2)}
		}
		r := g.actual(d.Right, depth, true)
		return &Ex{K: "call2", Op: n, A: g.actual(d.Left, depth, false), B: r}
	}
	d := g.p.Un[n]
	if d == nil {
		return &Ex{K: "call1", Op: n, B: g.expr(depth - 1)}
	}
	if c.Prob(2) {
		k := c.Range(2, 3)
		e := &Ex{K: "vec"}
		for i := 0; i < k; i++ {
			e.L = append(e.L, g.actual(d.Right, depth, true))
		}
		return &Ex{K: "each", Op: n, B: e}
	}
	return &Ex{K: "call1", Op: n, B: g.actual(d.Right, depth, true)}
}

func (g *c16gen) vector(depth, min int) *Ex {
	n := g.c.Range(min, 3)
	e := &Ex{K: "vec"}
	for i := 0; i < n; i++ {
		e.L = append(e.L, g.expr(depth-1))
	}
	return e
}

func (g *c16gen) target() string {
	if g.inop {
		return c16Locals[g.c.Idx(len(c16Locals))]
	}
	return c16Globals[g.c.Idx(len(c16Globals))]
}

func (g *c16gen) assign(depth int) *Ex {
	c := g.c
	for {
		n := g.target()
		if n == g.fuel || g.hidden[n] && !g.inop {
			continue
		}
		switch {
		case c.Prob(3):
			m := g.target()
			if m == n || m == g.fuel {
				continue
			}
			p := &Pat{L: []*Pat{{Name: n}, {Name: m}}}
			v := g.vector(depth, 2)
			if c.Prob(15) {
				v.L = v.L[:2]
			}
			return &Ex{K: "dasg", Pat: p, B: v}
		case c.Prob(2):
			return &Ex{K: "iasg", Op: n, A: g.index(depth), B: g.expr(depth - 1)}
		}
		return &Ex{K: "asg", Op: n, B: g.expr(depth - 1)}
	}
}

// index draws an index: mostly a small number, sometimes one that is computed, or assigned
// on the way.
func (g *c16gen) index(depth int) *Ex {
	c := g.c
	n := &Ex{K: "const", V: Int(c.Range(1, 3))}
	switch c.Idx(8) {
	case 0, 1:
		t := g.target()
		if t != g.fuel {
			return &Ex{K: "asg", Op: t, B: n}
		}
	case 2:
		return g.variable()
	case 3:
		return g.expr(depth - 1)
	case 4:
		if len(g.un) > 0 {
			e := g.call(1)
			return &Ex{K: "bin", Op: "+", A: n, B: &Ex{K: "bin", Op: "*", A: &Ex{K: "const", V: I(0)}, B: e}}
		}
	}
	return n
}

func (g *c16gen) expr(depth int) *Ex {
	c := g.c
	if depth <= 0 {
		if c.Prob(10) {
			return g.variable()
		}
		return g.num()
	}
	switch c.Idx(11) {
	case 0, 1:
		return g.variable()
	case 2:
		return g.num()
	case 3:
		return &Ex{K: "un", Op: Pick(c, "-", "-", "floor"), B: g.expr(depth - 1)}
	case 4, 5, 6:
		return &Ex{K: "bin", Op: Pick(c, "+", "-", "*", "==", "<", "+", ","), A: g.expr(depth - 1), B: g.expr(depth - 1)}
	case 7:
		if c.Prob(5) {
			return g.vector(depth, 1)
		}
		if len(g.vars) > 0 && c.Prob(4) {
			e := &Ex{K: "idx", Op: g.vars[c.Idx(len(g.vars))], A: g.index(depth)}
			if c.Prob(6) {
				e.B = g.vector(depth, 2)
			}
			return e
		}
		return g.num()
	case 8:
		return g.assign(depth)
	}
	return g.call(depth)
}

func c16pat(c *C, names *[]string, depth int) *Pat {
	if depth > 0 && c.Prob(5) {
		p := &Pat{}
		for i, n := 0, c.Range(1, 3); i < n; i++ {
			p.L = append(p.L, c16pat(c, names, depth-1))
		}
		return p
	}
	i := c.Idx(len(*names))
	n := (*names)[i]
	*names = append((*names)[:i:i], (*names)[i+1:]...)
	return &Pat{Name: n}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func firstName(p *Pat) string {
	for p.L != nil {
		p = p.L[0]
	}
	return p.Name
}

// c16Defn draws the definition of a unary or binary operator.
func c16Defn(c *C, p *Prog, un, bin []string) *OpDefn {
	d := &OpDefn{}
	isBin := c.Bool()
	if isBin {
		d.Name = Pick(c, c16Binary...)
	} else {
		d.Name = Pick(c, c16Unary...)
	}
	names := append([]string{"m", "n", "r", "s", "v", "c", "d", "aa", "bb", "cc", "dd"}, c16Locals...)
	if c.Prob(3) {
		for _, n := range []string{"g", "k", "h", "abs"} {
			if n != d.Name {
				names = append(names, n)
			}
		}
	}
	d.Right = c16pat(c, &names, 2)
	if isBin {
		d.Left = c16pat(c, &names, 1)
		if !contains(bin, d.Name) {
			bin = append(append([]string{}, bin...), d.Name)
		}
	} else if !contains(un, d.Name) {
		un = append(append([]string{}, un...), d.Name)
	}
	if c.Prob(1) {
		return d // a declaration
	}
	args := d.Right.Names()
	if isBin {
		args = append(args, d.Left.Names()...)
	}
	g := &c16gen{c: c, p: p, un: un, bin: bin, inop: true, hidden: map[string]bool{}}
	for _, n := range args {
		g.hidden[n] = true
	}
	// The new definition is what recursive calls will have to match.
	m := p.Un
	if isBin {
		m = p.Bin
	}
	old := m[d.Name]
	m[d.Name] = d
	defer func() {
		if old == nil {
			delete(m, d.Name)
		} else {
			m[d.Name] = old
		}
	}()
	g.vars = append(append([]string{}, args...), args...)
	for _, n := range c16Globals {
		if p.Globals[n] != nil {
			g.vars = append(g.vars, n)
		}
	}
	g.fuel = firstName(d.Right)
	if c.Prob(14) {
		base := &c16gen{c: c, p: p, vars: g.vars, inop: true, hidden: g.hidden, fuel: g.fuel}
		d.Body = append(d.Body, &St{
			Cond: &Ex{K: "bin", Op: Pick(c, "<=", "<="), A: &Ex{K: "var", Op: g.fuel}, B: &Ex{K: "const", V: Int(0)}},
			E:    base.expr(2),
		})
	}
	allCond := c.Prob(1)
	for i, n := 0, c.Range(0, 3); i < n; i++ {
		s := &St{}
		if allCond || c.Prob(5) {
			s.Cond = &Ex{K: "bin", Op: Pick(c, "==", "<", ">", "!="), A: g.expr(1), B: g.expr(1)}
			if c.Prob(2) {
				s.Cond = g.expr(2)
			}
			s.E = g.expr(2)
		} else if c.Prob(10) {
			s.E = g.assign(3)
			if s.E.K == "asg" {
				g.vars = append(g.vars, s.E.Op, s.E.Op)
			} else if s.E.K == "dasg" {
				g.vars = append(g.vars, s.E.Pat.Names()...)
			}
		} else {
			s.E = g.expr(3)
		}
		d.Body = append(d.Body, s)
	}
	if !allCond || len(d.Body) == 0 {
		e := g.expr(3)
		if c.Prob(6) {
			e = &Ex{K: "bin", Op: Pick(c, "+", "-", ","), A: g.expr(1), B: g.call(2)}
		}
		d.Body = append(d.Body, &St{E: e})
	}
	d.Resolve()
	return d
}

func c16Text(c *C, d *OpDefn) string {
	s := d.Head()
	if d.Body == nil {
		return s + "\n"
	}
	s += " ="
	multi := c.Bool()
	for i, st := range d.Body {
		if multi {
			if i == 0 || !c.Prob(3) {
				if c.Prob(2) {
					s += " # note"
				}
				if i > 0 && c.Prob(2) { // a comment is not a blank line
					s += "\n" + Pick(c, "#", "# note", " # note", "\t#", "#= 1")
				}
				s += "\n" + Pick(c, "", "\t", "  ")
			} else {
				s += "; "
			}
		} else if i > 0 {
			s += ";"
		}
		s += " " + st.S()
	}
	s += "\n"
	if multi {
		s += Pick(c, "\n", " \t\n")
	}
	return s
}

func TestC16_Calls(t *testing.T) {
	Check(t, "C16", 1500, "a case is non-trivial if its operators were called at least once; distinct by its text", func(c *C) {
		s := NewSess(c)
		p := NewProg()
		var log []string
		for _, n := range c16Globals {
			if c.Prob(15) {
				v := Int(c.Range(0, 9))
				if c.Prob(3) {
					v = GenVec(c, EInt, c.Range(2, 3), 0)
				}
				p.Globals[n] = v
				s.Do(n + " = " + v.Src())
			}
		}
		compare := func(line string) {
			for _, n := range append(append([]string{}, c16Globals...), c16Locals...) {
				got, want := s.Get(n), p.Globals[n]
				if got == nil && want == nil {
					continue
				}
				if got == nil || want == nil {
					c.Fail("after %s\n variable %s: got %v, want %v", line, n, got, want)
				}
				if d := Diff(got, want); d != "" {
					c.Fail("after %s\n variable %s: got %v, want %v", line, n, got, want)
				}
			}
		}
		un := func() (l []string) {
			for _, n := range c16Unary {
				if p.Un[n] != nil || n == "abs" || n == "sgn" {
					l = append(l, n)
				}
			}
			return
		}
		bin := func() (l []string) {
			for _, n := range c16Binary {
				if p.Bin[n] != nil || n == "min" || n == "max" {
					l = append(l, n)
				}
			}
			return
		}
		steps := c.Range(4, 14)
		called := 0
		for i := 0; i < steps; i++ {
			if i < 2 || c.Prob(5) {
				if c.Prob(2) && len(p.Un)+len(p.Bin) > 0 {
					// Remove a definition.
					m, names, left := p.Un, c16Unary, ""
					if c.Bool() {
						m, names, left = p.Bin, c16Binary, "l "
					}
					n := Pick(c, names...)
					line := "opdelete " + left + n + " r"
					_, e := s.Run(line)
					if (e == "") != (m[n] != nil) {
						c.Fail("%s: error %q, defined %v", line, e, m[n] != nil)
					}
					delete(m, n)
					if e == "" {
						c.Class("opdelete")
						expr := "(" + n + " 3)"
						if left != "" {
							expr = "(2 " + n + " 3)"
						}
						if n != "abs" && n != "sgn" && n != "min" && n != "max" {
							s.WantErr(expr, "the operator was deleted")
						}
					}
					continue
				}
				d := c16Defn(c, p, un(), bin())
				text := c16Text(c, d)
				if c.Prob(1) && d.Body != nil {
					// A definition that fails leaves the old one.
					bad := strings.TrimRight(text, " \t\n") + Pick(c, " +", " )", " 'x", " [") + "\n\n"
					if _, e := s.Run(bad); e == "" {
						c.Fail("%q: no error", bad)
					}
					continue
				}
				_, e := s.Run(text)
				if e != "" {
					c.Fail("%s\n error: %s", text, e)
				}
				if d.Left != nil {
					p.Bin[d.Name] = d
				} else {
					p.Un[d.Name] = d
				}
				log = append(log, text)
				if d.Body == nil {
					c.Class("declaration")
				}
				compare(text)
				continue
			}
			g := &c16gen{c: c, p: p, un: un(), bin: bin(), vars: c16Globals, hidden: map[string]bool{}}
			var e *Ex
			switch {
			case c.Prob(11):
				e = g.call(2)
			case c.Prob(8):
				e = g.assign(3)
			default:
				e = g.expr(3)
			}
			// Try it on the model first: it may not end.
			save := map[string]*V{}
			for k, v := range p.Globals {
				save[k] = v
			}
			p.Calls, p.MaxDep, p.Reached = 0, 0, map[string]bool{}
			want, isErr, skip := p.Run(e)
			if skip {
				p.Globals = save
				c.Class("skipped")
				continue
			}
			called += p.Calls
			if p.Calls > 0 {
				switch {
				case isErr:
					c.Class("call fails")
				case p.MaxDep >= 3:
					c.Class("deep")
				default:
					c.Class("call")
				}
				if p.Reached["cond"] {
					c.Class("conditional return")
				}
			}
			line := e.S()
			log = append(log, line)
			got, msg := s.Eval("(" + line + ")")
			if isErr != (msg != "") {
				c.Fail("%s\n got %v error %q; want %v error %v", line, got, msg, want, isErr)
			}
			if !isErr {
				if d := Diff(got, want); d != "" {
					c.Fail("%s\n got %v\n want %v\n (%s)", line, got, want, d)
				}
			}
			compare(line)
		}
		if called > 0 {
			c.Key(strings.Join(log, "\n"))
		}
	})
}

// Names: operators and variables do not take each other's names, and formal
// arguments are distinct names other than the operator's.
func TestC16_Names(t *testing.T) {
	Check(t, "C16", 400, "a case is non-trivial if it defined an operator; distinct by its lines", func(c *C) {
		s := NewSess(c)
		names := []string{"aa", "bb", "cc"}
		vars := map[string]*V{}
		un := map[string]int{}  // name -> added constant
		bin := map[string]int{} // name -> added constant
		var log []string
		run := func(line string, wantErr bool, why string) {
			log = append(log, line)
			_, e := s.Run(line + "\n")
			if (e != "") != wantErr {
				c.Fail("%s: error %q; want an error: %v (%s)", line, e, wantErr, why)
			}
		}
		defined := 0
		for i, n := 0, c.Range(3, 12); i < n; i++ {
			nm := names[c.Idx(3)]
			k := c.Range(1, 99)
			switch c.Idx(8) {
			case 0:
				if un[nm] == 0 && bin[nm] == 0 {
					v := Int(Pick(c, 0, 0, k, -k))
					if c.Prob(3) {
						v = Pick(c, Ints(0, 0), VecOf(), Ch('0'), Frac(1, 2), VecOf(I(0)), BI(new(big.Int).Lsh(big.NewInt(1), 64)))
					}
					run(nm+" = "+v.Src(), false, "assignment")
					vars[nm] = v
				}
			case 1, 2:
				bad := vars[nm] != nil && !(vars[nm].Scalar() && vars[nm].IsZero())
				run(fmt.Sprintf("op %s x = x + %d", nm, k), bad, "a variable holds the name")
				if !bad {
					delete(vars, nm)
					un[nm] = k
					defined++
				}
			case 3, 4:
				bad := vars[nm] != nil && !(vars[nm].Scalar() && vars[nm].IsZero())
				run(fmt.Sprintf("op x %s y = x + y * %d", nm, k), bad, "a variable holds the name")
				if !bad {
					delete(vars, nm)
					bin[nm] = k
					defined++
				}
			case 5:
				line := fmt.Sprintf(Pick(c, "op %[1]s %[1]s = 1", "op x %[1]s x = x", "op %[1]s (p q p) = p", "op (p q) %[1]s q = p",
					"op (p (%[1]s q)) %[1]s r = p", "op x o y = x", "op e x = x", "op x pi y = x", "op _ x = x", "op %[1]s x =\n\n", "op %[1]s = 3", "op %[1]s 3 = 3", "op x y %[1]s z = 3", "op (x) %[1]s = 3", "op (%[1]s) x = 3", "op x (%[1]s) y = 3", "op (x y) (%[1]s) = 3", "op (x) (%[1]s) (y) = 3", "op %[1]s x y z = 3", "op", "op = 3", ")op nosuch", ")op +", "opdelete nosuch x", "opdelete x nosuch y", "opdelete + x"), nm)
				run(line, true, "not a valid definition")
			case 6:
				isBin := c.Bool()
				m, line := un, "opdelete "+nm+" x"
				if isBin {
					m, line = bin, "opdelete x "+nm+" y"
				}
				run(line, m[nm] == 0, "deletion")
				delete(m, nm)
			case 7:
				if vars[nm] != nil {
					s.Want(nm, vars[nm])
				}
			}
			for _, x := range names {
				got := s.Get(x)
				if (got == nil) != (vars[x] == nil) || got != nil && !Same(got, vars[x]) {
					c.Fail("variable %s: got %v, want %v", x, got, vars[x])
				}
				if un[x] != 0 {
					s.Want(x+" 5", Int(5+un[x]))
				}
				if bin[x] != 0 {
					s.Want("5 "+x+" 3", Int(5+3*bin[x]))
				}
			}
		}
		if defined > 0 {
			c.Key(strings.Join(log, "\n"))
		}
	})
}
