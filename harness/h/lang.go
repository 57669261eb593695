package h

import (
	"sort"
	"strings"
)

// A small model of ivy's operator definitions: an abstract syntax, its
// rendering as ivy text, the documented scope rule and an interpreter.

// Ex is an expression.
type Ex struct {
	K    string // const var un bin call1 call2 asg dasg iasg idx vec red each
	Op   string // operator or name
	V    *V
	A, B *Ex // left, right (unary: B)
	L    []*Ex
	Pat  *Pat
	Loc  bool // the variable is local to the operator
}

// Pat is a formal argument or the target of a destructuring assignment.
type Pat struct {
	Name string
	L    []*Pat
}

func (p *Pat) String() string {
	if p.L == nil {
		return p.Name
	}
	s := []string{}
	for _, q := range p.L {
		s = append(s, q.String())
	}
	return "(" + strings.Join(s, " ") + ")"
}

func (p *Pat) Names() []string {
	if p.L == nil {
		return []string{p.Name}
	}
	var n []string
	for _, q := range p.L {
		n = append(n, q.Names()...)
	}
	return n
}

// St is a statement of a body: an expression, or a conditional result.
type St struct {
	Cond *Ex
	E    *Ex
}

// OpDefn is a definition of an operator; a nil Body declares it only.
type OpDefn struct {
	Name        string
	Left, Right *Pat
	Body        []*St
	locals      map[string]bool
}

func (d *OpDefn) Head() string {
	s := "op "
	if d.Left != nil {
		s += d.Left.String() + " "
	}
	return s + d.Name + " " + d.Right.String()
}

func (e *Ex) simple() bool {
	return e.K == "var" || e.K == "const" && e.V.Scalar() && e.V.K == Num && e.V.Re.Sign() >= 0
}

// P renders e as an operand.
func (e *Ex) P() string {
	if e.simple() || e.K == "idx" && e.B == nil {
		return e.S()
	}
	return "(" + e.S() + ")"
}

// S renders e.
func (e *Ex) S() string {
	switch e.K {
	case "const":
		return e.V.Src()
	case "var":
		return e.Op
	case "un":
		return e.Op + " " + e.B.S()
	case "bin", "call2":
		return e.A.P() + " " + e.Op + " " + e.B.S()
	case "call1":
		return e.Op + " " + e.B.S()
	case "asg":
		return e.Op + " = " + e.B.S()
	case "dasg":
		return e.Pat.String() + " = " + e.B.S()
	case "iasg":
		return e.Op + "[" + e.A.S() + "] = " + e.B.S()
	case "idx":
		if e.B != nil {
			return "(" + e.B.S() + ")[" + e.A.S() + "]"
		}
		return e.Op + "[" + e.A.S() + "]"
	case "vec":
		s := []string{}
		for _, x := range e.L {
			s = append(s, x.P())
		}
		if len(s) == 1 {
			return "," + s[0]
		}
		return strings.Join(s, " ")
	case "red":
		return e.Op + "/ " + e.B.S()
	case "each":
		return e.Op + "@ " + e.B.S()
	}
	panic("bad expression " + e.K)
}

func (s *St) S() string {
	if s.Cond != nil {
		return s.Cond.S() + " : " + s.E.S()
	}
	return s.E.S()
}

// Resolve applies the scope rule: a name is local if, in evaluation order, it
// is assigned before it is read.
func (d *OpDefn) Resolve() {
	seen := map[string]bool{} // name -> local
	d.locals = seen
	touch := func(n string, assign bool) bool {
		l, ok := seen[n]
		if !ok {
			l = assign
			seen[n] = l
		}
		return l
	}
	if d.Left != nil {
		for _, n := range d.Left.Names() {
			touch(n, true)
		}
	}
	for _, n := range d.Right.Names() {
		touch(n, true)
	}
	var ex func(e *Ex)
	ex = func(e *Ex) {
		switch e.K {
		case "const":
		case "var":
			e.Loc = touch(e.Op, false)
		case "un", "call1", "red", "each":
			ex(e.B)
		case "bin", "call2":
			ex(e.B)
			ex(e.A)
		case "asg":
			ex(e.B)
			e.Loc = touch(e.Op, true)
		case "dasg":
			ex(e.B)
			n := e.Pat.Names()
			for i := len(n) - 1; i >= 0; i-- {
				touch(n[i], true)
			}
		case "iasg":
			ex(e.B)
			ex(e.A)
			e.Loc = touch(e.Op, false)
		case "idx":
			ex(e.A)
			if e.B != nil {
				ex(e.B)
			} else {
				e.Loc = touch(e.Op, false)
			}
		case "vec":
			for i := len(e.L) - 1; i >= 0; i-- {
				ex(e.L[i])
			}
		}
	}
	for _, s := range d.Body {
		if s.Cond != nil {
			ex(s.Cond)
		}
		ex(s.E)
	}
}

// Prog is the state of the model.
type Prog struct {
	Globals map[string]*V
	Un, Bin map[string]*OpDefn
	Steps   int // steps left
	Calls   int
	MaxDep  int
	Writes  int // assignments to globals
	Err     bool
	Skip    bool
	Reached map[string]bool
	Origin  int
}

func NewProg() *Prog {
	return &Prog{Globals: map[string]*V{}, Un: map[string]*OpDefn{}, Bin: map[string]*OpDefn{}, Origin: 1, Reached: map[string]bool{}}
}

type frame struct {
	def   *OpDefn
	vars  map[string]*V
	depth int
}

type progErr struct{ skip bool }

func (p *Prog) raise(format string, a ...any) { panic(progErr{}) }

func (p *Prog) res(r Res) *V {
	if r.Skip {
		panic(progErr{skip: true})
	}
	if r.Err != "" {
		p.raise("%s", r.Err)
	}
	if r.V.Size() > 300 || r.V.Bits() > 3000 {
		panic(progErr{skip: true})
	}
	return r.V
}

// Run evaluates e at top level: its value, or an error, or skip.
func (p *Prog) Run(e *Ex) (v *V, isErr, skip bool) {
	p.Steps = 3000
	defer func() {
		switch x := recover().(type) {
		case nil:
		case progErr:
			v, isErr, skip = nil, !x.skip, x.skip
		default:
			panic(x)
		}
	}()
	return p.eval(e, nil), false, false
}

func (p *Prog) set(f *frame, name string, v *V) {
	if f != nil && f.def.locals[name] {
		f.vars[name] = v
		return
	}
	p.Writes++
	p.Globals[name] = v
}

func (p *Prog) get(f *frame, name string) *V {
	var v *V
	if f != nil && f.def.locals[name] {
		v = f.vars[name]
	} else {
		v = p.Globals[name]
	}
	if v == nil {
		p.raise("undefined %s", name)
	}
	return v
}

func (p *Prog) bind(f *frame, pat *Pat, v *V) {
	if pat.L == nil {
		p.set(f, pat.Name, v)
		return
	}
	if v.K != Vec || len(v.El) != len(pat.L) {
		p.raise("shape")
	}
	for i := len(pat.L) - 1; i >= 0; i-- {
		p.bind(f, pat.L[i], v.El[i])
	}
}

func (p *Prog) truth(v *V) bool {
	if !v.Scalar() {
		if len(v.El) != 1 {
			p.raise("condition")
		}
		return p.truth(v.El[0])
	}
	return !v.IsZero()
}

func (p *Prog) call(depth int, name string, l, r *V) *V {
	m, b := p.Un, l != nil
	if b {
		m = p.Bin
	}
	d := m[name]
	if d == nil {
		if b {
			return p.res(ElemBinary(name, l, r))
		}
		return p.res(ElemUnary(name, r))
	}
	if d.Body == nil {
		p.raise("undefined op")
	}
	p.Calls++
	if depth+1 > p.MaxDep {
		p.MaxDep = depth + 1
	}
	if depth > 150 {
		panic(progErr{skip: true})
	}
	f := &frame{def: d, vars: map[string]*V{}, depth: depth + 1}
	if b {
		p.bind(f, d.Left, l)
	}
	p.bind(f, d.Right, r)
	var last *V
	for i, s := range d.Body {
		if s.Cond != nil {
			if p.truth(p.eval(s.Cond, f)) {
				p.Reached["cond"] = true
				return p.eval(s.E, f)
			}
			if i == len(d.Body)-1 && last != nil {
				panic(progErr{skip: true})
			}
			continue
		}
		last = p.eval(s.E, f)
	}
	if last == nil {
		p.raise("no value")
	}
	return last
}

func (p *Prog) eval(e *Ex, f *frame) *V {
	if p.Steps--; p.Steps < 0 {
		panic(progErr{skip: true})
	}
	dep := 0
	if f != nil {
		dep = f.depth
	}
	switch e.K {
	case "const":
		return e.V
	case "var":
		return p.get(f, e.Op)
	case "un":
		return p.res(ElemUnary(e.Op, p.eval(e.B, f)))
	case "bin":
		r := p.eval(e.B, f)
		l := p.eval(e.A, f)
		if e.Op == "," {
			return p.res(StructBinary(",", l, r, p.Origin))
		}
		return p.res(ElemBinary(e.Op, l, r))
	case "call1":
		return p.call(dep, e.Op, nil, p.eval(e.B, f))
	case "call2":
		r := p.eval(e.B, f)
		l := p.eval(e.A, f)
		return p.call(dep, e.Op, l, r)
	case "asg":
		v := p.eval(e.B, f)
		p.set(f, e.Op, v)
		return v
	case "dasg":
		v := p.eval(e.B, f)
		p.bind(f, e.Pat, v)
		return v
	case "idx":
		i := p.eval(e.A, f)
		var a *V
		if e.B != nil {
			a = p.eval(e.B, f)
		} else {
			a = p.get(f, e.Op)
		}
		if a.Scalar() {
			p.raise("index of scalar")
		}
		return p.res(Index(a, []*V{i}, p.Origin))
	case "iasg":
		v := p.eval(e.B, f)
		i := p.eval(e.A, f)
		a := p.get(f, e.Op)
		if a.Scalar() {
			p.raise("index of scalar")
		}
		p.set(f, e.Op, p.res(IndexAssign(a, []*V{i}, v, p.Origin)))
		return v
	case "vec":
		el := make([]*V, len(e.L))
		for i := len(e.L) - 1; i >= 0; i-- {
			el[i] = p.eval(e.L[i], f)
		}
		if len(el) == 1 && !el[0].Scalar() {
			panic(progErr{skip: true})
		}
		return VecOf(el...)
	case "red":
		v := p.eval(e.B, f)
		if v.K != Vec || len(v.El) < 2 {
			panic(progErr{skip: true})
		}
		acc := v.El[len(v.El)-1]
		for i := len(v.El) - 2; i >= 0; i-- {
			acc = p.call(dep, e.Op, v.El[i], acc)
		}
		return acc
	case "each":
		v := p.eval(e.B, f)
		if v.K != Vec || len(v.El) == 0 {
			panic(progErr{skip: true})
		}
		w := p.Writes
		defer func() {
			if p.Writes != w { // the order is not specified
				panic(progErr{skip: true})
			}
		}()
		el := make([]*V, len(v.El))
		for i, x := range v.El {
			el[i] = p.call(dep, e.Op, nil, x)
		}
		return VecOf(el...)
	}
	panic("bad expression " + e.K)
}

// Vars lists the global variables in order.
func (p *Prog) Vars() []string {
	var n []string
	for k := range p.Globals {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}
