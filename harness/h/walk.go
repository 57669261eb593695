package h

import (
	"fmt"
	"strings"
)

// The operators the random walks use.
var (
	WalkUnary = []string{"?", "rand", "j", "+", "-", "/", "sgn", "!", "^", "not", "**", "sin", "cos", "tan", "asin", "acos", "atan",
		"sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "sqrt", "abs", "real", "imag", "phase", "conj", "floor", "ceil",
		"code", "char", "float", "rho", "count", "flatten", ",", "iota", "where", "unique", "box", "first", "split", "mix",
		"rot", "flip", "up", "down", "text", "transp", "inv", "print"}
	WalkBinary = []string{"j", "+", "-", "*", "/", "idiv", "imod", "div", "mod", "**", "log", "!", "&", "|", "^", "<<", ">>",
		"==", "!=", "<", "<=", ">", ">=", "and", "or", "xor", "nand", "nor", "min", "max", "?", "decode", "encode",
		"in", "iota", "rho", ",", ",%", "take", "drop", "rot", "flip", "fill", "sel", "part", "transp", "text", "mdiv",
		"union", "intersect", "===", "!=="}
	// ReduceOps can be used in reductions, scans and products.
	ReduceOps = []string{"+", "-", "*", "/", "max", "min", "and", "or", "xor", "==", "<", "&", "|", "^", ",", "mod", "idiv", "div", "j", "rho", "take", "in", "==="}
)

const maxElems = 1200

// CheapUnary reports whether op applied to a is a small computation.
func CheapUnary(op string, a *V) bool {
	max, sum, prod := a.MaxAbs()
	bits := a.Bits()
	switch op {
	case "iota":
		return prod <= maxElems && max < 1e4
	case "!":
		return max <= 400
	case "where":
		return sum <= maxElems
	case "**", "sinh", "cosh", "tanh":
		return max < 1e4 && a.Size() <= 60
	case "sin", "cos", "tan", "asin", "acos", "atan", "asinh", "acosh", "atanh", "log", "sqrt", "phase", "sgn", "abs":
		return bits < 3000 && a.Size() <= 60
	case "inv":
		return a.Size() <= 36 && bits < 700
	case "mix", "box":
		return a.Size()*4 < maxElems && depth(a) < 6
	case "rand", "?":
		return bits < 5000
	case "print", "text":
		return bits < 5000
	}
	return true
}

func depth(a *V) int {
	if a.Scalar() {
		return 0
	}
	d := 0
	for _, e := range a.El {
		if x := depth(e); x > d {
			d = x
		}
	}
	return d + 1
}

// CheapBinary reports whether a op b is a small computation.
func CheapBinary(op string, a, b *V) bool {
	amax, asum, aprod := a.MaxAbs()
	bmax, _, _ := b.MaxAbs()
	na, nb := a.Size(), b.Size()
	switch op {
	case "rho", "take":
		return aprod <= maxElems && amax <= 1e4
	case "fill", "sel":
		return (asum+1)*float64(nb+1) <= maxElems*4
	case "?":
		return bmax <= 1e4 || bmax > 1e11
	case "**":
		if hasFloatOrFrac(b) || hasFloatOrFrac(a) {
			return bmax < 300 && a.Bits() < 1000 && na+nb <= 40
		}
		return bmax <= 60 && float64(a.Bits())*bmax < 8000 || bmax > 1e20 && a.Bits() < 100
	case "log":
		return na+nb <= 40 && a.Bits() < 2000 && b.Bits() < 2000
	case "<<", ">>":
		return bmax < 3000 || bmax > 1e11
	case "!":
		return bmax <= 400 && amax <= 400 || bmax > 1e11
	case "encode":
		return na*nb <= maxElems
	case "decode":
		return float64(a.Bits())*float64(na+nb) < 20000
	case "text":
		return na < 12
	case "mdiv":
		return na+nb <= 50 && a.Bits()+b.Bits() < 700
	case ",", ",%", "union":
		return na+nb <= 2*maxElems
	case "part", "mix":
		return depth(b) < 6
	}
	return true
}

func hasFloatOrFrac(a *V) bool {
	r := false
	a.Each(func(e *V) {
		if e.K == Flt || e.K == Num && (!e.IsInt()) {
			r = true
		}
	})
	return r
}

// Walk is a random session over a few variables, whose steps are chosen with an
// eye on the current values so that every line is a small computation.
type Walk struct {
	S     *Sess
	Names []string
	Vals  map[string]*V
	Ops   []string // user-defined operators in force: "u1 unary", ...
	// Settings allows steps that change the settings.
	Settings bool
	// NoRandom leaves out operators with random results.
	NoRandom bool
	// NoFloat leaves out irrational functions (they are slow).
	NoFloat bool
	Long    bool
}

// NewWalk starts a session with n variables holding generated values.
func NewWalk(c *C, n int, long bool) *Walk {
	w := &Walk{S: NewSess(c), Vals: map[string]*V{}, Long: long}
	for i := 0; i < n; i++ {
		w.Names = append(w.Names, fmt.Sprintf("v%d", i+1))
	}
	return w
}

// Init returns the lines that give the variables their first values.
func (w *Walk) Init() []string {
	var lines []string
	for _, n := range w.Names {
		v := GenValue(w.S.C, w.Long)
		lines = append(lines, n+" = "+v.Src())
	}
	return lines
}

// Refresh re-reads the variables' values.
func (w *Walk) Refresh() {
	for _, n := range w.Names {
		w.Vals[n] = w.S.Get(n)
	}
}

func (w *Walk) name() string { return w.Names[w.S.C.Idx(len(w.Names))] }

func (w *Walk) unaryOK(op string) bool {
	if w.NoRandom && (op == "?" || op == "rand") {
		return false
	}
	return true
}

// Expr draws an expression of one operation over the variables, or "" if the draw
// would not be small. kind names what was drawn.
func (w *Walk) Expr() (expr, kind string) {
	c := w.S.C
	a := w.name()
	va := w.Vals[a]
	switch c.Idx(16) {
	case 0, 1, 2, 3, 4:
		op := Pick(c, WalkUnary...)
		if !w.unaryOK(op) || !CheapUnary(op, va) {
			return "", ""
		}
		return op + " " + a, op
	case 5, 6, 7, 8, 9, 10:
		b := w.name()
		op := Pick(c, WalkBinary...)
		if w.NoRandom && op == "?" || !CheapBinary(op, va, w.Vals[b]) {
			return "", ""
		}
		return a + " " + op + " " + b, op
	case 11:
		// Reduction or scan.
		op := Pick(c, ReduceOps...)
		suffix := Pick(c, "/", "\\", "/%", "\\%")
		if va.Bits()*(1+va.Size()) > 60000 || op == "rho" && va.Size() > 12 || op == "take" && va.Size() > 12 {
			return "", ""
		}
		if op == "rho" || op == "take" {
			if _, _, p := va.MaxAbs(); p > maxElems {
				return "", ""
			}
		}
		if op == "j" && va.Size() > 50 {
			return "", ""
		}
		return op + suffix + " " + a, "reduce"
	case 12:
		// Products.
		b := w.name()
		vb := w.Vals[b]
		f, g := Pick(c, ReduceOps...), Pick(c, ReduceOps...)
		if va.Size()*vb.Size() > 2*maxElems || (va.Bits()+vb.Bits())*(va.Size()+vb.Size()) > 60000 {
			return "", ""
		}
		for _, o := range []string{f, g} {
			if o == "rho" || o == "take" || o == "," {
				return "", ""
			}
		}
		if c.Bool() {
			return a + " o." + f + " " + b, "outer"
		}
		return a + " " + f + "." + g + " " + b, "inner"
	case 13:
		// Each.
		if c.Bool() {
			op := Pick(c, "-", "count", "rho", "first", "rot", "up", "flatten", ",", "iota", "box", "not", "transp", "unique")
			if !CheapUnary(op, va) || depth(va) > 5 || op == "iota" && va.Size() > 20 {
				return "", ""
			}
			return op + "@ " + a, "each"
		}
		b := w.name()
		op := Pick(c, "+", "-", ",", "take", "drop", "==", "in", "rot", "rho", "max", "iota", "===")
		vb := w.Vals[b]
		if !CheapBinary(op, va, vb) || va.Size()*vb.Size() > maxElems || depth(va)+depth(vb) > 6 {
			return "", ""
		}
		if op == "rho" || op == "take" {
			if _, _, p := va.MaxAbs(); p*float64(vb.Size()) > maxElems {
				return "", ""
			}
		}
		return a + Pick(c, " "+op+"@ ", " @"+op+" ", " @"+op+"@ ") + b, "each"
	case 14:
		// Indexing.
		return a + w.index(va), "index"
	default:
		// Literal constants mixed in.
		lit := GenElem(c, Pick(c, EInt, ENum, EMixed), 0)
		op := Pick(c, WalkBinary...)
		if w.NoRandom && op == "?" {
			return "", ""
		}
		if c.Bool() {
			if !CheapBinary(op, lit, va) {
				return "", ""
			}
			return lit.Src() + " " + op + " " + a, op
		}
		if !CheapBinary(op, va, lit) {
			return "", ""
		}
		return a + " " + op + " " + lit.Src(), op
	}
}

// index draws an index list, usually fitting the value.
func (w *Walk) index(v *V) string {
	c := w.S.C
	d := v.Dims()
	n := len(d)
	if n == 0 || c.Prob(1) {
		n = c.Range(1, 3)
	}
	if n > 1 && c.Prob(4) {
		n = c.Range(1, n)
	}
	var parts []string
	for i := 0; i < n; i++ {
		lim := 3
		if i < len(d) {
			lim = d[i]
		}
		one := func() string {
			if c.Prob(1) || lim == 0 {
				return Pick(c, "0", "1", "(-1)", "100", "1/2", "'a'", "1e10")
			}
			return fmt.Sprint(c.Range(1, lim))
		}
		switch c.Idx(6) {
		case 0:
			parts = append(parts, "")
		case 1, 2, 3:
			parts = append(parts, one())
		case 4:
			k := c.Range(2, 4)
			var l []string
			for j := 0; j < k; j++ {
				l = append(l, one())
			}
			parts = append(parts, strings.Join(l, " "))
		case 5:
			parts = append(parts, Pick(c, "iota 0", "2 2 rho "+one(), ","+one(), w.name()))
		}
	}
	return "[" + strings.Join(parts, "; ") + "]"
}

// Line draws a line: an assignment of an expression, an indexed assignment, a bare
// expression, a setting. It returns the variables the line may assign.
func (w *Walk) Line() (line string, assigns []string, kind string) {
	c := w.S.C
	if w.Settings && c.Prob(2) {
		return w.setting(), nil, "setting"
	}
	switch c.Idx(10) {
	case 0:
		a, b := w.name(), w.name()
		return a + " = " + b, []string{a}, "copy"
	case 1, 2:
		a, b := w.name(), w.name()
		va, vb := w.Vals[a], w.Vals[b]
		if va.Size()+vb.Size() > maxElems || depth(va)+depth(vb) > 6 {
			return "", nil, ""
		}
		rhs := b
		if c.Bool() {
			rhs = GenElem(c, EMixed, 0).Src()
		}
		return a + w.index(va) + " = " + rhs, []string{a}, "index assign"
	case 3:
		a := w.name()
		return a + " = " + GenValue(c, w.Long).Src(), []string{a}, "literal"
	case 4:
		e, k := w.Expr()
		if e == "" {
			return "", nil, ""
		}
		return e, nil, k
	}
	e, k := w.Expr()
	if e == "" {
		return "", nil, ""
	}
	a := w.name()
	return a + " = " + e, []string{a}, k
}

func (w *Walk) setting() string {
	c := w.S.C
	switch c.Idx(12) {
	case 0, 1, 2:
		return fmt.Sprintf(")origin %d", c.Range(0, 3))
	case 3, 4:
		return fmt.Sprintf(")obase %d", Pick(c, 0, 2, 8, 10, 16, 3, 7, 15))
	case 5:
		return fmt.Sprintf(")prec %d", Pick(c, 256, 64, 100, 300, 512))
	case 6, 7:
		return fmt.Sprintf(")format %q", Pick(c, "", "%d", "%x", "%#o", "%.3f", "%8.2e", "%v", "%g", "%6s", "%c", "%q", "%U", "%b", "%.40g", "%t", "%z", "%%", "%5d|"))
	case 8:
		return fmt.Sprintf(")maxdigits %d", Pick(c, 10000, 0, 1, 5, 20))
	case 9:
		return fmt.Sprintf(")seed %d", c.Idx(100))
	case 10:
		return ")var " + w.name()
	}
	return Pick(c, ")origin", ")base", ")format", ")prec", ")maxbits", ")maxdigits", ")maxstack", ")prompt", ")seed", ")op", ")var", ")debug", ")timezone", ")cpu", ")help", ")help rho", ")help nosuch", ")help about take")
}
