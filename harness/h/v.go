package h

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"robpike.io/ivy/value"
)

// Kind is the kind of a reference value.
type Kind int

const (
	Num Kind = iota // exact, possibly complex, number
	Chr             // character
	Flt             // floating-point number (inexact), possibly complex
	Vec             // vector of values
	Mat             // matrix of values
)

// V is the reference model of an ivy value: a scalar, a vector or a matrix with
// a shape. It is independent of how ivy represents anything.
type V struct {
	K      Kind
	Re, Im *big.Rat   // Num; Im is never nil
	FR, FI *big.Float // Flt; FI nil if real
	R      rune       // Chr
	Shape  []int      // Mat
	El     []*V       // Vec, Mat

	// F on an exact number says that ivy is to hold it as a float (Src writes it so).
	// It must be exactly representable. The number is the same; see Exact.
	F bool
}

// CanFloat reports whether the number v is exactly representable at 200 bits.
func (v *V) CanFloat() bool {
	if !v.IsReal() {
		return false
	}
	d := v.Re.Denom()
	return v.Re.Num().BitLen() <= 200 && d.BitLen() <= 200 && new(big.Int).And(d, new(big.Int).Sub(d, big.NewInt(1))).Sign() == 0
}

// AsFloat returns v marked to be held as a float.
func (v *V) AsFloat() *V { w := *v; w.F = true; return &w }

// Exact returns v with the real floats in it replaced by the exact numbers they are.
func (v *V) Exact() *V {
	switch v.K {
	case Flt:
		if v.FI == nil && !v.FR.IsInf() && v.FR.MantExp(nil) < 5000 && v.FR.MantExp(nil) > -5000 {
			r, _ := v.FR.Rat(nil)
			return Rat(r)
		}
	case Vec, Mat:
		w := &V{K: v.K, Shape: v.Shape, El: make([]*V, len(v.El))}
		for i, e := range v.El {
			w.El[i] = e.Exact()
		}
		return w
	}
	return v
}

func I(n int64) *V               { return &V{K: Num, Re: new(big.Rat).SetInt64(n), Im: new(big.Rat)} }
func Int(n int) *V               { return I(int64(n)) }
func BI(n *big.Int) *V           { return &V{K: Num, Re: new(big.Rat).SetInt(n), Im: new(big.Rat)} }
func Rat(r *big.Rat) *V          { return &V{K: Num, Re: r, Im: new(big.Rat)} }
func Frac(a, b int64) *V         { return Rat(big.NewRat(a, b)) }
func Cx(re, im *big.Rat) *V      { return &V{K: Num, Re: re, Im: im} }
func Ch(r rune) *V               { return &V{K: Chr, R: r} }
func Fl(f *big.Float) *V         { return &V{K: Flt, FR: f} }
func VecOf(el ...*V) *V          { return &V{K: Vec, El: el} }
func MatOf(sh []int, el []*V) *V { return &V{K: Mat, Shape: append([]int{}, sh...), El: el} }

func Ints(n ...int) *V {
	v := &V{K: Vec, El: []*V{}}
	for _, x := range n {
		v.El = append(v.El, Int(x))
	}
	return v
}

func Str(s string) *V {
	v := &V{K: Vec}
	for _, r := range s {
		v.El = append(v.El, Ch(r))
	}
	return v
}

func Bit(b bool) *V {
	if b {
		return I(1)
	}
	return I(0)
}

func (v *V) Scalar() bool { return v.K < Vec }
func (v *V) IsReal() bool { return v.K == Num && v.Im.Sign() == 0 }
func (v *V) IsInt() bool  { return v.IsReal() && v.Re.IsInt() }
func (v *V) IsZero() bool { return v.K == Num && v.Re.Sign() == 0 && v.Im.Sign() == 0 }

// AsInt returns the small integer held by v.
func (v *V) AsInt() (int, bool) {
	if !v.IsInt() || !v.Re.Num().IsInt64() {
		return 0, false
	}
	return int(v.Re.Num().Int64()), true
}

// Dims is the shape: nil for a scalar.
func (v *V) Dims() []int {
	switch v.K {
	case Vec:
		return []int{len(v.El)}
	case Mat:
		return v.Shape
	}
	return nil
}

// FromIvy converts an ivy value. It reports values that are malformed in ways a user
// could observe (an assignment marker inside data, a shape that does not match).
func FromIvy(x value.Value) (*V, error) {
	if q, ok := x.(value.QuietValue); ok {
		x = q.Value
	}
	return fromIvy(x)
}

func fromIvy(x value.Value) (*V, error) {
	switch x := x.(type) {
	case nil:
		return nil, fmt.Errorf("nil value")
	case value.Int:
		return I(int64(x)), nil
	case value.Char:
		return Ch(rune(x)), nil
	case value.BigInt:
		return BI(new(big.Int).Set(x.Int)), nil
	case value.BigRat:
		return Rat(new(big.Rat).Set(x.Rat)), nil
	case value.BigFloat:
		return Fl(new(big.Float).Copy(x.Float)), nil
	case value.Complex:
		re, im := x.Components()
		r, err := fromIvy(re)
		if err != nil {
			return nil, err
		}
		i, err := fromIvy(im)
		if err != nil {
			return nil, err
		}
		if r.K == Num && i.K == Num {
			if r.Im.Sign() != 0 || i.Im.Sign() != 0 {
				return nil, fmt.Errorf("complex number with complex parts %v", x)
			}
			return Cx(r.Re, i.Re), nil
		}
		if r.K > Flt || i.K > Flt || r.K == Chr || i.K == Chr {
			return nil, fmt.Errorf("complex number with parts of type %T, %T", re, im)
		}
		return &V{K: Flt, FR: r.Float(), FI: i.Float()}, nil
	case *value.Vector:
		v := &V{K: Vec, El: make([]*V, 0, x.Len())}
		for i := 0; i < x.Len(); i++ {
			e, err := fromIvy(x.At(i))
			if err != nil {
				return nil, fmt.Errorf("element %d: %v", i, err)
			}
			v.El = append(v.El, e)
		}
		return v, nil
	case *value.Matrix:
		d, err := fromIvy(x.Data())
		if err != nil {
			return nil, err
		}
		v := &V{K: Mat, Shape: append([]int{}, x.Shape()...), El: d.El}
		n := 1
		for _, s := range v.Shape {
			n *= s
		}
		if n != len(v.El) {
			return nil, fmt.Errorf("matrix of shape %v has %d elements", v.Shape, len(v.El))
		}
		return v, nil
	}
	return nil, fmt.Errorf("value of type %T inside data", x)
}

// Float returns the real part as a big.Float.
func (v *V) Float() *big.Float {
	if v.K == Flt {
		return v.FR
	}
	return new(big.Float).SetPrec(2000).SetRat(v.Re)
}

// Diff describes the first difference between got and want, or "" if equal.
// Floats must be equal bit for bit.
func Diff(got, want *V) string {
	if got == nil || want == nil {
		if got == want {
			return ""
		}
		return fmt.Sprintf("got %v want %v", got, want)
	}
	if got.K != want.K {
		return fmt.Sprintf("kind: got %s want %s", got.kindName(), want.kindName())
	}
	switch got.K {
	case Num:
		if got.Re.Cmp(want.Re) != 0 || got.Im.Cmp(want.Im) != 0 {
			return fmt.Sprintf("number: got %s want %s", clip(got.String()), clip(want.String()))
		}
	case Chr:
		if got.R != want.R {
			return fmt.Sprintf("char: got %q want %q", got.R, want.R)
		}
	case Flt:
		if got.FR.Cmp(want.FR) != 0 || (got.FI == nil) != (want.FI == nil) || got.FI != nil && got.FI.Cmp(want.FI) != 0 {
			return fmt.Sprintf("float: got %s want %s", got, want)
		}
	case Mat:
		if !eqInts(got.Shape, want.Shape) {
			return fmt.Sprintf("shape: got %v want %v", got.Shape, want.Shape)
		}
		fallthrough
	case Vec:
		if len(got.El) != len(want.El) {
			return fmt.Sprintf("length: got %d want %d", len(got.El), len(want.El))
		}
		for i := range got.El {
			if d := Diff(got.El[i], want.El[i]); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
	}
	return ""
}

func Same(a, b *V) bool { return Diff(a, b) == "" }

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

func (v *V) kindName() string {
	switch v.K {
	case Num:
		return "number " + clip(v.String())
	case Chr:
		return "char " + strconv.QuoteRune(v.R)
	case Flt:
		return "float"
	case Vec:
		return fmt.Sprintf("vector of length %d", len(v.El))
	}
	return fmt.Sprintf("matrix of shape %v", v.Shape)
}

// String is for messages.
func (v *V) String() string {
	if v == nil {
		return "<none>"
	}
	switch v.K {
	case Num:
		s := v.Re.RatString()
		if v.Im.Sign() != 0 {
			s += "j" + v.Im.RatString()
		}
		return s
	case Chr:
		return strconv.QuoteRune(v.R)
	case Flt:
		s := v.FR.Text('g', 40) + "f"
		if v.FI != nil {
			s += "j" + v.FI.Text('g', 40) + "f"
		}
		return s
	}
	var b strings.Builder
	if v.K == Mat {
		fmt.Fprintf(&b, "%v rho ", v.Shape)
	}
	b.WriteString("(")
	for i, e := range v.El {
		if i > 0 {
			b.WriteString(" ")
		}
		if i > 60 {
			fmt.Fprintf(&b, "… %d more", len(v.El)-i)
			break
		}
		b.WriteString(e.String())
	}
	b.WriteString(")")
	return b.String()
}

// Src writes v as ivy source: an operand that denotes exactly v. Only exact numbers,
// chars, vectors and matrices of them can be written.
func (v *V) Src() string {
	switch v.K {
	case Num:
		s := v.Re.RatString()
		if v.Im.Sign() != 0 {
			s += "j" + v.Im.RatString()
		}
		if v.F {
			return "(float " + s + ")"
		}
		if s[0] == '-' {
			return "(" + s + ")"
		}
		return s
	case Chr:
		return QuoteIvy(string(v.R))
	case Vec:
		return "(" + vecSrc(v.El) + ")"
	case Mat:
		var b strings.Builder
		b.WriteString("(")
		if len(v.Shape) == 1 {
			fmt.Fprintf(&b, "(,%d)", v.Shape[0])
		} else {
			b.WriteString("(")
			for i, n := range v.Shape {
				if i > 0 {
					b.WriteString(" ")
				}
				fmt.Fprintf(&b, "%d", n)
			}
			b.WriteString(")")
		}
		b.WriteString(" rho ")
		if len(v.El) == 0 {
			b.WriteString("0")
		} else {
			b.WriteString(vecSrc(v.El))
		}
		b.WriteString(")")
		return b.String()
	}
	panic("Src: cannot write " + v.String())
}

func vecSrc(el []*V) string {
	switch len(el) {
	case 0:
		return "iota 0"
	case 1:
		if el[0].Scalar() {
			return "," + el[0].Src()
		}
		// A one-element vector holding a non-scalar.
		return "1 drop 0 " + el[0].Src()
	}
	allC := true
	for _, e := range el {
		allC = allC && e.K == Chr
	}
	if allC {
		s := ""
		for _, e := range el {
			s += string(e.R)
		}
		return QuoteIvy(s)
	}
	var b strings.Builder
	for i, e := range el {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(e.Src())
	}
	return b.String()
}

// QuoteIvy writes a string literal.
func QuoteIvy(s string) string { return strconv.Quote(s) }
