package h

import (
	"bytes"
	"fmt"
	"strings"

	"robpike.io/ivy/config"
	"robpike.io/ivy/exec"
	"robpike.io/ivy/run"
	"robpike.io/ivy/value"
)

// Sess is an ivy session driven as text, the way a user drives it.
type Sess struct {
	C    *C
	Ctx  value.Context
	Conf *config.Config
	out  bytes.Buffer
	err  bytes.Buffer
}

// NewSess returns a fresh session with the defaults of the ivy command.
func NewSess(c *C) *Sess {
	s := &Sess{C: c, Conf: new(config.Config)}
	s.Conf.SetFormat("")
	s.Conf.SetMaxBits(1e9)
	s.Conf.SetMaxDigits(1e4)
	s.Conf.SetMaxStack(100000)
	s.Conf.SetOrigin(1)
	s.Conf.SetPrompt("")
	s.Ctx = exec.NewContext(s.Conf)
	return s
}

// Run feeds text to the session and returns what it wrote.
func (s *Sess) Run(text string) (stdout, stderr string) {
	s.C.Step(text)
	s.out.Reset()
	s.err.Reset()
	run.Ivy(s.Ctx, text, &s.out, &s.err)
	return s.out.String(), s.err.String()
}

// Do runs text that must not fail (harness set-up).
func (s *Sess) Do(text string) {
	if _, e := s.Run(text); e != "" {
		s.C.Fail("set-up text failed: %q: %s", text, e)
	}
}

// Raw returns the value of a global variable, or nil.
func (s *Sess) Raw(name string) value.Value {
	v := s.Ctx.Global(name)
	if v == nil {
		return nil
	}
	return v.Value()
}

// Get returns the value of a global variable as a reference value.
func (s *Sess) Get(name string) *V {
	v := s.Raw(name)
	if v == nil {
		return nil
	}
	r, err := FromIvy(v)
	if err != nil {
		s.C.Fail("variable %s holds an ill-formed value: %v", name, err)
	}
	return r
}

// Eval evaluates expr and returns its value, or the error text.
func (s *Sess) Eval(expr string) (*V, string) {
	s.Ctx.AssignGlobal("zz", value.Int(424242))
	_, e := s.Run("zz = " + expr)
	if e != "" {
		return nil, strings.TrimSpace(e)
	}
	return s.Get("zz"), ""
}

// Must evaluates expr, which has to succeed.
func (s *Sess) Must(expr string) *V {
	v, e := s.Eval(expr)
	if e != "" {
		s.C.Fail("%s: unexpected error: %s", expr, e)
	}
	return v
}

// Want checks that expr evaluates to want.
func (s *Sess) Want(expr string, want *V) {
	v, e := s.Eval(expr)
	if e != "" {
		s.C.Fail("%s\n gives error: %s\n want value: %s", expr, e, want)
	}
	if d := Diff(v, want); d != "" {
		s.C.Fail("%s\n got:  %s\n want: %s\n (%s)", expr, v, want, d)
	}
}

// WantErr checks that expr fails with an ivy error.
func (s *Sess) WantErr(expr string, why string) {
	v, e := s.Eval(expr)
	if e == "" {
		s.C.Fail("%s\n got value: %s\n want an error (%s)", expr, v, why)
	}
}

// WantOrErr checks against a model result that may be an error (want == nil).
func (s *Sess) WantOrErr(expr string, want *V, why string) {
	if want == nil {
		s.WantErr(expr, why)
		return
	}
	s.Want(expr, want)
}

func Sprint(a ...any) string { return fmt.Sprint(a...) }

// Log is what was run so far.
func (s *Sess) Log() []string { return s.C.steps }
