// Package ivy wraps the real interpreter (built from /repo's working tree).
package ivy

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"runtime/debug"
	"strings"

	"robpike.io/ivy/config"
	"robpike.io/ivy/exec"
	"robpike.io/ivy/parse"
	"robpike.io/ivy/run"
	"robpike.io/ivy/scan"
	"robpike.io/ivy/value"
)

// Sess is one interpreter session.
type Sess struct {
	Ctx  value.Context
	Conf *config.Config
}

// New starts a session as package main does.
func New() *Sess {
	conf := new(config.Config)
	conf.SetFormat("")
	conf.SetMaxBits(1e6)
	conf.SetMaxDigits(1e4)
	conf.SetMaxStack(1e5)
	conf.SetOrigin(1)
	conf.SetPrompt("")
	return &Sess{Ctx: exec.NewContext(conf), Conf: conf}
}

// Panic is a Go panic that escaped the interpreter.
type Panic struct {
	Val   any
	Stack string
}

func (p *Panic) String() string {
	// Only the interpreter's own frames, innermost first.
	var fr []string
	ls := strings.Split(p.Stack, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.HasPrefix(ls[i], "robpike.io/ivy/") && len(fr) < 6 {
			f := strings.TrimPrefix(ls[i], "robpike.io/ivy/")
			if k := strings.LastIndexByte(f, '('); k > 0 {
				f = f[:k]
			}
			at := strings.TrimSpace(ls[i+1])
			at, _, _ = strings.Cut(at, " ")
			if k := strings.LastIndexByte(at, '/'); k >= 0 {
				at = at[k+1:]
			}
			if f != "run.Run.func1" {
				fr = append(fr, f+" "+at)
			}
		}
	}
	return fmt.Sprintf("Go panic: %v [%s]", p.Val, strings.Join(fr, "; "))
}

// Run feeds src to the session (as a script) and returns what it printed.
func (s *Sess) Run(src string) (out, errs string, p *Panic) {
	var o, e bytes.Buffer
	defer func() {
		if x := recover(); x != nil {
			p = &Panic{x, string(debug.Stack())}
			out, errs = o.String(), e.String()
		}
	}()
	run.Ivy(s.Ctx, src, &o, &e)
	return o.String(), e.String(), nil
}

// RunReader is Run on an arbitrary reader (which must be an io.ByteReader).
func (s *Sess) RunReader(r io.ByteReader, interactive bool) (out, errs string, p *Panic) {
	var o, e bytes.Buffer
	defer func() {
		if x := recover(); x != nil {
			p = &Panic{x, string(debug.Stack())}
			out, errs = o.String(), e.String()
		}
	}()
	s.Conf.SetOutput(&o)
	s.Conf.SetErrOutput(&e)
	scanner := scan.New(s.Ctx, " ", r)
	parser := parse.NewParser(" ", scanner, s.Ctx)
	for !run.Run(parser, s.Ctx, interactive) {
	}
	return o.String(), e.String(), nil
}

// Eval parses and evaluates one line and returns the values of its statements.
// err is the ivy error message, "" if none.
func (s *Sess) Eval(line string) (vals []value.Value, err string, p *Panic) {
	if !strings.HasSuffix(line, "\n") {
		line += "\n"
	}
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case value.Error:
				err = "E:" + string(x)
			case big.ErrNaN:
				err = "E:" + x.Error()
			default:
				p = &Panic{x, string(debug.Stack())}
			}
		}
	}()
	s.Conf.SetOutput(io.Discard)
	s.Conf.SetErrOutput(io.Discard)
	scanner := scan.New(s.Ctx, " ", strings.NewReader(line))
	parser := parse.NewParser(" ", scanner, s.Ctx)
	exprs, _ := parser.Line()
	if exprs != nil {
		vals = s.Ctx.Eval(exprs)
	}
	return vals, "", nil
}

// Eval1 evaluates a single expression. The result is nil on error.
func (s *Sess) Eval1(line string) (value.Value, string, *Panic) {
	vals, err, p := s.Eval(line)
	if err != "" || p != nil {
		return nil, err, p
	}
	if len(vals) != 1 {
		return nil, fmt.Sprintf("E:expected one value, got %d", len(vals)), nil
	}
	return vals[0].Inner(), "", nil
}

// Var returns the value of a global, nil if undefined.
func (s *Sess) Var(name string) value.Value {
	v := s.Ctx.Global(name)
	if v == nil {
		return nil
	}
	return v.Value()
}

// SetVar assigns a global directly.
func (s *Sess) SetVar(name string, v value.Value) { s.Ctx.AssignGlobal(name, v) }

// Dump is a canonical structural rendering of a value, independent of the
// configuration: numbers by mathematical value, floats by exact mantissa.
func Dump(v value.Value) string {
	var b strings.Builder
	dump(&b, v, false)
	return b.String()
}

// DumpRep is Dump but also shows the representation of numbers.
func DumpRep(v value.Value) string {
	var b strings.Builder
	dump(&b, v, true)
	return b.String()
}

func dump(b *strings.Builder, v value.Value, rep bool) {
	if v == nil {
		b.WriteString("<nil>")
		return
	}
	switch x := v.Inner().(type) {
	case value.Int:
		fmt.Fprintf(b, "%d", int64(x))
	case value.Char:
		fmt.Fprintf(b, "'%x'", rune(x))
	case value.BigInt:
		if rep {
			b.WriteString("I")
		}
		b.WriteString(x.Int.String())
	case value.BigRat:
		if rep {
			b.WriteString("R")
		}
		if x.Rat.IsInt() {
			b.WriteString(x.Rat.Num().String())
		} else {
			b.WriteString(x.Rat.String())
		}
	case value.BigFloat:
		fmt.Fprintf(b, "F%s", x.Float.Text('p', 0))
		if rep {
			fmt.Fprintf(b, "@%d", x.Float.Prec())
		}
	case value.Complex:
		re, im := x.Components()
		b.WriteString("C(")
		dump(b, re, rep)
		b.WriteByte(' ')
		dump(b, im, rep)
		b.WriteString(")")
	case *value.Vector:
		b.WriteString("[")
		for i := 0; i < x.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, x.At(i), rep)
		}
		b.WriteString("]")
	case *value.Matrix:
		fmt.Fprintf(b, "{%v ", x.Shape())
		dump(b, x.Data(), rep)
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "<%T %v>", x, x)
	}
}
