package props

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P08", Run: runP08,
		Rule:        "every operator body that is a valid token sequence up to a length over an alphabet with all expression node types (constants of every type, parameters, globals, locals, strings, unary/binary/user-defined operators, each, reductions, products, parentheses, indexes with empty slots, assignments, conditionals, several statements), all argument patterns, and a list of constants x input bases: the listing printed by )op defines, in a fresh session, an operator with the same listing and, called on several arguments, the same results, errors and effects on variables",
		Assumptions: []string{"the listing is read with decimal input base and after the operators it refers to; behaviour is compared on 4 arguments per operator"}})
}

const setup08 = "op u a = a, 7\nop a b c = (2*a), c\nop w2 a\n"

var lang08 = &gLang{
	unary:  map[string]bool{"abs": true, "rot": true, "u": true, "iota": true},
	binary: map[string]bool{"mod": true, "rot": true, "b": true, "iota": true},
	konst:  func(string) (value.Value, bool) { return value.Int(0), true },
}

type run08 struct {
	s, s2 *ivy.Sess
}

func newRun08() *run08 {
	r := &run08{ivy.New(), ivy.New()}
	for _, s := range []*ivy.Sess{r.s, r.s2} {
		if out, errs, p := s.Run(setup08); errs != "" || p != nil {
			panic(out + errs)
		}
	}
	return r
}

var vars08 = []string{"x", "y", "z", "_"}

func (r *run08) reset(s *ivy.Sess) {
	undef(s, vars08...)
	s.SetVar("x", value.NewIntVector(3, 1, 2))
	s.SetVar("y", value.Int(2))
}

// check defines the operator with text def in the first session (which must
// accept it), lists it, defines the second session's from the listing and
// compares. calls are expressions using f.
func (r *run08) check(t *mc.T, def string, calls []string) bool {
	return r.check2(t, "f", def, "", calls)
}

func (r *run08) check2(t *mc.T, name, def, base string, calls []string) bool {
	t.Step(1)
	if base != "" {
		r.s.Run(base)
	}
	_, errs, p := r.s.Run(def + "\n\n")
	if p != nil {
		t.Failf("%q: %s", def, p)
		return false
	}
	if errs != "" {
		return false
	}
	text, errs, p := r.s.Run(")op " + name)
	if p != nil || errs != "" {
		t.Failf("after %q, )op %s: %s %v", def, name, errs, p)
		return false
	}
	r.s.Run(")base 0")
	_, errs, p = r.s2.Run(text + "\n")
	if p != nil || errs != "" {
		t.Failf("%q is listed as %q, which is rejected: %s %v", def, text, errs, p)
		return false
	}
	text2, errs, p := r.s2.Run(")op " + name)
	if p != nil || errs != "" || text2 != text {
		t.Failf("%q is listed as %q; that one is listed as %q %s %v", def, text, text2, errs, p)
		return false
	}
	t.Observe(text)
	for _, call := range calls {
		r.reset(r.s)
		r.reset(r.s2)
		a := r.outcome(r.s, call)
		b := r.outcome(r.s2, call)
		t.Step(2)
		if a != b {
			t.Failf("%q is listed as %q; %s gives %s with the original and %s with the one read from the listing", def, text, call, a, b)
			return false
		}
	}
	return true
}

func (r *run08) outcome(s *ivy.Sess, call string) string {
	v, err, p := s.Eval1(call)
	var b strings.Builder
	switch {
	case p != nil:
		b.WriteString("panic")
	case err != "":
		b.WriteString(err)
	default:
		b.WriteString(ivy.Dump(v))
	}
	for _, n := range vars08 {
		b.WriteString(" " + n + "=" + ivy.Dump(s.Var(n)))
	}
	return b.String()
}

func runP08(c *mc.Ctx) {
	r := newRun08()
	calls := []string{"f 3", "f 3 1 2", "f 0", "f 1 rho 5"}
	bodies := func(group string, alpha []string, length int) {
		c.Group(group)
		toks := make([]gTok, len(alpha))
		for i, a := range alpha {
			toks[i] = tok07(a)
		}
		n := len(alpha)
		for a := 0; a < n; a++ {
			if strings.Contains(")];:=", alpha[a]) {
				continue
			}
			for b := -1; b < n; b++ {
				if c.Skip() {
					continue
				}
				pre := []int{a}
				key := group + " " + alpha[a]
				if b >= 0 {
					pre = append(pre, b)
					key += " " + alpha[b]
				}
				c.Do(key, func(t *mc.T) {
					buf := append([]int(nil), pre...)
					seq := make([]gTok, 0, length)
					var rec func()
					rec = func() {
						if t.Failed() {
							return
						}
						seq = seq[:0]
						for _, k := range buf {
							seq = append(seq, toks[k])
						}
						p := &gParser{lang: lang08, toks: seq}
						p.line()
						if !p.bad && !p.opvar {
							var sb strings.Builder
							sb.WriteString("op f a =")
							for _, k := range buf {
								sb.WriteByte(' ')
								sb.WriteString(alpha[k])
							}
							r.check(t, sb.String(), calls)
						}
						if len(buf) >= length || len(pre) < 2 {
							return
						}
						for k := 0; k < n; k++ {
							buf = append(buf, k)
							rec()
							buf = buf[:len(buf)-1]
						}
					}
					rec()
				})
			}
		}
	}
	full := []string{"2", "a", "x", "'ab'", "-", "rot", "mod", "u", "b", "+/", "(", ")", "[", "]", ";", "=", "z", ":"}
	core := []string{"2", "a", "-", "u", "(", ")", "[", "]", "=", "z"}
	lex := []string{"-3", "1/2", "2j-1", "'c'", "'ab'", "x", "abs", "u@", "@b", "+.*", "o.-", "-\\", "+/%", "(", ")", "[", "]"}
	d := 0
	if !c.Quick {
		d = 1
	}
	bodies("bodies", full, 5+d)
	bodies("core bodies", core, 6+d)
	bodies("constants and operators", lex, 5+d)

	// Argument patterns.
	c.Group("patterns")
	pats := []string{"p", "()", "(p)", "(p q)", "(p (q r))", "((p q) r)", "((p))"}
	lefts := []string{"", "a", "()", "(a)", "(a b2)", "((a b2) c)"}
	args := []string{"5", "5 6", "(5 6) 7", "5 (6 7)", "iota 0", "1 rho 5", "1 rho box 1 rho 5"}
	for _, l := range lefts {
		for _, p := range pats {
			for _, body := range []string{"1", "p", "p , 1", "p; a", "a - p", "q", "a : p ; 3", "b2 , q"} {
				if c.Skip() {
					continue
				}
				def := fmt.Sprintf("op %s f %s = %s", l, p, body)
				c.Do(def, func(t *mc.T) {
					var cs []string
					for _, x := range args {
						if l == "" {
							cs = append(cs, "f "+x)
							continue
						}
						for _, y := range args {
							cs = append(cs, "("+y+") f "+x)
						}
					}
					r := newRun08()
					r.check(t, def, cs)
				})
			}
		}
	}
	// Constants in every position, under every input base.
	c.Group("constants")
	consts := []string{"0", "1", "-1", "10", "-10", "2147483648", "-9223372036854775808", "123456789012345678901234567890", "1/3", "-10/3", "100000000000000000000/3", "1j1", "-1j-1", "1/2j-3/4", "1j100000000000000000000",
		"1.5", "1e3", "1e-3", "1e30", "0.1j2.5", "'a'", "\"b\"", "'\\''", "'\\n'", "'\\t'", "'\\\\'", "'\\u00e9'", "'\\U0001F600'", "'\\x01'", "'\"'", "\"'\"", "\"a'b\\\"c\"", "''", "'ab'", "'é'", "`a\\b`", "'\\a\\b\\f\\r\\v'", "'\\u200b'", "'\\ufeffx'", "'#'", "'a;b'", "'(a'", "pi", "_", "x[1]", "x[;]", "x[1;2][3]", "'ab'[2]", "(2 3)[1]", "(x y)[1]", "(3)[1]", "('a')[1]", "-x", "(-x)[1]", "x[-1]", "x[- 1]", "x[y=1]"}
	shapes := []string{"%s", "(%s)", "- %s", "%s - 1", "1 - %s", "1 2 %s", "%s 1 2", "1 (%s) 2", "(%s)[1]", "x[%s]", "z = %s", "%s %s", "(%s) , (%s)", "%s : 1", "1 : %s", "z = %s; z", "u %s", "%s b %s", "u@ %s", "+/ %s"}
	for _, ib := range []int{0, 2, 8, 10, 16} {
		for _, k := range consts {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("constant base %d %s", ib, k), func(t *mc.T) {
				for _, sh := range shapes {
					def := "op f a = " + strings.ReplaceAll(sh, "%s", k)
					r.check2(t, "f", def, fmt.Sprintf(")base %d", ib), calls)
					r.s.Run(")base 0")
				}
			})
		}
	}
	// Shadowing a built-in, declarations, both arities, multi-line layouts.
	c.Group("others")
	for i, o := range []struct{ name, def string }{
		{"abs", "op abs a = a + 100"}, {"rot", "op a rot b = (rot a), b"}, {"f", "op f a"}, {"f", "op a f b"},
		{"f", "op f a =\n  a : 3\n\n  4"}, {"f", "op f a =\n a - 1\n  a - 2;a - 3\n"}, {"f", "op f a = # comment\n a # more\n a + 1\n"},
		{"f", "op f a =\n a <= 1 : 1\n a * f a - 1\n"}, {"f", "op f sum =\n sum + 1\n"}, {"f", "op f j = j j j\n"},
		{"f", "op f a =\n y = a\n y[1] = 3\n y\n"}, {"f", "op f a =\n (y z) = 3 a\n y z = z y\n y z\n"},
		{"f", "op f a =\n _ = x\n x = 9\n"}, {"_f", "op _f a = a"}, {"éa", "op éa a = a + 1"},
	} {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprint("other ", i, o.def), func(t *mc.T) {
			r := newRun08()
			var cs []string
			for _, k := range []string{"3", "3 1 2", "0", "-2"} {
				cs = append(cs, o.name+" "+k, "5 "+o.name+" "+k)
			}
			if !r.check2(t, o.name, o.def, "", cs) && !t.Failed() {
				t.Failf("%q: not accepted", o.def)
			}
		})
	}
}
