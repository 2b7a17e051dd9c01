package props

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P09", Run: runP09,
		Rule:        "(values) every value of an alphabet covering every type, shape and nesting, alone and in all pairs, and every Unicode character; (variables shown) every such value under several names and settings: what )var prints, executed in another session, and the list of variables; (settings) all pairs of input and output base with all listed settings; (operators) all histories of up to 4 (thorough 5) definitions, redefinitions, declarations and deletions of mutually dependent operators of both arities using each other directly and through each, reduction, scan and products. After the history: )save, )get of the file in a new session; no error, same variables, same operators (text and behaviour on probe calls), same settings, the saving session unchanged, and saving the restored session writes the same file.",
		Assumptions: []string{"floating-point values are saved as decimal text (pinned by the golden files), so they come back as rationals equal to the float within its precision; the file is read in a new session; operators do not redefine rho or box, which the file uses; random seed, maxstack and time zone are not saved"}})
}

type run09 struct {
	dir string
	n   int
}

// state09 is everything )save must preserve.
func state09(s *ivy.Sess) (vars map[string]value.Value, rest string) {
	vars = map[string]value.Value{}
	for _, n := range globals09(s) {
		vars[n] = s.Var(n)
	}
	ib, ob := s.Conf.Base()
	rest = fmt.Sprintf("prec %d maxbits %d maxdigits %d origin %d prompt %q format %q base %d %d", s.Conf.FloatPrec(), s.Conf.MaxBits(), s.Conf.MaxDigits(), s.Conf.Origin(), s.Conf.Prompt(), s.Conf.Format(), ib, ob)
	return
}

func globals09(s *ivy.Sess) []string {
	out, _, _ := s.Run(")var")
	l := strings.Fields(out)
	sort.Strings(l)
	return l
}

// same09 compares a value with its restoration; floats may become rationals.
func same09(a, b value.Value) bool {
	a, b = a.Inner(), b.Inner()
	switch x := a.(type) {
	case *value.Vector:
		y, ok := b.(*value.Vector)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !same09(x.At(i), y.At(i)) {
				return false
			}
		}
		return true
	case *value.Matrix:
		y, ok := b.(*value.Matrix)
		return ok && fmt.Sprint(x.Shape()) == fmt.Sprint(y.Shape()) && same09(x.Data(), y.Data())
	case value.Complex:
		y, ok := b.(value.Complex)
		if !ok {
			return false
		}
		xr, xi := x.Components()
		yr, yi := y.Components()
		return same09(xr, yr) && same09(xi, yi)
	case value.BigFloat:
		var f *big.Float
		if y, ok := b.(value.BigFloat); ok {
			f = y.Float
		} else {
			r, ok := ratOf(b)
			if !ok {
				return false
			}
			f = new(big.Float).SetPrec(x.Prec() + 64).SetRat(r)
		}
		d := new(big.Float).SetPrec(x.Prec()+64).Sub(x.Float, f)
		if d.Sign() == 0 {
			return true
		}
		return d.MantExp(nil) <= x.MantExp(nil)-int(x.Prec())+2
	}
	return ivy.DumpRep(a) == ivy.DumpRep(b)
}

func hasFloat09(v value.Value) bool {
	d := ivy.Dump(v)
	return strings.Contains(d, "F0x") || strings.Contains(d, "F-0x")
}

// sprint09 is how v displays, which is an error for some types in some bases.
func sprint09(s *ivy.Sess, v value.Value) (str string) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(value.Error)
			if !ok {
				panic(x)
			}
			str = "error: " + e.Error()
		}
	}()
	return v.Sprint(s.Conf)
}

// round saves s, restores it in a new session and compares. calls are probed in both.
func (r *run09) round(t *mc.T, what string, s *ivy.Sess, ops, calls []string) {
	file := filepath.Join(r.dir, "a.ivy")
	file2 := filepath.Join(r.dir, "b.ivy")
	vars, rest := state09(s)
	_, e, p := s.Run(fmt.Sprintf(")save %q", file))
	t.Step(2)
	if e != "" || p != nil {
		t.Failf("%s: )save: %s %v", what, e, p)
		return
	}
	vars1, rest1 := state09(s)
	if rest1 != rest {
		t.Failf("%s: )save changed the settings from %s to %s", what, rest, rest1)
		return
	}
	for n, v := range vars {
		if w := vars1[n]; w == nil || ivy.DumpRep(v) != ivy.DumpRep(w) {
			t.Failf("%s: )save changed variable %s", what, n)
			return
		}
	}
	text, _ := os.ReadFile(file)
	n := ivy.New()
	out, e, p := n.Run(fmt.Sprintf(")get %q", file))
	if e != "" || p != nil || out != "" {
		t.Failf("%s: )get prints %q, errors %q %v\nfile:\n%s", what, out, e, p, text)
		return
	}
	vars2, rest2 := state09(n)
	if rest2 != rest {
		t.Failf("%s: settings were %s, restored %s", what, rest, rest2)
		return
	}
	if len(vars2) != len(vars) {
		t.Failf("%s: %d variables, restored %d", what, len(vars), len(vars2))
		return
	}
	floats := false
	for k, v := range vars {
		w := vars2[k]
		if w == nil || !same09(v, w) {
			t.Failf("%s: variable %s was %s, restored as %s\nfile:\n%s", what, k, clipS(ivy.DumpRep(v), 300), clipS(show(w, "", nil), 300), text)
			return
		}
		if k == "pi" || k == "e" {
			continue
		}
		if hasFloat09(v) {
			floats = true
		} else if a, b := sprint09(s, v), sprint09(n, w); a != b {
			t.Failf("%s: variable %s displayed as %q, restored displays as %q", what, k, a, b)
			return
		}
	}
	t.Observe(string(text))
	a, _, _ := s.Run(")op")
	b, _, _ := n.Run(")op")
	if a != b {
		t.Failf("%s: operators were %q, restored %q\nfile:\n%s", what, a, b, text)
		return
	}
	for _, o := range ops {
		a, ae, _ := s.Run(")op " + o)
		b, be, _ := n.Run(")op " + o)
		t.Step(1)
		if a != b || ae != be {
			t.Failf("%s: )op %s was %q %q, restored %q %q\nfile:\n%s", what, o, a, ae, b, be, text)
			return
		}
	}
	for _, cl := range calls {
		v, err, p := s.Eval1(cl)
		w, err2, p2 := n.Eval1(cl)
		t.Step(1)
		if p != nil || p2 != nil || show(v, err, p) != show(w, err2, p2) {
			t.Failf("%s: %s gives %s, restored %s\nfile:\n%s", what, cl, show(v, err, p), show(w, err2, p2), text)
			return
		}
	}
	// Saving again.
	if _, e, p := n.Run(fmt.Sprintf(")save %q", file2)); e != "" || p != nil {
		t.Failf("%s: second )save: %s %v", what, e, p)
		return
	}
	text2, _ := os.ReadFile(file2)
	norm := func(b []byte) string {
		var o []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "pi = ") || strings.HasPrefix(l, "e = ") {
				continue
			}
			o = append(o, l)
		}
		return strings.Join(o, "\n")
	}
	if !floats && len(ops) == 0 && norm(text) != norm(text2) {
		t.Failf("%s: saving the restored session writes\n%s\ninstead of\n%s", what, text2, text)
	}
}

func vals09() []string {
	v := append([]string{}, vals10...)
	return append(v, "(,5)", "(,'a')", "(box 1 2)", "(box box 1)", "(box 'a')", "(box '')", "(box 'ab')", "(1 1 rho box 1 2)", "(1 1 rho 'a')", "((,1) (,2))", "((,'a') 1)", "('a' 'b')", "('' '')", "((iota 0) 1)", "(box 2 2 rho 1)", "((2 2 rho 1) 3)", "(2 2 rho (2 2 rho 1) 'ab' (,5) '')", "(1 2 rho (box 1 2) 3)",
		"1/3", "-1/3", "(-(1/3) (2**70))", "(1/3 -2 (2**70))", "-5", "(1 -2 3)", "(-1 -2)", "0j1", "0j-1", "1/2j1/3", "-1/2j-1/3", "(1j2 -3j-4)", "(2 2 rho 1j2)", "(1j2 'a')", "((2**70) j -(2**80))",
		"(sqrt 3)", "(-sqrt 3)", "(sqrt -3)", "(1 j sqrt 2)", "((sqrt 2) j sqrt 3)", "((sqrt 2) 1)", "(1 (sqrt 2) -(sqrt 3))", "(1e300 * sqrt 2)", "((sqrt 2) / 1e300)", "(float 1/3)", "(2 2 rho sqrt 2)", "(float 1e100)", "(float -1e-100)", "((float 0) 1)", "((float 1e-30) j float 1e30)", "((sqrt 2) (,sqrt 3))",
		"'a\\nb'", "'\\t'", "'\\\\'", "'\"'", "\"'\"", "'\"a\\''", "`\\n`", "'é∞😀'", "'\\x00\\x7f'", "char 0x10ffff", "char 0xfffd", "('a' '\\n' '\"')", "(2 2 rho 'a\\n\"\\'')", "('#' '# x')", "(1 '#')", "(2 2 2 rho 'abcdefgh')", "(2 1 2 rho 1/2)", "(1 0 rho 0)", "(0 0 0 rho '')", "(1000 rho 1 2/3)", "(300 rho 'abc')", "(char iota 200)", "(10 10 rho (1 2) 'a')", "(-(2**62) (2**63) (2**64))", "(1e18 1e19 1e100)", "1e-5", "(iota@ 1 2 3)")
}

func runP09(c *mc.Ctx) {
	dir, err := os.MkdirTemp("", "p09-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	r := &run09{dir: dir}
	vals := vals09()
	c.Group("values")
	for i, v := range vals {
		c.Case("x = "+v, func(t *mc.T) {
			for _, conf := range []string{"", ")base 16", ")obase 2", ")origin 0", ")format '%.2f'", ")prec 64", ")maxdigits 3"} {
				s := ivy.New()
				if conf != "" && !strings.HasPrefix(conf, ")o") && !strings.HasPrefix(conf, ")b") {
					s.Run(conf)
				}
				if _, e, p := s.Run("x = " + v); e != "" || p != nil {
					t.Failf("x = %s: %s %v", v, e, p)
					return
				}
				s.Run(conf)
				r.round(t, conf+" x = "+v, s, nil, nil)
			}
		})
		for j := range vals {
			if c.Quick && (i*7+j)%4 != 0 {
				continue
			}
			if c.Skip() {
				continue
			}
			w := vals[j]
			c.Do("x = "+v+"; y = "+w, func(t *mc.T) {
				s := ivy.New()
				s.Run("x = " + v + "\nfd = " + w + "\n_ = " + v)
				r.round(t, "x = "+v+"; fd = "+w, s, nil, nil)
				s = ivy.New()
				s.Run("x = (" + v + ") (" + w + ")\ny = 2 2 rho (" + v + ") (" + w + ") 3")
				r.round(t, "x = ("+v+") ("+w+")", s, nil, nil)
			})
		}
	}
	vars09(c, vals)
	c.Group("characters")
	const blk = 512
	for lo := 0; lo < 0x110000; lo += blk {
		c.Case(fmt.Sprintf("characters %#x..%#x", lo, lo+blk-1), func(t *mc.T) {
			s := ivy.New()
			var cs, nl []value.Value
			for r := lo; r < lo+blk; r++ {
				if r >= 0xD800 && r <= 0xDFFF {
					continue
				}
				cs = append(cs, value.Char(r))
				nl = append(nl, value.Char(r), value.Int(1), value.NewVector(value.Char(r)), value.NewVector(value.Char(r), value.Char('x')))
			}
			if len(cs) == 0 {
				return
			}
			s.SetVar("cs", value.NewVector(cs...))
			s.SetVar("nl", value.NewVector(nl...))
			s.SetVar("c", cs[0])
			r.round(t, fmt.Sprintf("characters from %#x", lo), s, nil, nil)
		})
	}

	c.Group("settings")
	var bases []int
	for b := 0; b <= 16; b++ {
		if b != 1 {
			bases = append(bases, b)
		}
	}
	sets := []string{"", ")origin 0", ")origin 7", ")prec 1", ")prec 53", ")prec 1000", ")maxbits 0", ")maxbits 70", ")maxdigits 0", ")maxdigits 2", ")prompt 'a\\nb'", ")prompt '\"'", ")prompt 'é% d'", ")format '%d'", ")format '%.3g'", ")format '%x'", ")format '\"%q\\\\'", ")format '%6.2f\\n'"}
	for _, ib := range bases {
		for _, ob := range bases {
			c.Case(fmt.Sprintf("ibase %d obase %d", ib, ob), func(t *mc.T) {
				for i, a := range sets {
					for j := i; j < len(sets); j += 1 + (len(sets)-1-i)/4 {
						s := ivy.New()
						s.Run("x = 17 1/3 'ab' 255j-16\ny = 1234567890123456789012345\nop f a = a + 255 17/3\nop ff x = x 10 + 16j11\n")
						s.Run(a)
						s.Run(sets[j])
						s.Run(fmt.Sprintf(")ibase %d", ib))
						s.Run(fmt.Sprintf(")obase %d", ob))
						r.round(t, fmt.Sprintf("ibase %d obase %d %s %s", ib, ob, a, sets[j]), s, nil, nil)
						if t.Failed() {
							return
						}
					}
				}
			})
		}
	}

	c.Group("operators")
	defs := []string{
		"op f a = a + 1",
		"op f a = a * x",
		"op a f b = a - b",
		"op g a = f a",
		"op g a = f@ a",
		"op g a = f/ a",
		"op g a = f\\% a",
		"op a g b = a f b",
		"op a g b = a f.f b",
		"op a g b = a o.f b",
		"op a g b = a @f@ b",
		"op h a =\n g a\n f a\n",
		"op h a = a <= 0: 0; h a - 1",
		"op h a = a <= 0: 0; g a - 1",
		"op f",
		"op a g",
		"op f _\nop _ f _",
		"op _ g _",
		"op g a = h a",
		"op f (a b) = a f g b",
		"opdelete f a",
		"opdelete a f b",
		"opdelete g a",
		"x = 5",
		"op g a = f x a",
		"op a max b = a min b",
		"op h a = a max 0",
	}
	ops := []string{"f", "g", "h", "max"}
	calls := []string{"f 3", "2 f 3", "g 4", "1 2 g 3 4", "h 2", "g 1 2 3", "f 1 2", "2 max 3", "h -1", "x"}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) > 0 && !c.Skip() {
			var l []string
			for _, i := range h {
				l = append(l, defs[i])
			}
			src := strings.Join(l, "\n")
			c.Do("ops "+strings.ReplaceAll(src, "\n", " | "), func(t *mc.T) {
				s := ivy.New()
				s.Run(")maxstack 50")
				// Each line by itself: some may be rejected.
				for _, d := range l {
					s.Run(d)
				}
				t.Step(len(l))
				r.round(t, strings.ReplaceAll(src, "\n", " | "), s, ops, nil)
				if t.Failed() {
					return
				}
				n := ivy.New()
				n.Run(fmt.Sprintf(")get %q", filepath.Join(r.dir, "a.ivy")))
				n.Run(")maxstack 50")
				for _, cl := range calls {
					v, err, p := s.Eval1(cl)
					w, err2, p2 := n.Eval1(cl)
					t.Step(2)
					if p != nil || p2 != nil || show(v, err, p) != show(w, err2, p2) {
						t.Failf("%s: %s gives %s, restored %s", src, cl, show(v, err, p), show(w, err2, p2))
						return
					}
				}
			})
		}
		if len(h) == depth {
			return
		}
		for i := range defs {
			rec(append(h[:len(h):len(h)], i))
		}
	}
	rec(nil)
	c.Group("definition order")
	// Longer histories of a few definitions whose reading depends on which
	// of the others came first.
	defs = []string{"op h a = a", "op g a = f a", "op f a = a + 1", "op h a = g a", "opdelete f a"}
	depth = 5
	if !c.Quick {
		depth = 7
	}
	rec(nil)
}

// vars09: )var x shows a statement that sets x to its value again, and )var
// lists exactly the variables.
func vars09(c *mc.Ctx, vals []string) {
	c.Group("variables shown")
	for _, v := range vals {
		if c.Skip() {
			continue
		}
		c.Do(")var x of "+v, func(t *mc.T) {
			for _, conf := range []string{"", ")base 16", ")obase 2", ")ibase 3", ")origin 0", ")format '%.2f'", ")prec 64", ")maxdigits 3"} {
				for _, name := range []string{"x", "rate2", "ñ", "_", "Zz"} {
					s := ivy.New()
					s.Run("y = 1\n" + name + " = " + v + "\n" + conf)
					old := s.Var(name)
					if old == nil {
						t.Failf("%s = %s is not set", name, v)
						return
					}
					out, e, p := s.Run(")var " + name)
					t.Step(2)
					if e != "" || p != nil || !strings.HasPrefix(out, name+" = ") || !strings.HasSuffix(out, "\n") || strings.Count(out, "\n") != 1 {
						t.Failf("%s; %s = %s; )var %s prints %q, errors %q %v", conf, name, v, name, out, e, p)
						return
					}
					if w := s.Var(name); w == nil || ivy.DumpRep(w) != ivy.DumpRep(old) {
						t.Failf("%s; %s = %s; )var %s changed it", conf, name, v, name)
						return
					}
					n := ivy.New()
					n.Run(")origin 7\n)prec 300\n")
					out2, e, p := n.Run(out)
					if e != "" || p != nil || out2 != "" {
						t.Failf("%s = %s; )var %s prints %q, which then prints %q, errors %q %v", name, v, name, out, out2, e, p)
						return
					}
					if w := n.Var(name); w == nil || !same09(old, w) {
						t.Failf("%s; %s = %s; )var %s prints %q, which sets it to %s", conf, name, v, name, out, clipS(show(w, "", nil), 300))
						return
					}
					t.Observe(out)
					out, e, p = s.Run(")var")
					want := []string{"e", "pi", "y", name}
					sort.Strings(want)
					if e != "" || p != nil || out != "\t"+strings.Join(want, "\n\t")+"\n" {
						t.Failf("%s; y = 1; %s = %s; )var prints %q, errors %q %v", conf, name, v, out, e, p)
						return
					}
				}
			}
		})
	}
}
