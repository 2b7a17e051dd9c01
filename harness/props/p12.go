package props

import (
	"fmt"
	"sort"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P12", Run: runP12,
		Rule:        "all operator bodies of up to 4 statements over an alphabet of reads, assignments (plain, chained, vector, indexed), conditional returns, calls of other operators and recursion, called in sequence on several arguments with several initial globals, and all argument patterns against all small nested arguments; every statement built from two elements (reads, assignments, calls) or two or three assignment targets of the same names, in a body and at top level; every named built-in redefined, with every other built-in then applied to a corpus of operands and compared with an undisturbed session; recursive operators with up to 21 locals calling others with as many, to depth 300 (thorough 100 and 1025); oracle: reference interpreter with one frame of locals per call, locality decided by first use in evaluation order; compared: result or failure and all globals after each call",
		Assumptions: []string{"single applications of built-in operators are judged by other properties"}})
}

// defs12 splits "op f a = s1; s2" into the reference representation.
func def12(lang *gLang, text string) (name string, binary bool, fn *gFn) {
	text = strings.TrimPrefix(text, "op ")
	head, body, _ := strings.Cut(text, "=")
	pats, names := patterns12(head)
	fn = &gFn{}
	if len(pats) == 3 {
		binary = true
		fn.left, name, fn.right = pats[0], names[1], pats[2]
	} else {
		name, fn.right = names[0], pats[1]
	}
	p := &gParser{lang: lang, toks: toks12(body)}
	fn.body = p.line()
	if p.bad {
		panic("def12: " + text)
	}
	fn.analyse()
	return
}

// patterns12 reads a list of argument patterns.
func patterns12(s string) (pats []*gNode, names []string) {
	toks := toks12(s)
	var arg func() *gNode
	arg = func() *gNode {
		t := toks[0]
		toks = toks[1:]
		if t.kind == 'i' {
			return &gNode{kind: 'v', op: t.text}
		}
		n := &gNode{kind: 'V'}
		for toks[0].kind != ')' {
			n.list = append(n.list, arg())
		}
		toks = toks[1:]
		return n
	}
	for len(toks) > 0 {
		n := arg()
		pats = append(pats, n)
		names = append(names, n.op)
	}
	return
}

// toks12 tokenizes blank-separated text (parentheses, brackets and
// semicolons may touch).
func toks12(s string) []gTok {
	for _, c := range []string{"(", ")", "[", "]", ";"} {
		s = strings.ReplaceAll(s, c, " "+c+" ")
	}
	var out []gTok
	for _, w := range strings.Fields(s) {
		out = append(out, tok07(w))
	}
	return out
}

type run12 struct {
	s    *ivy.Sess
	e    *gEnv
	lang *gLang
	vars []string
}

func newRun12(user ...string) *run12 {
	r := &run12{s: ivy.New(), e: newGEnv(""), vars: []string{"x", "z", "a", "w", "q", "b", "c", "d"}}
	kc := newRun07(nil).lang.konst
	r.lang = &gLang{unary: map[string]bool{"-": true, "rot": true, "not": true, "count": true}, binary: map[string]bool{"rot": true, "mod": true}, konst: kc}
	for _, u := range user {
		if strings.HasPrefix(u, "_") {
			r.lang.binary[u[1:]] = true
		} else {
			r.lang.unary[u] = true
		}
	}
	r.e.fns = map[string]*gFn{}
	return r
}

// define defines the operator in both worlds.
func (r *run12) define(t *mc.T, text string, multi bool) bool {
	name, bin, fn := def12(r.lang, text)
	key := name
	if bin {
		key = "_" + name
	}
	r.e.fns[key] = fn
	src := text + "\n"
	if multi {
		head, body, _ := strings.Cut(text, "=")
		src = head + "=\n\t" + strings.ReplaceAll(body, ";", "\n\t") + "\n\n"
	}
	out, errs, p := r.s.Run(src)
	t.Step(1)
	if p != nil || errs != "" || out != "" {
		t.Failf("definition %q: %s%s%v", src, out, errs, p)
		return false
	}
	return true
}

func (r *run12) globals(init map[string]value.Value) {
	undef(r.s, r.vars...)
	clear(r.e.vars)
	for n, v := range init {
		r.s.SetVar(n, v)
		r.e.vars[n] = v
	}
}

// line evaluates one line in both worlds and compares.
func (r *run12) line(t *mc.T, what, src string) bool {
	p := &gParser{lang: r.lang, toks: toks12(src)}
	stmts := p.line()
	if p.bad {
		panic("p12 line " + src)
	}
	r.e.fail = false
	r.e.frames = r.e.frames[:0]
	var want []value.Value
	for _, st := range stmts {
		v := r.e.eval(st)
		if r.e.fail {
			break
		}
		want = append(want, v)
	}
	vals, err, pn := r.s.Eval(src)
	t.Step(1)
	if pn != nil {
		t.Failf("%s; %s: %s", what, src, pn)
		return false
	}
	t.Observe(showAll(vals) + err)
	if (err == "") == r.e.fail {
		if r.e.fail {
			t.Failf("%s; %s: value %s, expected an error", what, src, showAll(vals))
		} else {
			t.Failf("%s; %s: %s, expected %s", what, src, err, showAll(want))
		}
		return false
	}
	if err == "" {
		if a, b := showAll(vals), showAll(want); a != b {
			t.Failf("%s; %s: value %s, expected %s", what, src, a, b)
			return false
		}
	}
	for _, n := range r.vars {
		if a, b := ivy.Dump(r.s.Var(n)), ivy.Dump(r.e.vars[n]); a != b {
			t.Failf("%s; %s: afterwards global %s is %s, expected %s", what, src, n, a, b)
			return false
		}
	}
	return true
}

func runP12(c *mc.Ctx) {
	shadow12(c)
	orders12(c)
	frames12(c)
	c.Group("bodies")
	stmts := []string{"a", "z", "x", "z = a", "z = z + 1", "x = 5", "x = z = a", "(z x) = a 2", "x[1] = a", "a : z", "z : z = a", "0 : 9", "(w = a) : w + 1", "g a", "a = a - 1", "a <= 0 : x", "f a - 1", "a h z = 3", "z = g x", "w = x; w[2] = a"}
	inits := []map[string]value.Value{
		{"x": value.Int(10)},
		{"x": value.NewIntVector(10, 20, 30), "z": value.Int(0)},
		{"x": value.NewIntVector(1, 2), "z": value.NewIntVector(4, 5)},
	}
	helpers := []string{"op g a = z = a + a ; z - 1", "op a h b = a = a - b ; x = a ; b - a", "op k a = z = a ; w = a ; q = a ; b = 7"}
	lines := []string{"f 1", "k 99", "f 0", "f 2 3", "(f 1) - f 0"}
	n := 3
	if !c.Quick {
		n = 4
	}
	r := newRun12("f", "g", "_h", "k")
	r.e.max = 12
	r.s.Run(")maxstack 12")
	inited := false
	var rec func(seq []int)
	body := func(seq []int) string {
		var b []string
		for _, i := range seq {
			b = append(b, stmts[i])
		}
		return strings.Join(b, " ; ")
	}
	run := func(seq []int) {
		if c.Skip() {
			return
		}
		def := "op f a = " + body(seq)
		c.Do(def, func(t *mc.T) {
			if !inited {
				inited = true
				for _, h := range helpers {
					if !r.define(t, h, false) {
						return
					}
				}
			}
			for _, multi := range []bool{false, true} {
				if !r.define(t, def, multi) {
					return
				}
				for _, init := range inits {
					r.globals(init)
					what := def + " with globals " + fmt.Sprint(init)
					for _, l := range lines {
						if !r.line(t, what, l) {
							return
						}
						what += "; " + l
					}
				}
			}
		})
	}
	rec = func(seq []int) {
		if len(seq) > 0 {
			run(seq)
		}
		if len(seq) == n {
			return
		}
		for i := range stmts {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)

	// Argument patterns.
	c.Group("patterns")
	pats := []string{"p", "(p)", "(p q)", "(p (q r))", "((p q) r)", "((p))", "(p q r)", "()"}
	args := []string{"5", "'a'", "5 6", "5 6 7", "(5 6) 7", "5 (6 7)", "iota 0", "1 rho 5", "1 rho box 1 rho 5", "2 2 rho iota 4", "'ab'", "1 2 rho 8", "(1 2) (3 4)"}
	resl := []string{"p", "q", "r", "p q", "r = q", "p + 1"}
	for _, l := range append([]string{""}, pats...) {
		for _, p := range pats {
			for _, body := range resl {
				if c.Skip() {
					continue
				}
				lp := strings.NewReplacer("p", "i", "q", "m", "r", "k").Replace(l)
				bodies := []string{body}
				if l != "" {
					bodies = append(bodies, strings.NewReplacer("p", "i", "q", "m", "r", "k").Replace(body), "i - p")
				}
				for _, body := range bodies {
					def := fmt.Sprintf("op %s f %s = %s", lp, p, body)
					c.Do(def, func(t *mc.T) {
						user := "f"
						if l != "" {
							user = "_f"
						}
						r := newRun12(user)
						r.lang.binary["rho"] = true
						r.lang.unary["iota"] = true
						r.lang.unary["box"] = true
						r.vars = []string{"p", "q", "r", "i", "m", "k"}
						if !r.define(t, def, false) {
							return
						}
						r.globals(nil)
						for _, x := range args {
							if l == "" {
								if !r.line(t, def, "f "+x) {
									return
								}
								continue
							}
							for _, y := range args {
								if !r.line(t, def, "("+y+") f "+x) {
									return
								}
							}
						}
					})
				}
			}
		}
	}
	// Conditions.
	c.Group("conditions")
	for _, cond := range []string{"0", "1", "-1", "1/2", "0.0", "1e-100", "0j0", "0j1", "1j0", "100000000000000000000", "'a'", "'\\x00'", "''", "'ab'", "iota 0", "1 rho 0", "1 rho 3", "1 1 rho 0", "1 1 rho 2", "0 0", "1 1", "1 2 rho 0", "0 0 rho 0", "sqrt 2", "0 * sqrt 2", "1 rho box 1 rho 0", "1 rho box 1 rho 4", "q = 0", "q = 3", "1 == 1", "1 == 2"} {
		if c.Skip() {
			continue
		}
		c.Do("condition "+cond, func(t *mc.T) {
			s := ivy.New()
			v, err, p := s.Eval1(cond)
			if err != "" || p != nil {
				t.Failf("%s: %s %v", cond, err, p)
				return
			}
			tr, ok := gTrue(v)
			want := "'err"
			if ok {
				want = "2"
				if tr {
					want = "1"
				}
			}
			for _, src := range []string{"op f x = " + cond + " : 1 ; n = 5 ; 2", "op f x = (" + cond + ") : 1 ; 2", "op f x = y = " + cond + " ; y : 1 ; 2"} {
				s.Run(src)
				v, err, p := s.Eval1("f 0")
				t.Step(1)
				if p != nil || (err != "") == ok || ok && ivy.Dump(v) != want {
					t.Failf("%s, f 0: %s, expected %s", src, show(v, err, p), want)
				}
			}
		})
	}
	// Declarations of arguments.
	c.Group("headers")
	for _, h := range []string{"op f f = 1", "op f (a a) = 1", "op a f a = 1", "op a f (b a) = 1", "op (a b) f (c b) = 1", "op f 3 = 1", "op 3 f = 1", "op f", "op f + = 1", "op + a = 1", "op f (a = 1", "op (f) a = 1", "op a (f) b = 1", "op f a b c = 1", "op pi a = 1", "op e a = 1", "op _ a = 1", "op a o b = 1", "op f 'a' = 1"} {
		if c.Skip() {
			continue
		}
		c.Do("header "+h, func(t *mc.T) {
			s := ivy.New()
			_, errs, p := s.Run(h)
			t.Step(1)
			if p != nil || errs == "" {
				t.Failf("%s: accepted %v", h, p)
			}
		})
	}
}

// shadow12: a user's operator named like a built-in takes its place where the
// user writes it, and nowhere else.
func shadow12(c *mc.Ctx) {
	c.Group("redefined built-ins")
	operands := []string{"3", "(-2)", "(5/2)", "(float -2)", "1j2", "(3/2j7/3)", "(-4j1)", "'ab'", "(1 2 3)", "(2 2 rho 4 1 3 2)", "((1 2) 'c')", "(2 2 rho 'ab' 'c')", "100000000000000000000"}
	vals := map[string]value.Value{}
	s0 := ivy.New()
	for i, x := range operands {
		n := fmt.Sprintf("arg%d", i)
		v, e, p := s0.Eval1(x)
		if e != "" || p != nil {
			panic(x + e)
		}
		vals[n] = v
		operands[i] = n
	}
	bind := func(s *ivy.Sess) {
		for n, v := range vals {
			s.SetVar(n, v)
		}
	}
	var un, bin, names []string
	seen := map[string]bool{}
	for n := range value.UnaryOps {
		un = append(un, n)
		seen[n] = true
	}
	for n := range value.BinaryOps {
		bin = append(bin, n)
		seen[n] = true
	}
	for n := range seen {
		if n[0] >= 'a' && n[0] <= 'z' {
			names = append(names, n)
		}
	}
	sort.Strings(un)
	sort.Strings(bin)
	sort.Strings(names)
	type expr struct{ op, src string }
	var exprs []expr
	skip := map[string]bool{"?": true, "rand": true, "sys": true, "print": true}
	for _, o := range un {
		for _, x := range operands {
			if !skip[o] {
				exprs = append(exprs, expr{o, o + " " + x})
			}
		}
	}
	for _, o := range bin {
		for i, x := range operands {
			for k, y := range operands {
				if !skip[o] && (!c.Quick || i == k || (i+k)%3 == 0 || k < 4) {
					exprs = append(exprs, expr{o, x + " " + o + " " + y})
				}
			}
		}
	}
	for _, o := range []string{"+", "*", "max", "-", ","} {
		for _, f := range []string{"%s/ %s", "%s\\ %s", "%s/%% %s", "%s@ %s", "%[2]s o.%[1]s %[2]s", "%[2]s +.%[1]s %[2]s"} {
			for _, x := range operands {
				exprs = append(exprs, expr{o, fmt.Sprintf(f, o, x)})
			}
		}
	}
	for _, x := range operands {
		exprs = append(exprs, expr{"", "vx = " + x + "; vx[1] = 5; vx"}, expr{"", "vx = " + x + "; vx[1]"}, expr{"", "(" + x + " == 3) : 4; 5"})
	}
	var base []string
	out := func(s *ivy.Sess, src string) string {
		vals, e, p := s.Eval(src)
		if e != "" {
			return "error" // The text may hold an address.
		}
		if p != nil || len(vals) == 0 {
			return show(nil, e, p)
		}
		return show(vals[len(vals)-1].Inner(), e, p)
	}
	for _, n := range names {
		for _, body := range []string{"'Z'", "1 2 3", "1/0"} {
			if body != "'Z'" && c.Quick {
				continue
			}
			c.Case("redefine "+n+" as "+body, func(t *mc.T) {
				if base == nil {
					s := ivy.New()
					bind(s)
					for _, e := range exprs {
						base = append(base, out(s, e.src))
					}
				}
				s := ivy.New()
				bind(s)
				if _, e, p := s.Run("op " + n + " x = " + body + "\nop x " + n + " y = " + body + "\n"); e != "" || p != nil {
					return // Not redefinable.
				}
				for i, e := range exprs {
					if e.op == n {
						continue
					}
					t.Step(1)
					if got := out(s, e.src); got != base[i] {
						t.Failf("after redefining %s as %s, %s is %s instead of %s", n, body, e.src, got, base[i])
						return
					}
				}
				want := out(s, body)
				if body == "'Z'" {
					want = show(value.Char('Z'), "", nil)
				}
				if got := out(s, n+" 3"); got != want && body != "1/0" {
					t.Failf("after redefining %s as %s, %s 3 is %s", n, body, n, got)
				}
				if got := out(s, "3 "+n+" 3"); got != want && body != "1/0" {
					t.Failf("after redefining %s as %s, 3 %s 3 is %s", n, body, n, got)
				}
			})
		}
	}
}

// orders12: bodies in which one statement reads and assigns the same name, in
// every pair of positions, so that the outcome depends on the order in which
// the parts of that statement are evaluated and scanned for locals.
func orders12(c *mc.Ctx) {
	c.Group("evaluation orders")
	elems := []string{"x", "z", "a", "(x = a)", "(z = a)", "(x = z)", "(z = x)", "((x z) = a 4)", "(x[1] = a)", "(f 0)"}
	var stmts []string
	for _, l := range elems {
		for _, r := range elems {
			stmts = append(stmts, "("+l+" "+r+")", l+" , "+r, l+" h "+r, l+" + "+r)
			if !c.Quick {
				stmts = append(stmts, "("+l+" 7 "+r+")", "7 8 9["+l+"] , "+r, "w = "+l+" , "+r)
			}
		}
	}
	targets := []string{"x", "z", "a", "x[1]", "x[z]", "x[x]", "z[1]", "x[z = 2]"}
	for _, l := range targets {
		for _, r := range targets {
			stmts = append(stmts, "("+l+" "+r+") = 2 3", "("+l+" "+r+") = (x z)")
			if !c.Quick {
				for _, m := range targets {
					stmts = append(stmts, "("+l+" "+m+" "+r+") = 1 2 3")
				}
			}
		}
	}
	inits := []map[string]value.Value{
		{"x": value.Int(1), "z": value.Int(2)},
		{"x": value.NewIntVector(10, 20, 30), "z": value.Int(1)},
		{"x": value.NewIntVector(2, 1, 5), "z": value.NewIntVector(4, 5)},
	}
	tails := []string{"", " ; x", " ; z", " ; x , z"}
	r := newRun12("f", "_h")
	r.e.max = 8
	r.s.Run(")maxstack 8")
	inited := false
	for _, s := range stmts {
		for _, tail := range tails {
			if c.Skip() {
				continue
			}
			def := "op f a = a == 0 : 6 ; " + s + tail
			c.Do(def, func(t *mc.T) {
				if !inited {
					inited = true
					if !r.define(t, "op a h b = x = b ; a - x", false) {
						return
					}
				}
				if !r.define(t, def, false) {
					return
				}
				for _, init := range inits {
					what := def + " with globals " + fmt.Sprint(init)
					r.globals(init)
					for _, l := range []string{"f 1", "f 3", "a = 1", strings.TrimSuffix(s, " ; ")} {
						if !r.line(t, what, l) {
							return
						}
						what += "; " + l
					}
				}
			})
		}
	}
}

// frames12 runs recursive operators with many locals, which call another with
// many locals at each level: after every call all the locals of the caller
// must be as they were, so the sum counts the levels.
func frames12(c *mc.Ctx) {
	c.Group("frames")
	counts := []int{1, 2, 3, 5, 8, 13, 21}
	depths := []int{0, 1, 2, 7, 33, 100, 300}
	if !c.Quick {
		counts = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 21, 32, 33, 64, 100}
		depths = []int{0, 1, 2, 3, 5, 7, 8, 16, 17, 33, 64, 65, 100, 128, 129, 300, 1025}
	}
	names := func(prefix string, n int) (list []string) {
		for i := 0; i < n; i++ {
			list = append(list, fmt.Sprint(prefix, i))
		}
		return
	}
	heads := []struct{ head, call, rec string }{
		{"op f n", "f %d", "f n - 1"},
		{"op m f n", "7 f %d", "m f n - 1"},
		{"op f (n m)", "f %d 7", "f (n - 1) m"},
		{"op (m w) f n", "7 8 f %d", "m w f n - 1"},
	}
	for _, k := range counts {
		for _, m := range counts {
			for _, h := range heads {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("%s, %d locals, callee %d", h.head, k, m), func(t *mc.T) {
					s := ivy.New()
					var g, b, list, want []string
					for i, n := range names("q", m) {
						g = append(g, fmt.Sprintf("%s = a + %d", n, i))
					}
					for i, n := range names("v", k) {
						b = append(b, fmt.Sprintf("%s = n + %d", n, 100*i))
						list = append(list, n)
						want = append(want, fmt.Sprint(100*i))
					}
					src := "op g a = " + strings.Join(g, "; ") + "\n" +
						h.head + " = " + strings.Join(b, "; ") + "; n <= 0 : 0; w1 = g n; r = " + h.rec + "; w2 = g@ n n; r + and/ (0 == 0) , (" + strings.Join(list, " ") + ") == n + " + strings.Join(want, " ") + "\n"
					if _, e, p := s.Run(src); e != "" || p != nil {
						t.Failf("%s: %s %v", src, e, p)
						return
					}
					for _, d := range depths {
						call := fmt.Sprintf(h.call, d)
						v, e, p := s.Eval1(call)
						t.Step(1)
						if e != "" || p != nil || ivy.Dump(v) != ivy.Dump(value.Int(d)) {
							t.Failf("%s%s gives %s, want %d", src, call, show(v, e, p), d)
							return
						}
					}
				})
			}
		}
	}
}
