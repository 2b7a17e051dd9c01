package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P10", Run: runP10, CaseCPU: 120,
		Rule:        "(values) every unary and binary operator, every derived form (reduce, scan, each, inner and outer products) and every index and indexed-assignment form, applied to all operands and operand pairs of an alphabet of odd values, under several settings; (text) all short character strings and all short token sequences; (histories) all sequences of up to three lines including every kind of failing line (lexical, syntax, evaluation inside nested calls, stack overflow, special commands, failing )get, failing definitions). Each line must end with its values or an error report, never a Go panic or a hang, and the whole observable state afterwards (variables, operators, settings, call depth, )get nesting) must be that of the reference in which the failed statement stops where it failed.",
		Assumptions: []string{"exhaustion of memory by results of astronomical size is outside the bounds: operands that request more than about 1e6 elements are not generated"}})
}

var unary10 = strings.Fields("! ** + , - / ? ^ abs acos acosh asin asinh atan atanh box ceil char code conj cos cosh count down first flatten flip float floor imag inv iota ivy j log mix not phase print rand real rho rot sgn sin sinh split sqrt sys tan tanh text transp unique up where")
var binary10 = strings.Fields("! != !== & * ** + , ,% - / < << <= == === > >= >> ? ^ and decode div drop encode fill flip idiv imod in intersect iota j log max mdiv min mod nand nor or part rho rot sel take text transp union xor |")

var vals10 = []string{
	"0", "1", "-1", "2", "3", "5", "1/2", "-3/2", "(2**70)", "(-(2**70))", "1e20/3", "(-9223372036854775808)", "(sqrt 2)", "(-(sqrt 2))", "(float 0)", "1j1", "1/2j-3", "(sqrt -2)",
	"'a'", "''", "'abc'", "'%d'", "'%s'", "'%'", "'%x'", "'%.2f'", "'%q'", "'%e'", "'T'", "'read'",
	"(iota 0)", "(1 rho 3)", "(1 2 3)", "(1 0 1)", "(2 3)", "(-1 2)", "(0 0)", "(1/2 3)", "(1j1 2)", "(1, 'a')", "(1 (2 3) 'ab')", "((1 2) (3 4))", "('ab' 'cde')", "(box iota 0)",
	"(0 0 rho 0)", "(0 3 rho 0)", "(3 0 rho 0)", "(2 2 rho 1 2 3 4)", "(2 2 rho 1 2 2 4)", "(2 3 rho iota 6)", "(3 2 rho iota 6)", "(3 3 rho 0 0 1 1 0 0 0 1 0)", "(1 1 rho 5)", "(1 3 rho iota 3)", "(2 2 2 rho iota 8)", "(2 0 2 rho 0)", "(2 3 rho 'abcdef')", "(2 2 rho (1 2) 3 'a' (2 2 rho 4))", "(0 2 rho '')", "(1 1 1 1 rho 2)",
	"(20 rho 1)", "(2 2 rho 1/2 1j1 2 (sqrt 2))",
}

// small10 is the sub-alphabet for combinations of three.
var small10 = []string{"0", "2", "-1", "1/2", "1j1", "(sqrt 2)", "'a'", "''", "(iota 0)", "(1 rho 3)", "(1 2 3)", "(1 (2 3) 'ab')", "(0 3 rho 0)", "(2 0 rho 0)", "(2 2 rho 1 2 3 4)", "(2 2 2 rho iota 8)", "(1 1 rho 5)"}

var conf10 = []string{"", ")origin 0", ")base 16", ")obase 2", ")format '%d'", ")format '%.3f'", ")format '%x'", ")format '%e'", ")format '%s'", ")format '%v'", ")format '%c'", ")format '%q'", ")format '%8.3f'", ")format '%z'", ")format 'x'", ")prec 1", ")prec 2000", ")maxbits 64", ")maxdigits 3"}

func runP10(c *mc.Ctx) {
	dir, err := os.MkdirTemp("", "p10-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.Chdir(dir) // )save and )get without a name use the current directory.
	defer os.Chdir("/")
	p10values(c)
	p10settings(c)
	p10text(c)
	p10histories(c, dir)
}

// line10 runs one line that must produce output or an error and leave the
// session working.
func line10(t *mc.T, s *ivy.Sess, src string) {
	out, errs, p := s.Run(src)
	t.Step(1)
	if p != nil {
		t.Failf("%s: %s", src, p)
		return
	}
	t.Observe(fmt.Sprint(len(out), errs == ""))
	if errs != "" {
		if strings.TrimSpace(errs) == "" || strings.Contains(errs, "runtime error") {
			t.Failf("%s: error report %q", src, errs)
			return
		}
	}
	out, errs, p = s.Run("1+1")
	if p != nil || errs != "" || strings.TrimSpace(out) != "2" {
		t.Failf("after %s: 1+1 gives %q %q %v", src, out, errs, p)
	}
}

func p10values(c *mc.Ctx) {
	s := ivy.New()
	do := func(src string, reset ...string) {
		c.Case(src, func(t *mc.T) {
			for _, r := range reset {
				s.Run(r)
			}
			line10(t, s, src)
		})
	}
	c.Group("unary")
	for _, u := range unary10 {
		for _, v := range vals10 {
			do(u + " " + v)
			do(u + "@ " + v)
			do(u + "@@ " + v)
		}
	}
	c.Group("binary")
	for _, b := range binary10 {
		for _, v := range vals10 {
			if b == "text" && v == "(20 rho 1)" {
				continue // The widths multiply: exponentially large.
			}
			do(b + "/ " + v)
			do(b + "/% " + v)
			do(b + "\\ " + v)
			do(b + "\\% " + v)
			for _, w := range vals10 {
				do(v + " " + b + " " + w)
			}
		}
	}
	c.Group("binary derived")
	for _, b := range binary10 {
		for _, v := range small10 {
			for _, w := range small10 {
				do(v + " " + b + "@ " + w)
				do(v + " @" + b + " " + w)
				do(v + " @" + b + "@ " + w)
				do(v + " @@" + b + "@@ " + w)
				do(v + " o." + b + " " + w)
				do(v + " +." + b + " " + w)
				do(v + " " + b + ".* " + w)
				do(v + " " + b + "." + b + " " + w)
			}
		}
	}
	c.Group("index")
	idx := append([]string{""}, vals10...)
	sidx := append([]string{""}, small10...)
	for _, v := range vals10 {
		set := "x = " + v
		for _, i := range idx {
			do("x["+i+"] # "+v, set)
			for _, e := range small10 {
				do("x["+i+"] = "+e+" # "+v, set)
			}
		}
		for _, i := range sidx {
			for _, j := range sidx {
				do("x["+i+";"+j+"] # "+v, set)
				for _, e := range []string{"7", "(iota 0)", "(1 2 3)", "'ab'", "(2 2 rho 1 2 3 4)"} {
					do("x["+i+";"+j+"] = "+e+" # "+v, set)
				}
			}
			do("x["+i+";1;1] # "+v, set)
			do("x[1;"+i+";] # "+v, set)
			do("x[;;"+i+"] = 3 # "+v, set)
		}
	}
}

// p10settings repeats the unary operators, display and formatting under many settings.
func p10settings(c *mc.Ctx) {
	confs := append([]string{}, conf10...)
	for _, d := range []string{"parse", "tokens", "trace", "types", "cpu"} {
		confs = append(confs, ")debug "+d+" 1", ")debug "+d+" 2")
	}
	for b := 2; b <= 16; b++ {
		confs = append(confs, fmt.Sprint(")base ", b), fmt.Sprint(")obase ", b), fmt.Sprint(")ibase ", b))
	}
	for _, conf := range confs {
		c.Group("settings " + conf)
		s := ivy.New()
		for i, v := range vals10 {
			s.Run(fmt.Sprintf("v%c%c = %s", 'a'+i/26, 'a'+i%26, v))
		}
		_, e, _ := s.Run(conf)
		name := func(i int) string { return fmt.Sprintf("v%c%c", 'a'+i/26, 'a'+i%26) }
		for i, v := range vals10 {
			c.Case(conf+" | "+v, func(t *mc.T) {
				_ = e
				src := []string{name(i), "text " + name(i), "ivy text " + name(i), "'" + "x" + "' text " + name(i)}
				for j, w := range vals10 {
					if strings.HasPrefix(w, "'") {
						src = append(src, name(j)+" text "+name(i))
					}
				}
				for _, u := range unary10 {
					if u != "?" && u != "rand" {
						src = append(src, u+" "+name(i))
					}
				}
				for _, b := range []string{"+", "*", "/", "**", "<<", "log", ",", "encode", "max", "==", "j"} {
					src = append(src, name(i)+" "+b+" "+name(i), name(i)+" "+b+" "+name(3), name(3)+" "+b+" "+name(i))
				}
				for _, l := range src {
					out, errs, p := s.Run(l)
					t.Step(1)
					if p != nil {
						t.Failf("%s: %s: %s", conf, l, p)
						return
					}
					t.Observe(fmt.Sprint(len(out), errs == ""))
				}
				for _, cmd := range []string{")op", ")var", ")maxbits", ")format", ")base", ")origin", ")prompt", ")seed", ")debug", ")prec", ")maxdigits", ")maxstack", ")cpu"} {
					if _, _, p := s.Run(cmd); p != nil {
						t.Failf("%s: %s: %s", conf, cmd, p)
					}
				}
			})
		}
	}
}

// stream10 feeds src and then a probe line through one parser: whatever
// happened to src, the probe must be executed, once.
func stream10(t *mc.T, s *ivy.Sess, src string) bool {
	probe10++
	probe := "q" + strconv.FormatInt(int64(36+probe10%1260), 36)
	out, errs, p := s.Run(src + "\n'" + probe + "'\n")
	t.Step(2)
	if p != nil {
		t.Failf("%q: %s", src, p)
		return false
	}
	if strings.Contains(src, "`") && strings.Contains(errs, "unterminated raw quoted string") {
		// Raw strings may span lines, so this one contained the probe.
		out, errs, p = s.Run("'" + probe + "'")
	}
	// Text that would change how the probe is read or shown is too short here
	// to exist, so the probe's value must be the last line.
	if !strings.HasSuffix(out, "\n"+probe+"\n") && out != probe+"\n" || strings.Count(out, probe) != 1 {
		t.Failf("%q: the following line was not executed exactly once: output %q errors %q", src, out, errs)
		return false
	}
	t.Observe(fmt.Sprint(len(out), errs == ""))
	return true
}

var probe10 int

func p10text(c *mc.Ctx) {
	var all []string
	for r := ' '; r <= '~'; r++ {
		all = append(all, string(r))
	}
	all = append(all, "\t", "\r", "\n", "\v", "\x00", "\x7f", "é", "∞", "\u2028", "\xff", "\xc3", "\U0001F600")
	core := strings.Split("0 1 9 a e j x F _ o . , ; : = + - * / ? ! & | < > ^ ~ % @ # $ ( ) [ ] { } ' \" \\ `", " ")
	core = append(core, " ", "\n", "\xff", "é")
	c.Group("strings")
	two := func(pre string, n int, alpha []string, rest int) {
		// all strings of n characters from alpha after pre
		var rec func(t *mc.T, s *ivy.Sess, str string, k int) bool
		rec = func(t *mc.T, s *ivy.Sess, str string, k int) bool {
			if !stream10(t, s, str) {
				return false
			}
			if k > 0 {
				for _, a := range alpha {
					if !rec(t, s, str+a, k-1) {
						return false
					}
				}
			}
			return true
		}
		c.Case(fmt.Sprintf("strings %q + %d of %d", pre, n, len(alpha)), func(t *mc.T) { rec(t, ivy.New(), pre, n) })
	}
	for _, a := range all {
		for _, b := range all {
			if c.Quick {
				two(a+b, 0, all, 0)
			} else {
				two(a+b, 1, all, 0)
			}
		}
	}
	for _, a := range core {
		for _, b := range core {
			if c.Quick {
				two(a+b, 1, core, 0)
			} else {
				two(a+b, 2, core, 0)
			}
		}
	}
	c.Group("bytes")
	for b := 0; b < 256; b++ {
		c.Case(fmt.Sprintf("byte %#x", b), func(t *mc.T) {
			s := ivy.New()
			for _, f := range []string{"%s", "1%s", "%s1", "'%s'", "'%s", "\"\\%s\"", "'\\%s'", "\"\\x%s\"", "\"\\u00%s0\"", "\"\\x0%s\"", "`%s", "a%s = 1", "op %s x = x", "op a %s b = 1", "1 %s 2", "x[%s]", "0x%s", "1e%s", "1.%s", "1/%s", "1j%s", "#%s", ")%s", ")op %s", ")base %s", "opdelete %s"} {
				if !stream10(t, s, fmt.Sprintf(f, string([]byte{byte(b)}))) {
					return
				}
			}
		})
	}
	c.Group("tokens")
	seen := map[string]bool{}
	var toks []string
	for _, l := range [][]string{unary10, binary10, strings.Fields("2 2.5 1/2 1j2 0x1F 1e2 'a' \"ab\" x _ f . @ o. +/ +\\ +/% +@ @+ o.+ +.* ( ) [ ] ; : = op opdelete # 1e999999999999 1/0 0x 1j 1e ' \" pi e")} {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				toks = append(toks, s)
			}
		}
	}
	for _, a := range toks {
		for _, b := range toks {
			c.Case("tokens "+a+" "+b, func(t *mc.T) {
				s := ivy.New()
				s.Run("x = 3\nop f n = n\nop n f m = n + m")
				if !stream10(t, s, a+" "+b) {
					return
				}
				for k, d := range toks {
					if c.Quick && k%2 == 0 && len(d) > 2 && d[0] >= 'a' && d[0] <= 'z' {
						continue // half of the named operators
					}
					if a == "op" || b == "op" {
						s.Run("opdelete " + b) // shadowing of built-ins is P11's business
					}
					if !stream10(t, s, a+" "+b+" "+d) {
						return
					}
				}
			})
		}
	}
}

// state10 is the reference state of a session.
type state10 struct {
	x, y   int
	origin int
	ibase  int
	obase  int
	f      int // version of operator f: f a is f*a
}

// line10h is a line with its reference effect; fail says an error is reported.
type line10h struct {
	src  string
	fail bool
	do   func(s *state10)
}

func lines10() []line10h {
	no := func(*state10) {}
	return []line10h{
		{"x = y + 1", false, func(s *state10) { s.x = s.y + 1 }},
		{"y = x = x + 2", false, func(s *state10) { s.x += 2; s.y = s.x }},
		{"x = f y", false, func(s *state10) { s.x = s.f * s.y }},
		{"x = 5; x / 0; y = 7", true, func(s *state10) { s.x = 5 }},
		{"x = (y = 3) / 0", true, func(s *state10) { s.y = 3 }},
		{"(x = 6) + undefinedname + y = 4", true, func(s *state10) { s.y = 4 }},
		{"addfail 7", true, func(s *state10) { s.x += 7 }},
		{"y = 1 addfail2 4", true, func(s *state10) { s.x += 4 }},
		{"down3 3", true, func(s *state10) { s.y += 3 }},
		{"y = 1 + forever 1", true, no},
		{"mixed 1", true, func(s *state10) { s.x = 40 }},
		{"viaeach@ 1 2 3", true, no},
		{"1 viareduce/ 1 2 0", true, no},
		{"x = +/ badred/ 1 2 3", true, no},
		{"x[7] = 1", true, no},
		{"x[1;2]", true, no},
		{"x = 4 +", true, no},
		{"x = 'abc", true, no},
		{"(x = 4", true, no},
		{"x = 4; y = 4 )", true, no},
		{"x = 4; y = ]", true, no},
		{"x = 12@", true, no},
		{"x y = 1 2 3", true, no},
		{"x y = 6 7", false, func(s *state10) { s.x, s.y = 6, 7 }},
		{")origin 0", false, func(s *state10) { s.origin = 0 }},
		{")origin -1", true, no},
		{")base 99", true, no},
		{")base 8", false, func(s *state10) { s.ibase, s.obase = 8, 8 }},
		{")obase x", true, no},
		{")nosuch 3", true, no},
		{")get 'nosuchfile'", true, no},
		{")get 'bad.ivy'", true, func(s *state10) { s.x = 2 }},
		{")get 'deep.ivy'", true, no},
		{")get 'syntax.ivy'", true, func(s *state10) { s.y = 1 }},
		{")get 'good.ivy'", false, func(s *state10) { s.x, s.y = 1, 2 }},
		{"op f a = a +", true, no},
		{"op f a = ", true, no},
		{"op f a = 3 * a", false, func(s *state10) { s.f = 3 }},
		{"op f", true, no}, // A declaration of what is already defined changes nothing.
		{"op x f y = )", true, no},
		{"opdelete nosuch a", true, no},
		{"opdelete f 3", true, no},
		{"ivy 'x = 3; 1 / 0; y = 3'", true, func(s *state10) { s.x = 3 }},
		{"x = ivy 'y = 2; 1 +'", true, no},
		{"ivy 'addfail 1'", true, func(s *state10) { s.x += 1 }},
		{"ivy ')origin 9x'", true, no},
		{"x = log 0", true, no},
		{"x = 0 ** -1", true, no},
		{"x = (1 / 0) , forever y = 6", true, func(s *state10) { s.y = 6 }},
		{"bounce 9", true, no},
		{"x = callfail 1", true, func(s *state10) { s.y = 70; s.x++ }},
	}
}

const prelude10 = `)maxstack 40
x = 1
y = 2
op f a = 2 * a
op deep n = n <= 1 : 1 ; 1 + deep n - 1
op addfail a = x = x + a; 1 / 0
op n addfail2 a = n == 0 : 1 / 0; x = x + a; (n - 1) addfail2 a
op fail3 n = y = y + n; z = n; n / 0
op down3 n = n == 0 : fail3 3; down3 n - 1
op forever n = forever n
op mixed a = x; x = 40; local = 41; (forever a), local
op viaeach n = n / 0
op a viareduce b = b / 0
op a badred b = notdefined
op pong n
op ping n = pong n + 1
op pong n = n > 30 : 1 / 0; ping n
op bounce n = ping n
op callfail a = y; y = 70; a addfail2 1
op m deep2 n = n <= 1 : m ; (m+1) deep2 n - 1
`

func p10histories(c *mc.Ctx, dir string) {
	c.Group("histories")
	write := func(name, text string) { os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644) }
	write("bad.ivy", "x = 2\ny = 1 / 0\ny = 7\n")
	write("syntax.ivy", "y = 1\nx = (\ny = 7\n")
	write("deep.ivy", ")get 'deep.ivy'\n")
	write("good.ivy", "x = 1\ny = 2\n")
	// A chain of nested files that ends by defining z.
	write("n1.ivy", "z = 77\n")
	for i := 2; i <= 4; i++ {
		write(fmt.Sprintf("n%d.ivy", i), fmt.Sprintf(")get 'n%d.ivy'\n", i-1))
	}
	lines := lines10()
	// limit finds the deepest recursion that works in a new session.
	limit := 0
	{
		s := ivy.New()
		s.Run(prelude10)
		for n := 1; n < 200; n++ {
			_, errs, _ := s.Run(fmt.Sprint("deep ", n))
			if errs != "" {
				break
			}
			limit = n
		}
	}
	check := func(t *mc.T, hist []int) {
		s := ivy.New()
		if _, e, p := s.Run(prelude10); e != "" || p != nil {
			t.Failf("prelude: %s %v", e, p)
			return
		}
		st := state10{x: 1, y: 2, origin: 1, f: 2}
		var done []string
		for _, h := range hist {
			l := lines[h]
			before := st
			l.do(&st)
			if before.ibase != 0 && l.src == ")base 99" {
				st = before
			}
			done = append(done, l.src)
			what := strings.Join(done, " | ")
			_, errs, p := s.Run(l.src)
			t.Step(1)
			switch {
			case p != nil:
				t.Failf("%s: %s", what, p)
				return
			case (errs != "") != l.fail:
				t.Failf("%s: errors %q, expected failure %v", what, errs, l.fail)
				return
			}
			probe := func(name string, want int) bool {
				v := s.Var(name)
				if v == nil || ivy.Dump(v) != fmt.Sprint(want) {
					got := "undefined"
					if v != nil {
						got = ivy.Dump(v)
					}
					t.Failf("%s: then %s is %s, expected %d", what, name, got, want)
					return false
				}
				return true
			}
			if !probe("x", st.x) || !probe("y", st.y) {
				return
			}
			ib, ob := s.Conf.Base()
			if s.Conf.Origin() != st.origin || ib != st.ibase || ob != st.obase {
				t.Failf("%s: origin %d base %d %d, expected %+v", what, s.Conf.Origin(), ib, ob, st)
				return
			}
			// Locals and formals have not leaked.
			for _, n := range []string{"a", "n", "local", "z", "b", "m", "undefinedname"} {
				if v := s.Var(n); v != nil {
					t.Failf("%s: local %s is visible as %s", what, n, ivy.Dump(v))
					return
				}
			}
			t.Observe(fmt.Sprintf("%+v", st))
		}
		what := strings.Join(done, " | ")
		ask := func(expr, want string) {
			if t.Failed() {
				return
			}
			v, err, p := s.Eval1(expr)
			t.Step(1)
			got := show(v, err, p)
			if want == "error" && err != "" && p == nil {
				return
			}
			if got != want {
				t.Failf("%s: then %s gives %s, expected %s", what, expr, got, want)
			}
		}
		lim := limit
		if st.ibase == 8 {
			s.Run(")base 10") // So that the numbers below are decimal.
		}
		ask("f 5", fmt.Sprint(5*st.f))
		ask(fmt.Sprint("deep ", lim), fmt.Sprint(lim))
		ask(fmt.Sprint("deep ", lim+1), "error")
		ask(fmt.Sprint("deep ", lim), fmt.Sprint(lim))
		ask(fmt.Sprintf("1 deep2 %d", lim), fmt.Sprint(lim))
		ask("+/ iota 4", fmt.Sprint(10-4*(1-st.origin)))
		if _, e, p := s.Run(")get 'n4.ivy'"); !t.Failed() && (e != "" || p != nil || s.Var("z") == nil) {
			t.Failf("%s: nested )get then fails: %s %v", what, e, p)
		}
		if o, _, _ := s.Run(")op f"); !t.Failed() && !strings.Contains(o, fmt.Sprintf("op f a = %d * a", st.f)) {
			t.Failf("%s: )op f shows %q", what, o)
		}
	}
	n := len(lines)
	key := func(h []int) string {
		var k []string
		for _, i := range h {
			k = append(k, lines[i].src)
		}
		return "history " + strings.Join(k, " | ")
	}
	for a := 0; a < n; a++ {
		c.Case(key([]int{a}), func(t *mc.T) { check(t, []int{a}) })
		for b := 0; b < n; b++ {
			c.Case(key([]int{a, b}), func(t *mc.T) { check(t, []int{a, b}) })
			if c.Quick && !lines[a].fail {
				continue
			}
			for d := 0; d < n; d++ {
				if c.Quick && !lines[b].fail && !lines[d].fail {
					continue
				}
				h := []int{a, b, d}
				if !c.Skip() {
					c.Do(key(h), func(t *mc.T) { check(t, h) })
				}
			}
		}
	}
}
