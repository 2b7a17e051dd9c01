package props

import (
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P26", Run: runP26,
		Rule:        "all lines of up to three statements over an alphabet of values (scalars, strings, empty, matrix), assignments (plain, chained, indexed, vector, as operands), print calls, uses of _ and failing statements, in all sequences of two lines (the second from a shorter list), lines of up to 101 (thorough 1025) statements and sessions of 400 lines, plus special commands and operator definitions between, in batch and interactive mode; oracle: reference printer; compared: everything printed, whether an error was reported, _ and the variables after each line",
		Assumptions: []string{"how one value is displayed is judged by P13 and P29; whether calling an operator whose body ends in an assignment prints is unspecified"}})
}

// stmt26 is a statement with its reference meaning.
type stmt26 struct {
	src   string
	quiet bool
	fail  bool // always fails when evaluated
	eval  func(m *model26) (value.Value, bool)
}

type model26 struct {
	vars map[string]value.Value
	out  strings.Builder
	conf *ivy.Sess
}

func (m *model26) show(v value.Value) string { return v.Sprint(m.conf.Conf) }

func const26(v value.Value) func(*model26) (value.Value, bool) {
	return func(*model26) (value.Value, bool) { return v, true }
}

func var26(n string) func(*model26) (value.Value, bool) {
	return func(m *model26) (value.Value, bool) { v := m.vars[n]; return v, v != nil }
}

func set26(f func(*model26) (value.Value, bool), names ...string) func(*model26) (value.Value, bool) {
	return func(m *model26) (value.Value, bool) {
		v, ok := f(m)
		if ok {
			for _, n := range names {
				m.vars[n] = v
			}
		}
		return v, ok
	}
}

func print26(f func(*model26) (value.Value, bool)) func(*model26) (value.Value, bool) {
	return func(m *model26) (value.Value, bool) {
		v, ok := f(m)
		if ok {
			m.out.WriteString(m.show(v) + "\n")
		}
		return v, ok
	}
}

func runP26(c *mc.Ctx) {
	ch := func(s string) value.Value {
		var vs []value.Value
		for _, r := range s {
			vs = append(vs, value.Char(r))
		}
		return value.NewVector(vs...)
	}
	mat, _, _ := ivy.New().Eval1("2 2 rho iota 4")
	bad := func(*model26) (value.Value, bool) { return nil, false }
	i := func(n int) value.Value { return value.Int(n) }
	stmts := []stmt26{
		{src: "3", eval: const26(i(3))},
		{src: "'ab'", eval: const26(ch("ab"))},
		{src: "''", eval: const26(ch(""))},
		{src: "2 2 rho iota 4", eval: const26(mat)},
		{src: "1 2", eval: const26(value.NewIntVector(1, 2))},
		{src: "x", eval: var26("x")},
		{src: "_", eval: var26("_")},
		{src: "x = 4", quiet: true, eval: set26(const26(i(4)), "x")},
		{src: "x = y = 6", quiet: true, eval: set26(const26(i(6)), "y", "x")},
		{src: "(x = 7)", quiet: true, eval: set26(const26(i(7)), "x")},
		{src: "0 + x = 8", eval: set26(const26(i(8)), "x")},
		{src: "(x = 9) + 0", eval: set26(const26(i(9)), "x")},
		{src: "x _ = 11 12", quiet: true, eval: func(m *model26) (value.Value, bool) {
			m.vars["x"], m.vars["_"] = i(11), i(12)
			return value.NewIntVector(11, 12), true
		}},
		{src: "_ = 13", quiet: true, eval: set26(const26(i(13)), "_")},
		{src: "print 5", quiet: true, eval: print26(const26(i(5)))},
		{src: "print x = 15", quiet: true, eval: print26(set26(const26(i(15)), "x"))},
		{src: "x = print 16", quiet: true, eval: set26(print26(const26(i(16))), "x")},
		{src: "1 + print 17", eval: func(m *model26) (value.Value, bool) { m.out.WriteString("17\n"); return i(18), true }},
		{src: "x + 1 / 0", fail: true, eval: bad},
		{src: "1 + undefinedvar", fail: true, eval: bad},
		{src: "(x = 20) / 0", fail: true, eval: func(m *model26) (value.Value, bool) {
			m.vars["x"] = i(20)
			return nil, false
		}},
	}
	second := []int{0, 3, 5, 6, 7, 14}
	parseErr := []string{"1 +", ")nonesuch", "(1", "1; 2 +", "x = 30; )"}
	silent := []string{"", "# comment", ")origin 1", "op f a = a", "op g a =\n a\n"}

	// run executes lines given as (text, statements); nil statements: the text
	// is a silent line (ok) or one rejected before evaluation (!ok).
	type line struct {
		src   string
		stmts []stmt26
		ok    bool
	}
	check := func(t *mc.T, lines []line, interactive bool) {
		s := ivy.New()
		m := &model26{vars: map[string]value.Value{}, conf: s}
		var done []string
		if interactive {
			s.Conf.SetPrompt("> ")
		}
		for _, l := range lines {
			done = append(done, l.src)
			src := l.src + "\n"
			m.out.Reset()
			ok := l.ok
			if interactive {
				m.out.WriteString("> ")
			}
			var printed []value.Value
			for _, st := range l.stmts {
				v, k := st.eval(m)
				if !k {
					ok = false
					break
				}
				if !st.quiet {
					printed = append(printed, v)
				}
			}
			if ok && len(printed) > 0 {
				for j, v := range printed {
					str := m.show(v)
					if j > 0 && str != "" {
						m.out.WriteString(" ")
					}
					m.out.WriteString(str)
				}
				m.out.WriteString("\n")
				m.vars["_"] = printed[len(printed)-1]
			}
			if interactive {
				m.out.WriteString("\n")
			}
			var out, errs string
			var p *ivy.Panic
			if interactive {
				out, errs, p = s.RunReader(strings.NewReader(src), true)
				// The reader is at its end: one more prompt and blank line.
				out = strings.TrimSuffix(out, "> ")
			} else {
				out, errs, p = s.Run(src)
			}
			t.Step(1)
			what := strings.Join(done, "\\n")
			if p != nil {
				t.Failf("%s: %s", what, p)
				return
			}
			t.Observe(out)
			if want := m.out.String(); out != want {
				t.Failf("after %q: printed %q, expected %q", what, out, want)
				return
			}
			if (errs == "") != ok {
				t.Failf("after %q: errors %q, expected success=%v", what, errs, ok)
				return
			}
			for _, n := range []string{"_", "x", "y"} {
				v := s.Var(n)
				if v != nil {
					v = s.Ctx.Global(n).Value()
				}
				if a, b := dumpNoInner(v), dumpNoInner(m.vars[n]); a != b {
					t.Failf("after %q: %s is %s, expected %s", what, n, a, b)
					return
				}
			}
		}
	}
	mk := func(idx ...int) line {
		l := line{ok: true}
		var srcs []string
		for _, k := range idx {
			l.stmts = append(l.stmts, stmts[k])
			srcs = append(srcs, stmts[k].src)
		}
		l.src = strings.Join(srcs, "; ")
		return l
	}
	var firsts []line
	for a := range stmts {
		firsts = append(firsts, mk(a))
		for b := range stmts {
			firsts = append(firsts, mk(a, b))
			for d := range stmts {
				firsts = append(firsts, mk(a, b, d))
			}
		}
	}
	for _, inter := range []bool{false, true} {
		if inter {
			c.Group("interactive")
		} else {
			c.Group("batch")
		}
		for _, f := range firsts {
			if inter && len(f.stmts) > 2 {
				continue
			}
			if c.Skip() {
				continue
			}
			key := "batch "
			if inter {
				key = "interactive "
			}
			c.Do(key+f.src, func(t *mc.T) {
				for _, k := range second {
					check(t, []line{mk(0), f, mk(k), mk(6)}, inter)
					if t.Failed() {
						return
					}
				}
				if len(f.stmts) > 1 && c.Quick {
					return
				}
				for _, e := range parseErr {
					check(t, []line{f, {src: e}, mk(6), mk(5)}, inter)
				}
				for _, e := range silent {
					check(t, []line{f, {src: e, ok: true}, mk(6), mk(5)}, inter && !strings.Contains(e, "\n"))
				}
				for k := range stmts {
					check(t, []line{f, mk(k), mk(6)}, inter)
				}
			})
		}
	}
	c.Group("many statements")
	// Lines of n statements cycling through each pair.
	counts := []int{4, 5, 8, 9, 16, 17, 33, 65, 101, 257, 1025}
	if c.Quick {
		counts = []int{4, 9, 33, 101}
	}
	for a := range stmts {
		for b := range stmts {
			if stmts[a].fail || stmts[b].fail || c.Skip() {
				continue
			}
			c.Do("many "+stmts[a].src+"; "+stmts[b].src, func(t *mc.T) {
				for _, n := range counts {
					ks := make([]int, n)
					for i := range ks {
						ks[i] = []int{a, b}[i%2]
					}
					check(t, []line{mk(0), mk(7), mk(ks...), mk(6), mk(5)}, false)
				}
			})
		}
	}
	c.Group("many lines")
	// Long sessions: all statements but the failing ones, again and again.
	for a := range stmts {
		if c.Skip() {
			continue
		}
		c.Do("many lines "+stmts[a].src, func(t *mc.T) {
			var ls []line
			for i := 0; i < 300; i++ {
				ls = append(ls, mk(a))
				if i%7 == 3 {
					ls = append(ls, mk(i%len(stmts)), mk(6))
				}
			}
			check(t, ls, false)
		})
	}
}

// dumpNoInner is Dump, but a value that is only a wrapper shows as such.
func dumpNoInner(v value.Value) string {
	if v == nil {
		return "<nil>"
	}
	if _, ok := v.(value.QuietValue); ok {
		return "quiet " + ivy.Dump(v)
	}
	return ivy.Dump(v)
}
