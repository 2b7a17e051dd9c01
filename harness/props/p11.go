package props

import (
	"fmt"
	"maps"
	"sort"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P11", Run: runP11,
		Rule:        "all sequences up to depth 4 (5) of defining, redefining, declaring and deleting unary and binary operators with colliding names (one shadowing a built-in, one calling another), definitions failing in the header, in the body and in the middle of a multi-line body, and assignments to the same names; oracle: reference symbol table; compared after each sequence: success or error of the last step, the list of operators, every operator's listing, results of calling each operator (also through others), visibility of the built-in, variables, and that )save still works",
		Assumptions: []string{"every prefix of a sequence is itself a case"}})
}

type sym11 struct {
	fns  map[string]*gFn // "f" or "_f"
	text map[string]string
	vars map[string]value.Value
}

func (m *sym11) lang(konst func(string) (value.Value, bool)) *gLang {
	l := &gLang{unary: map[string]bool{"abs": true, "rot": true}, binary: map[string]bool{"mod": true, "rot": true}, konst: konst}
	for n := range m.fns {
		if n[0] == '_' {
			l.binary[n[1:]] = true
		} else {
			l.unary[n] = true
		}
	}
	return l
}

func (m *sym11) isOp(n string) bool { return m.fns[n] != nil || m.fns["_"+n] != nil }

func runP11(c *mc.Ctx) {
	actions := []string{
		"op f a = a + 1",
		"op f a = a + 2",
		"op a f b = a - b",
		"op f a",
		"op f a = a +",               // fails in the body
		"op f a =\n a\n a + )\n\n",   // fails in the middle
		"op f (abs f) = 1",           // fails in the header
		"op a f b = (a",              // fails
		"op g a = 10 * f a",          // f may or may not be an operator now
		"op g a =\n g2 = f a\n g2\n", // the same, multi-line
		"op abs a = 42",
		"op a g b = a f b",
		"opdelete f a",
		"opdelete a f b",
		"opdelete abs a",
		"opdelete f",
		"f = 3",
		"f = 0",
		"g = 3 4",
	}
	probes := []string{"f 5", "1 f 5", "g 5", "2 g 5", "abs -3", "f", "g", "(abs -4) abs -3"}
	depth := 4
	if !c.Quick {
		depth = 5
	}
	base := newRun07(nil)
	e := newGEnv("")
	e.fns = map[string]*gFn{}
	// step performs an action on the model; it reports whether it must succeed.
	step := func(m *sym11, act string) bool {
		switch {
		case strings.HasPrefix(act, "opdelete "):
			w := strings.Fields(act)
			key := ""
			switch len(w) {
			case 3:
				key = w[1]
			case 4:
				key = "_" + w[2]
			default:
				return false
			}
			if m.fns[key] == nil {
				return false
			}
			delete(m.fns, key)
			delete(m.text, key)
			return true
		case strings.HasPrefix(act, "op "):
			head, body, def := strings.Cut(strings.TrimPrefix(act, "op "), "=")
			if strings.Contains(head, "(") {
				return false
			}
			w := strings.Fields(head)
			name, key := w[0], w[0]
			fn := &gFn{right: &gNode{kind: 'v', op: w[len(w)-1]}}
			if len(w) == 3 {
				name, key = w[1], "_"+w[1]
				fn.left = &gNode{kind: 'v', op: w[0]}
			}
			if v := m.vars[name]; v != nil && ivy.Dump(v) != "0" {
				return false
			}
			// The operator exists while its body is read.
			m2 := &sym11{fns: maps.Clone(m.fns)}
			m2.fns[key] = fn
			if def {
				lang := m2.lang(base.lang.konst)
				for _, l := range strings.Split(body, "\n") {
					if strings.TrimSpace(l) == "" {
						continue
					}
					toks := toks12(l)
					for i, t := range toks {
						if t.text == "a" || t.text == "b" {
							toks[i].kind = 'i'
						}
					}
					p := &gParser{lang: lang, toks: toks}
					st := p.line()
					if p.bad {
						return false
					}
					fn.body = append(fn.body, st...)
				}
			}
			fn.analyse()
			m.fns[key] = fn
			m.text[key] = act
			delete(m.vars, name)
			return true
		}
		// An assignment.
		name, _, _ := strings.Cut(act, " ")
		if m.isOp(name) {
			return false
		}
		m.vars[name] = value.Int(0)
		if strings.HasSuffix(act, "3") {
			m.vars[name] = value.Int(3)
		} else if strings.HasSuffix(act, "4") {
			m.vars[name] = value.NewIntVector(3, 4)
		}
		return true
	}
	check := func(t *mc.T, seq []string) {
		s := ivy.New()
		m := &sym11{map[string]*gFn{}, map[string]string{}, map[string]value.Value{}}
		for i, a := range seq {
			want := step(m, a)
			out, errs, p := s.Run(a + "\n")
			t.Step(1)
			if p != nil {
				t.Failf("%q: %s", seq[:i+1], p)
				return
			}
			if (errs == "") != want || out != "" {
				t.Failf("after %q: %q %q, expected success=%v", seq[:i+1], out, errs, want)
				return
			}
		}
		// The list of operators.
		out, errs, p := s.Run(")op")
		if p != nil || errs != "" {
			t.Failf("after %q: )op: %s %v", seq, errs, p)
			return
		}
		got := map[string]bool{}
		bin := false
		for _, l := range strings.Split(out, "\n") {
			switch {
			case strings.HasPrefix(l, "Unary"):
				bin = false
			case strings.HasPrefix(l, "Binary"):
				bin = true
			case strings.HasPrefix(l, "\t"):
				k := strings.TrimSpace(l)
				if bin {
					k = "_" + k
				}
				if got[k] {
					t.Failf("after %q: )op lists %s twice: %q", seq, k, out)
				}
				got[k] = true
			}
		}
		var a, b []string
		for k := range got {
			a = append(a, k)
		}
		for k := range m.fns {
			b = append(b, k)
		}
		sort.Strings(a)
		sort.Strings(b)
		t.Observe(fmt.Sprint(b, m.text, len(m.vars)))
		if fmt.Sprint(a) != fmt.Sprint(b) {
			t.Failf("after %q: )op lists %v, expected %v", seq, a, b)
			return
		}
		for _, n := range []string{"f", "g"} {
			if x, y := ivy.Dump(s.Var(n)), ivy.Dump(m.vars[n]); x != y {
				t.Failf("after %q: variable %s is %s, expected %s", seq, n, x, y)
				return
			}
		}
		// Calls.
		lang := m.lang(base.lang.konst)
		clear(e.fns)
		maps.Copy(e.fns, m.fns)
		for _, src := range probes {
			e.fail = false
			e.frames = e.frames[:0]
			clear(e.vars)
			maps.Copy(e.vars, m.vars)
			p := &gParser{lang: lang, toks: toks12(src)}
			st := p.line()
			var want value.Value
			if p.bad {
				e.fail = true
			} else {
				want = e.eval(st[0])
			}
			v, err, pn := s.Eval1(src)
			t.Step(1)
			if pn != nil || (err != "") != e.fail || !e.fail && ivy.Dump(v) != ivy.Dump(want) {
				w := "an error"
				if !e.fail {
					w = ivy.Dump(want)
				}
				t.Failf("after %q: %s gives %s, expected %s", seq, src, show(v, err, pn), w)
				return
			}
		}
		if out, errs, p := s.Run(")save \"<conf.out>\""); p != nil || errs != "" {
			t.Failf("after %q: )save: %s %s %v", seq, out, errs, p)
		}
	}
	c.Group("histories")
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) > 0 && !c.Skip() {
			c.Do(strings.ReplaceAll(strings.Join(seq, " | "), "\n", "\\n"), func(t *mc.T) { check(t, seq) })
		}
		if len(seq) == depth {
			return
		}
		for _, a := range actions {
			rec(append(seq[:len(seq):len(seq)], a))
		}
	}
	rec(nil)
}
