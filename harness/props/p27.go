package props

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"robpike.io/ivy/parse"
	"robpike.io/ivy/scan"
	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P27", Run: runP27,
		Rule:        "all programs of up to 3 (thorough 4) lines over an alphabet of assignments, expressions, operator definitions, deletions, settings, comments and errors, executed (a) line by line by the reference driver, (b) by )get of a file, (c) by the ivy operator, (d) by )get of a file that )gets it, (e) by )get of a file that uses ivy, (f) by ivy of )get, (g) by ivy inside a user operator, (h) by ivy of ivy, in sessions with decimal and hexadecimal bases; after each, variables, operators, settings, printed values, error text and position are compared and a common tail program is run. Nesting: chains of )get to depth 5 before and after every mixture of up to 12 failing loads (missing file, error in file, self-inclusion, error in nested file).",
		Assumptions: []string{"a file read by )get starts with base 0 and keeps nonzero bases it sets; )get prints every value on a line of its own and stops at the first error; ivy does not set _ and its error abandons the line it occurs in"}})
}

// unit27 is one line of a program (or one multiline definition).
type line27 struct {
	printed string        // by commands
	vals    []value.Value // of the statements
	err     string
}

func quiet27(v value.Value) bool { _, ok := v.(value.QuietValue); return ok }

// step27 executes one unit in the reference session.
func step27(s *ivy.Sess, unit string) (r line27, pan *ivy.Panic) {
	var o, e bytes.Buffer
	defer func() {
		r.printed = o.String()
		if x := recover(); x != nil {
			switch x := x.(type) {
			case value.Error:
				r.err = string(x)
			case big.ErrNaN:
				r.err = x.Error()
			default:
				pan = &ivy.Panic{Val: x}
			}
		}
	}()
	s.Conf.SetOutput(&o)
	s.Conf.SetErrOutput(&e)
	p := parse.NewParser("ref", scan.New(s.Ctx, "ref", strings.NewReader(unit+"\n")), s.Ctx)
	exprs, _ := p.Line()
	if exprs != nil {
		r.vals = s.Ctx.Eval(exprs)
	}
	return
}

// snap27 is the observable state of a session, without _.
func snap27(s *ivy.Sess) string {
	var b strings.Builder
	_, rest := state09(s)
	b.WriteString(rest)
	fmt.Fprintf(&b, " stack %d\n", s.Conf.MaxStack())
	for _, n := range globals09(s) {
		if n != "_" {
			fmt.Fprintf(&b, "%s=%s\n", n, ivy.DumpRep(s.Var(n)))
		}
	}
	out, _, _ := s.Run(")op")
	b.WriteString(out)
	for _, f := range []string{"f", "g"} {
		o, e, _ := s.Run(")op " + f)
		b.WriteString(o)
		if o == "" {
			b.WriteString(e)
		}
	}
	return b.String()
}

var tail27 = []string{"x", "10 + 1/3", "f 2", "nosuch", "iota 3", "op g z = z - 1", "g 0.5", "x = 5 6", "x[1]", "0.25"}

// tailRun runs the tail as one script and returns everything it shows. The errors
// carry the position in that script.
func tailRun(s *ivy.Sess, first string) (out, errs string, p *ivy.Panic) {
	return s.Run(first + strings.Join(tail27, "\n"))
}

func sprints27(s *ivy.Sess, vals []value.Value) string {
	var l []string
	for _, v := range vals {
		if !quiet27(v) {
			l = append(l, sprint09(s, v))
		}
	}
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, " ") + "\n"
}

func runP27(c *mc.Ctx) {
	dir, err := os.MkdirTemp("", "p27-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "p.ivy")
	outer := filepath.Join(dir, "o.ivy")
	units := []string{"x = 1 2 3", "x", "x[2] = 9", "y = x + 1; y; x", "1; 2", "op f z = z + x", "op f z =\n w = z\n w * 2\n", "f 3", "'abc'", "# comment", "", "3 # c", ")base 16", ")ibase 8", ")obase 2", ")origin 0", ")prec 64", ")format '%.3f'", "10", "1/0", "nosuch", "iota 3", "2.5", ")nosuch", "x = 1 +", "ivy 'x = x, 1'", "opdelete f z", "sqrt 2", "x = 4; f x", ")maxbits 70", "'", "2 2 rho x", ")op f", "5; _, 1"}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	c.Group("programs")
	var prog func(idx []int)
	prog = func(idx []int) {
		if len(idx) > 0 && !c.Skip() {
			us := make([]string, len(idx))
			for i, k := range idx {
				us[i] = units[k]
			}
			text := strings.Join(us, "\n")
			c.Do("program "+strconv.Quote(text), func(t *mc.T) { prog27(t, us, text, file, outer, c.Quick) })
		}
		if len(idx) == depth {
			return
		}
		for i := range units {
			prog(append(idx[:len(idx):len(idx)], i))
		}
	}
	prog(nil)

	c.Group("long")
	sizes := []int{4095, 4096, 4097, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1}
	if !c.Quick {
		sizes = append(sizes, 1<<24+1, 1<<25+1)
	}
	for _, size := range sizes {
		for _, l := range []string{"x = x + 1\n", "x = x + 1 #" + strings.Repeat("-", 5000) + "\n", "x = x + 1;" + strings.Repeat(" ", 2000), "\n"} {
			c.Case(fmt.Sprintf("file of %d bytes of lines of %d", size, len(l)), func(t *mc.T) {
				if len(l) < 100 && size > 1<<23 {
					return
				}
				n := size / len(l)
				var b strings.Builder
				b.WriteString(strings.Repeat(l, n))
				for b.Len() < size {
					b.WriteString(" ")
				}
				text := b.String()
				tail := "\ny = x\nx"
				if strings.Contains(l, ";") {
					tail = " x = x" + tail
				}
				want := n
				if l == "\n" {
					want = 0
				}
				long := filepath.Join(dir, fmt.Sprintf("long%d.ivy", os.Getpid()))
				os.WriteFile(long, []byte(text+tail), 0o644)
				o2 := filepath.Join(dir, fmt.Sprintf("olong%d.ivy", os.Getpid()))
				os.WriteFile(o2, []byte(fmt.Sprintf(")get %q\n", long)), 0o644)
				defer os.Remove(long)
				s := ivy.New()
				for _, how := range []string{")get " + strconv.Quote(long), ")get " + strconv.Quote(o2), "ivy zz"} {
					if how[0] == 'i' {
						if size > 1<<20 || n > 30000 {
							continue
						}
						s.SetVar("zz", strVec(text+tail))
					}
					s.Run("x = 0; y = -1")
					out, e, p := s.Run(how + "\ny")
					t.Step(n)
					if w := fmt.Sprintf("%d\n%d\n", want, want); out != w || e != "" || p != nil {
						t.Failf("%.20s of a program of %d bytes with %d lines prints %.60q %.60q %v, not %q", how, len(text+tail), n, out, e, p, w)
						return
					}
				}
				t.Observe(fmt.Sprint(size, len(l)))
			})
		}
	}

	c.Group("nesting")
	chain := func(n int) string { return filepath.Join(dir, fmt.Sprintf("c%d.ivy", n)) }
	for i := 1; i <= 8; i++ {
		body := fmt.Sprintf("d%d = %d\n)get %q\ne%d = %d\n", i, i, chain(i-1), i, i)
		if i == 1 {
			body = "d1 = 1\ne1 = 1\n"
		}
		os.WriteFile(chain(i), []byte(body), 0o644)
	}
	w := func(name, body string) string {
		f := filepath.Join(dir, name)
		os.WriteFile(f, []byte(body), 0o644)
		return f
	}
	bad := []string{
		w("err.ivy", "k = 1\n1/0\nk = 2\n"),
		filepath.Join(dir, "missing.ivy"),
		w("self.ivy", fmt.Sprintf(")get %q\n", filepath.Join(dir, "self.ivy"))),
		w("nest.ivy", fmt.Sprintf(")get %q\nk = 1\n1/0\n", filepath.Join(dir, "err.ivy"))),
		w("miss2.ivy", fmt.Sprintf(")get %q\n", filepath.Join(dir, "missing.ivy"))),
		w("op.ivy", "op q a = 1/a\n1 + q 0\n"),
		w("ivyself.ivy", fmt.Sprintf("ivy ')get \"%s\"'\n", filepath.Join(dir, "ivyself.ivy"))),
		w("syntax.ivy", "op q a =\n 1 +\n"),
	}
	nb := 2
	reps := []int{1, 6}
	if !c.Quick {
		nb = 3
		reps = []int{1, 4}
	}
	var hist func(h []int)
	hist = func(h []int) {
		if !c.Skip() {
			c.Do(fmt.Sprintf("failing loads %v", h), func(t *mc.T) {
				for _, rep := range reps {
					s := ivy.New()
					for r := 0; r < rep; r++ {
						for _, k := range h {
							_, e, p := s.Run(fmt.Sprintf(")get %q\nk = 77", bad[k]))
							t.Step(1)
							if p != nil || e == "" {
								t.Failf("failing )get %s: no error reported, or %v", filepath.Base(bad[k]), p)
								return
							}
							if v := s.Var("k"); v == nil || ivy.Dump(v) != "77" {
								t.Failf("after failing )get %s the line after it was not executed", filepath.Base(bad[k]))
								return
							}
						}
					}
					for d := 1; d <= 5; d++ {
						out, e, p := s.Run(fmt.Sprintf(")get %q", chain(d)))
						t.Step(1)
						if out != "" || e != "" || p != nil {
							t.Failf("after failing loads %v: )get nested %d deep: %q %q %v", h, d, out, e, p)
							return
						}
						for i := 1; i <= d; i++ {
							for _, n := range []string{"d", "e"} {
								if v := s.Var(n + strconv.Itoa(i)); v == nil || ivy.Dump(v) != strconv.Itoa(i) {
									t.Failf("after )get nested %d deep, %s%d is %s", d, n, i, show(v, "", nil))
									return
								}
							}
						}
						s.Run("d1 = 0; d2 = 0; d3 = 0; d4 = 0; d5 = 0; e1 = 0; e2 = 0; e3 = 0; e4 = 0; e5 = 0")
					}
				}
			})
		}
		if len(h) == nb {
			return
		}
		for i := range bad {
			hist(append(h[:len(h):len(h)], i))
		}
	}
	hist(nil)
}

func prog27(t *mc.T, us []string, text, file, outer string, quick bool) {
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		panic(err)
	}
	get := fmt.Sprintf(")get %q", file)
	pre := []string{"8\n", ")base 16\n8\n", ")origin 0\n)obase 2\n8\nx = 7\nop f z = x * z\n"}
	for pi, setup := range pre {
		if pi > 0 && len(us) > 2 && quick {
			break
		}
		// The reference: line by line, with zero base for )get and the session's for ivy.
		for _, viaGet := range []bool{true, false} {
			ref := ivy.New()
			ref.Run(setup)
			ib, ob := ref.Conf.Base()
			if viaGet {
				ref.Conf.SetBase(0, 0)
			}
			var printedGet, printedIvy, errMsg string
			errLine, lineNo := 0, 1
			var last []value.Value
			for i, u := range us {
				var shown value.Value // it becomes _ after the line
				if i > 0 && i == len(us)-1 && u == "" {
					break // The text just ends in a newline.
				}
				printedIvy += sprints27(ref, last)
				last = nil
				st, p := step27(ref, u)
				t.Step(1)
				if p != nil {
					t.Failf("%q: %v", text, p)
					return
				}
				printedGet += st.printed
				printedIvy += st.printed
				if st.err != "" {
					errMsg, errLine = st.err, lineNo // Only the header of the multiline definition can fail.
					break
				}
				for _, v := range st.vals {
					if !quiet27(v) {
						printedGet += sprint09(ref, v) + "\n"
						if viaGet {
							shown = v
						}
					}
				}
				if shown != nil {
					ref.SetVar("_", shown.Inner())
				}
				last = st.vals
				lineNo += 1 + strings.Count(u, "\n")
			}
			var res value.Value = value.NewIntVector()
			if errMsg == "" && len(last) > 0 {
				printedIvy += sprints27(ref, last[:len(last)-1])
				res = last[len(last)-1]
			}
			if viaGet {
				i, o := ref.Conf.Base()
				if i == 0 {
					i = ib
				}
				if o == 0 {
					o = ob
				}
				ref.Conf.SetBase(i, o)
			}
			t.Observe(text + setup)
			want := snap27(ref)
			under := ivy.DumpRep(ref.Var("_"))
			wantOut, wantErr, _ := tailRun(ref, "# first\n")

			compare := func(how string, s *ivy.Sess, first string, nlines int, wantPrinted, wantErrs string, strictErr bool) {
				s.Run(setup)
				out, e, p := s.Run(first)
				t.Step(1)
				what := fmt.Sprintf("%s%s of %q", setup, how, text)
				if p != nil {
					t.Failf("%s: %v", what, p)
					return
				}
				if out != wantPrinted {
					t.Failf("%s prints %q, not %q", what, out, wantPrinted)
					return
				}
				if strictErr && e != wantErrs || (e != "") != (errMsg != "") || !strings.Contains(e, errMsg) {
					t.Failf("%s reports %q, not %q", what, e, wantErrs)
					return
				}
				if got := snap27(s); got != want {
					t.Failf("%s: the session is then\n%s\nnot\n%s", what, got, want)
					return
				}
				if got := ivy.DumpRep(s.Var("_")); strings.HasPrefix(how, ")get") && got != under {
					t.Failf("%s: _ is then %s, not %s", what, got, under)
					return
				}
				// Again in one script with the tail, in a new session.
				n := ivy.New()
				n.Run(setup)
				out, e, p = tailRun(n, first+"\n")
				if p != nil {
					t.Failf("%s: %v", what, p)
					return
				}
				if !strings.HasPrefix(out, wantPrinted) || out[len(wantPrinted):] != wantOut {
					t.Failf("%s followed by %q prints %q, not %q", what, tail27, out, wantPrinted+wantOut)
					return
				}
				if strictErr {
					if e != wantErrs+wantErr {
						t.Failf("%s followed by %q reports %q, not %q", what, tail27, e, wantErrs+wantErr)
					}
				} else if !strings.HasSuffix(e, wantErr) {
					t.Failf("%s followed by %q reports %q, not ending in %q", what, tail27, e, wantErr)
				}
			}
			// Text given to ivy is one line of the outer program, so the tail starts
			// on line 2 in the reference as well as here.
			if viaGet {
				we := ""
				if errMsg != "" {
					we = fmt.Sprintf("%s:%d: %s\n", file, errLine, errMsg)
				}
				compare(")get", ivy.New(), get, 1, printedGet, we, errLine > 0 && !strings.Contains(text, "'\n") && !strings.HasSuffix(text, "'"))
				if t.Failed() {
					return
				}
				os.WriteFile(outer, []byte(get+"\n"), 0o644)
				compare(")get of )get", ivy.New(), fmt.Sprintf(")get %q", outer), 1, printedGet, we, false)
				if t.Failed() {
					return
				}
				printed := printedGet
				if errMsg == "" {
					// )get as the text of ivy: nothing is returned but the empty vector.
					printed += "\n"
				} else {
					printed += "\n"
				}
				compare("ivy of )get", ivy.New(), "ivy "+strconv.Quote(get), 1, printed, we, false)
				if t.Failed() {
					return
				}
				continue
			}
			printed := printedIvy
			if errMsg == "" && !quiet27(res) {
				printed += sprint09(ref, res) + "\n"
			}
			if strings.Contains(text, "\"") {
				continue
			}
			q := strconv.Quote(text)
			compare("ivy", ivy.New(), "ivy "+q, 1, printed, "", false)
			if t.Failed() {
				return
			}
			compare("ivy of ivy", ivy.New(), "ivy "+strconv.Quote("ivy "+q), 1, printed, "", false)
			if t.Failed() {
				return
			}
			// As an operand, inside an operator with locals of the same names.
			s := ivy.New()
			s.Run(setup)
			s.Run("op run27 zz = x = 7; y = 6; r = ivy zz; x 1 r 2 y")
			s.SetVar("src27", strVec(text))
			v, e, p := s.Eval1("run27 src27")
			t.Step(1)
			if p != nil {
				t.Failf("ivy of %q in an operator: %v", text, p)
				return
			}
			if (e != "") != (errMsg != "") || errMsg != "" && !strings.Contains(e, errMsg) {
				t.Failf("%sivy of %q in an operator reports %q, not %q", setup, text, e, errMsg)
				return
			}
			if e == "" {
				w := value.NewVector(value.Int(7), value.Int(1), res.Inner(), value.Int(2), value.Int(6))
				if ivy.DumpRep(v) != ivy.DumpRep(w) {
					t.Failf("%sivy of %q in an operator: 7 1 (ivy text) 2 6 is %s, not %s", setup, text, ivy.DumpRep(v), ivy.DumpRep(w))
					return
				}
			}
			s.Run("opdelete run27 zz")
			s.Ctx.AssignGlobal("src27", value.Int(0))
			got := strings.Replace(snap27(s), "src27=0\n", "", 1)
			if got != want {
				t.Failf("%sivy of %q in an operator: the session is then\n%s\nnot\n%s", setup, text, got, want)
				return
			}
		}
	}
}

// strVec is the text as a vector of characters.
func strVec(s string) value.Value {
	var l []value.Value
	for _, r := range s {
		l = append(l, value.Char(r))
	}
	return value.NewVector(l...)
}
