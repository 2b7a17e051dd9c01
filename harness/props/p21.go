package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"robpike.io/ivy/demo"
	"robpike.io/ivy/mobile"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P21", Run: runP21,
		Rule:        "all sequences of up to 2 (thorough 3) Evals over an alphabet of state-changing, printing and failing texts (every setting, variables, operators, multi-line definitions, errors of each phase, deep recursion): each Eval's result and error against an interpreter session given the same texts, then Reset (or NewDemo, or a second Reset) and every piece of state probed against the answers of the untouched program; all demo scripts of up to 3 lines of an alphabet x line endings against Evals of the lines; all user input sequences up to 5 of the interactive demo against a model of it, with write errors",
		Assumptions: []string{"sys 'cpu' and the clock are not probed"}})
}

func unescape21(s string) string {
	// What mobile does for HTML.
	return strings.NewReplacer(" ", "\u00A0", "\t", "    ", "\\", "&#92;").Replace(s)
}

func eval21(src string) (out, errs string, panicked any) {
	defer func() { panicked = recover() }()
	out, err := mobile.Eval(src)
	if err != nil {
		errs = err.Error()
	}
	return
}

func ref21() *ivy.Sess {
	s := ivy.New()
	s.Conf.SetMaxBits(1e9)
	s.Conf.SetRandomSeed(0)
	s.Conf.SetMobile(true)
	return s
}

var texts21 = []string{
	"x = 3",
	"x = iota 4; y = x*2",
	"x[2] = 7",
	"x = 2 2 rho 'a\tb\\'",
	"x",
	"op f a = a+x",
	"op a f b = a-b",
	"op f a =\n  t = a\n  t*2\n\nf 21",
	"op f",
	"f 3",
	"3 f 4",
	"op r n = n > 100: n; r n+1",
	"",
	"# nothing",
	"3; 4\n5 6\n",
	"2 3 rho iota 6",
	"nosuch",
	"'x",
	"1 +",
	"x = 5; 1 / 0; x = 6",
	"1 / 0\nx = 8\n1/0\nx",
	"_",
	"?1000",
	")origin 0",
	")prec 64",
	")base 16",
	")ibase 8",
	")obase 2",
	")format '%.3f'",
	")maxbits 100",
	")maxdigits 3",
	")maxstack 20",
	"r 1",
	"2**200",
	")prompt '>'",
	")seed 5",
	")debug types 1",
	")debug trace 2",
	")debug tokens 1",
	")debug parse 1",
	")debug cpu 1",
	")timezone 'NYC'",
	")nosuch",
	")var x",
	")op f",
	"sys 'maxstack'",
}

var probes21 = []string{
	"x", "y", "t", "f 3", "3 f 4", "_", "iota 3", "sqrt 2", "1/3", "255", "10", "2**200", "!100", ")base", ")ibase", ")obase", ")format", ")maxbits",
	")maxdigits", ")maxstack", ")prec", ")prompt", ")seed", ")origin", ")debug", ")timezone", ")op", ")var", ")vars", ")ops", "?100", "?1000000", "rand 3", "pi", "e", "'T' text 0",
	"sys 'base'", "sys 'format'", "sys 'origin'", "1 / 0", "'unterminated", "2 3 rho iota 6", "x = 7\nx", "op f a = a\nf 3", "3 4 == 3 4", "_",
}

var base21 []string

// probe21 runs all the probes from the reset state.
func probe21() []string {
	var r []string
	for _, p := range probes21 {
		out, e, pan := eval21(p)
		r = append(r, fmt.Sprintf("%q %q %v", out, e, pan))
	}
	return r
}

func checkProbes21(t *mc.T, what string, got []string) bool {
	t.Step(len(got))
	for i, g := range got {
		if g != base21[i] {
			t.Failf("%s: %q gives %s, in a newly started program %s", what, probes21[i], g, base21[i])
			return false
		}
	}
	return true
}

func runP21(c *mc.Ctx) {
	// The program has just started: this is the state Reset must return to.
	base21 = probe21()
	mobile.Reset()
	c.Group("start")
	c.Case("start against the interpreter", func(t *mc.T) {
		s := ref21()
		for i, p := range probes21 {
			out, e, pan := s.Run(p)
			t.Step(1)
			if w := fmt.Sprintf("%q %q %v", unescape21(out), e, any(nil)); w != base21[i] || pan != nil {
				t.Failf("at start %q gives %s, the interpreter %s", p, base21[i], w)
			}
		}
		checkProbes21(t, "after Reset", probe21())
		mobile.Reset()
		checkProbes21(t, "after Reset", probe21())
	})
	c.Group("histories")
	depth := 2
	if !c.Quick {
		depth = 3
	}
	var seq func(h []string)
	n := 0
	seq = func(h []string) {
		if len(h) > 0 {
			n++
			how := n % 4
			key := fmt.Sprintf("%d %q", how, h)
			c.Case(key, func(t *mc.T) {
				mobile.Reset()
				s := ref21()
				for i, src := range h {
					out, e, pan := eval21(src)
					wout, we, wp := s.Run(src)
					t.Step(1)
					if pan != nil || wp != nil {
						t.Failf("after %q: Eval(%q) panics: %v %v", h[:i], src, pan, wp)
						mobile.Reset()
						return
					}
					if out != unescape21(wout) || e != we {
						t.Failf("after %q: Eval(%q) gives %q, %q; the interpreter gives %q, %q", h[:i], src, out, e, unescape21(wout), we)
						mobile.Reset()
						return
					}
					if i == len(h)-1 {
						t.Observe(out + e)
					}
				}
				switch how {
				case 0, 1:
					mobile.Reset()
					checkProbes21(t, fmt.Sprintf("after %q and Reset", h), probe21())
				case 2:
					mobile.NewDemo("1\n2\n")
					checkProbes21(t, fmt.Sprintf("after %q and NewDemo", h), probe21())
				case 3:
					// In the middle of a demo.
					d := mobile.NewDemo(strings.Join(h, "\n"))
					for i := 0; i <= len(h); i++ {
						d.Next()
					}
					mobile.Reset()
					checkProbes21(t, fmt.Sprintf("after a demo of %q and Reset", h), probe21())
				}
				mobile.Reset()
			})
			if len(h) == depth || c.Stopped() {
				return
			}
		}
		for _, x := range texts21 {
			seq(append(h[:len(h):len(h)], x))
		}
	}
	seq(nil)
	// Errors turned into panics leave nothing behind after Reset.
	for _, x := range texts21 {
		c.Case("debug panic "+fmt.Sprintf("%q", x), func(t *mc.T) {
			mobile.Reset()
			eval21(")debug panic 1")
			eval21(x)
			mobile.Reset()
			checkProbes21(t, fmt.Sprintf("after )debug panic 1, %q and Reset", x), probe21())
			mobile.Reset()
		})
	}
	c.Group("demos")
	lines := []string{"", "# comment", "x = 3", "x", "3; 4", "1/0 # error", "'x", "op f a = a+x", "f 3", ")origin 0", "iota 3", ")nosuch", "x = x+1", "'a\tb'", "  5  "}
	var demos func(h []string)
	demos = func(h []string) {
		for _, end := range []string{"\n", "\r\n", "no"} {
			if len(h) == 0 && end == "no" {
				continue
			}
			c.Case(fmt.Sprintf("demo %q %q", h, end), func(t *mc.T) {
				var text string
				if end == "no" {
					text = strings.Join(h, "\n")
				} else {
					for _, l := range h {
						text += l + end
					}
				}
				want := h
				if end == "no" && h[len(h)-1] == "" { // Empty last line without an ending is no line.
					want = h[:len(h)-1]
				}
				mobile.Eval("x = 99\n)base 16") // Forgotten.
				d := mobile.NewDemo(text)
				s := ref21()
				for i, l := range want {
					out, err := d.Next()
					wout, we, _ := s.Run(l)
					t.Step(1)
					e := ""
					if err != nil {
						e = err.Error()
					}
					if out != unescape21(wout) || e != we {
						t.Failf("demo %q: step %d gives %q, %q, the interpreter %q, %q", text, i+1, out, e, unescape21(wout), we)
						return
					}
				}
				for i := 0; i < 2; i++ {
					if out, err := d.Next(); out != "" || err != io.EOF {
						t.Failf("demo %q: at the end Next gives %q, %v", text, out, err)
						return
					}
				}
			})
		}
		if len(h) < 3 && (len(h) < 2 || !c.Quick) {
			for _, x := range lines {
				demos(append(h[:len(h):len(h)], x))
			}
		}
	}
	demos(nil)
	for _, n := range []int{4095, 4096, 65534, 65535, 65536, 65537, 1 << 20} {
		for _, where := range []int{0, 1, 2} {
			for _, end := range []string{"\n", "", "\r\n"} {
				c.Case(fmt.Sprintf("demo line of %d at %d %q", n, where, end), func(t *mc.T) {
					ls := []string{"x = 3", "x+1", "x+2"}
					ls[where] += " # " + strings.Repeat("z", n)
					d := mobile.NewDemo(ls[0] + "\n" + ls[1] + "\n" + ls[2] + end)
					for i, w := range []string{"", "4\n", "5\n"} {
						out, err := d.Next()
						t.Step(1)
						if out != w || err != nil {
							t.Failf("demo with a line of %d characters: step %d gives %q, %v", n, i+1, out, err)
							return
						}
					}
					if out, err := d.Next(); out != "" || err != io.EOF {
						t.Failf("demo with a line of %d characters ends with %q, %v", n, out, err)
					}
				})
			}
		}
	}
	c.Group("interactive demo")
	script := strings.SplitAfter(strings.TrimSuffix(demo.Text(), "\n"), "\n")
	if l := len(script); l > 0 {
		script[l-1] += "\n"
	}
	inputs := []string{"", "", "2+2", "quit", " quit\t", "# c", " ", "quit 3"}[1:]
	var users func(h []string)
	check := func(name string, h []string, input io.Reader, fail int) {
		c.Case(fmt.Sprintf("%s %q %d", name, h, fail), func(t *mc.T) {
			var toIvy, out, wantIvy, wantOut bytes.Buffer
			wantOut.WriteString(script[0])
			next, writes := 1, 0
			var wantErr error
			for _, l := range h {
				line := l + "\n"
				if l == "" {
					if next == len(script) {
						break
					}
					line = script[next]
					next++
					wantOut.WriteString(line)
				} else if strings.TrimSpace(l) == "quit" {
					break
				}
				if writes == fail {
					wantErr = errDemo21
					break
				}
				writes++
				wantIvy.WriteString(line)
			}
			err := demo.Run(input, &failWriter21{w: &toIvy, n: fail}, &out)
			t.Step(len(h))
			if err != wantErr || toIvy.String() != wantIvy.String() || out.String() != wantOut.String() {
				t.Failf("demo with input %q: error %v, want %v; to ivy %q, want %q; output %q, want %q", h, err, wantErr, tail21(toIvy.String()), tail21(wantIvy.String()), tail21(out.String()), tail21(wantOut.String()))
			}
		})
	}
	users = func(h []string) {
		text := strings.Join(h, "\n")
		if len(h) > 0 {
			text += "\n"
		}
		check("user", h, strings.NewReader(text), -1)
		for f := 0; f < len(h); f++ {
			check("user", h, strings.NewReader(text), f)
		}
		if len(h) < 4 || len(h) < 5 && !c.Quick {
			for _, x := range inputs {
				users(append(h[:len(h):len(h)], x))
			}
		}
	}
	users(nil)
	all := make([]string, len(script)+5)
	check("all", all, strings.NewReader(strings.Repeat("\n", len(all))), -1)
	check("nil", all, nil, -1)
	for f := range script {
		check("all", all, strings.NewReader(strings.Repeat("\n", len(all))), f)
	}
	// The demo is a sequence of lines, each of which can be evaluated on its own.
	c.Case("demo script", func(t *mc.T) {
		d := mobile.NewDemo(demo.Text())
		s := ref21()
		for i, l := range script {
			out, err := d.Next()
			wout, we, p := s.Run(l)
			t.Step(1)
			e := ""
			if err != nil {
				e = err.Error()
			}
			if p != nil || out != unescape21(wout) || e != we {
				t.Failf("the demo: line %d, %q, gives %q, %q, the interpreter %q, %q", i+1, l, out, e, unescape21(wout), we)
				return
			}
		}
		mobile.Reset()
	})
}

var errDemo21 = errors.New("write error")

type failWriter21 struct {
	w io.Writer
	n int
}

func (f *failWriter21) Write(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errDemo21
	}
	f.n--
	return f.w.Write(b)
}

func tail21(s string) string {
	if len(s) > 60 {
		return "…" + s[len(s)-60:]
	}
	return s
}
