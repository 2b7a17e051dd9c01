package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/ivy"
	"verif/mc"

	iexec "robpike.io/ivy/exec"
	"robpike.io/ivy/value"
)

func init() {
	register(&mc.Prop{ID: "P20", Run: runP20,
		Rule:        "a set of programs covering each construct, each with its expected output and errors: every layout of each (every gap between tokens alone and all together x blank styles x leading and trailing blanks and comments x line endings x blank, blank-looking and comment lines between statements x ends of file), every grouping of its statements by semicolons, every chunking of the text by the reads (all of them for short programs; every single cut, every uniform size and reads with and without data at the end for all), a read failure at every byte, every way to deliver it (script, interactive, )get, the ivy operator, and the real command with -e, -i, a file, several files and standard input), and tokens, comments, lines and files longer than every buffer",
		Assumptions: []string{"a sign belongs to a following number unless it directly follows an operand, so no blank is added or removed around signs"}})
}

// In the text of a program ~ stands for an optional blank, a space for a required one.
type item20 struct {
	kind string // "s" statement, "p" special command or single-line definition, "d" multi-line definition, "e" statement that fails
	text string
	out  string // Printed.
	err  string
}

var programs20 = [][]item20{
	{{"s", "x~=~3", "", ""}, {"s", "y~=~x~+ 2", "", ""}, {"s", "y", "5", ""}, {"s", "x~*~y", "15", ""}, {"s", "(~x~,~y~)~[~2~]", "5", ""}, {"s", "x~=~x~- 1", "", ""}, {"s", "x", "2", ""}},
	{{"s", "s~=~'a # b; c'", "", ""}, {"s", "s", "a # b; c", ""}, {"s", "rho s", "8", ""}, {"s", "s~[~3~]", "#", ""}, {"s", "`r;#'`~,~\"'\"", "r;#''", ""}},
	{{"s", "n~=~0", "", ""}, {"s", "n~=~n~+ 1", "", ""}, {"s", "n~=~n~+ 1", "", ""}, {"s", "n", "2", ""}, {"s", "n~=~n~* 10", "", ""}, {"s", "n", "20", ""}},
	{{"s", "v~=~iota 4", "", ""}, {"s", "v~[~2~]~=~9", "", ""}, {"s", "v", "1 9 3 4", ""}, {"s", "+/~v", "17", ""}, {"s", "v~[~v~[~1~]~]", "1", ""}, {"s", "v~>~2", "0 1 1 1", ""}},
	{{"p", "op f x~=~x~*~2", "", ""}, {"s", "f 4", "8", ""}, {"p", "op a g b~=~(~f a~)~- b", "", ""}, {"s", "3 g 4", "2", ""}, {"s", "g/~5 6", "4", ""}, {"s", "f@~iota 3", "2 4 6", ""}},
	{{"d", "op f x~=\n~y~=~x~+ 1\n~y~*~2\n", "", ""}, {"s", "f 4", "10", ""}, {"d", "op h n~=\n~n~<~1~:~0\n~n~+ h n~- 1\n", "", ""}, {"s", "h 4", "10", ""}},
	{{"p", "op k n~=~n~<~2~:~1~;~n~* k n~- 1", "", ""}, {"s", "k 5", "120", ""}},
	{{"p", ")~origin 0", "", ""}, {"s", "iota 3", "0 1 2", ""}, {"p", ")~origin", "0", ""}, {"p", ")~obase 16", "", ""}, {"s", "255", "ff", ""}, {"p", ")~ibase 2", "", ""}, {"s", "101", "5", ""}},
	{{"s", "2 3 rho iota 6", "1 2 3\n4 5 6", ""}, {"s", "m~=~2 2 rho 1 2 3 4", "", ""}, {"s", "m~+.*~m", " 7 10\n15 22", ""}, {"s", "(~iota 2~)~o.+~iota 2", "2 3\n3 4", ""}, {"s", "m~[~2~;~1~]", "3", ""}, {"s", "m~[~1~]", "1 2", ""}},
	{{"s", "1/2~* 4", "2", ""}, {"s", ".5~* 4", "2", ""}, {"s", "1j2~* 2", "2j4", ""}, {"s", "-3~,~4", "-3 4", ""}, {"s", "1e3", "1000", ""}, {"s", "- 3", "-3", ""}},
	{{"s", "x~=~1", "", ""}, {"e", "1 / 0", "", "division by zero"}, {"s", "x~=~x~+ 1", "", ""}, {"e", "nosuch", "", `undefined global variable "nosuch"`}, {"e", "x~]", "", "unexpected RightBrack: \"]\""}, {"e", "x~=~'abc", "", "error: unterminated quoted string"}, {"s", "x", "2", ""}, {"e", "(~x", "", "expected right paren, found EOF"}, {"e", ")~nosuch", "", ")nosuch: not recognized"}, {"s", "x", "2", ""}},
	{{"s", "3~;~4", "3 4", ""}, {"s", "a~=~1~;~a~;~a~=~2~;~a", "1 2", ""}, {"e", "a~=~5~;~1 / 0~;~a~=~6", "", "division by zero"}, {"s", "a", "5", ""}},
	{{"s", "`two\nlines`", "two\nlines", ""}, {"s", "u~=~`a\nb`", "", ""}, {"e", "1 / 0", "", "division by zero"}, {"s", "rho u", "3", ""}},
	{{"s", "αβ~=~'日本'", "", ""}, {"s", "αβ", "日本", ""}, {"s", "'é'~==~αβ", "0 0", ""}, {"s", "1 2 3 iota 2", "2", ""}, {"s", "3 take 'abcd'", "abc", ""}, {"s", "not 1 0", "0 1", ""}},
}

var short20 = []string{"1;2\n3", "x=1\nx\n", "'a'\r\n1", "1#2\n3\n", "op f x=x\n", "2 3\n\n4", "'x\n3\n", "`a\nb`\n", "αβ=1\nαβ", ")base\n1"}

var locRE20 = regexp.MustCompile(`(?m)^( |[^ :\n]*):([0-9]+): `)

type layout20 struct {
	gap     func(i int, required bool) string // i-th gap of the program
	lead    string
	trail   string
	end     string
	between string
	eof     string // "nl", "none", "blanks", "spaces", "comment"
}

// build20 lays out a program. It returns the text, the number of gaps and, for each failing item, its line.
func build20(prog []item20, l layout20) (text string, gaps int, lines map[int]int) {
	var b strings.Builder
	lines = map[int]int{}
	line := 1
	for i, it := range prog {
		if i > 0 && l.between != "" {
			b.WriteString(strings.ReplaceAll(l.between, "\n", l.end))
			line += strings.Count(l.between, "\n")
		}
		lines[i] = line
		inRaw, inQuote := false, byte(0)
		b.WriteString(l.lead)
		for j := 0; j < len(it.text); j++ {
			switch ch := it.text[j]; {
			case inQuote != 0:
				if ch == inQuote {
					inQuote = 0
				}
				b.WriteByte(ch)
			case inRaw:
				if ch == '`' {
					inRaw = false
				}
				if ch == '\n' {
					line++
				}
				b.WriteByte(ch)
			case ch == '~' || ch == ' ':
				b.WriteString(l.gap(gaps, ch == ' '))
				gaps++
			case ch == '\n': // In a definition.
				if j == len(it.text)-1 {
					continue // The end, below.
				}
				b.WriteString(l.trail + l.end + l.lead)
				line++
			default:
				if ch == '`' {
					inRaw = true
				} else if ch == '\'' || ch == '"' {
					inQuote = ch
				}
				b.WriteByte(ch)
			}
		}
		b.WriteString(l.trail)
		last := i == len(prog)-1
		if !last || l.eof != "none" {
			b.WriteString(l.end)
		}
		line++
		if it.kind == "d" {
			if !last || l.eof != "none" {
				b.WriteString(l.end)
			}
			line++
		}
	}
	switch l.eof {
	case "blanks":
		b.WriteString(l.end + l.end)
	case "spaces":
		b.WriteString(" \t ")
	case "comment":
		b.WriteString("# the end")
	}
	return b.String(), gaps, lines
}

func want20(prog []item20) (out string, errs []string) {
	for _, it := range prog {
		if it.out != "" {
			out += it.out + "\n"
		}
		if it.err != "" {
			errs = append(errs, it.err)
		}
	}
	return
}

func state20(s *ivy.Sess) string {
	var names []string
	ctx := s.Ctx.(*iexec.Context)
	for n := range ctx.Globals {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "%s=%s ", n, ivy.DumpRep(s.Var(n)))
	}
	names = nil
	for n, f := range ctx.UnaryFn {
		if f != nil {
			names = append(names, n+": "+f.String())
		}
	}
	for n, f := range ctx.BinaryFn {
		if f != nil {
			names = append(names, n+":: "+f.String())
		}
	}
	sort.Strings(names)
	fmt.Fprintf(&b, "%q %d %q", names, s.Conf.Origin(), s.Conf.Format())
	i, o := s.Conf.Base()
	fmt.Fprintf(&b, " %d %d", i, o)
	return b.String()
}

func plain20() layout20 {
	return layout20{gap: func(i int, req bool) string {
		if req {
			return " "
		}
		return ""
	}, end: "\n", eof: "nl"}
}

// check20 checks one layout of a program.
func check20(t *mc.T, prog []item20, l layout20, wantState string) bool {
	text, _, lines := build20(prog, l)
	s := ivy.New()
	out, errs, p := s.Run(text)
	t.Step(1)
	wout, _ := want20(prog)
	if p != nil || out != wout {
		t.Failf("%q prints %q %s, want %q", text, out, show(nil, "", p), wout)
		return false
	}
	if !errs20(t, text, prog, errs, lines) {
		return false
	}
	t.Observe(text)
	if st := state20(s); st != wantState {
		t.Failf("%q leaves %s, want %s", text, st, wantState)
		return false
	}
	return true
}

func errs20(t *mc.T, text string, prog []item20, errs string, lines map[int]int) bool {
	var want string
	for i, it := range prog {
		if it.err != "" {
			want += fmt.Sprintf(" :%d: %s\n", lines[i], it.err)
		}
	}
	if errs != want {
		t.Failf("%q reports %q, want %q", text, errs, want)
		return false
	}
	return true
}

// chunks20 delivers a text in given pieces.
type chunks20 struct {
	text   string
	sizes  func(k int) int // of the k-th read
	k      int
	endErr error // with the last data
	zero   bool  // an empty read before each
	zeroed bool
	fail   error
}

func (c *chunks20) Read(b []byte) (int, error) {
	if c.zero && !c.zeroed {
		c.zeroed = true
		return 0, nil
	}
	c.zeroed = false
	if c.text == "" {
		if c.fail != nil {
			return 0, c.fail
		}
		return 0, io.EOF
	}
	n := min(c.sizes(c.k), len(b), len(c.text))
	c.k++
	copy(b, c.text[:n])
	c.text = c.text[n:]
	if c.text == "" && c.endErr != nil {
		return n, c.endErr
	}
	return n, nil
}

func run20(text string, r io.ByteReader) string {
	s := ivy.New()
	out, errs, p := s.RunReader(r, false)
	return fmt.Sprintf("%q %q %v %s", out, errs, p, state20(s))
}

func runP20(c *mc.Ctx) {
	styles := []string{"", " ", "  ", "\t", " \t "}
	uniform := func(st string) func(int, bool) string {
		return func(i int, req bool) string {
			if st == "" && req {
				return " "
			}
			return st
		}
	}
	leads := []string{"", " ", "\t  "}
	trails := []string{"", " ", " \t", " #c", "# \" ; ( `", "\t# "}
	betweens := []string{"", "\n", " \t\n\n", "# c 'd\n", "\t# c;d\n  \n"}
	eofs := []string{"nl", "none", "blanks", "spaces", "comment"}
	for pi, prog := range programs20 {
		base := func() string {
			text, _, _ := build20(prog, plain20())
			s := ivy.New()
			s.Run(text)
			return state20(s)
		}
		want := ""
		get := func() string {
			if want == "" {
				want = base()
			}
			return want
		}
		_, gaps, _ := build20(prog, plain20())
		c.Group("layouts")
		for _, st := range styles {
			for _, lead := range leads {
				for _, end := range []string{"\n", "\r\n"} {
					c.Case(fmt.Sprintf("program %d %q %q %q", pi, st, lead, end), func(t *mc.T) {
						for _, trail := range trails {
							for _, bt := range betweens {
								for _, eof := range eofs {
									if !check20(t, prog, layout20{uniform(st), lead, trail, end, bt, eof}, get()) {
										return
									}
								}
							}
						}
					})
				}
			}
		}
		for g := 0; g < gaps; g++ {
			c.Case(fmt.Sprintf("program %d gap %d", pi, g), func(t *mc.T) {
				for _, st := range styles {
					for _, rest := range styles {
						l := plain20()
						l.gap = func(i int, req bool) string {
							x := rest
							if i == g {
								x = st
							}
							if x == "" && req {
								x = " "
							}
							return x
						}
						if !check20(t, prog, l, get()) {
							return
						}
						if c.Quick && g > 0 && rest != "" {
							continue
						}
						for g2 := 0; g2 < g; g2++ {
							for _, st2 := range styles {
								l.gap = func(i int, req bool) string {
									x := rest
									if i == g {
										x = st
									} else if i == g2 {
										x = st2
									}
									if x == "" && req {
										x = " "
									}
									return x
								}
								if !check20(t, prog, l, get()) {
									return
								}
							}
						}
					}
				}
			})
		}
		// A different end of each line.
		c.Case(fmt.Sprintf("program %d line ends", pi), func(t *mc.T) {
			text, _, lines := build20(prog, plain20())
			nl := strings.Count(text, "\n")
			wout, _ := want20(prog)
			for mask := 0; mask < 1<<nl; mask++ {
				if nl > 12 && mask != 0 && mask&(mask-1) != 0 {
					continue
				}
				var b strings.Builder
				i := 0
				for _, ch := range text {
					if ch == '\n' {
						if mask>>i&1 != 0 {
							b.WriteByte('\r')
						}
						i++
					}
					b.WriteRune(ch)
				}
				s := ivy.New()
				out, errs, p := s.Run(b.String())
				t.Step(1)
				if p != nil || out != wout {
					t.Failf("%q prints %q %v, want %q", b.String(), out, p, wout)
					return
				}
				if !errs20(t, b.String(), prog, errs, lines) {
					return
				}
			}
		})
		// Groupings of consecutive statements by semicolons.
		c.Group("semicolons")
		for lo := 0; lo < len(prog); {
			if prog[lo].kind != "s" {
				lo++
				continue
			}
			hi := lo
			for hi < len(prog) && prog[hi].kind == "s" {
				hi++
			}
			from, to := lo, hi
			lo = hi
			c.Case(fmt.Sprintf("program %d semicolons %d:%d", pi, from, to), func(t *mc.T) {
				wout, _ := want20(prog)
				k := to - from
				for mask := 0; mask < 1<<(k-1); mask++ {
					for _, sep := range []string{";", " ; ", "\t;"} {
						var b strings.Builder
						for i, it := range prog {
							text := strings.ReplaceAll(it.text, "~", "")
							b.WriteString(text)
							if i >= from && i < to-1 && mask>>(i-from)&1 != 0 {
								b.WriteString(sep)
								continue
							}
							b.WriteString("\n")
						}
						s := ivy.New()
						out, errs, p := s.Run(b.String())
						t.Step(1)
						// Values on one line are separated by a space.
						if p != nil || strings.Join(strings.Fields(out), " ") != strings.Join(strings.Fields(wout), " ") {
							t.Failf("%q prints %q %v, want the values %q", b.String(), out, p, wout)
							return
						}
						n := 0
						for _, it := range prog {
							if it.err != "" {
								n++
							}
						}
						if strings.Count(errs, "\n") != n {
							t.Failf("%q reports %q", b.String(), errs)
							return
						}
						st := regexp.MustCompile(`\b_=\S+ `).ReplaceAllString(state20(s), "")
						if w := regexp.MustCompile(`\b_=\S+ `).ReplaceAllString(get(), ""); st != w {
							t.Failf("%q leaves %s, want %s", b.String(), st, w)
							return
						}
					}
				}
			})
		}
		// Reads.
		c.Group("reads")
		text, _, _ := build20(prog, plain20())
		text = strings.TrimSuffix(text, "\n")
		c.Case(fmt.Sprintf("program %d reads", pi), func(t *mc.T) {
			want := run20(text, strings.NewReader(text))
			try := func(what string, r io.Reader) bool {
				t.Step(1)
				if got := run20(text, bufio.NewReader(r)); got != want {
					t.Failf("%q read %s: %s, want %s", text, what, got, want)
					return false
				}
				return true
			}
			for n := 1; n <= len(text)+1; n++ {
				for _, e := range []error{nil, io.EOF} {
					for _, z := range []bool{false, true} {
						if !try(fmt.Sprintf("in chunks of %d", n), &chunks20{text: text, sizes: func(int) int { return n }, endErr: e, zero: z}) {
							return
						}
					}
				}
				if !try(fmt.Sprintf("cut at %d", n), &chunks20{text: text, sizes: func(k int) int { return []int{n, len(text)}[min(k, 1)] }}) {
					return
				}
				if !c.Quick {
					for m := 1; m < 8; m++ {
						if !try(fmt.Sprintf("cut at %d, %d", n, n+m), &chunks20{text: text, sizes: func(k int) int { return []int{n, m, len(text)}[min(k, 2)] }}) {
							return
						}
					}
				}
			}
			// A failing read ends the text.
			for n := 0; n <= len(text); n++ {
				w := run20(text[:n], strings.NewReader(text[:n]))
				got := run20(text[:n], bufio.NewReader(&chunks20{text: text[:n], sizes: func(int) int { return 7 }, fail: errors.New("i/o error")}))
				t.Step(2)
				if got != w {
					t.Failf("%q failing after %d bytes: %s, want %s", text, n, got, w)
					return
				}
			}
		})
		c.Group("delivery")
		deliver20(c, pi, prog)
	}
	c.Group("reads")
	for _, text := range short20 {
		c.Case(fmt.Sprintf("all chunkings of %q", text), func(t *mc.T) {
			want := run20(text, strings.NewReader(text))
			for mask := 0; mask < 1<<(len(text)-1); mask++ {
				var sizes []int
				n := 1
				for i := 0; i < len(text)-1; i++ {
					if mask>>i&1 != 0 {
						sizes = append(sizes, n)
						n = 0
					}
					n++
				}
				sizes = append(sizes, n, 1)
				t.Step(1)
				if got := run20(text, bufio.NewReader(&chunks20{text: text, sizes: func(k int) int { return sizes[min(k, len(sizes)-1)] }})); got != want {
					t.Failf("%q read in chunks %v: %s, want %s", text, sizes, got, want)
					return
				}
			}
		})
	}
	c.Group("long")
	ns := []int{4094, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537}
	if !c.Quick {
		ns = append(ns, 1<<20, 1<<20+1)
	}
	for _, n := range ns {
		z := strings.Repeat("z", n)
		sp := strings.Repeat(" ", n)
		for name, tc := range map[string][2]string{
			"string":      {"x = '" + z + "'\nrho x\n3\n", fmt.Sprintf("%d\n3\n", n)},
			"raw string":  {"x = `" + z + "\n" + z + "`\nrho x\n3\n", fmt.Sprintf("%d\n3\n", 2*n+1)},
			"comment":     {"2 #" + z + "\n3\n#" + z + "\n4", "2\n3\n4\n"},
			"identifier":  {z + " = 5\n" + z + "\n" + z + "+1", "5\n6\n"},
			"blanks":      {"x = " + sp + "4" + sp + "\n" + sp + "\nx" + sp + "\n" + sp + "x", "4\n4\n"},
			"number":      {"x = 1" + strings.Repeat("0", min(n, 9000)) + "\nx == 10**" + fmt.Sprint(min(n, 9000)), "1\n"},
			"vector":      {"x = " + strings.Repeat("1 ", n/2) + "\nrho x", fmt.Sprintf("%d\n", n/2)},
			"statements":  {"n = 0\n" + strings.Repeat("n = n+1; ", n/9) + "n", fmt.Sprintf("%d\n", n/9)},
			"lines":       {"n = 0\n" + strings.Repeat("n = n+1\n", n/8) + "n", fmt.Sprintf("%d\n", n/8)},
			"blank lines": {"2\n" + strings.Repeat("\n", n) + "3\n" + strings.Repeat("\n", n), "2\n3\n"},
			"op":          {"op f x =\n" + strings.Repeat(" x = x+1\n", n/9) + " x\n\nf 0", fmt.Sprintf("%d\n", n/9)},
		} {
			for _, size := range []int{0, 1, 4096, 4097, 65536} {
				c.Case(fmt.Sprintf("long %s %d read by %d", name, n, size), func(t *mc.T) {
					var r io.ByteReader = strings.NewReader(tc[0])
					if size > 0 {
						r = bufio.NewReader(&chunks20{text: tc[0], sizes: func(int) int { return size }})
					}
					s := ivy.New()
					out, errs, p := s.RunReader(r, false)
					t.Step(1)
					if out != tc[1] || errs != "" || p != nil {
						t.Failf("%s of length %d read by %d prints %.60q %.60q %v, want %q", name, n, size, out, errs, p, tc[1])
					}
				})
			}
		}
	}
	// Every position of a statement falls on every such length.
	for _, st := range []string{"((x))-1", "x[(2)]-1 2", "y=='é世'", "(x)+.*(x)", "x @+@ (x)#z", "`é`,'\\u00e9'", "1/2 -3 0j1 1e3", "(x)[(1)]=7;x;+/(x)", "x>=(x);+\\x", "x o.*-x", "op f a=(a)-1"} {
		for _, n := range []int{100, 132, 260, 516, 1028, 2052, 4100, 8196, 16388, 32772, 65540} {
			c.Case(fmt.Sprintf("at %d %s", n, st), func(t *mc.T) {
				run := func(text string) string {
					s := ivy.New()
					out, errs, p := s.RunReader(strings.NewReader("x = 5 6\ny='é世'\n"+text+"\nx\nf 2\n"), false)
					t.Step(1)
					return fmt.Sprint(out, errs, p)
				}
				want := run(st)
				for i := range len(st) + 1 {
					if got := run(strings.Repeat(" ", n-i) + st); got != want {
						t.Failf("%s after %d blanks: %.80q, want %q", st, n-i, got, want)
						return
					}
				}
			})
		}
	}
}

// deliver20 checks the ways to deliver a program.
func deliver20(c *mc.Ctx, pi int, prog []item20) {
	text, _, lines := build20(prog, plain20())
	wout, werrs := want20(prog)
	fields := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	ok := len(werrs) == 0
	c.Case(fmt.Sprintf("program %d interactive", pi), func(t *mc.T) {
		s := ivy.New()
		out, errs, p := s.RunReader(strings.NewReader(text), true)
		t.Step(1)
		if p != nil || fields(out) != fields(wout) || !errs20(t, text, prog, errs, lines) {
			t.Failf("%q interactively prints %q %q %v", text, out, errs, p)
		}
	})
	dir, err := os.MkdirTemp("", "p20.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "prog.ivy")
	if err := os.WriteFile(file, []byte(text), 0o666); err != nil {
		panic(err)
	}
	if ok {
		c.Case(fmt.Sprintf("program %d get", pi), func(t *mc.T) {
			ref := ivy.New()
			ref.Run(text)
			s := ivy.New()
			out, errs, p := s.Run(")get '" + file + "'\n")
			t.Step(1)
			if p != nil || fields(out) != fields(wout) || errs != "" {
				t.Failf("%q with )get prints %q %q %v", text, out, errs, p)
			}
			if a, b := state20(s), state20(ref); a != b {
				t.Failf("%q with )get leaves %s, want %s", text, a, b)
			}
		})
		c.Case(fmt.Sprintf("program %d ivy", pi), func(t *mc.T) {
			if !strings.Contains("s", prog[len(prog)-1].kind) {
				return
			}
			s := ivy.New()
			s.Run("zq = ''")
			ref := ivy.New()
			ref.Run(text)
			s.SetVar("zq", charVec20(text))
			out, errs, p := s.Run("ivy zq")
			t.Step(1)
			if p != nil || fields(out) != fields(wout) || errs != "" {
				t.Failf("%q with ivy prints %q %q %v", text, out, errs, p)
			}
		})
	}
	bin := os.Getenv("IVY_BIN")
	if bin == "" {
		panic("no ivy command")
	}
	cmd := func(t *mc.T, stdin string, args ...string) (out, errs string, code int) {
		cm := exec.Command(bin, args...)
		cm.Dir = dir
		cm.Stdin = strings.NewReader(stdin)
		var o, e bytes.Buffer
		cm.Stdout, cm.Stderr = &o, &e
		err := cm.Run()
		t.Step(1)
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			t.Failf("cannot run ivy: %v", err)
		}
		return o.String(), e.String(), cm.ProcessState.ExitCode()
	}
	// Up to the first error.
	fout, ferr, fcode := "", "", 0
	for i, it := range prog {
		if it.out != "" {
			fout += it.out + "\n"
		}
		if it.err != "" {
			ferr, fcode = fmt.Sprintf("%d: %s\n", lines[i], it.err), 1
			break
		}
	}
	named := func(name string) string {
		if ferr == "" {
			return ""
		}
		return name + ":" + ferr
	}
	c.Case(fmt.Sprintf("program %d command", pi), func(t *mc.T) {
		if err := os.MkdirAll(dir, 0o777); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		os.WriteFile(file, []byte(text), 0o666)
		check := func(what, out, errs string, code int, wout, werrs string, wcode int) bool {
			if out != wout || errs != werrs || code != wcode {
				t.Failf("%q by %s prints %q, %q, exit status %d; want %q, %q, %d", text, what, out, errs, code, wout, werrs, wcode)
				return false
			}
			return true
		}
		out, errs, code := cmd(t, "", "-e", text)
		if !check("-e", out, errs, code, fout, named("<args>"), fcode) {
			return
		}
		out, errs, code = cmd(t, "", file)
		if !check("file", out, errs, code, fout, named(file), fcode) {
			return
		}
		out, errs, code = cmd(t, "", "-f", file)
		if fcode != 0 {
			check("-f file", out, errs, code, fout, named(file), 1)
		} else if fields(out) != fields(fout) || errs != "" || code != 0 {
			t.Failf("%q by -f file prints %q, %q, exit status %d; want %q", text, out, errs, code, fout)
			return
		}
		out, errs, code = cmd(t, "", "-i", text)
		if fcode != 0 {
			check("-i", out, errs, code, fout, named("<args>"), 1)
		} else if fields(out) != fields(fout) || errs != "" || code != 0 {
			t.Failf("%q by -i prints %q, %q, exit status %d; want %q", text, out, errs, code, fout)
			return
		}
		for _, l := range []string{text, strings.TrimSuffix(text, "\n"), strings.ReplaceAll(text, "\n", "\r\n")} {
			out, errs, code = cmd(t, l)
			we := ""
			for _, e := range werrs {
				we += e + "\n"
			}
			if fields(out) != fields(wout) || errs != we || code != 0 {
				t.Failf("%q on standard input prints %q, %q, exit status %d; want %q, %q", l, out, errs, code, wout, we)
				return
			}
		}
		if fcode == 0 {
			// -i then -e, and two files, in one session.
			two := filepath.Join(dir, "two.ivy")
			os.WriteFile(two, []byte("'two'\n"), 0o666)
			out, errs, code = cmd(t, "", file, two)
			if !check("two files", out, errs, code, fout+"two\n", "", 0) {
				return
			}
			out, errs, code = cmd(t, "", "-i", text, "-e", "'two'")
			if !check("-i and -e", out, errs, code, fout+"two\n", "", 0) {
				return
			}
			out, errs, code = cmd(t, "", "-f", file, "-e", "'two'")
			if !check("-f and -e", out, errs, code, fout+"two\n", "", 0) {
				return
			}
		}
	})
}

func charVec20(s string) value.Value {
	var e []value.Value
	for _, r := range s {
		e = append(e, value.Char(r))
	}
	return value.NewVector(e...)
}
