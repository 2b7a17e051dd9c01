package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P33", Run: runP33,
		Rule:        "every combination of -f, -i, -e (each absent, or one of a set of programs that assign, read, fail midway, define and call an operator, change the origin, use _, print several values, or are empty or missing files), of up to two named files including - and missing ones, and of standard input (up to three lines), run with the real command and compared with a model of one session (x, the operator f, origin, _): standard output exactly, the number of error reports, and the exit status; every pair of setting flags over their values against the same program started with the special commands; every bad flag value",
		Assumptions: []string{"the wording of error reports is not compared", "-profile is not exercised"}})
}

// A session33 is the model of the session: what the programs below can observe.
type session33 struct {
	x      int
	hasX   bool
	hasF   bool
	origin int
	last   string // Value of _.
}

// line33 is the model of a line: what it prints, if anything, and whether it fails.
func (s *session33) line33(l string) (out string, fail bool) {
	switch l {
	case "", "# text":
		return "", false
	case "x = 1":
		s.x, s.hasX = 1, true
		return "", false
	case "x = 5":
		s.x, s.hasX = 5, true
		return "", false
	case "x = x + 1":
		if !s.hasX {
			return "", true
		}
		s.x++
		return "", false
	case "x":
		if !s.hasX {
			return "", true
		}
		out = fmt.Sprint(s.x)
	case "7; x = 9; 8":
		s.x, s.hasX = 9, true
		s.last = "8"
		return "7 8\n", false
	case "1 / 0":
		return "", true
	case "op f a = a + 10":
		s.hasF = true
		return "", false
	case "f 3":
		if !s.hasF {
			return "", true
		}
		out = "13"
	case ")origin 0":
		s.origin = 0
		return "", false
	case "iota 2":
		out = fmt.Sprintf("%d %d", s.origin, s.origin+1)
	case "_":
		if s.last == "" {
			return "", true
		}
		out = s.last
	default:
		panic(l)
	}
	s.last = out
	return out + "\n", false
}

type result33 struct {
	out  string
	errs int
	code int
}

// run33 is the model of a program (a file or an argument): it stops at the first error.
func (s *session33) run33(prog string, r *result33) bool {
	for _, l := range strings.Split(prog, "\n") {
		out, fail := s.line33(l)
		r.out += out
		if fail {
			r.errs++
			r.code = 1
			return false
		}
	}
	return true
}

// stdin33 is the model of interactive input. one: stop at the first error.
func (s *session33) stdin33(prog, prompt string, one bool, r *result33) bool {
	lines := strings.Split(prog, "\n")
	for i, l := range lines {
		r.out += prompt
		if i == len(lines)-1 && l == "" {
			break
		}
		out, fail := s.line33(l)
		r.out += out
		r.out += "\n"
		if fail {
			r.errs++
			if one {
				r.code = 1
				return false
			}
		}
		if i == len(lines)-1 {
			r.out += prompt
		}
	}
	return true
}

func runP33(c *mc.Ctx) {
	bin := os.Getenv("IVY_BIN")
	if bin == "" {
		panic("no ivy command")
	}
	dir, err := os.MkdirTemp("", "p33-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cmd := func(t *mc.T, stdin string, args ...string) (out, errs string, code int) {
		cm := exec.Command(bin, args...)
		cm.Dir = dir
		cm.Stdin = strings.NewReader(stdin)
		var o, e bytes.Buffer
		cm.Stdout, cm.Stderr = &o, &e
		err := cm.Run()
		t.Step(1)
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			panic(fmt.Sprintf("cannot run ivy: %v", err))
		}
		return o.String(), e.String(), cm.ProcessState.ExitCode()
	}
	const none, missing = "none", "missing"
	all := []string{none, missing, "", "x = 1", "x", "x = x + 1\nx", "x = 5\n1 / 0\nx\nx = 1", "op f a = a + 10\nf 3\n1 / 0", "f 3", ")origin 0\niota 2", "iota 2", "_", "7; x = 9; 8", "# text\n\nx"}
	name := func(i int) string { return fmt.Sprintf("p%d.ivy", i) }
	for i, p := range all {
		if p == none || p == missing {
			continue
		}
		if i%2 == 0 && p != "" { // With and without a final newline.
			p += "\n"
		}
		if err := os.WriteFile(filepath.Join(dir, name(i)), []byte(p), 0o666); err != nil {
			panic(err)
		}
	}
	index := func(list ...string) []int {
		var x []int
		for _, l := range list {
			n := len(x)
			for i, p := range all {
				if p == l {
					x = append(x, i)
				}
			}
			if len(x) == n {
				panic(l)
			}
		}
		return x
	}
	every := make([]int, len(all))
	for i := range every {
		every[i] = i
	}
	fs := index(none, missing, "x = 1", "x = 5\n1 / 0\nx\nx = 1", ")origin 0\niota 2")
	is := index(none, "x = x + 1\nx", "op f a = a + 10\nf 3\n1 / 0", "7; x = 9; 8")
	es := index(none, "x", "f 3", "_", "iota 2")
	as := index(missing, "", "x = x + 1\nx", "x = 5\n1 / 0\nx\nx = 1", "_")
	stdins := []string{"", "x\n", "x\nx = x + 1\niota 2", "1 / 0\n_\nx = 5\nx\n"}
	if !c.Quick {
		fs, is, es, as = every, index(append([]string{none}, all[2:]...)...), index(append([]string{none}, all[2:]...)...), index(append([]string{missing}, all[2:]...)...)
	}
	const dash = -2
	var argLists [][]int
	argLists = append(argLists, nil)
	one := append([]int{dash}, as...)
	for _, a := range one {
		argLists = append(argLists, []int{a})
	}
	two := one
	if !c.Quick {
		two = append([]int{dash}, index(missing, "x = 1", "x = x + 1\nx", "x = 5\n1 / 0\nx\nx = 1", "f 3")...)
	}
	for _, a := range one {
		for _, b := range two {
			argLists = append(argLists, []int{a, b})
		}
	}
	check := func(t *mc.T, f, i, e int, as []int, dashF bool, stdin, prompt string, flags ...string) {
		args := append([]string{}, flags...)
		s := &session33{origin: 1}
		r := &result33{}
		left := stdin
		file := func(n int) bool {
			if n == dash {
				ok := s.stdin33(left, prompt, true, r)
				left = ""
				return ok
			}
			if all[n] == missing {
				r.errs++
				r.code = 1
				return false
			}
			return s.run33(all[n], r)
		}
		fileArg := func(n int) string {
			if n == dash {
				return "-"
			}
			if all[n] == missing {
				return "missing.ivy"
			}
			return name(n)
		}
		ok := true
		if dashF {
			f = dash
		}
		if f == dash || all[f] != none {
			args = append(args, "-f", fileArg(f))
			ok = file(f)
		}
		if all[i] != none {
			args = append(args, "-i", all[i])
			ok = ok && s.run33(all[i], r)
		}
		quit := false
		if all[e] != none {
			args = append(args, "-e", all[e])
			if all[e] != "" {
				quit = true
				ok = ok && s.run33(all[e], r)
			}
		}
		for _, a := range as {
			args = append(args, fileArg(a))
			if quit {
				continue
			}
			ok = ok && file(a)
		}
		if ok && !quit && len(as) == 0 {
			s.stdin33(left, prompt, false, r)
		}
		out, errs, code := cmd(t, stdin, args...)
		t.Observe(fmt.Sprintf("%d/%d/%d", r.errs, code, len(out)))
		if out != r.out || strings.Count(errs, "\n") != r.errs || (code != 0) != (r.code != 0) {
			t.Failf("ivy %q with input %q: prints %q, reports %q, status %d; expected %q, %d reports, status %d", args, stdin, out, errs, code, r.out, r.errs, r.code)
		}
	}
	for _, f := range fs {
		for _, i := range is {
			for _, e := range es {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("-f %d -i %d -e %d", f, i, e), func(t *mc.T) {
					for _, as := range argLists {
						for k, stdin := range stdins {
							if len(as) == 2 && c.Quick && k%2 == 0 {
								continue
							}
							reads := len(as) == 0 && (all[e] == none || all[e] == "")
							for _, a := range as {
								reads = reads || a == dash
							}
							if !reads && k > 0 && len(as) != 2 || !reads && k > 1 {
								continue
							}
							check(t, f, i, e, as, false, stdin, "")
						}
					}
				})
			}
		}
	}
	// Standard input as the -f file, and prompts.
	for _, i := range is {
		for _, e := range es {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("-f - -i %d -e %d", i, e), func(t *mc.T) {
				for _, as := range argLists {
					for _, stdin := range stdins {
						if len(as) < 2 {
							check(t, 0, i, e, as, true, stdin, "% ", "-prompt", "% ")
						}
						if len(as) == 0 {
							check(t, 0, i, e, as, false, stdin, "% ", "-prompt", "% ")
							check(t, 0, i, e, as, false, stdin, "ab", "-prompt=ab")
						}
					}
				}
			})
		}
	}
	// The setting flags.
	type setting struct {
		args []string
		cmd  string
	}
	groups := [][]setting{
		{{}, {[]string{"-format", "%.3f"}, `)format "%.3f"`}, {[]string{"-format=%x"}, `)format "%x"`}, {[]string{"-format", ""}, `)format ""`}, {[]string{"-g"}, `)format "%.12g"`}, {[]string{"-g", "-format", "%.3f"}, `)format "%.12g"`}, {[]string{"-g=false"}, ""}},
		{{}, {[]string{"-maxbits", "64"}, ")maxbits 64"}, {[]string{"-maxbits=200"}, ")maxbits 200"}, {[]string{"-maxbits", "0"}, ")maxbits 0"}, {[]string{"--maxbits", "1000000000"}, ""}},
		{{}, {[]string{"-maxdigits", "5"}, ")maxdigits 5"}, {[]string{"-maxdigits", "0"}, ")maxdigits 0"}, {[]string{"-maxdigits=10000"}, ""}},
		{{}, {[]string{"-stack", "10"}, ")maxstack 10"}, {[]string{"-stack", "20"}, ")maxstack 20"}},
		{{}, {[]string{"-origin", "0"}, ")origin 0"}, {[]string{"-origin", "2"}, ")origin 2"}, {[]string{"-origin=1"}, ""}},
		{{}, {[]string{"-prompt", "a b"}, `)prompt "a b"`}, {[]string{"-prompt="}, `)prompt ""`}},
		{{}, {[]string{"-debug", "types"}, ")debug types 1"}, {[]string{"-debug", "types,trace"}, ")debug types 1\n)debug trace 1"}, {[]string{"-debug", "trace"}, ")debug trace 1"}, {[]string{"-debug="}, ""}},
	}
	probe := "op g n = (n <= 0): 0; 1 + g n-1\n)format\n)maxbits\n)maxdigits\n)maxstack\n)origin\n)prompt\n)base\n)prec\n2**63 64\n10 ** 12\n1/3 22/7\nsqrt 2\niota 3\n'abc'\n7 8 9 iota 8\n!30\ng 8\ng 15\n"
	last := func(s string) string { // Without the part that the commands print.
		_, rest, ok := strings.Cut(s, "MARK\n")
		if !ok {
			return "no mark: " + s
		}
		return rest
	}
	for a := range groups {
		for b := a + 1; b < len(groups); b++ {
			for _, x := range groups[a] {
				for _, y := range groups[b] {
					if c.Skip() {
						continue
					}
					c.Do(fmt.Sprintf("settings %q %q", x.args, y.args), func(t *mc.T) {
						flags := append(append([]string{}, x.args...), y.args...)
						swap := append(append([]string{}, y.args...), x.args...)
						mark := "print 'MARK'\n"
						wout, werrs, _ := cmd(t, x.cmd+"\n"+y.cmd+"\n"+mark+probe)
						for _, fl := range [][]string{flags, swap} {
							out, errs, code := cmd(t, mark+probe, fl...)
							t.Observe(out)
							strip := func(s string) string {
								prompt := ""
								if strings.Contains(fmt.Sprint(fl), "a b") {
									prompt = "a b"
								}
								return strings.TrimPrefix(last(s), prompt)
							}
							if code != 0 || strip(out) != strip(wout) || strings.Count(errs, "\n") != strings.Count(werrs, "\n") {
								t.Failf("ivy %q: prints %q, reports %q, status %d; with the commands %q", fl, out, errs, code, wout)
							}
						}
						// The commands after which the flags apply to -f, -i, and -e too.
						out, _, code := cmd(t, "", append(append([]string{}, flags...), "-e", strings.TrimSuffix(strings.Split(probe, "g 15")[0], "\n")+"\n")...)
						c2 := x.cmd + "\n" + y.cmd + "\n" + mark + strings.Split(probe, "g 15")[0]
						wout, _, wcode := cmd(t, "", "-e", c2)
						out2, _, code2 := cmd(t, "", append(append([]string{}, flags...), "-e", mark+strings.Split(probe, "g 15")[0])...)
						if code != wcode || code2 != wcode || last(out2) != last(wout) || !strings.Contains(out, strings.TrimSpace(last(wout))) && !strings.Contains(fmt.Sprint(flags), "debug") {
							t.Failf("ivy %q -e: prints %q, status %d; with the commands %q, status %d", flags, out2, code2, wout, wcode)
						}
					})
				}
			}
		}
	}
	// Bad flags: nothing is run.
	for _, bad := range [][]string{{"-origin", "-1"}, {"-origin", "x"}, {"-origin", ""}, {"-maxbits", "-1"}, {"-maxbits", "x"}, {"-maxdigits", "-1"}, {"-maxdigits", "1.5"}, {"-stack", "-1"}, {"-stack", "q"}, {"-debug", "nonesuch"}, {"-debug", "types,nonesuch"}, {"-debug", "types,"}, {"-nonesuch"}, {"-g=3"}, {"-e"}, {"-h"}} {
		for _, with := range [][]string{nil, {"-e", "1"}, {"p3.ivy"}, {"-f", "p3.ivy"}} {
			for _, after := range []bool{false, true} {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("bad %q %q %v", bad, with, after), func(t *mc.T) {
					args := append(append([]string{}, bad...), with...)
					if after {
						if len(with) == 1 { // Flags after a file are files.
							return
						}
						args = append(append([]string{}, with...), bad...)
					} else if len(bad) == 1 && bad[0] == "-e" && len(with) > 0 {
						return
					}
					out, errs, code := cmd(t, "7\n", args...)
					if out != "" || errs == "" || code == 0 {
						t.Failf("ivy %q: prints %q, reports %q, status %d", args, out, errs, code)
					}
				})
			}
		}
	}
}
