package propsrace

import (
	"fmt"
	"runtime"
	"strings"
	"testing"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/shim/vsched"
)

func init() {
	All = append(All, &mc.Prop{ID: "P06", Run: runP06, CaseCPU: 150,
		Rule:        "for every parallelised construct (elementwise unary and binary over vectors and matrices in every conforming combination, reductions, scans, products, transposes, rotations, indexing, selection, searches, encode/decode) with element mixes including failing elements, random operators, user-defined operators and user-defined operators hiding built-in ones: every schedule of the real goroutines within the delay bound, at loop-iteration granularity and for 2 and 3 processors, run in a synctest bubble under the explorer's control, must give exactly the sequential value, side effects and error status; each schedule is also checked by the race detector with scheduler handoffs hidden; plus every vector length up to a bound and processor count for the partition of work",
		Assumptions: []string{"schedules needing more delays than the bound are not explored"}})
}

type p06case struct {
	setup, expr string
	after       string // observed after the expression
}

func p06cases() []p06case {
	var cs []p06case
	add := func(setup, expr, after string) { cs = append(cs, p06case{setup, expr, after}) }
	e := func(expr string) { add("", expr, "") }
	const v = "(1 (2**70) (2/3) (-5))"
	const w = "(7 3 (1/2) (2**65))"
	for _, op := range []string{"+", "-", "*", "max", ">=", "mod", "**", "or", "j", "/"} {
		b := "iota 4"
		if op == "mod" || op == "or" {
			e("(iota 4) " + op + " 3 5 7 2")
			e("(2 2 rho iota 4) " + op + " 3")
			e("4 o." + op + " iota 4")
			continue
		}
		if op != "**" {
			b = w
		}
		e(v + op + b)
		e("3 " + op + " " + b)
		e(b + op + " 2")
		e("(2 2 rho " + v + ") " + op + " 2 2 rho " + b)
		e("(2 2 rho " + v + ") " + op + " 3 4")
		e("3 4 " + op + " 2 2 rho " + b)
		e("3 " + op + " 2 2 rho " + b)
		e("(2 2 rho " + v + ") " + op + " 3")
		e("1 2 o." + op + " 3 4")
		e("(2 2 rho iota 4) o." + op + " 3 4")
		e(op + "/ 2 3 rho iota 6")
		e(op + "/% 3 2 rho iota 6")
		e(op + "\\ 2 3 rho iota 6")
		e(op + "\\% 3 2 rho iota 6")
	}
	for _, op := range []string{"-", "abs", "sgn", "floor", "sqrt", "sin", "float", "not", "!", "char"} {
		if op == "!" || op == "not" || op == "char" {
			e(op + " 3 0 5 70")
			e(op + " 2 2 rho 3 0 5 70")
			continue
		}
		e(op + v)
		e(op + "2 2 rho " + v)
	}
	e("(2 2 rho iota 4) +.* 2 2 rho 5 6 7 8")
	e("(2 3 rho iota 6) -.max 3 2 rho 5 6 7 8 9 10")
	e("(2 3 rho iota 6) +.* iota 3")
	e("transp 2 3 rho iota 6")
	e("transp 2 2 2 rho iota 8")
	e("2 1 3 transp 2 2 2 rho iota 8")
	e("1 1 transp 3 3 rho iota 9")
	e("rot 2 3 rho iota 6")
	e("1 rot 2 3 rho iota 6")
	e("flip 2 3 rho iota 6")
	e("1 flip 3 2 rho iota 6")
	e("(3 3 rho iota 9)[1 3; 2 3]")
	e("(iota 9)[2 3 rho 4 5 6 7 8 9]")
	e("(3 3 rho iota 9)[2 1]")
	e("3 5 9 1 in 1 2 3")
	e("(2 2 rho 3 5 9 1) in 1 2 3")
	e("(7 8 9 3) iota 3 8 1 7")
	e("(3 2 rho iota 6) iota 3 2 rho 5 6 1 2 9 9")
	e("(2 3 rho iota 6) iota iota 3")
	e("2 3 5 encode 29 4 17 8")
	e("2 3 encode 2 2 rho 5 4 1 0")
	e("2 3 decode 2 4 rho 1 0 1 1 2 2 1 0")
	e("2 1 sel 2 2 rho iota 4")
	e("up 5 3 4 1")
	e("unique 3 5 3 5 1")
	e("+/ @ 2 2 rho iota 4")
	e("(1 2) (3 4) (5 6) (7 8) + 1 2 3 4")
	e("- (1 2) (3 4 5) (6 (7 8)) 9")
	// Failing elements: an error whatever the schedule, exactly once reported, session intact.
	add("x = 5", "1 2 3 4 / 1 0 2 4", "x, 1 2 3 4 / 1 2 3 4")
	add("x = 5", "1 'a' 3 'b' + 1 1 2 4", "x, 1 + iota 4")
	add("", "(2 2 rho 1 0 1 0) o./ 1 0", "3 + iota 4")
	add("", "sqrt 4 'a' 9 'b'", "iota 3")
	add("", "(1 2) 3 (4 5 6) + (1 2 3) 3 (4 5 6)", "iota 3")
	// Elements that fail differently: the first one is reported, as if evaluated in order.
	for _, ex := range []string{"1 2 3 4 / 1 0 'a' 4", "1 2 3 4 / 'a' 2 3 0", "(2 2 rho 1 2 3 4) / 2 2 rho 1 'a' 0 4", "1 / 2 0 3 'a'", "(1 2 'a' 4) / 0",
		"(1 2 3 0) o./ 2 'a' 0", "(2 2 rho iota 4) o./ 'a' 0 1", "//3 2 rho 1 0 1 'a' 1 0", "//%2 3 rho 1 2 3 0 'a' 1", "/\\3 2 rho 1 'a' 1 0 1 'a'", "(3 2 rho 1 1 2 'a' 1 1) +./ 2 2 rho 1 0 1 1",
		"/ 1 0 'a' 2", "/ 2 2 rho 1 'a' 0 2", "sqrt 4 'a' (1 2 'b') 9", "! 3 -1 'a' (1/2)", "char 70 -1 'a' (1/2)", "((1 2) 0 3) / 0 (1 2) 'a'", "2 3 log 1 0 'a'", "2 3 'a' 0 mod 0 1 2 0"} {
		add("x = 5", ex, "x, 1 + iota 4")
	}
	// Randomness and user code stay sequential.
	add(")seed 7", "? 10 20 30 40 50", "? 1000")
	add(")seed 7", "? 2 2 rho 10 20 30 40", "? 1000")
	add(")seed 7", "rand 10 20 30 40 50", "? 1000")
	add(")seed 7", "rand 2 2 rho 10 20 30 40", "? 1000")
	add(")seed 7", "2 3 o.? 10 20", "? 1000")
	add(")seed 7", "?@ 10 20 30 40", "? 1000")
	add("log1 = 0 rho 0\nop a f b = log1 = log1, a; c = a - b; c", "1 2 3 o.f 4 5 6", "log1")
	add("log1 = 0 rho 0\nop a f b = log1 = log1, a; c = a - b; c", "f/ 3 4 rho iota 12", "log1")
	add("log1 = 0 rho 0\nop a f b = log1 = log1, a; c = a - b; c", "f\\ 2 3 rho iota 6", "log1")
	add("log1 = 0 rho 0\nop a f b = log1 = log1, a; c = a - b; c", "(2 2 rho iota 4) +.f 2 2 rho iota 4", "log1")
	add("log1 = 0 rho 0\nop g a = log1 = log1, a; c = a * 2; c", "g@ 4 5 6 7", "log1")
	add("log1 = 0 rho 0\nop a max b = log1 = log1, a; c = a - b; c", "1 2 3 o.max 4 5 6", "log1")
	add("log1 = 0 rho 0\nop a max b = log1 = log1, a; c = a - b; c", "max/ 3 4 rho iota 12", "log1")
	add("log1 = 0 rho 0\nop a max b = log1 = log1, a; c = a - b; c", "max\\ 2 3 rho iota 6", "log1")
	add("log1 = 0 rho 0\nop a mod b = log1 = log1, a; c = a - b; c", "(2 2 rho iota 4) mod.+ 2 2 rho iota 4", "log1")
	add("log1 = 0 rho 0\nop sgn a = log1 = log1, a; a", "sgn@ 1 2 3 4", "log1")
	add("log1 = 0 rho 0\nop floor a = log1 = log1, a; a", "floor@ 2 2 rho 1 2 3 4", "log1")
	// Indexed assignment: with repeated indexes the last one wins.
	for _, as := range []string{"x[1 1 2 2] = 5 6 7 8", "x[2 1 4 3] = x", "x[iota 4] = 9", "x[1 1 1 1] = 9", "x[2 2 rho 1 2 2 1] = 2 2 rho 5 6 7 8", "x[4 rho 3] = 1 'a' (1 2) (2**80)"} {
		add("x = iota 4\ny = x", as+"; x", "y, x")
	}
	for _, as := range []string{"m[1 1; 1 2] = 2 2 rho 5 6 7 8", "m[1 2; 2 2] = 2 2 rho 5 6 7 8", "m[;1 1] = 2 2 rho 5 6 7 8", "m[1 2; 1 2] = 2 2 rho 5 6 7 8", "m[1 1] = 2 2 rho 5 6 7 8", "m[(1 1) (1 1) (2 2) (1 1)] = 5 6 7 8", "m[(1 1) (1 2) (2 2) (2 1)] = 0"} {
		add("m = 2 2 rho iota 4\ny = m", as+"; m", "y, m")
	}
	add("a = iota 4\nb = a", "a = a + b; b = - a; a, b", "a, b")
	return cs
}

// TT is the enclosing test, which synctest needs.
var TT *testing.T

func runP06(c *mc.Ctx) { p06(c, TT) }

func p06(c *mc.Ctx, tt *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	run := func(cs p06case, s *ivy.Sess) string {
		if cs.setup != "" {
			if _, e, p := s.Run(cs.setup + "\n"); e != "" || p != nil {
				return "setup failed: " + e
			}
		}
		var b strings.Builder
		for _, ex := range []string{cs.expr, cs.after} {
			if ex == "" {
				continue
			}
			vals, err, p := s.Eval(ex)
			switch {
			case p != nil:
				fmt.Fprintf(&b, "PANIC %v;", p.Val)
			case err != "":
				b.WriteString("error " + err + ";")
			default:
				for _, v := range vals {
					b.WriteString(ivy.Dump(v) + ";")
				}
			}
		}
		return b.String()
	}
	// The partition of the work at the real threshold, all lengths.
	c.Group("partition")
	maxN := 460
	if !c.Quick {
		maxN = 2100
	}
	for n := 0; n <= maxN; n++ {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("partition n=%d", n), func(t *mc.T) {
			s := ivy.New()
			for _, p := range []int{2, 3, 5, 8} {
				runtime.GOMAXPROCS(p)
				for _, ex := range []string{"x + 1", "x + x", "- x", "+/ y", "+\\ y", "transp y"} {
					if strings.Contains(ex, "y") && (n == 0 || n > 230) {
						continue
					}
					if p != 3 && ex != "x + 1" {
						continue
					}
					s.Run(fmt.Sprintf("x = iota %d\ny = %d 3 rho iota %d\n", n, n, max(1, 3*n)))
					v, err, pn := s.Eval1(ex)
					t.Step(1)
					if err != "" || pn != nil {
						t.Failf("%d processors: %s with n=%d: %s %v", p, ex, n, err, pn)
						return
					}
					bad := ""
					switch ex {
					case "x + 1", "x + x", "- x":
						vec, ok := v.(*value.Vector)
						if !ok || vec.Len() != n {
							bad = "wrong length"
							break
						}
						for i := 0; i < n; i++ {
							want := i + 2
							if ex == "x + x" {
								want = 2 * (i + 1)
							} else if ex == "- x" {
								want = -(i + 1)
							}
							if vec.At(i) != value.Int(want) {
								bad = fmt.Sprintf("[%d] = %s, want %d", i, ivy.Dump(vec.At(i)), want)
								break
							}
						}
					default:
						runtime.GOMAXPROCS(1)
						w, _, _ := s.Eval1(ex)
						runtime.GOMAXPROCS(p)
						if ivy.Dump(w) != ivy.Dump(v) {
							bad = "differs from the one-processor result"
						}
					}
					if bad != "" {
						t.Failf("%d processors, n=%d: %s: %s", p, n, ex, bad)
						return
					}
				}
			}
			t.Observe(fmt.Sprint(n))
		})
	}
	value.MaxParallelismForTesting()
	for _, procs := range []int{2, 3} {
		c.Group(fmt.Sprintf("schedules procs=%d", procs))
		for _, cs := range p06cases() {
			for _, delays := range []int{1, 2} {
				if delays == 2 && c.Quick && (procs == 3 || cs.after == "") {
					continue
				}
				if c.Skip() {
					continue
				}
				key := fmt.Sprintf("procs=%d delays=%d %q %s", procs, delays, cs.setup, cs.expr)
				c.Do(key, func(t *mc.T) {
					s := ivy.New()
					runtime.GOMAXPROCS(1)
					want := run(cs, s)
					t.Observe(key + want)
					if strings.HasPrefix(want, "setup failed") || strings.Contains(want, "PANIC") {
						t.Failf("%s", want)
						return
					}
					runtime.GOMAXPROCS(procs)
					limit := 30000
					if !c.Quick {
						limit = 300000
					}
					execs, points, fail, sched, complete := vsched.ExploreBubble(tt, delays, limit, func() (func(), func() string) {
						var got string
						s := ivy.New()
						return func() { got = run(cs, s) }, func() string {
							if got != want {
								return fmt.Sprintf("got %s, want %s", got, want)
							}
							return ""
						}
					})
					t.Step(points)
					c.Count("schedules", int64(execs))
					if !complete && fail == "" {
						c.Count("schedule-limited cases", 1)
					}
					if fail != "" {
						t.Failf("%s: %s (schedule %d, decisions%s)", cs.expr, fail, execs, trim(sched))
					}
				})
			}
		}
	}
}
