package props

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P03", Run: runP03,
		Rule:        "(a) every unary, binary and derived operator and index form on every pair of an operand alphabet covering each type, shape and nesting: all variables, aliases, containers and elements are compared before and after (representation included), and the same expression evaluated again gives the same value; (b) all chains of two (three in thorough) operators, each result kept in a variable, with every earlier variable compared after each step, so shared storage and shared shapes are exercised; (c) all histories up to a depth of assignment, aliasing, nesting, indexed assignment and calls of operators that modify their argument or a constant, against a model with copying assignment",
		Assumptions: []string{"random operators, sys and print are left out of (a)"}})
}

const operands03 = "0;1;-3;2**70;-(2**70);2/3;-7/2;float 7/2;-sqrt 2;1j2;-1/2j3;'a';0 rho 0;,5;1 2 3;3 1 2;-1 (1/2) (2**80);0 1 1 0;'abc';(1 2) (3 4 5);(1 2) 'ab' 3;2 2 rho 1 2 3 5;2 3 rho iota 6;3 2 rho (2**70) (-1) (1/2);2 3 4 rho iota 24;1 1 rho 7;2 2 rho 'abcd';2 2 rho (1 2) 3 'x' 4;0 3 rho 0;iota 17;20 rho 2**65;'T'"

var unary03 = strings.Fields("j split mix + - / inv sgn conj ! ^ not abs real imag phase floor ceil iota rho count where flatten , up down rot flip transp log cos sin tan asin acos atan ** sinh cosh asinh acosh atanh tanh sqrt char code text float unique box first")
var binary03 = strings.Fields("j + - * / idiv imod mdiv div mod ** log ! & | ^ << >> == != < <= > >= and or xor nand nor decode encode in iota min max rho , ,% take drop rot flip fill sel part transp === !== intersect union text")

func exprs03() []string {
	var out []string
	for _, u := range unary03 {
		out = append(out, u+" x", u+" h", u+"@ x")
	}
	for _, b := range binary03 {
		out = append(out, "x "+b+" y", "x "+b+" x", "h "+b+" y")
	}
	for _, b := range []string{"+", "-", "*", "max", "min", ",", "mod", "==", "and", "**", "/", "div"} {
		out = append(out, b+"/ x", b+"/% x", b+"\\ x", b+"\\% x", "x o."+b+" y", "x +."+b+" y", "x "+b+".* y", "x "+b+"@ y", "x @"+b+" y", "h "+b+"@ y")
	}
	out = append(out, "x[1]", "x[2 1]", "x[1;1]", "x[;1]", "x[1;]", "x[y]", "x[2;1 2]", "h[1][1]", "h[2 1]", "h[1],h[2]", "x y h", "h,x", "x[1],x[2]", "ivy text x")
	return out
}

func runP03(c *mc.Ctx) {
	p03single(c)
	p03chains(c)
	p03histories(c)
}

func p03single(c *mc.Ctx) {
	c.Group("single expressions")
	ops := strings.Split(operands03, ";")
	exprs := exprs03()
	for i := range ops {
		for j := range ops {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("single x=%s; y=%s", ops[i], ops[j]), func(t *mc.T) {
				s := ivy.New()
				s.Conf.SetMaxBits(5000)
				setup := fmt.Sprintf("x = %s\ny = %s\nx2 = x\ny2 = y\nh = x y\nh2 = h\nk = h[1] h[2]\n", ops[i], ops[j])
				names := []string{"x", "y", "x2", "y2", "h", "h2", "k"}
				if _, errs, p := s.Run(setup); errs != "" || p != nil {
					t.Failf("setup %q: %s %v", setup, errs, p)
					return
				}
				want := map[string]string{}
				for _, n := range names {
					want[n] = ivy.DumpRep(s.Var(n))
				}
				for _, ex := range exprs {
					v1, e1, p1 := s.Eval1(ex)
					t.Step(1)
					r1 := "panic"
					if p1 == nil {
						r1 = "error"
						if e1 == "" {
							r1 = show(v1, "", nil)
						}
					}
					for _, n := range names {
						if g := ivy.DumpRep(s.Var(n)); g != want[n] {
							t.Failf("with x=%s y=%s: evaluating %s changed %s from %s to %s", ops[i], ops[j], ex, n, want[n], g)
							return
						}
					}
					if p1 != nil {
						continue
					}
					v2, e2, p2 := s.Eval1(ex)
					r2 := "error"
					if e2 == "" {
						r2 = show(v2, "", p2)
					}
					if r1 != r2 {
						t.Failf("with x=%s y=%s: %s gives %s and then %s", ops[i], ops[j], ex, r1, r2)
						return
					}
					if v1 != nil {
						if r := show(v1, e1, nil); r != r1 {
							t.Failf("with x=%s y=%s: the value of %s changed from %s to %s when it was evaluated again", ops[i], ops[j], ex, r1, r)
							return
						}
						t.Observe(r1)
					}
				}
			})
		}
	}
}

// p03chains: results feeding operators, every earlier value watched.
func p03chains(c *mc.Ctx) {
	c.Group("operator chains")
	starts := []string{"2 3 4 rho iota 24", "3 3 rho iota 9", "2 2 2 2 rho iota 16", "(1 2) (3 4)", "iota 18", "2 3 rho (1 2) (3 4) (5 6)", "4 rho 2**70", "'hello world'", "(2 2 rho iota 4) (2 2 rho 5)", "20 3 rho iota 60", "2 2 rho 1/iota 4"}
	step := []string{"+/V", "+/%V", "-\\V", "-\\%V", "split V", "mix V", "transp V", "rot V", "flip V", ",V", "V[1]", "V[2 1]", "V[;1]", "V[1;]", "V[1;;]", "V[;;1]", "V o.+ 1 2 3", "1 2 o., V", "V, V", "V,%V", "V, 9", "9, V", "1 take V", "-1 drop V", "1 rot V", "1 flip V", "V sel@ V", "2 sel V", "1 0 1 fill V", "unique V", "V union V", "V,7 8", "box V", "first V", "flatten V", "3 2 rho V", "(rho V) rho V", "V + V", "- V", "V max 3", "up V", "V == V", "V V", "V[1] V[2]", "V +.* V", "V o.* V", "text V", "rho@ V", "1 1 part V", "V iota V", "V in V", "2 encode V", "+/@ V", "V[,1]", "V o., rho V"}
	// op definitions that work on their argument
	const defs = "op f a = a[1] = 100; a\nop g a = a[1;] = 7; a\nop e a = b = a; b[1] = 'q'; a b\n"
	step = append(step, "f V", "g V", "e V")
	depth := 2
	if !c.Quick {
		depth = 3
	}
	for si, st := range starts {
		for fi := range step {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("chain start=%d first=%s", si, step[fi]), func(t *mc.T) {
				s := ivy.New()
				s.Run(defs)
				type lvl struct {
					name, dump string
				}
				var path []string
				var rec func(d int, known []lvl, forced int)
				check := func(known []lvl) bool {
					for _, k := range known {
						if g := ivy.DumpRep(s.Var(k.name)); g != k.dump {
							t.Failf("start %s, then %s: variable %s changed from %s to %s", st, strings.Join(path, "; "), k.name, k.dump, g)
							return false
						}
					}
					return true
				}
				s.Run("v0 = " + st + "\n")
				rec = func(d int, known []lvl, forced int) {
					if d > depth || t.Failed() {
						return
					}
					prev := fmt.Sprintf("v%d", d-1)
					cur := fmt.Sprintf("v%d", d)
					for k, sp := range step {
						if forced >= 0 && k != forced {
							continue
						}
						stmt := cur + " = " + strings.ReplaceAll(sp, "V", prev)
						path = append(path, stmt)
						s.SetVar(cur, value.Int(0))
						_, err, p := s.Eval1(stmt)
						t.Step(1)
						ok := check(known)
						if ok && err == "" && p == nil {
							dv := ivy.DumpRep(s.Var(cur))
							t.Observe(dv)
							if len(dv) < 4000 {
								rec(d+1, append(known[:len(known):len(known)], lvl{cur, dv}), -1)
							}
							if ok = check(append(known[:len(known):len(known)], lvl{cur, dv})); !ok {
								return
							}
							// Writing through the new variable must not show elsewhere.
							for _, w := range []string{cur + "[1] = 99", cur + "[1;1] = 98", cur + "[1;] = 97"} {
								path = append(path, w)
								s.Eval1(w)
								t.Step(1)
								if !check(known) {
									return
								}
								path = path[:len(path)-1]
							}
						}
						if t.Failed() {
							return
						}
						path = path[:len(path)-1]
					}
				}
				rec(1, []lvl{{"v0", ivy.DumpRep(s.Var("v0"))}}, fi)
			})
		}
	}
}

// p03histories: all short histories of statements over three variables,
// against a model with copying assignment.
type m03 struct{ x, y, z *ref.V } // x, y: vectors; z anything

type stmt03 struct {
	src string
	do  func(m *m03) bool // false: must be an error, nothing changed
}

func setAt(v *ref.V, ix []int, e *ref.V) *ref.V {
	// ix are 0-based offsets into successive... only one level of array here.
	d := append([]*ref.V{}, v.Data...)
	off := 0
	for k, i := range ix {
		if i < 0 || i >= v.Shape[k] {
			return nil
		}
		off = off*v.Shape[k] + i
	}
	d[off] = e
	return ref.Arr(v.Shape, d)
}

func stmts03() []stmt03 {
	n := func(i int) *ref.V { return ref.Int(i) }
	set1 := func(v *ref.V, i int, e *ref.V) (*ref.V, bool) {
		if v.Scalar() || len(v.Data) == 0 {
			return nil, false
		}
		if len(v.Shape) == 1 {
			if i >= v.Shape[0] {
				return nil, false
			}
			return setAt(v, []int{i}, e), true
		}
		// A row of the matrix: scalar e fills, a vector must conform.
		w := v.Shape[1]
		if i >= v.Shape[0] {
			return nil, false
		}
		d := append([]*ref.V{}, v.Data...)
		for k := 0; k < w; k++ {
			switch {
			case e.Scalar():
				d[i*w+k] = e
			case len(e.Shape) == 1 && e.Shape[0] == w:
				d[i*w+k] = e.Data[k]
			default:
				return nil, false
			}
		}
		return ref.Arr(v.Shape, d), true
	}
	idx1 := func(v *ref.V, i int) (*ref.V, bool) {
		if v.Scalar() || v.Shape[0] <= i {
			return nil, false
		}
		if len(v.Shape) == 1 {
			return v.Data[i], true
		}
		w := v.Shape[1]
		return ref.Vec(v.Data[i*w : (i+1)*w]...), true
	}
	asn := func(p func(m *m03) **ref.V, e func(m *m03) (*ref.V, bool)) func(*m03) bool {
		return func(m *m03) bool {
			v, ok := e(m)
			if ok {
				*p(m) = v
			}
			return ok
		}
	}
	X := func(m *m03) **ref.V { return &m.x }
	Y := func(m *m03) **ref.V { return &m.y }
	Z := func(m *m03) **ref.V { return &m.z }
	get := func(p func(m *m03) **ref.V) func(m *m03) (*ref.V, bool) {
		return func(m *m03) (*ref.V, bool) { return *p(m), true }
	}
	setter := func(p func(m *m03) **ref.V, i int, e func(m *m03) *ref.V) func(*m03) bool {
		return asn(p, func(m *m03) (*ref.V, bool) { return set1(*p(m), i, e(m)) })
	}
	cst := func(v *ref.V) func(*m03) *ref.V { return func(*m03) *ref.V { return v } }
	scalarOrVec := func(v *ref.V) bool { return v.Rank() <= 1 }
	return []stmt03{
		{"x = 1 2 3", asn(X, func(*m03) (*ref.V, bool) { return ref.Ints(1, 2, 3), true })},
		{"x = iota 17", asn(X, func(*m03) (*ref.V, bool) { return ref.Iota(1, 17), true })},
		{"x = 2 2 rho 5 6 7 8", asn(X, func(*m03) (*ref.V, bool) { return ref.Iota(5, 2, 2), true })},
		{"y = x", asn(Y, get(X))},
		{"x = y", asn(X, get(Y))},
		{"z = x", asn(Z, get(X))},
		{"x = z", asn(X, get(Z))},
		{"y = x[1]", asn(Y, func(m *m03) (*ref.V, bool) { return idx1(m.x, 0) })},
		{"x[1] = 90", setter(X, 0, cst(n(90)))},
		{"y[1] = 91", setter(Y, 0, cst(n(91)))},
		{"z[1] = 92", setter(Z, 0, cst(n(92)))},
		{"x[2] = 93", setter(X, 1, cst(n(93)))},
		{"y[17] = 94", setter(Y, 16, cst(n(94)))},
		{"y = x y", asn(Y, func(m *m03) (*ref.V, bool) { return ref.Vec(m.x, m.y), true })},
		{"x = x, 7", asn(X, func(m *m03) (*ref.V, bool) {
			if !scalarOrVec(m.x) {
				if m.x.Rank() == 2 && m.x.Shape[0] > 0 { // adds a column
					return ref.Cat(m.x, n(7), true), true
				}
				return nil, false
			}
			return ref.Vec(append(append([]*ref.V{}, m.x.Elems()...), n(7))...), true
		})},
		{"x[2] = y", func(m *m03) bool {
			v := m.x
			if !v.Scalar() && len(v.Shape) == 1 {
				if v.Shape[0] < 2 {
					return false
				}
				m.x = setAt(v, []int{1}, m.y)
				return true
			}
			nv, ok := (*ref.V)(nil), false
			if !v.Scalar() {
				nv, ok = set1(v, 1, m.y)
			}
			if ok {
				m.x = nv
			}
			return ok
		}},
		{"z = f y", func(m *m03) bool {
			nv, ok := (*ref.V)(nil), false
			if !m.y.Scalar() {
				nv, ok = set1(m.y, 0, n(50))
			}
			if ok {
				m.z = nv
			}
			return ok
		}},
		{"z = k 3", asn(Z, func(*m03) (*ref.V, bool) { return ref.Ints(3, 2, 1), true })},
		{"z = w 4", func(m *m03) bool {
			// modifies the global x, then returns the old value
			nv, ok := (*ref.V)(nil), false
			old := m.x
			if !m.x.Scalar() {
				nv, ok = set1(m.x, 0, n(4))
			}
			if ok {
				m.x, m.z = nv, old
			}
			return ok
		}},
		{"z = 1 / 0", func(*m03) bool { return false }},
		{"x[1] = x[2] = 77", func(m *m03) bool {
			if m.x.Scalar() {
				return false
			}
			nv, ok := set1(m.x, 1, n(77))
			if !ok {
				return false
			}
			nv, ok = set1(nv, 0, n(77))
			m.x = nv
			return ok
		}},
	}
}

func p03histories(c *mc.Ctx) {
	c.Group("histories")
	const defs = "op f a = a[1] = 50; a\nop k a = b = 5 2 1; b[1] = a; b\nop w a = b = x; x[1] = a; b\nx = 1 2 3\ny = 4 5\nz = 6\n"
	sts := stmts03()
	depth := 4
	if !c.Quick {
		depth = 5
	}
	for i := range sts {
		for j := range sts {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("history %q then %q", sts[i].src, sts[j].src), func(t *mc.T) {
				s := ivy.New()
				s.Run(defs)
				var hist []string
				apply := func(m m03, k int) (m03, bool) {
					st := sts[k]
					hist = append(hist, st.src)
					nm := m
					ok := st.do(&nm)
					_, err, p := s.Eval(st.src)
					t.Step(1)
					if p != nil {
						t.Failf("history %s: %s", strings.Join(hist, "; "), p)
						return m, false
					}
					if (err == "") != ok {
						t.Failf("history %s: error %q, expected success=%v", strings.Join(hist, "; "), err, ok)
						return m, false
					}
					if !ok {
						nm = m
					}
					for _, q := range []struct {
						n string
						v *ref.V
					}{{"x", nm.x}, {"y", nm.y}, {"z", nm.z}} {
						g, e := ref.From(s.Var(q.n))
						if e != nil || !ref.Equal(g, q.v) {
							t.Failf("history %s: %s is %v, want %v", strings.Join(hist, "; "), q.n, ivy.Dump(s.Var(q.n)), q.v)
							return m, false
						}
					}
					return nm, true
				}
				replay := func(ix []int) (m m03, ok bool) {
					s.Run("x = 1 2 3\ny = 4 5\nz = 6\n")
					m = m03{ref.Ints(1, 2, 3), ref.Ints(4, 5), ref.Int(6)}
					hist = hist[:0]
					for _, k := range ix {
						if m, ok = apply(m, k); !ok {
							return m, false
						}
					}
					t.Observe(m.x.String() + m.y.String() + m.z.String())
					return m, true
				}
				eachTuple(len(sts), depth-2, func(ix []int) {
					if t.Failed() {
						return
					}
					replay(append([]int{i, j}, ix...))
				})
			})
		}
	}
}
