package props

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P24", Run: runP24,
		Rule:        "every elementwise operator x every pair of shapes from an alphabet (scalar, one-element, vectors, matrices, ranks 3 to 5, empty) x every alignment of two element pools of mixed types (int, big, rational, float, complex, char, nested); the array result must be the array of the scalar results, each computed by a separate scalar evaluation, with the conforming shape, and non-conforming operands or a failing element must be an error; sizes beyond the parallelism threshold included",
		Assumptions: []string{"the scalar operation itself is checked by P01, P02, P23, P25", "n x 1 ... operands against a matrix whose last extent is n are left unspecified"}})
}

var elemBinary = []string{"+", "-", "*", "/", "**", "div", "mod", "idiv", "imod", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "and", "or", "xor", "nand", "nor", "max", "min", "j", "!", "log"}
var elemUnary = []string{"+", "-", "/", "abs", "sgn", "floor", "ceil", "not", "^", "!", "real", "imag", "conj", "phase", "j", "sqrt", "sin", "**", "char", "code", "float", "log"}

var p24pool = []string{"3", "2**70", "2/3", "(float 3)/2", "1j2", "'q'", "0", "(-5)", "7 (1/2)"}

func p24values(s *ivy.Sess) []value.Value {
	var vs []value.Value
	for _, e := range p24pool {
		v, err, p := s.Eval1(e)
		if err != "" || p != nil {
			panic("pool " + e + err)
		}
		vs = append(vs, v)
	}
	return vs
}

// mkArr builds an array of the shape (nil: a scalar) from the pool, rotated.
func mkArr(shape []int, pool []value.Value, off, step int) value.Value {
	if shape == nil {
		return pool[off%len(pool)]
	}
	n := ref.Size(shape)
	d := make([]value.Value, n)
	for i := range d {
		d[i] = pool[(off+i*step)%len(pool)]
	}
	v := value.NewVector(d...)
	if len(shape) == 1 {
		return v
	}
	return value.NewMatrix(append([]int{}, shape...), v)
}

func unit(s []int) bool { return ref.Size(s) == 1 }

// conform gives the result shape and index maps; ok=false: error; spec=false: unspecified.
func conform(a, b []int) (shape []int, ia, ib func(int) int, ok, spec bool) {
	id := func(i int) int { return i }
	zero := func(int) int { return 0 }
	eq := fmt.Sprint(a) == fmt.Sprint(b) && (a == nil) == (b == nil)
	mod := func(n int) func(int) int { return func(i int) int { return i % n } }
	switch {
	case a == nil && b == nil:
		return nil, zero, zero, true, true
	case a == nil:
		return b, zero, id, true, true
	case b == nil:
		return a, id, zero, true, true
	case len(a) <= 1 && len(b) <= 1:
		switch {
		case a[0] == 1:
			return b, zero, id, true, true
		case b[0] == 1:
			return a, id, zero, true, true
		}
		return a, id, id, eq, true
	case unit(a) && unit(b) && len(a) > len(b):
		return a, zero, zero, true, true
	case unit(a):
		return b, zero, id, true, true
	case unit(b):
		return a, id, zero, true, true
	case len(a) == 1 && a[0] == b[len(b)-1]:
		return b, mod(a[0]), id, true, true
	case len(b) == 1 && b[0] == a[len(a)-1]:
		return a, id, mod(b[0]), true, true
	}
	quirk := func(u, v []int) bool {
		return len(u) > 1 && u[0] == v[len(v)-1] && ref.Size(u[1:]) == 1 && !eq
	}
	if quirk(a, b) || quirk(b, a) {
		return nil, nil, nil, false, false
	}
	return a, id, id, eq, true
}

func runP24(c *mc.Ctx) {
	s := ivy.New()
	pool := p24values(s)
	np := len(pool)
	scalar := map[string]string{}
	// elemOf gives the canonical scalar result ("" means error).
	elemOf := func(op string, i, j int) string {
		k := fmt.Sprintf("%s %d %d", op, i, j)
		if r, ok := scalar[k]; ok {
			return r
		}
		s.SetVar("ea", pool[i])
		var v value.Value
		var err string
		var p *ivy.Panic
		if j >= 0 {
			s.SetVar("eb", pool[j])
			v, err, p = s.Eval1("ea " + op + " eb")
		} else {
			v, err, p = s.Eval1(op + " ea")
		}
		r := ""
		if p != nil {
			r = "PANIC " + p.String()
		} else if err == "" {
			r = ivy.Dump(v)
		}
		scalar[k] = r
		return r
	}
	dumpArr := func(shape []int, elems []string) string {
		if shape == nil {
			return elems[0]
		}
		d := "[" + strings.Join(elems, " ") + "]"
		if len(shape) == 1 {
			return d
		}
		return fmt.Sprintf("{%v %s}", shape, d)
	}
	shapes := [][]int{nil, {0}, {1}, {2}, {3}, {1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {2, 2, 3}, {2, 1, 2, 2}, {2, 1, 2, 1, 3}, {1, 1, 1}, {0, 3}, {3, 0}, {17}}
	big := [][]int{{260}, {20, 15}, {2, 8, 16}}
	if !c.Quick {
		shapes = append(shapes, []int{16}, []int{4}, []int{2, 2}, []int{3, 3}, []int{2, 1, 3}, []int{1, 2, 3}, []int{2, 3, 1})
	}
	check := func(t *mc.T, src string, shape []int, elems []string, ok bool) bool {
		v, err, p := s.Eval1(src)
		t.Step(1)
		if p != nil {
			t.Failf("%s: %s", src, p)
			return false
		}
		for _, e := range elems {
			if e == "" {
				ok = false
			}
		}
		if !ok {
			if err == "" {
				t.Failf("%s: want an error, got %s", src, ivy.Dump(v))
				return false
			}
			return true
		}
		want := dumpArr(shape, elems)
		if err != "" || ivy.Dump(v) != want {
			t.Failf("%s: want %s, got %s", src, want, show(v, err, p))
			return false
		}
		t.Observe(want)
		return true
	}
	c.Group("binary")
	for _, op := range elemBinary {
		for _, a := range shapes {
			for _, b := range shapes {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("(%s) %s (%s)", shapeStr(a), op, shapeStr(b)), func(t *mc.T) {
					shape, ia, ib, ok, spec := conform(a, b)
					if !spec {
						return
					}
					for oa := 0; oa < np; oa++ {
						for ob := 0; ob < np; ob++ {
							if a == nil && oa == np-1 || b == nil && ob == np-1 {
								continue // the nested pool element is not a scalar
							}
							stepA, stepB := 1, 1
							if (oa+ob)%2 == 1 {
								stepA, stepB = 0, 0 // uniform arrays: exercise single types
							}
							s.SetVar("x", mkArr(a, pool, oa, stepA))
							s.SetVar("y", mkArr(b, pool, ob, stepB))
							var elems []string
							n := 1
							if shape != nil {
								n = ref.Size(shape)
							}
							if ok {
								for i := 0; i < n; i++ {
									elems = append(elems, elemOf(op, (oa+ia(i)*stepA)%np, (ob+ib(i)*stepB)%np))
								}
							}
							if !check(t, "x "+op+" y", shape, elems, ok) {
								t.Failf("with x=%s y=%s", ivy.Dump(s.Var("x")), ivy.Dump(s.Var("y")))
								return
							}
						}
					}
				})
			}
		}
		// Large arrays cross the parallelism threshold.
		for _, a := range big {
			for _, b := range append([][]int{nil, {1}, {a[len(a)-1]}}, a) {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("large (%s) %s (%s)", shapeStr(a), op, shapeStr(b)), func(t *mc.T) {
					good := []int{0, 1, 2, 7}
					if op == "log" || op == "**" || op == "!" || op == "<<" || op == ">>" {
						good = []int{0, 0, 0, 0}
					}
					for rev := 0; rev < 2; rev++ {
						mk := func(sh []int, off int) (value.Value, []int) {
							n := 1
							if sh != nil {
								n = ref.Size(sh)
							}
							var ixs []int
							var d []value.Value
							for i := 0; i < n; i++ {
								k := good[(i*(off+1)+off)%4]
								ixs = append(ixs, k)
								d = append(d, pool[k])
							}
							if sh == nil {
								return d[0], ixs
							}
							v := value.NewVector(d...)
							if len(sh) == 1 {
								return v, ixs
							}
							return value.NewMatrix(append([]int{}, sh...), v), ixs
						}
						sa, sb := a, b
						if rev == 1 {
							sa, sb = b, a
						}
						x, ix := mk(sa, 0)
						y, iy := mk(sb, 2)
						s.SetVar("x", x)
						s.SetVar("y", y)
						shape, ia, ib, ok, _ := conform(sa, sb)
						var elems []string
						for i := 0; i < ref.Size(shape); i++ {
							elems = append(elems, elemOf(op, ix[ia(i)], iy[ib(i)]))
						}
						if !check(t, "x "+op+" y", shape, elems, ok) {
							return
						}
					}
				})
			}
		}
	}
	c.Group("unary")
	for _, op := range elemUnary {
		for _, a := range append(append([][]int{}, shapes...), big...) {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("%s (%s)", op, shapeStr(a)), func(t *mc.T) {
				for oa := 0; oa < np; oa++ {
					for step := 0; step < 2; step++ {
						s.SetVar("x", mkArr(a, pool, oa, step))
						var elems []string
						n := 1
						if a != nil {
							n = ref.Size(a)
						}
						for i := 0; i < n; i++ {
							elems = append(elems, elemOf(op, (oa+i*step)%np, -1))
						}
						if op == "+" && a != nil {
							for _, e := range elems {
								if e == "" {
									return // + is the identity on arrays, whatever they hold
								}
							}
						}
						if !check(t, op+" x", a, elems, true) {
							return
						}
					}
				}
			})
		}
	}
	// Vectors whose elements are all ok but distinct: chars with char/code.
	c.Group("char code")
	for n := 0; n <= 300; n += 7 {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("char code %d", n), func(t *mc.T) {
			x := ref.Iota(65, n)
			s.SetVar("x", x.Value())
			checkV(t, s, "code char x", x, false)
		})
	}
}
