package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P30", Run: runP30,
		Rule:        "every 1x1, 2x2 and 3x3 matrix over small alphabets (4x4 of zeros and ones; complex 2x2), ten structured families of sizes 5 to 9 (thorough 14) with every rotation of their rows and a duplicated row, so every pattern of zero pivots: singular (by determinant over the Gaussian rationals) exactly when inv and mdiv report an error, otherwise A +.* inv A and (inv A) +.* A are exactly the identity and A +.* B mdiv A is B for vector and matrix B; every vector up to length 3 for inv and vector mdiv; every non-square, non-conforming, nested, character or higher-rank operand is an error",
		Assumptions: []string{"matrices of other sizes and patterns and other elements behave alike"}})
}

func cxi(re, im int64) cx { return cx{rat(re, 1), rat(im, 1)} }

// det30 is the determinant by cofactor expansion.
func det30(n int, a []cx) cx {
	if n == 0 {
		return cxi(1, 0)
	}
	if n == 1 {
		return a[0]
	}
	sum := cxi(0, 0)
	for col := 0; col < n; col++ {
		if a[col].zero() {
			continue
		}
		var sub []cx
		for r := 1; r < n; r++ {
			for k := 0; k < n; k++ {
				if k != col {
					sub = append(sub, a[r*n+k])
				}
			}
		}
		m := a[col].mul(det30(n-1, sub))
		if col%2 == 1 {
			m = m.neg()
		}
		sum = sum.add(m)
	}
	return sum
}

func mul30(n, k, m int, a, b []cx) []cx {
	out := make([]cx, n*m)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			z := cxi(0, 0)
			for l := 0; l < k; l++ {
				z = z.add(a[i*k+l].mul(b[l*m+j]))
			}
			out[i*m+j] = z
		}
	}
	return out
}

func val30(z cx) value.Value {
	if z.im.Sign() == 0 {
		return numVal(z.re)
	}
	return value.NewComplex(numVal(z.re), numVal(z.im))
}

func from30(v value.Value) (cx, bool) {
	if x, ok := v.(value.Complex); ok {
		re, im := x.Components()
		a, ok1 := ratOf(re)
		b, ok2 := ratOf(im)
		return cx{a, b}, ok1 && ok2
	}
	r, ok := ratOf(v)
	return cx{r, new(big.Rat)}, ok
}

func list30(v *value.Vector) ([]cx, bool) {
	out := make([]cx, v.Len())
	for i := range out {
		z, ok := from30(v.At(i).Inner())
		if !ok {
			return nil, false
		}
		out[i] = z
	}
	return out, true
}

func same30(a, b []cx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].re.Cmp(b[i].re) != 0 || a[i].im.Cmp(b[i].im) != 0 {
			return false
		}
	}
	return true
}

// mat30 takes the elements of a result of the given shape.
func mat30(v value.Value, shape ...int) ([]cx, bool) {
	if len(shape) == 1 {
		x, ok := v.(*value.Vector)
		if !ok || x.Len() != shape[0] {
			return nil, false
		}
		return list30(x)
	}
	x, ok := v.(*value.Matrix)
	if !ok || fmt.Sprint(x.Shape()) != fmt.Sprint(shape) {
		return nil, false
	}
	return list30(x.Data())
}

func runP30(c *mc.Ctx) {
	s := ivy.New()
	check := func(t *mc.T, n int, a []cx, vs []value.Value) {
		if t.Failed() {
			return
		}
		A := value.NewMatrix([]int{n, n}, value.NewVector(vs...))
		before := ivy.DumpRep(A)
		s.SetVar("A", A)
		v, e, p := s.Eval1("inv A")
		t.Step(1)
		if det30(n, a).zero() {
			if e == "" || p != nil {
				t.Failf("inv %s (singular) is %s", before, show(v, e, p))
			}
			v, e, p = s.Eval1(fmt.Sprintf("(iota %d) mdiv A", n))
			if e == "" || p != nil {
				t.Failf("mdiv by %s (singular) is %s", before, show(v, e, p))
			}
			return
		}
		x, ok := mat30(v, n, n)
		if !ok {
			t.Failf("inv %s is %s", before, show(v, e, p))
			return
		}
		id := make([]cx, n*n)
		for i := range id {
			id[i] = cxi(0, 0)
			if i/n == i%n {
				id[i] = cxi(1, 0)
			}
		}
		if !same30(mul30(n, n, n, a, x), id) || !same30(mul30(n, n, n, x, a), id) {
			t.Failf("inv %s is %s, not its inverse", before, ivy.Dump(v))
			return
		}
		t.Observe(ivy.DumpRep(v))
		rhs := make([]cx, n)
		rv := make([]value.Value, n)
		for i := range rhs {
			rhs[i] = cxi(int64(2*i+3), 0)
			rv[i] = val30(rhs[i])
		}
		s.SetVar("B", value.NewVector(rv...))
		v, e, p = s.Eval1("B mdiv A")
		y, ok := mat30(v, n)
		if n == 1 && !ok {
			if z, ok1 := from30(v); ok1 && e == "" && p == nil {
				y, ok = []cx{z}, true // One element: a vector or the scalar.
			}
		}
		if !ok || !same30(mul30(n, n, 1, a, y), rhs) {
			t.Failf("%v mdiv %s is %s", rhs, before, show(v, e, p))
			return
		}
		// A matrix of two columns on the left.
		m := 2
		rm := make([]cx, n*m)
		rmv := make([]value.Value, n*m)
		for i := range rm {
			rm[i] = cxi(int64(i*i%5-1), int64(i%2))
			rmv[i] = val30(rm[i])
		}
		s.SetVar("B", value.NewMatrix([]int{n, m}, value.NewVector(rmv...)))
		v, e, p = s.Eval1("B mdiv A")
		t.Step(2)
		y, ok = mat30(v, n, m)
		if !ok || !same30(mul30(n, n, m, a, y), rm) {
			t.Failf("%v (%dx%d) mdiv %s is %s", rm, n, m, before, show(v, e, p))
			return
		}
		if ivy.DumpRep(s.Var("A")) != before {
			t.Failf("inv or mdiv changed its operand %s to %s", before, ivy.DumpRep(s.Var("A")))
		}
	}
	all := func(name string, n int, alpha []cx) {
		vals := make([]value.Value, len(alpha))
		for i, z := range alpha {
			vals[i] = val30(z)
		}
		// One case per choice of the first row.
		first := 1
		for i := 0; i < n; i++ {
			first *= len(alpha)
		}
		rest := 1
		for i := 0; i < n*n-n; i++ {
			rest *= len(alpha)
		}
		for f := 0; f < first; f++ {
			c.Case(fmt.Sprintf("%s %d", name, f), func(t *mc.T) {
				a := make([]cx, n*n)
				vs := make([]value.Value, n*n)
				set := func(from, to, k int) {
					for i := from; i < to; i++ {
						a[i], vs[i] = alpha[k%len(alpha)], vals[k%len(alpha)]
						k /= len(alpha)
					}
				}
				set(0, n, f)
				for r := 0; r < rest && !t.Failed(); r++ {
					set(n, n*n, r)
					check(t, n, a, append([]value.Value{}, vs...))
				}
			})
		}
	}
	c.Group("1x1")
	wide := []cx{cxi(0, 0), cxi(1, 0), cxi(-1, 0), cxi(2, 0), {rat(1, 2), rat(0, 1)}, {rat(-7, 3), rat(0, 1)}, cxi(1<<31, 0), {ratI(pow2(64)), rat(0, 1)}, cxi(0, 1), cxi(1, -1), {rat(1, 2), rat(3, 1)}}
	all("1x1", 1, wide)
	c.Group("2x2")
	all("2x2", 2, wide)
	c.Group("3x3")
	all("3x3", 3, []cx{cxi(0, 0), cxi(1, 0), cxi(-1, 0)})
	if c.Quick {
		all("3x3 b", 3, []cx{cxi(0, 0), {rat(2, 3), rat(0, 1)}})
		all("3x3 c", 3, []cx{cxi(0, 0), cxi(0, 1)})
	} else {
		all("3x3 b", 3, []cx{cxi(0, 0), cxi(1, 0), {rat(2, 3), rat(0, 1)}, cxi(0, 1)})
	}
	c.Group("4x4")
	if c.Quick {
		// Permutation-like and triangular patterns: rows from a small set.
		rows := [][]int64{{0, 0, 0, 1}, {0, 0, 1, 0}, {0, 1, 0, 0}, {1, 0, 0, 0}, {0, 1, 1, 1}, {1, 1, 0, 1}, {0, 0, 1, 1}}
		k := 0
		for _, r1 := range rows {
			for _, r2 := range rows {
				for _, r3 := range rows {
					c.Case(fmt.Sprint("4x4 ", k), func(t *mc.T) {
						for _, r4 := range rows {
							var a []cx
							var vs []value.Value
							for _, r := range [][]int64{r1, r2, r3, r4} {
								for _, x := range r {
									a = append(a, cxi(x, 0))
									vs = append(vs, value.Int(x))
								}
							}
							check(t, 4, a, vs)
						}
					})
					k++
				}
			}
		}
	} else {
		all("4x4", 4, []cx{cxi(0, 0), cxi(1, 0)})
	}
	c.Group("larger")
	// Structured matrices of size 5 to N: every rotation of the rows of each,
	// so that each row is once the first, and the same with a row duplicated
	// (singular).
	maxN := 9
	if !c.Quick {
		maxN = 14
	}
	shapes := []struct {
		name string
		f    func(n, i, j int) cx
	}{
		{"unit", func(n, i, j int) cx { return cxi(int64(b30(i == j)), 0) }},
		{"reversed", func(n, i, j int) cx { return cxi(int64(b30(i+j == n-1)), 0) }},
		{"lower", func(n, i, j int) cx { return cxi(int64(b30(i >= j)), 0) }},
		{"upper", func(n, i, j int) cx { return cxi(int64(b30(i <= j)*(i+2*j+1)), 0) }},
		{"vandermonde", func(n, i, j int) cx {
			x := int64(1)
			for ; j > 0; j-- {
				x *= int64(i)
			}
			return cxi(x, 0)
		}},
		{"hilbert", func(n, i, j int) cx { return cx{rat(1, int64(i+j+1)), rat(0, 1)} }},
		{"tridiagonal", func(n, i, j int) cx {
			return cxi(int64(2*b30(i == j)-b30(i == j+1)-b30(j == i+1)), 0)
		}},
		{"complex", func(n, i, j int) cx { return cxi(int64(b30(i <= j)), int64(b30(i == j+1))) }},
		{"hollow", func(n, i, j int) cx { return cxi(int64(b30(i != j)), 0) }},
		{"rank 1", func(n, i, j int) cx { return cxi(int64((i+1)*(j+1)), 0) }},
	}
	for n := 5; n <= maxN; n++ {
		for _, sh := range shapes {
			for rot := 0; rot < n; rot++ {
				for dup := 0; dup < 2; dup++ {
					c.Case(fmt.Sprint("larger ", sh.name, n, rot, dup), func(t *mc.T) {
						a := make([]cx, n*n)
						vs := make([]value.Value, n*n)
						for i := 0; i < n; i++ {
							from := (i + rot) % n
							if dup == 1 && i == n-1 {
								from = (rot + n/2) % n
							}
							for j := 0; j < n; j++ {
								a[i*n+j] = sh.f(n, from, j)
								vs[i*n+j] = val30(a[i*n+j])
							}
						}
						check(t, n, a, vs)
					})
				}
			}
		}
	}
	c.Group("vectors")
	for n := 1; n <= 3; n++ {
		alpha := wide
		if n == 3 {
			alpha = alpha[1:]
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for k := 0; k < total; k++ {
			c.Case(fmt.Sprint("vector ", n, k), func(t *mc.T) {
				a := make([]cx, n)
				vs := make([]value.Value, n)
				zero, real := true, true
				mag := cxi(0, 0)
				for i, q := 0, k; i < n; i++ {
					a[i] = alpha[q%len(alpha)]
					q /= len(alpha)
					vs[i] = val30(a[i])
					zero = zero && a[i].zero()
					real = real && a[i].im.Sign() == 0
					mag = mag.add(a[i].mul(a[i].conj()))
				}
				s.SetVar("A", value.NewVector(vs...))
				v, e, p := s.Eval1("inv A")
				t.Step(1)
				if zero {
					if e == "" || p != nil {
						t.Failf("inv of a zero vector is %s", show(v, e, p))
					}
				} else {
					want := make([]cx, n)
					for i := range want {
						want[i] = a[i].conj().mul(mag.inv())
					}
					x, ok := mat30(v, n)
					if !ok || !same30(x, want) {
						t.Failf("inv %v is %s, should be %v", a, show(v, e, p), want)
					}
				}
				// Projection.
				b := make([]cx, n)
				bv := make([]value.Value, n)
				num := cxi(0, 0)
				for i := range b {
					b[i] = cxi(int64(3-2*i), 0)
					bv[i] = val30(b[i])
					num = num.add(a[i].mul(b[i]))
				}
				s.SetVar("B", value.NewVector(bv...))
				v, e, p = s.Eval1("B mdiv A")
				t.Step(1)
				if zero || !real {
					if e == "" || p != nil {
						t.Failf("%v mdiv %v is %s, should be an error", b, a, show(v, e, p))
					}
					return
				}
				z, ok := from30(v)
				if v == nil || !ok || !same30([]cx{z}, []cx{num.mul(mag.inv())}) {
					t.Failf("%v mdiv %v is %s", b, a, show(v, e, p))
				}
			})
		}
	}
	c.Group("errors")
	for _, src := range []string{"inv 2 3 rho 1 2 3 4 5 7", "inv 3 2 rho iota 6", "inv 1 2 rho 5", "inv 2 2 2 rho iota 8", "inv 1 1 1 rho 5", "inv 1 1 1 1 rho 5", "inv 2 2 2 2 rho iota 16", "inv 2 2 rho 1 2 3 (4 5)", "inv 2 2 rho (4 5) 1 2 3", "inv 2 2 rho 'abcd'", "inv 1 1 rho 'a'", "inv iota 0", "inv 'ab'", "inv (1 2) 3", "inv 0", "inv 'a'", "inv 0j0",
		"1 2 mdiv 1 2 3", "1 2 3 mdiv 1 2", "1 2 3 mdiv 2 2 rho 1 2 3 4", "(3 2 rho 1) mdiv 2 2 rho 1 2 3 4", "1 2 mdiv 2 3 rho iota 6", "1 2 mdiv 2 2 2 rho iota 8", "'ab' mdiv 2 2 rho 1 2 3 4", "1 (2 3) mdiv 1 2", "1 2 mdiv 1 (2 3)", "1 2 mdiv 0 0", "3 mdiv 0"} {
		c.Case(src, func(t *mc.T) {
			v, e, p := s.Eval1(src)
			t.Step(1)
			if e == "" || p != nil || strings.Contains(e, "cannot happen") {
				t.Failf("%s is %s, should be an error", src, show(v, e, p))
			}
		})
	}
}

func b30(b bool) int {
	if b {
		return 1
	}
	return 0
}
