package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P02", Run: runP02,
		Rule:        "div, mod, idiv, imod on every operand pair of the boundary alphabet (scalars and vectors, literals and variables), a dense block of small pairs, and mod on floats, against the exact Euclidean/truncating definitions; mixed-radix encode/decode over all small radix vectors and values",
		Assumptions: []string{"operands outside the alphabet behave like the alphabet member of the same representation class", "x mod 0 is x (APL residue), as encode with radix 0 relies on"}})
}

var divOps = []string{"div", "mod", "idiv", "imod"}

func runP02(c *mc.Ctx) {
	dom := append(boundaryInts(true), boundaryRats(true)...)
	s := ivy.New()
	c.Group("pairs")
	for _, x := range dom {
		for _, y := range dom {
			if c.Skip() {
				continue
			}
			c.Do("pair "+lit(x)+" "+lit(y), func(t *mc.T) {
				set := "dx = " + lit(x) + "; dy = " + lit(y)
				if _, err, p := s.Eval(set); err != "" || p != nil {
					t.Failf("%s: %s %v", set, err, p)
					return
				}
				for _, op := range divOps {
					want, kind := refBinary(op, x, y)
					src := plit(x) + " " + op + " " + plit(y)
					v, err, p := s.Eval1(src)
					checkExact(t, s, src, v, err, p, want, kind)
					// Through variables, which must keep their values.
					v, err, p = s.Eval1("dx " + op + " dy")
					checkExact(t, s, "dx "+op+" dy with dx="+lit(x)+" dy="+lit(y), v, err, p, want, kind)
					a, okA := ratOf(s.Var("dx"))
					b, okB := ratOf(s.Var("dy"))
					if !okA || !okB || a.Cmp(x) != 0 || b.Cmp(y) != 0 {
						t.Failf("%s: afterwards the operands are %s and %s", src, ivy.DumpRep(s.Var("dx")), ivy.DumpRep(s.Var("dy")))
						return
					}
				}
				// The identities, evaluated by ivy itself.
				if y.Sign() != 0 {
					id := []string{"dx == (dx mod dy) + dy * dx div dy", "dx == (dx imod dy) + dy * dx idiv dy", "((dx mod dy) >= 0) and (dx mod dy) < abs dy"}
					if !x.IsInt() || !y.IsInt() {
						id = id[2:]
					}
					for _, e := range id {
						v, err, p := s.Eval1(e)
						t.Step(1)
						if p != nil || err != "" || ivy.Dump(v) != "1" {
							t.Failf("%s with dx=%s dy=%s: %s", e, lit(x), lit(y), show(v, err, p))
						}
					}
				}
			})
		}
	}
	c.Group("dense")
	n := int64(40)
	if !c.Quick {
		n = 130
	}
	for a := -n; a <= n; a++ {
		for b := -n; b <= n; b++ {
			for _, den := range []int64{1, 2, 3, 4, 6} {
				for _, op := range divOps {
					if den != 1 && op != "mod" {
						continue
					}
					if c.Skip() {
						continue
					}
					x, y := rat(a, den), rat(b, 1)
					if den == 3 {
						x, y = rat(a, 1), rat(b, 3)
					}
					if den == 6 {
						x, y = rat(a, 2), rat(b, 3)
					}
					src := plit(x) + " " + op + " " + plit(y)
					c.Do("dense "+src, func(t *mc.T) {
						want, kind := refBinary(op, x, y)
						v, err, p := s.Eval1(src)
						checkExact(t, s, src, v, err, p, want, kind)
					})
				}
			}
		}
	}
	// Vectors: elementwise, mixed types.
	c.Group("vectors")
	vd := []*big.Rat{rat(-7, 1), rat(7, 1), rat(0, 1), rat(-7, 2), ratI(pow2(63)), new(big.Rat).Neg(ratI(pow2(31)))}
	yd := []*big.Rat{rat(3, 1), rat(-3, 1), rat(5, 3), ratI(pow2(32)), rat(-2, 1)}
	for _, op := range divOps {
		for i := range vd {
			for j := range vd {
				for k := range yd {
					for l := range yd {
						if c.Skip() {
							continue
						}
						src := fmt.Sprintf("%s %s %s %s %s", plit(vd[i]), plit(vd[j]), op, plit(yd[k]), plit(yd[l]))
						c.Do(src, func(t *mc.T) {
							w1, k1 := refBinary(op, vd[i], yd[k])
							w2, k2 := refBinary(op, vd[j], yd[l])
							v, err, p := s.Eval1(src)
							t.Step(1)
							if p != nil {
								t.Failf("%s: %s", src, p)
								return
							}
							if k1 == refErr || k2 == refErr {
								if err == "" {
									t.Failf("%s: want an error, got %s", src, ivy.Dump(v))
								}
								return
							}
							want := "[" + lit(w1) + " " + lit(w2) + "]"
							if err != "" || ivy.Dump(v) != want {
								t.Failf("%s: want %s, got %s", src, want, show(v, err, p))
							}
						})
					}
				}
			}
		}
	}
	// Floats: mod only.
	c.Group("float mod")
	fs := []string{"pi", "sqrt 2", "float 1/3", "pi*10**20", "pi*10**60", "pi/10**20", "float 7", "e**30", "float 22/7"}
	for _, fx := range fs {
		for _, fy := range append(fs, "3", "1", "1/3", "2**70") {
			for _, sx := range []string{"", "-"} {
				for _, sy := range []string{"", "-"} {
					for _, prec := range []int{64, 256, 400} {
						if c.Skip() {
							continue
						}
						key := fmt.Sprintf("float mod prec=%d x=%s(%s) y=%s(%s)", prec, sx, fx, sy, fy)
						c.Do(key, func(t *mc.T) {
							s := ivy.New()
							s.Run(fmt.Sprintf(")prec %d\nfx = %s(%s)\nfy = %s(%s)\n", prec, sx, fx, sy, fy))
							bx, by := ivy.DumpRep(s.Var("fx")), ivy.DumpRep(s.Var("fy"))
							v, err, p := s.Eval1("fx mod fy")
							t.Step(1)
							if err != "" || p != nil {
								t.Failf("%s", show(v, err, p))
								return
							}
							if ivy.DumpRep(s.Var("fx")) != bx || ivy.DumpRep(s.Var("fy")) != by {
								t.Failf("operands changed: %s %s -> %s %s", bx, by, ivy.DumpRep(s.Var("fx")), ivy.DumpRep(s.Var("fy")))
								return
							}
							x, y, r := exactOf(s.Var("fx")), exactOf(s.Var("fy")), exactOf(v)
							if x == nil || y == nil || r == nil {
								t.Failf("not numbers: %s", ivy.DumpRep(v))
								return
							}
							ay := new(big.Rat).Abs(y)
							if r.Sign() < 0 || r.Cmp(ay) > 0 {
								t.Failf("remainder %s out of range for modulus %s", r.FloatString(30), y.FloatString(30))
								return
							}
							// Distance to the exact remainder on the circle of circumference |y|.
							want := new(big.Rat).Sub(x, new(big.Rat).Mul(ratI(euclid(x, y)), y))
							d := new(big.Rat).Abs(new(big.Rat).Sub(r, want))
							if e := new(big.Rat).Sub(ay, d); e.Cmp(d) < 0 {
								d = e
							}
							tol := new(big.Rat).Add(new(big.Rat).Abs(x), ay)
							tol.Mul(tol, new(big.Rat).SetFrac(big.NewInt(1), pow2(uint(prec-4))))
							if d.Cmp(tol) > 0 {
								t.Failf("remainder %s, exactly %s", r.FloatString(40), want.FloatString(40))
							}
							t.Observe(ivy.Dump(v))
						})
					}
				}
			}
		}
	}
	// Mixed radix: encode's digits are in range and decode inverts.
	c.Group("encode")
	radices := []int{1, 2, 3, 7, 10}
	maxLen := 3
	if !c.Quick {
		maxLen = 4
	}
	for n := 1; n <= maxLen; n++ {
		eachTuple(len(radices), n, func(ix []int) {
			if c.Skip() {
				return
			}
			rad := make([]int, n)
			prod := 1
			for i, k := range ix {
				rad[i] = radices[k]
				prod *= rad[i]
			}
			c.Do("encode radix "+joinInts(rad), func(t *mc.T) {
				for x := -7; x <= prod+3; x++ {
					if prod > 200 && x%13 != 0 && x > 20 && x < prod-20 {
						continue
					}
					src := fmt.Sprintf("%s encode %s", joinInts(rad), plit(rat(int64(x), 1)))
					v, err, p := s.Eval1(src)
					t.Step(1)
					want := make([]string, n)
					q := big.NewInt(int64(x))
					for i := n - 1; i >= 0; i-- {
						m := new(big.Int)
						q.DivMod(q, big.NewInt(int64(rad[i])), m)
						want[i] = m.String()
					}
					w := "[" + strings.Join(want, " ") + "]"
					if n == 1 {
						w = want[0]
					}
					if err != "" || p != nil || ivy.Dump(v) != w {
						t.Failf("%s: want %s got %s", src, w, show(v, err, p))
						return
					}
					if x >= 0 && x < prod {
						src = fmt.Sprintf("%s decode %s encode %d", joinInts(rad), joinInts(rad), x)
						v, err, p = s.Eval1(src)
						t.Step(1)
						if err != "" || p != nil || ivy.Dump(v) != fmt.Sprint(x) {
							t.Failf("%s: got %s", src, show(v, err, p))
							return
						}
					}
				}
			})
		})
	}
}

// eachTuple calls f with every n-tuple over 0..k-1.
func eachTuple(k, n int, f func(ix []int)) {
	ix := make([]int, n)
	if k == 0 && n > 0 {
		return
	}
	for {
		f(ix)
		i := n - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < k {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// exactOf gives the exact value of a real number, nil if v is not one.
func exactOf(v value.Value) *big.Rat {
	if r, ok := ratOf(v); ok {
		return r
	}
	if f, ok := v.(value.BigFloat); ok {
		if f.Float.IsInf() {
			return nil
		}
		r, _ := f.Float.Rat(nil)
		if r == nil {
			return new(big.Rat)
		}
		return r
	}
	return nil
}
