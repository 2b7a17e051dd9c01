package props

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/mp"
)

func init() {
	register(&mc.Prop{ID: "P23", Run: runP23,
		Rule:        "every function x precisions (64, 256, 1000 and more in the thorough tier; at precisions from 53 to 3000, thorough 5000, a part of the grid) x a grid of arguments straddling zero, one, every algorithm switch, the singularities and range-reduction boundaries (each with neighbours at distances 2^-1 .. 2^-40), from 2^-200 to 2^300, with both signs, as integers, rationals and floats, and a grid of complex arguments including both sides of and points on every branch cut; all pairs of a grid for ** and log; error against an independent implementation at a much higher precision",
		Assumptions: []string{"the error bound is 2^12 units in the last place of 1 + |f(x)| + min(|x|, 1000) |f'(x)| (without the 1 for sqrt, exp, sin, tan, sinh, tanh, asin, atan of reals)", "acosh of arguments off the real half-line from 1 is log(x + sqrt(x²-1)) with principal values, as ivy's tests have it", "on the branch cuts of atan and atanh, or nearer than the precision can tell, either side is accepted", "an error saying that a series did not converge is accepted for exponents and hyperbolic arguments beyond 100"}})
}

type fn23 struct {
	name      string
	f         func(mp.C) mp.C
	rel       bool // relative to the result, for reals
	exp       bool // grows exponentially: arguments are limited
	even, odd bool
}

var fns23 = []fn23{
	{name: "sqrt", f: mp.CSqrt, rel: true},
	{name: "log", f: mp.CLog},
	{name: "**", f: mp.CExp, rel: true, exp: true},
	{name: "sin", f: mp.CSin, rel: true},
	{name: "cos", f: mp.CCos},
	{name: "tan", f: mp.CTan, rel: true},
	{name: "asin", f: mp.CAsin, rel: true},
	{name: "acos", f: mp.CAcos},
	{name: "atan", f: mp.CAtan, rel: true},
	{name: "sinh", f: mp.CSinh, rel: true, exp: true},
	{name: "cosh", f: mp.CCosh, exp: true},
	{name: "tanh", f: mp.CTanh, rel: true, exp: true},
	{name: "asinh", f: mp.CAsinh},
	{name: "acosh", f: mp.CAcosh},
	{name: "atanh", f: mp.CAtanh},
}

// parts23 gives the exact value of a number.
func parts23(v value.Value) (mp.C, bool) {
	one := func(v value.Value) (*mp.F, bool) {
		switch v := v.(type) {
		case value.BigFloat:
			if v.IsInf() {
				return nil, false
			}
			return mp.N().Set(v.Float), true
		default:
			r, ok := ratOf(v)
			if !ok {
				return nil, false
			}
			return mp.N().SetRat(r), true
		}
	}
	if c, ok := v.(value.Complex); ok {
		re, im := c.Components()
		a, ok1 := one(re)
		b, ok2 := one(im)
		return mp.C{Re: a, Im: b}, ok1 && ok2
	}
	a, ok := one(v)
	return mp.C{Re: a, Im: mp.I(0)}, ok
}

func exact23(t *mc.T, s *ivy.Sess, r *big.Rat) value.Value {
	if r.IsInt() && r.Num().BitLen() < 200 {
		return numVal(r)
	}
	s.SetVar("zq", numVal(r))
	v, e, p := s.Eval1("float zq")
	if e != "" || p != nil {
		t.Failf("float %s: %s", r, show(v, e, p))
	}
	return v
}

// round23 is r rounded to prec bits.
func round23(r *big.Rat, prec uint) *big.Rat {
	f := new(big.Float).SetPrec(prec).SetRat(r)
	x, _ := f.Rat(nil)
	return x
}

func deriv23(f func(mp.C) mp.C, z mp.C, fz mp.C) *mp.F {
	h := mp.Shl(mp.I(1), -int(mp.R)/3)
	var dz mp.C
	if mp.CAbs(z).Sign() == 0 {
		dz = mp.CR(h)
	} else {
		dz = mp.CMul(z, mp.CR(h))
	}
	return mp.Div(mp.CAbs(mp.CSub(f(mp.CAdd(z, dz)), fz)), mp.CAbs(dz))
}

var worst23 = map[string]float64{}

func check23(t *mc.T, what string, v value.Value, e string, p *ivy.Panic, want mp.C, bound *mp.F, prec uint) bool {
	got, ok := mp.C{}, false
	if e == "" && p == nil {
		got, ok = parts23(v)
	}
	if !ok {
		t.Failf("%s at precision %d gives %s, want %s", what, prec, show(v, e, p), cstr23(want))
		return false
	}
	err := mp.CAbs(mp.CSub(got, want))
	ulp := mp.Shl(bound, -int(prec))
	if ulp.Sign() > 0 && os.Getenv("P23_WORST") != "" {
		q, _ := mp.Div(err, ulp).Float64()
		k := strings.Fields(what)[0]
		if want.Im.Sign() != 0 {
			k += "(c)"
		}
		if q > worst23[k] {
			worst23[k] = q
			fmt.Fprintf(os.Stderr, "WORST %s %.4g %s prec %d\n", k, q, what, prec)
		}
	}
	if err.Cmp(mp.Shl(ulp, 12)) > 0 {
		q := mp.Div(err, ulp)
		t.Failf("%s at precision %d gives %s, want %s: off by %s units", what, prec, show(v, e, p), cstr23(want), q.Text('g', 5))
		return false
	}
	return true
}

// side23 picks the side of the branch cut that the result v is on.
func side23(v value.Value, want mp.C, re bool) mp.C {
	got, ok := parts23(v)
	if !ok {
		return want
	}
	if re && got.Re.Sign() != want.Re.Sign() {
		return mp.C{Re: mp.N().Neg(want.Re), Im: want.Im}
	}
	if !re && got.Im.Sign() != want.Im.Sign() {
		return mp.C{Re: want.Re, Im: mp.N().Neg(want.Im)}
	}
	return want
}

func cstr23(c mp.C) string {
	s := c.Re.Text('g', 30)
	if c.Im.Sign() != 0 {
		s += "j" + c.Im.Text('g', 30)
	}
	return s
}

func runP23(c *mc.Ctx) {
	precs := []uint{64, 256, 1000, 53, 130, 512, 1500, 3000}
	if !c.Quick {
		precs = []uint{53, 64, 65, 100, 128, 256, 500, 1000, 2000, 24, 130, 512, 1500, 3000, 5000}
	}
	// At the others of these, the points themselves only.
	full := map[uint]bool{64: true, 256: true, 1000: true}
	if !c.Quick {
		for _, p := range precs[:9] {
			full[p] = true
		}
	}
	// Points of interest.
	q := func(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }
	pi := q("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651328230664709384460955058223172535940812848111745")
	var points []*big.Rat
	for _, s := range []string{"0", "0.1", "1/4", "0.41421356", "1/2", "0.7071067", "3/4", "1", "1.25", "1.41421356", "1.5", "1.75", "2", "2.5", "3", "4", "5", "7", "10", "20", "31", "50", "99", "100", "300", "1000", "1001", "10000", "1e6", "4294967296", "18446744073709551616", "1e30", "1e60", "1e90", "1e-3", "1e-10", "1e-30", "1e-60"} {
		points = append(points, q(s))
	}
	for _, m := range []*big.Rat{rat(1, 8), rat(1, 4), rat(1, 2), rat(3, 4), rat(1, 1), rat(3, 2), rat(2, 1), rat(5, 2), rat(3, 1), rat(4, 1), rat(100, 1), rat(318, 1), rat(320, 1), rat(1000, 1)} {
		points = append(points, new(big.Rat).Mul(pi, m))
	}
	dists := []uint{1, 5, 20, 40}
	if !c.Quick {
		dists = []uint{1, 2, 3, 4, 5, 8, 12, 16, 20, 24, 30, 40, 50, 60}
	}
	for _, prec := range precs {
		mpR := prec + 1600
		dists := dists
		if !full[prec] {
			dists = dists[:1]
		}
		// The arguments, rounded to the precision.
		seen := map[string]bool{}
		var reals []*big.Rat
		add := func(r *big.Rat) {
			r = round23(r, prec)
			for _, x := range []*big.Rat{r, new(big.Rat).Neg(r)} {
				if !seen[x.String()] {
					seen[x.String()] = true
					reals = append(reals, x)
				}
			}
		}
		for _, x := range points {
			add(x)
			for _, d := range dists {
				eps := new(big.Rat).SetFrac(big.NewInt(1), pow2(d))
				add(new(big.Rat).Add(x, eps))
				if x.Cmp(eps) >= 0 {
					add(new(big.Rat).Sub(x, eps))
				}
			}
		}
		mk := func() *ivy.Sess {
			mp.R = mpR
			s := ivy.New()
			s.Run(fmt.Sprintf(")prec %d", prec))
			return s
		}
		for _, fn := range fns23 {
			c.Group("real " + fn.name)
			for lo := 0; lo < len(reals); lo += 40 {
				hi := min(lo+40, len(reals))
				c.Case(fmt.Sprintf("%s prec %d from %d", fn.name, prec, lo), func(t *mc.T) {
					s := mk()
					for _, r := range reals[lo:hi] {
						x := mp.N().SetRat(r)
						ax, _ := x.Float64()
						if ax < 0 {
							ax = -ax
						}
						if fn.exp && ax > 2000 {
							continue
						}
						z := mp.CR(x)
						what := fmt.Sprintf("%s %s", fn.name, x.Text('g', 25))
						s.SetVar("x", exact23(t, s, r))
						before := ivy.DumpRep(s.Var("x"))
						v, e, p := s.Eval1(fn.name + " x")
						t.Step(1)
						if after := ivy.DumpRep(s.Var("x")); after != before {
							t.Failf("%s changes its operand from %s to %s", what, before, after)
							return
						}
						if e != "" && p == nil {
							one := r.Cmp(rat(1, 1)) == 0 || r.Cmp(rat(-1, 1)) == 0
							if fn.name == "log" && r.Sign() == 0 || fn.name == "atanh" && one ||
								fn.exp && ax > 100 && strings.Contains(e, "did not converge") ||
								ax > 1e15 && strings.Contains(e, "argument too large for the precision of π") && float64(prec)+64+float64(x.MantExp(nil)) > 10000 {
								continue
							}
							t.Failf("%s at precision %d is an error: %s", what, prec, e)
							return
						}
						if fn.name == "log" && r.Sign() == 0 || fn.name == "atanh" && (r.Cmp(rat(1, 1)) == 0 || r.Cmp(rat(-1, 1)) == 0) {
							t.Failf("%s gives %s", what, show(v, e, p))
							return
						}
						want := fn.f(z)
						m := mp.Abs(x)
						if m.Cmp(mp.I(1000)) > 0 && !fn.exp {
							m = mp.I(1000)
						}
						bound := mp.CAbs(want)
						if x.Sign() != 0 && r.Cmp(rat(1, 1)) != 0 && r.Cmp(rat(-1, 1)) != 0 {
							bound = mp.Add(bound, mp.Mul(m, deriv23(fn.f, z, want)))
						}
						if !fn.rel || want.Im.Sign() != 0 {
							bound = mp.Add(bound, mp.I(1))
						}
						if fn.name == "atanh" && want.Im.Sign() != 0 {
							want = side23(v, want, false)
						}
						if !check23(t, what, v, e, p, want, bound, prec) {
							return
						}
						if _, isC := v.(value.Complex); isC && want.Im.Sign() == 0 {
							t.Failf("%s at precision %d gives the complex number %s", what, prec, show(v, e, p))
							return
						}
						t.Observe(fmt.Sprintf("%s %d %s", fn.name, prec, want.Re.Text('g', 20)))
					}
				})
			}
			c.Group("complex " + fn.name)
			var parts []*big.Rat
			for _, x := range []string{"0", "1", "-1", "1/2", "-1/2", "2", "-2", "1/1024", "-1/1024", "3", "-3", "10", "-10", "5/4", "-3/4", "30", "-30", "1e10", "-1e10", "1e-20", "1e40", "-1e40"} {
				parts = append(parts, round23(q(x), prec))
			}
			if !c.Quick {
				for _, x := range []string{"0.9", "1.1", "-1.1", "100", "-100", "1/1048576", "1.5", "-1.5", "6.25", "1e20", "-1e20", "-1e-20"} {
					parts = append(parts, round23(q(x), prec))
				}
			}
			if !full[prec] {
				parts = parts[1:8]
			}
			for ai, a := range parts {
				c.Case(fmt.Sprintf("%s complex prec %d re %d", fn.name, prec, ai), func(t *mc.T) {
					s := mk()
					for _, b := range parts {
						if b.Sign() == 0 {
							continue
						}
						z := mp.C{Re: mp.N().SetRat(a), Im: mp.N().SetRat(b)}
						if az, _ := mp.CAbs(z).Float64(); az > 100 && (fn.exp || fn.name == "sin" || fn.name == "cos" || fn.name == "tan") {
							continue
						}
						what := fmt.Sprintf("%s %s", fn.name, cstr23(z))
						s.SetVar("x", value.NewComplex(exact23(t, s, a), exact23(t, s, b)))
						before := ivy.DumpRep(s.Var("x"))
						v, e, p := s.Eval1(fn.name + " x")
						t.Step(1)
						if after := ivy.DumpRep(s.Var("x")); after != before {
							t.Failf("%s changes its operand from %s to %s", what, before, after)
							return
						}
						if fn.name == "atan" && a.Sign() == 0 && (b.Cmp(rat(1, 1)) == 0 || b.Cmp(rat(-1, 1)) == 0) {
							if e == "" || p != nil {
								t.Failf("%s gives %s", what, show(v, e, p))
							}
							continue
						}
						want := fn.f(z)
						m := mp.CAbs(z)
						bound := mp.Add(mp.I(1), mp.CAbs(want))
						if !(a.Sign() == 0 && (b.Cmp(rat(1, 1)) == 0 || b.Cmp(rat(-1, 1)) == 0)) { // Not the branch points of asinh.
							bound = mp.Add(bound, mp.Mul(m, deriv23(fn.f, z, want)))
						}
						// On the cuts of atan and atanh, or indistinguishably near, either side will do.
						if off := z.Re; fn.name == "atan" || fn.name == "atanh" {
							if fn.name == "atanh" {
								off = z.Im
							}
							if mp.Abs(off).Cmp(mp.Shl(mp.Mul(m, m), -int(prec)+12)) <= 0 && m.Cmp(mp.I(1)) > 0 {
								want = side23(v, want, fn.name == "atan")
							}
						}
						if !check23(t, what, v, e, p, want, bound, prec) {
							return
						}
					}
				})
			}
		}
		c.Group("powers and logarithms")
		bases := []string{"1/1000", "0.1", "1/2", "0.9", "1.001", "1.5", "2", "2.718281828", "3", "10", "100", "12345.678", "1e10", "1e30", "1e-30", "1e-100", "1e100"}
		exps := []string{"1/2", "-1/2", "1/3", "-1/3", "0.1", "-0.1", "1.5", "-1.5", "2.5", "3.75", "-3.75", "10.1", "-10.1", "50.5", "-50.5", "1e-10", "-1e-10", "0.999999", "1.000001", "99.25", "-99.25"}
		for bi, b := range bases {
			c.Case(fmt.Sprintf("** prec %d base %s", prec, b), func(t *mc.T) {
				s := mk()
				for _, x := range exps {
					for _, neg := range []bool{false, true} {
						br, xr := round23(q(b), prec), round23(q(x), prec)
						if neg {
							br = new(big.Rat).Neg(br)
						}
						s.SetVar("b", exact23(t, s, br))
						s.SetVar("x", exact23(t, s, xr))
						v, e, p := s.Eval1("b ** x")
						t.Step(1)
						fb, fx := mp.N().SetRat(br), mp.N().SetRat(xr)
						lg := mp.CMul(mp.CR(fx), mp.CLog(mp.CR(fb)))
						want := mp.CExp(lg)
						what := fmt.Sprintf("** %s ** %s", fb.Text('g', 20), fx.Text('g', 20))
						if a, _ := mp.Abs(lg.Re).Float64(); a > 100 && strings.Contains(e, "did not converge") {
							continue
						}
						bound := mp.Mul(mp.CAbs(want), mp.Add(mp.I(1), mp.Add(mp.CAbs(lg), mp.Abs(fx))))
						if !check23(t, what, v, e, p, want, bound, prec) {
							return
						}
					}
				}
			})
			c.Case(fmt.Sprintf("log prec %d base %s", prec, b), func(t *mc.T) {
				s := mk()
				for bj, x := range bases {
					for _, neg := range []int{0, 1, 2, 3} {
						br, xr := round23(q(b), prec), round23(q(x), prec)
						if neg&1 != 0 {
							br = new(big.Rat).Neg(br)
						}
						if neg&2 != 0 {
							xr = new(big.Rat).Neg(xr)
						}
						_, _ = bi, bj
						s.SetVar("b", exact23(t, s, br))
						s.SetVar("x", exact23(t, s, xr))
						v, e, p := s.Eval1("b log x")
						t.Step(1)
						lb, lx := mp.CLog(mp.CR(mp.N().SetRat(br))), mp.CLog(mp.CR(mp.N().SetRat(xr)))
						want := mp.CDiv(lx, lb)
						what := fmt.Sprintf("log %s log %s", br.RatString(), xr.RatString())
						// An error of one unit of 1 in either logarithm.
						bound := mp.Add(mp.CAbs(want), mp.Div(mp.Add(mp.I(1), mp.CAbs(want)), mp.CAbs(lb)))
						if !check23(t, what, v, e, p, want, bound, prec) {
							return
						}
					}
				}
			})
		}
		// Exact cases.
		c.Case(fmt.Sprintf("exact prec %d", prec), func(t *mc.T) {
			s := mk()
			for b := int64(2); b <= 20; b++ {
				for k := int64(0); k <= 70; k++ {
					s.SetVar("x", numVal(ratI(new(big.Int).Exp(big.NewInt(b), big.NewInt(k), nil))))
					v, e, p := s.Eval1(fmt.Sprintf("%d log x", b))
					t.Step(1)
					if i, ok := v.(value.Int); !ok || int64(i) != k {
						t.Failf("%d log %d**%d gives %s", b, b, k, show(v, e, p))
						return
					}
				}
			}
			// Larger bases and roots.
			var large []*big.Int
			for _, i := range []uint{5, 8, 15, 16, 17, 20, 31, 32, 33, 40, 52, 53, 61, 62, 63, 64, 65, 70, 100, 127, 128, 200, 300, 600} {
				for d := int64(-2); d <= 2; d++ {
					large = append(large, new(big.Int).Add(pow2(i), big.NewInt(d)))
				}
			}
			for i := int64(2); i <= 60; i++ {
				for _, b := range []int64{3, 6, 7, 10} {
					large = append(large, new(big.Int).Exp(big.NewInt(b), big.NewInt(i), nil))
				}
			}
			for _, b := range large {
				s.SetVar("b", numVal(ratI(b)))
				for k := int64(0); k <= 9; k++ {
					x := new(big.Int).Exp(b, big.NewInt(k), nil)
					s.SetVar("x", numVal(ratI(x)))
					v, e, p := s.Eval1("b log x")
					t.Step(1)
					if i, ok := v.(value.Int); !ok || int64(i) != k {
						t.Failf("%d log %d gives %s", b, x, show(v, e, p))
						return
					}
				}
				if 2*b.BitLen() > int(prec) {
					continue // The square is not a number of this precision.
				}
				s.SetVar("x", numVal(ratI(new(big.Int).Mul(b, b))))
				v, e, p := s.Eval1("sqrt x")
				t.Step(1)
				bf, isFloat := v.(value.BigFloat)
				if w := numVal(ratI(b)); e != "" || p != nil || ivy.DumpRep(v) != ivy.DumpRep(w) &&
					!(isFloat && b.BitLen() > 100 && bf.Cmp(new(big.Float).SetInt(b)) == 0) { // Large floats are not made integers.
					t.Failf("sqrt %d**2 at precision %d gives %s", b, prec, show(v, e, p))
					return
				}
			}
			for k := int64(0); k <= 3000; k++ {
				s.SetVar("x", numVal(rat(k*k, 1)))
				v, e, p := s.Eval1("sqrt x")
				t.Step(1)
				if i, ok := v.(value.Int); !ok || int64(i) != k {
					t.Failf("sqrt %d at precision %d gives %s", k*k, prec, show(v, e, p))
					return
				}
				v, e, p = s.Eval1("sqrt -x")
				if k > 0 {
					cv, ok := parts23(v)
					if !ok || cv.Re.Sign() != 0 || cv.Im.Cmp(mp.I(k)) != 0 {
						t.Failf("sqrt -%d at precision %d gives %s", k*k, prec, show(v, e, p))
						return
					}
				}
			}
		})
		c.Case(fmt.Sprintf("constants prec %d", prec), func(t *mc.T) {
			s := mk()
			for name, want := range map[string]*mp.F{"pi": mp.Pi(), "e": mp.Exp(mp.I(1))} {
				v, e, p := s.Eval1(name)
				t.Step(1)
				f, ok := v.(value.BigFloat)
				w := new(big.Float).SetPrec(prec).Set(want)
				if e != "" || p != nil || !ok || f.Float.Cmp(w) != 0 {
					t.Failf("%s at precision %d gives %s, want %s", name, prec, show(v, e, p), w.Text('g', 40))
				}
			}
		})
	}
}
