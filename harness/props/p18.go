package props

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P18", Run: runP18,
		Rule:        "(maxbits) for each limit in 0, 64..140 (thorough 64..600), 200, 1000 all pairs of integers ±(2^k+d), d in -1..1, k over machine-word and limit boundaries, under + - * gcd & | ^ div mod, with all exponents and shift counts to the limit, factorials and combinations to 300, all reductions and scans of triples, decode of digit vectors, floor and ceil of floats around 2^k; (maxstack) for limits 1..12 (thorough 1..40) every depth to the limit+2 through ten kinds of nested call, after every sequence of up to 3 of {fitting call, overflowing call, failing call at depth k}; (maxdigits) limits 0..60 and 10^k+d, 2^k+d for all k to 60 digits, alone, in vectors, matrices and rationals, in bases 2, 8, 10 and 16.",
		Assumptions: []string{"limits below 64 bits, integers read from literals and intermediate rational numerators are not claimed; a result may also be refused when the sizes of the operands allow a result longer than the limit (one more bit than the longer operand for + and -, the sum of lengths for *, length times exponent for **, length plus count for <<); bitwise operations on negative integers may yield -2^n; integers that fit a machine word always print in full"}})
}

func runP18(c *mc.Ctx) {
	p18bits(c)
	p18stack(c)
	p18digits(c)
}

func p18bits(c *mc.Ctx) {
	c.Group("maxbits")
	limits := []int{0, 64, 65, 66, 70, 100, 127, 128, 129, 200, 1000}
	last := 140
	if !c.Quick {
		last = 600
	}
	for n := 67; n < last; n++ {
		limits = append(limits, n)
	}
	for _, n := range limits {
		top := n
		if n == 0 {
			top = 300
		}
		ks := map[int]bool{}
		for _, k := range []int{0, 1, 2, 31, 32, 33, 61, 62, 63, 64, 65, 66, top/2 - 1, top / 2, top/2 + 1, top - 3, top - 2, top - 1, top} {
			ks[k] = true
		}
		seen := map[string]bool{}
		var ints []*big.Int
		for k := range top + 1 {
			if !ks[k] {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(pow2(uint(k)), big.NewInt(d))
				for _, y := range []*big.Int{x, new(big.Int).Neg(x)} {
					if y.BitLen() <= top && !seen[y.String()] {
						seen[y.String()] = true
						ints = append(ints, y)
					}
				}
			}
		}
		s := ivy.New()
		s.Run(fmt.Sprintf(")maxbits %d", n))
		// check runs expr; want is the exact result (nil: an error anyway), est the
		// length that the operand sizes allow.
		check := func(t *mc.T, expr string, want *big.Int, est int) {
			v, e, p := s.Eval1(expr)
			t.Step(1)
			if p != nil {
				t.Failf("maxbits %d: %s: %v", n, expr, p)
				return
			}
			if e == "" {
				got := intOf18(v)
				if got == nil || want != nil && got.Cmp(want) != 0 {
					t.Failf("maxbits %d: %s is %s", n, expr, clipS(show(v, e, p), 200))
				} else if n > 0 && got.BitLen() > n && !(got.Sign() < 0 && got.BitLen() == n+1 && strings.ContainsAny(expr, "&|^")) {
					t.Failf("maxbits %d: %s produces %d bits", n, expr, got.BitLen())
				}
				return
			}
			if want == nil {
				return
			}
			if n == 0 || est <= n {
				t.Failf("maxbits %d: %s (%d bits) refused: %s", n, expr, want.BitLen(), e)
			}
		}
		set := func(name string, x *big.Int) { s.SetVar(name, numVal(new(big.Rat).SetInt(x))) }
		for _, x := range ints {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("maxbits %d, x = %s", n, clipS(x.String(), 60)), func(t *mc.T) {
				set("x", x)
				lx := x.BitLen()
				for _, y := range ints {
					set("y", y)
					ly := y.BitLen()
					m := max(lx, ly)
					z := func() *big.Int { return new(big.Int) }
					sum, dif, prod := z().Add(x, y), z().Sub(x, y), z().Mul(x, y)
					check(t, "x + y", sum, m+1)
					check(t, "x - y", dif, m+1)
					check(t, "x * y", prod, lx+ly)
					check(t, "x & y", z().And(x, y), m)
					check(t, "x | y", z().Or(x, y), m)
					check(t, "x ^ y", z().Xor(x, y), m)
					check(t, "x max y", nil, m)
					if y.Sign() != 0 {
						check(t, "x idiv y", z().Quo(x, y), m)
						check(t, "x imod y", z().Rem(x, y), m)
						check(t, "x div y", z().Div(x, y), m+1)
						check(t, "x mod y", z().Mod(x, y), m+1)
					}
					// The folds of x y x.
					fold := func(op string, f func(a, b *big.Int) (*big.Int, int)) {
						r, e1 := f(y, x)
						r2, e2 := f(x, r)
						// The first step may legitimately be refused.
						if n == 0 || e1 <= n {
							check(t, op+"/x y x", r2, max(e1, e2))
						} else {
							check(t, op+"/x y x", nil, 0)
						}
					}
					fold("+", func(a, b *big.Int) (*big.Int, int) { return z().Add(a, b), max(a.BitLen(), b.BitLen()) + 1 })
					fold("*", func(a, b *big.Int) (*big.Int, int) { return z().Mul(a, b), a.BitLen() + b.BitLen() })
					fold("-", func(a, b *big.Int) (*big.Int, int) { return z().Sub(a, b), max(a.BitLen(), b.BitLen()) + 1 })
					t.Observe(fmt.Sprint(n, sum.BitLen(), prod.BitLen()))
					// Elementwise, inner product and decode are made of the same steps.
					check(t, "(x y x + y)[2]", z().Add(y, y), m+1)
					ip := z().Add(z().Mul(x, y), z().Mul(y, x))
					check(t, "x y +.* y x", ip, lx+ly+1)
					if x.Sign() > 0 && y.Sign() > 0 {
						check(t, "x decode 0 y 1", nil, 0)
					}
				}
				for sh := 0; sh <= top+2; sh++ {
					if sh > 70 && sh < top/2-1 || sh > top/2+1 && sh < top-lx-2 {
						continue
					}
					s.SetVar("y", value.Int(sh))
					check(t, "x << y", new(big.Int).Lsh(x, uint(sh)), lx+sh)
					check(t, "x >> y", new(big.Int).Rsh(x, uint(sh)), lx)
				}
				if lx > 0 {
					for e := 0; e <= top/lx+2; e++ {
						if e > 6 && e < top/lx-2 && e%37 != 0 {
							continue
						}
						s.SetVar("y", value.Int(e))
						r := new(big.Int).Exp(x, big.NewInt(int64(e)), nil)
						est := lx * e
						if r.BitLen() <= 1 {
							est = 1
						}
						check(t, "x ** y", r, est)
					}
				}
				check(t, "-x", new(big.Int).Neg(x), lx)
				check(t, "abs x", new(big.Int).Abs(x), lx)
				check(t, "floor x", x, lx)
				// floor and ceil of floats and rationals near x.
				for _, d := range []string{"1/2", "-1/2", "1/4"} {
					q, _ := new(big.Rat).SetString(d)
					q.Add(q, new(big.Rat).SetInt(x))
					fl := new(big.Int).Div(q.Num(), q.Denom())
					ce := new(big.Int).Add(fl, big.NewInt(1))
					if top < 240 {
						s.SetVar("y", value.BigFloat{Float: new(big.Float).SetPrec(256).SetRat(q)})
						check(t, "floor y", fl, fl.BitLen()+1)
						check(t, "ceil y", ce, max(fl.BitLen(), ce.BitLen()))
					}
				}
				f := new(big.Float).SetPrec(256).SetInt(x)
				for _, k := range []int{0, 1, top, 5 * top, 1000000} {
					s.SetVar("y", value.BigFloat{Float: new(big.Float).SetMantExp(f, k)})
					if n > 0 || k < 1000000 {
						w := new(big.Int)
						if k < 1000000 {
							new(big.Float).SetMantExp(f, k).Int(w)
							check(t, "floor y", w, w.BitLen())
						} else {
							check(t, "ceil y", nil, 0)
						}
					}
				}
			})
		}
		c.Case(fmt.Sprintf("maxbits %d: factorials and combinations", n), func(t *mc.T) {
			f := big.NewInt(1)
			for k := int64(0); k <= 300; k++ {
				if k > 0 {
					f = new(big.Int).Mul(f, big.NewInt(k))
				}
				s.SetVar("x", value.Int(k))
				check(t, "!x", f, f.BitLen())
				for j := int64(0); j <= k; j += 1 + k/20 {
					s.SetVar("y", value.Int(j))
					b := new(big.Int).Binomial(k, j)
					check(t, "y!x", b, b.BitLen())
				}
			}
			for _, e := range []string{"!1e6", "2**1e12", "3**1e12", "1<<1e12", "1e6!2e6", "(-2)**1e12", "(2**63)**1e10", "(2**62)**1e18"} {
				if n > 0 {
					v, er, p := s.Eval1(e)
					t.Step(1)
					if er == "" || p != nil {
						t.Failf("maxbits %d: %s: %s", n, e, clipS(show(v, er, p), 100))
					}
				}
			}
		})
	}
}

func intOf18(v value.Value) *big.Int {
	r, ok := ratOf(v)
	if !ok || !r.IsInt() {
		return nil
	}
	return r.Num()
}

func p18stack(c *mc.Ctx) {
	c.Group("maxstack")
	lim := 12
	if !c.Quick {
		lim = 40
	}
	// Each kind calls itself to depth z; the result is z.
	kinds := []struct{ name, defs, call string }{
		{"unary", "op k z = z <= 1: 1; 1 + k z - 1", "k %d"},
		{"binary", "op x k z = z <= 1: 1; x + x k z - 1", "1 k %d"},
		{"mutual", "op a k z\nop j z = z <= 1: 1; 1 + 0 k z - 1\nop a k z = z <= 1: 1; 1 + j z - 1", "j %d"},
		{"multiline", "op k z =\n y = z - 1\n y <= 0: 1\n r = k y\n 1 + r\n", "k %d"},
		{"each", "op k z\nop k z = z <= 1: 1; 1 + (k@ z - 1)[1]", "k %d"},
		{"ivy", "op k z = z <= 1: 1; 1 + ivy 'k ', text z - 1", "k %d"},
		{"reduction", "op a k z\nop a k z = z <= 1: 1; 1 + k/0, z - 1", "0 k %d"},
		{"inner product", "op a k z\nop a k z = z <= 1: 1; 1 + (,0) +.k ,z - 1", "0 k %d"},
		{"index", "op k z = z <= 1: 1; 1 + (iota 99)[k z - 1]", "k %d"},
		{"argument", "op k (z y) = z <= 1: 1; 1 + k (z - 1) y", "k %d 5"},
	}
	for _, kd := range kinds {
		for m := 1; m <= lim; m++ {
			hist := []string{"ok", "over", "fail1", "failm", "deep"}
			var rec func(h []string)
			rec = func(h []string) {
				if !c.Skip() {
					c.Do(fmt.Sprintf("maxstack %d %s after %v", m, kd.name, h), func(t *mc.T) {
						s := ivy.New()
						s.Run(kd.defs)
						s.Run(fmt.Sprintf("op fk z = z <= 1: 1/zero; 1 + fk z - 1\nzero = 0\n)maxstack %d", m))
						call := func(d int) (string, bool) {
							v, e, p := s.Eval1(fmt.Sprintf(kd.call, d))
							t.Step(1)
							if p != nil {
								return fmt.Sprint(p), false
							}
							if e == "" {
								d2, ok := ratOf(v)
								return show(v, e, p), d <= m && ok && d2.Cmp(big.NewRat(int64(d), 1)) == 0
							}
							return e, d > m && strings.Contains(e, "stack overflow")
						}
						for _, x := range h {
							switch x {
							case "ok":
								call(m)
							case "over":
								call(m + 1)
							case "deep":
								call(m + 50)
							case "fail1":
								s.Eval1("fk 1")
							case "failm":
								s.Eval1(fmt.Sprintf("fk %d", m))
							}
						}
						for _, d := range []int{m + 1, m, m + 2, m, 1, max(1, m-1)} {
							if got, ok := call(d); !ok {
								t.Failf("maxstack %d, %s nested %d deep after %v: %s", m, kd.name, d, h, got)
								return
							}
						}
						t.Observe(fmt.Sprint(m, kd.name))
						for _, d := range []int{m + 1, m} {
							v, e, p := s.Eval1(fmt.Sprintf("fk %d", d))
							if p != nil || (d > m) != strings.Contains(e, "stack overflow") {
								t.Failf("maxstack %d, failing operator nested %d deep after %v: %s", m, d, h, show(v, e, p))
								return
							}
						}
					})
				}
				if len(h) == 3 || m > 4 && len(h) == 1 {
					return
				}
				for _, x := range hist {
					rec(append(h[:len(h):len(h)], x))
				}
			}
			rec(nil)
		}
	}
}

func p18digits(c *mc.Ctx) {
	c.Group("maxdigits")
	for m := 0; m <= 60; m++ {
		c.Case(fmt.Sprintf("maxdigits %d", m), func(t *mc.T) {
			s := ivy.New()
			s.Run(fmt.Sprintf(")maxdigits %d", m))
			var xs []*big.Int
			for k := 19; k <= 60; k++ {
				for d := int64(-1); d <= 1; d++ {
					xs = append(xs, new(big.Int).Add(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil), big.NewInt(d)))
				}
			}
			for k := 63; k <= 200; k++ {
				xs = append(xs, pow2(uint(k)), new(big.Int).Sub(pow2(uint(k)), big.NewInt(1)))
			}
			for _, x := range xs {
				if x.BitLen() <= 63 {
					continue
				}
				for _, y := range []*big.Int{x, new(big.Int).Neg(x)} {
					str := y.String()
					digits := len(strings.TrimPrefix(str, "-"))
					long := m != 0 && digits > m
					for _, ob := range []int{0, 2, 8, 10, 16} {
						v := value.BigInt{Int: y}
						s.SetVar("x", v)
						s.Conf.SetBase(0, ob)
						out, e, p := s.Run("x")
						t.Step(1)
						out = strings.TrimSuffix(out, "\n")
						b := ob
						if b == 0 {
							b = 10
						}
						want := y.Text(b)
						if p != nil || e != "" || !long && out != want || long && !floatForm18(out, y) {
							t.Failf("maxdigits %d obase %d: %s (%d digits) prints as %q %s %v", m, ob, str, digits, out, e, p)
							return
						}
						if ob == 0 && y == x {
							// Inside arrays and rationals.
							out2, _, _ := s.Run("x 1 x")
							if out2 != out+" 1 "+out+"\n" {
								t.Failf("maxdigits %d: x 1 x for x = %s prints as %q", m, str, out2)
								return
							}
							out2, _, _ = s.Run("2 1 rho x x")
							if out2 != out+"\n"+out+"\n" {
								t.Failf("maxdigits %d: 2 1 rho x for x = %s prints as %q", m, str, out2)
								return
							}
							s.SetVar("r", value.BigRat{Rat: new(big.Rat).SetFrac(y, new(big.Int).Sub(y, big.NewInt(1)))})
							out2, _, _ = s.Run("r")
							if a, _, _ := strings.Cut(out2, "/"); a != out {
								t.Failf("maxdigits %d: x/(x-1) for x = %s prints as %q", m, str, out2)
								return
							}
						}
						if w, _, _ := s.Eval1("x"); ivy.DumpRep(w) != ivy.DumpRep(v) {
							t.Failf("maxdigits %d: printing changed the value of %s", m, str)
							return
						}
						if w, e, _ := s.Eval1("(x + 1) - 1"); e != "" || ivy.DumpRep(w) != ivy.DumpRep(v) {
							t.Failf("maxdigits %d: arithmetic on %s is not exact", m, str)
							return
						}
					}
					t.Observe(fmt.Sprint(m, long))
				}
			}
		})
	}
}

// floatForm18 reports whether text is a floating form of x of some digits.
func floatForm18(text string, x *big.Int) bool {
	if !strings.ContainsAny(text, "e.") {
		return false
	}
	f, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return false
	}
	g, _ := new(big.Float).SetInt(x).Float64()
	d := (f - g) / g
	return -1e-10 < d && d < 1e-10
}
