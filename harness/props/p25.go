package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P25", Run: runP25,
		Rule:        "every pair over a grid of complex numbers whose parts run over small, fractional, word-boundary and big values (zero parts included, and every real as itself) x + - * / j == != === and or xor nand nor ** (integer exponents) and the unary + - / conj real imag floor ceil not, against exact Gaussian-rational arithmetic, comparing value and representation; every order and integer operator on the grid must be an error",
		Assumptions: []string{"other parts than those of the grid behave alike"}})
}

type cx struct{ re, im *big.Rat }

func (z cx) zero() bool { return z.re.Sign() == 0 && z.im.Sign() == 0 }

func (z cx) String() string { return lit(z.re) + "j" + lit(z.im) }

func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }

func (z cx) add(w cx) cx { return cx{radd(z.re, w.re), radd(z.im, w.im)} }
func (z cx) sub(w cx) cx { return cx{rsub(z.re, w.re), rsub(z.im, w.im)} }
func (z cx) mul(w cx) cx {
	return cx{rsub(rmul(z.re, w.re), rmul(z.im, w.im)), radd(rmul(z.re, w.im), rmul(z.im, w.re))}
}
func (z cx) conj() cx { return cx{z.re, new(big.Rat).Neg(z.im)} }
func (z cx) neg() cx  { return cx{new(big.Rat).Neg(z.re), new(big.Rat).Neg(z.im)} }
func (z cx) inv() cx {
	n := new(big.Rat).Inv(radd(rmul(z.re, z.re), rmul(z.im, z.im)))
	return z.conj().mul(cx{n, new(big.Rat)})
}

func rfloor(r *big.Rat) *big.Rat { return ratI(new(big.Int).Div(r.Num(), r.Denom())) }

// floor is McDonnell's complex floor: the unit squares cut along the
// anti-diagonal below belong to their corner; the rest go right or up.
func (z cx) floor() cx {
	a, b := rfloor(z.re), rfloor(z.im)
	x, y := rsub(z.re, a), rsub(z.im, b)
	one := rat(1, 1)
	switch {
	case radd(x, y).Cmp(one) < 0:
	case x.Cmp(y) >= 0:
		a = radd(a, one)
	default:
		b = radd(b, one)
	}
	return cx{a, b}
}

var rep25 = map[string]string{}

func num25(r *big.Rat) string {
	k := r.String()
	s, ok := rep25[k]
	if !ok {
		s = ivy.DumpRep(numVal(r))
		rep25[k] = s
	}
	return s
}

// dump25 is how ivy must represent z.
func dump25(z cx) string {
	if z.im.Sign() == 0 {
		return num25(z.re)
	}
	return "C(" + num25(z.re) + " " + num25(z.im) + ")"
}

func runP25(c *mc.Ctx) {
	s := ivy.New()
	parts := []*big.Rat{rat(0, 1), rat(1, 1), rat(-1, 1), rat(2, 1), rat(-5, 1), rat(1, 2), rat(-3, 4), rat(7, 3), rat(1<<31-1, 1), rat(-1<<31, 1), ratI(pow2(63)), new(big.Rat).SetFrac(bi("-1"), pow2(65))}
	if !c.Quick {
		parts = append(parts, rat(3, 1), rat(4, 1), rat(-2, 1), rat(-7, 1), rat(-1, 2), rat(5, 4), rat(1<<31, 1), rat(1<<32, 1), ratI(new(big.Int).Neg(pow2(63))), ratI(bi("100000000000000000000")), rat(1, 1000000007))
	}
	var grid []cx
	for _, a := range parts {
		for _, b := range parts {
			grid = append(grid, cx{a, b})
		}
	}
	vals := make([]value.Value, len(grid))
	c.Group("make")
	for i, z := range grid {
		// Every spelling makes the same number.
		v, e, p := s.Eval1(plit(z.re) + " j " + plit(z.im))
		if e != "" || p != nil {
			vals[i] = value.Int(0)
		} else {
			vals[i] = v
		}
		c.Case("make "+z.String(), func(t *mc.T) {
			for _, src := range []string{plit(z.re) + " j " + plit(z.im), z.String(), plit(z.re) + " + j " + plit(z.im), "(" + z.String() + ")", plit(z.re) + " + 0j1 * " + plit(z.im)} {
				v, e, p := s.Eval1(src)
				t.Step(1)
				got := strings.ReplaceAll(show(v, e, p), "I-2147483648", "-2147483648")
				if x, ok := v.(value.Complex); ok && z.im.Sign() == 0 {
					// A written or joined zero imaginary part may stay.
					re, im := x.Components()
					if ivy.DumpRep(im) == "0" {
						got = ivy.DumpRep(re)
					}
				}
				if e != "" || p != nil || got != dump25(z) {
					t.Failf("%s is %s, should be %s", src, got, dump25(z))
				}
			}
		})
	}
	get := func(t *mc.T, src, what, want string) {
		v, e, p := s.Eval1(src)
		t.Step(1)
		got := strings.ReplaceAll(show(v, e, p), "I-2147483648", "-2147483648") // Either is fine.
		if want == "error" {
			if e == "" || p != nil {
				t.Failf("%s is %s, should be an error", what, got)
			}
			return
		}
		if got != want {
			t.Failf("%s is %s, should be %s", what, got, want)
		}
		t.Observe(got)
	}
	b2s := func(b bool) string {
		if b {
			return "1"
		}
		return "0"
	}
	c.Group("unary")
	for i, z := range grid {
		c.Case("unary "+z.String(), func(t *mc.T) {
			s.SetVar("u", vals[i])
			inv := "error"
			if !z.zero() {
				inv = dump25(z.inv())
			}
			for _, k := range []struct{ op, want string }{
				{"+", dump25(z)}, {"-", dump25(z.neg())}, {"/", inv}, {"inv", inv}, {"conj", dump25(z.conj())}, {"real", num25(z.re)}, {"imag", num25(z.im)},
				{"not", b2s(z.zero())}, {"floor", dump25(z.floor())}, {"ceil", dump25(z.neg().floor().neg())}, {"0j1 *", dump25(z.mul(cx{rat(0, 1), rat(1, 1)}))},
				{"- -", dump25(z)}, {"conj conj", dump25(z)},
			} {
				if z.im.Sign() == 0 && (k.op == "floor" || k.op == "ceil") {
					continue // Real: P01.
				}
				get(t, k.op+" u", k.op+" "+z.String(), k.want)
			}
			if z.im.Sign() != 0 {
				for _, op := range []string{"!", "iota", "^", "char", "rho", "?"} {
					if op == "rho" {
						continue
					}
					get(t, op+" u", op+" "+z.String(), "error")
				}
			} else {
				get(t, "j u", "j "+z.String(), dump25(cx{rat(0, 1), z.re}))
			}
			// Powers.
			if z.re.Num().BitLen() < 40 && z.im.Num().BitLen() < 40 {
				pw := cx{rat(1, 1), rat(0, 1)}
				for n := 0; n <= 17; n++ {
					s.SetVar("n", value.Int(n))
					get(t, "u ** n", fmt.Sprintf("%s ** %d", z, n), dump25(pw))
					if n > 0 {
						want := "error"
						if !z.zero() {
							want = dump25(pw.inv())
						}
						s.SetVar("n", value.Int(-n))
						get(t, "u ** n", fmt.Sprintf("%s ** %d", z, -n), want)
					}
					pw = pw.mul(z)
				}
			}
		})
	}
	c.Group("binary")
	for i, z := range grid {
		for k, w := range grid {
			if z.im.Sign() == 0 && w.im.Sign() == 0 {
				continue
			}
			c.Case(fmt.Sprintf("binary %s %s", z, w), func(t *mc.T) {
				s.SetVar("u", vals[i])
				s.SetVar("v", vals[k])
				name := func(op string) string { return z.String() + " " + op + " " + w.String() }
				quo := "error"
				if !w.zero() {
					quo = dump25(z.mul(w.inv()))
				}
				eq := z.re.Cmp(w.re) == 0 && z.im.Cmp(w.im) == 0
				a, b := !z.zero(), !w.zero()
				for _, x := range []struct{ op, want string }{
					{"+", dump25(z.add(w))}, {"-", dump25(z.sub(w))}, {"*", dump25(z.mul(w))}, {"/", quo},
					{"==", b2s(eq)}, {"!=", b2s(!eq)}, {"===", b2s(eq)}, {"!==", b2s(!eq)}, {"in", b2s(eq)},
					{"and", b2s(a && b)}, {"or", b2s(a || b)}, {"xor", b2s(a != b)}, {"nand", b2s(!(a && b))}, {"nor", b2s(!(a || b))},
				} {
					get(t, "u "+x.op+" v", name(x.op), x.want)
				}
				for _, op := range []string{"<", "<=", ">", ">=", "max", "min", "div", "idiv", "mod", "imod", "&", "|", "^", "<<", ">>", "!", "j"} {
					if op == "j" && (z.im.Sign() == 0 && w.im.Sign() == 0) {
						continue
					}
					get(t, "u "+op+" v", name(op), "error")
				}
				// The operands are as they were.
				if ivy.DumpRep(s.Var("u")) != ivy.DumpRep(vals[i]) || ivy.DumpRep(s.Var("v")) != ivy.DumpRep(vals[k]) {
					t.Failf("%s: operands changed", name("?"))
				}
			})
		}
	}
}
