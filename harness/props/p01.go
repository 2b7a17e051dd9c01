package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P01", Run: runP01,
		Rule:        "all operators x all operand pairs of a boundary alphabet (literal operands, computed operands, and all depth-2 compositions over a smaller alphabet), each evaluated by the real interpreter and compared with exact math/big arithmetic; results whose representation differs from that of the literal are put through an observational-equality battery",
		Assumptions: []string{"operands outside the alphabet behave like the alphabet member of the same representation class", "math/big is correct"}})
}

type refKind int

const (
	refOK refKind = iota
	refErr
	refUndef // outside the domain the property speaks about
)

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)

func b2r(b bool) *big.Rat {
	if b {
		return ratOne
	}
	return ratZero
}

// refBinary is the exact oracle for the scalar binary operators.
func refBinary(op string, x, y *big.Rat) (*big.Rat, refKind) {
	ints := x.IsInt() && y.IsInt()
	xi, yi := x.Num(), y.Num()
	z := new(big.Rat)
	switch op {
	case "+":
		return z.Add(x, y), refOK
	case "-":
		return z.Sub(x, y), refOK
	case "*":
		return z.Mul(x, y), refOK
	case "/":
		if y.Sign() == 0 {
			return nil, refErr
		}
		return z.Quo(x, y), refOK
	case "max":
		if x.Cmp(y) > 0 {
			return x, refOK
		}
		return y, refOK
	case "min":
		if x.Cmp(y) < 0 {
			return x, refOK
		}
		return y, refOK
	case "==":
		return b2r(x.Cmp(y) == 0), refOK
	case "!=":
		return b2r(x.Cmp(y) != 0), refOK
	case "<":
		return b2r(x.Cmp(y) < 0), refOK
	case "<=":
		return b2r(x.Cmp(y) <= 0), refOK
	case ">":
		return b2r(x.Cmp(y) > 0), refOK
	case ">=":
		return b2r(x.Cmp(y) >= 0), refOK
	case "and":
		return b2r(x.Sign() != 0 && y.Sign() != 0), refOK
	case "or":
		return b2r(x.Sign() != 0 || y.Sign() != 0), refOK
	case "xor":
		return b2r((x.Sign() != 0) != (y.Sign() != 0)), refOK
	case "nand":
		return b2r(!(x.Sign() != 0 && y.Sign() != 0)), refOK
	case "nor":
		return b2r(!(x.Sign() != 0 || y.Sign() != 0)), refOK
	case "&", "|", "^":
		if !ints {
			return nil, refErr
		}
		r := new(big.Int)
		switch op {
		case "&":
			r.And(xi, yi)
		case "|":
			r.Or(xi, yi)
		case "^":
			r.Xor(xi, yi)
		}
		return ratI(r), refOK
	case "<<", ">>":
		if !ints || yi.Sign() < 0 {
			return nil, refErr
		}
		if yi.BitLen() > 14 {
			return nil, refUndef
		}
		n := uint(yi.Uint64())
		r := new(big.Int)
		if op == "<<" {
			r.Lsh(xi, n)
		} else {
			r.Rsh(xi, n)
		}
		return ratI(r), refOK
	case "div", "mod":
		if op == "div" && !ints {
			return nil, refErr
		}
		if y.Sign() == 0 {
			if op == "mod" {
				return x, refOK // APL residue: 0|x is x.
			}
			return nil, refErr
		}
		// q integer, 0 <= x-q*y < |y|
		q := euclid(x, y)
		if op == "div" {
			return ratI(q), refOK
		}
		return z.Sub(x, z.Mul(ratI(q), y)), refOK
	case "idiv", "imod":
		if !ints || y.Sign() == 0 {
			return nil, refErr
		}
		q, r := new(big.Int).QuoRem(xi, yi, new(big.Int))
		if op == "idiv" {
			return ratI(q), refOK
		}
		return ratI(r), refOK
	case "**":
		if !y.IsInt() {
			return nil, refUndef
		}
		if y.Sign() == 0 {
			return ratOne, refOK
		}
		if x.Sign() == 0 {
			if y.Sign() < 0 {
				return nil, refErr
			}
			return ratZero, refOK
		}
		if x.IsInt() && xi.CmpAbs(big.NewInt(1)) == 0 {
			if xi.Sign() > 0 || yi.Bit(0) == 0 {
				return ratOne, refOK
			}
			return big.NewRat(-1, 1), refOK
		}
		if yi.BitLen() > 10 {
			return nil, refUndef
		}
		e := new(big.Int).Abs(yi)
		n := new(big.Int).Exp(x.Num(), e, nil)
		d := new(big.Int).Exp(x.Denom(), e, nil)
		if y.Sign() < 0 {
			n, d = d, n
		}
		return z.SetFrac(n, d), refOK
	case "!":
		if !ints || xi.Sign() < 0 || yi.Sign() < 0 || xi.BitLen() > 31 || yi.BitLen() > 12 {
			return nil, refUndef
		}
		if yi.Sign() == 0 {
			return ratOne, refOK // a!0 is 1 by definition here (pinned by the golden tests)
		}
		if xi.Cmp(yi) > 0 {
			return ratZero, refOK
		}
		return ratI(new(big.Int).Binomial(yi.Int64(), xi.Int64())), refOK
	}
	panic("refBinary " + op)
}

// euclid returns the integer q with 0 <= x-q*y < |y|.
func euclid(x, y *big.Rat) *big.Int {
	t := new(big.Rat).Quo(x, new(big.Rat).Abs(y))
	// floor
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(t.Num(), t.Denom(), m)
	if y.Sign() < 0 {
		q.Neg(q)
	}
	return q
}

func refUnary(op string, x *big.Rat) (*big.Rat, refKind) {
	z := new(big.Rat)
	switch op {
	case "+":
		return x, refOK
	case "-":
		return z.Neg(x), refOK
	case "/":
		if x.Sign() == 0 {
			return nil, refErr
		}
		return z.Inv(x), refOK
	case "abs":
		return z.Abs(x), refOK
	case "sgn":
		return big.NewRat(int64(x.Sign()), 1), refOK
	case "not":
		return b2r(x.Sign() == 0), refOK
	case "^":
		if !x.IsInt() {
			return nil, refErr
		}
		return ratI(new(big.Int).Not(x.Num())), refOK
	case "floor":
		return ratI(euclid(x, ratOne)), refOK
	case "ceil":
		return z.Neg(ratI(euclid(new(big.Rat).Neg(x), ratOne))), refOK
	case "!":
		if !x.IsInt() {
			return nil, refErr
		}
		if x.Sign() < 0 {
			return nil, refErr
		}
		if x.Num().BitLen() > 12 {
			return nil, refUndef
		}
		n := x.Num().Int64()
		r := big.NewInt(1)
		for i := int64(2); i <= n; i++ {
			r.Mul(r, big.NewInt(i))
		}
		return ratI(r), refOK
	}
	panic("refUnary " + op)
}

var p01Binary = []string{"+", "-", "*", "/", "**", "max", "min", "==", "!=", "<", "<=", ">", ">=",
	"and", "or", "xor", "nand", "nor", "&", "|", "^", "<<", ">>", "!"}
var p01Unary = []string{"+", "-", "/", "abs", "sgn", "not", "^", "floor", "ceil", "!"}

// checkExact compares an outcome with the oracle.
func checkExact(t *mc.T, s *ivy.Sess, src string, v value.Value, err string, p *ivy.Panic, want *big.Rat, kind refKind) {
	t.Step(1)
	if p != nil {
		t.Failf("%s: %s", src, p)
		return
	}
	if kind == refUndef {
		return
	}
	if kind == refErr {
		if err == "" {
			t.Failf("%s: want an error, got %s", src, ivy.DumpRep(v))
		}
		return
	}
	if err != "" {
		t.Failf("%s: want %s, got error %s", src, lit(want), err)
		return
	}
	got, ok := ratOf(v)
	if !ok || got.Cmp(want) != 0 {
		t.Failf("%s: want %s, got %s", src, lit(want), ivy.DumpRep(v))
		return
	}
	t.Observe(lit(want))
	battery(t, s, src, v, want)
}

// battery checks that v is observationally the literal `want`.
func battery(t *mc.T, s *ivy.Sess, src string, v value.Value, want *big.Rat) {
	l, err, p := s.Eval1(lit(want))
	if err != "" || p != nil {
		t.Failf("%s: literal %s does not evaluate: %s", src, lit(want), show(l, err, p))
		return
	}
	if v.Sprint(s.Conf) != l.Sprint(s.Conf) {
		t.Failf("%s: prints %q, the literal prints %q", src, v.Sprint(s.Conf), l.Sprint(s.Conf))
		return
	}
	if ivy.DumpRep(l) == ivy.DumpRep(v) && fmt.Sprintf("%T", l) == fmt.Sprintf("%T", v) {
		return
	}
	// Represented differently: must not matter.
	s.SetVar("bat_v", v)
	s.SetVar("bat_l", l)
	for _, e := range []string{"V === L", "L === V", "V == L", "V in L", "L in V", "V iota L", "(V,1/2) iota L", "V - L", "V + L", "V * L", "V * V",
		"-V", "abs V", "sgn V", "not V", "V & L", "V | 5", "V ^ 5", "^V", "V ** 2", "V ** -1", "/V", "V / 7", "7 / V", "V div 7", "V mod 7", "V idiv 7", "V imod 7",
		"7 div V", "7 mod V", "V max L", "V min L", "V < 3", "V > 3", "floor V", "ceil V", "V << 1", "V >> 1", "V j 1", "float V", "V and 1", "V == 1/2", "up V, 1, L", "unique V, L", "V union L", "V intersect L",
		"2 2 encode V", "V encode 9", "V decode 1 1", "text V", "2 text V", "code text V"} {
		a, b := strings.ReplaceAll(e, "V", "bat_v"), strings.ReplaceAll(e, "V", "bat_l")
		a, b = strings.ReplaceAll(a, "L", "bat_l"), strings.ReplaceAll(b, "L", "bat_l")
		batCmp(t, s, src, e, a, b)
	}
	if want.IsInt() && want.Num().IsInt64() {
		if n := want.Num().Int64(); n >= -20 && n <= 20 {
			for _, e := range []string{"(iota 10)[V]", "V rho 3", "V take 1 2 3", "V drop 1 2 3", "V rot 1 2 3", "V flip 1 2 3", "1 << V", "1 >> V", "iota V", "V ! 9", "9 ! V", "!V", "char 65 + V", "V sel 5", "V fill 5", "V part 5", "V transp 1 2", "2 ** V", "V rho 'a'", "where V V"} {
				a, b := strings.ReplaceAll(e, "V", "bat_v"), strings.ReplaceAll(e, "V", "bat_l")
				batCmp(t, s, src, e, a, b)
			}
		}
	}
}

func batCmp(t *mc.T, s *ivy.Sess, src, e, a, b string) {
	va, ea, pa := s.Eval1(a)
	vb, eb, pb := s.Eval1(b)
	t.Step(1)
	if pa != nil {
		t.Failf("%s: V=that, then %s: %s", src, e, pa)
		return
	}
	if pb != nil {
		return
	}
	da, db := "error", "error"
	if ea == "" {
		da = ivy.Dump(va)
	}
	if eb == "" {
		db = ivy.Dump(vb)
	}
	if da != db {
		t.Failf("%s: V=that, then %s gives %s; with the equal literal it gives %s", src, e, da, db)
	}
}

func fitsOp(op string, y *big.Rat) bool {
	switch op {
	case "**":
		return !y.IsInt() || y.Num().BitLen() <= 7 || y.Num().BitLen() > 30
	}
	return true
}

func runP01(c *mc.Ctx) {
	ints, rats := boundaryInts(!c.Quick), boundaryRats(!c.Quick)
	dom := append(append([]*big.Rat{}, ints...), rats...)
	s := ivy.New()

	c.Group("binary/literal")
	for _, op := range p01Binary {
		for _, x := range dom {
			for _, y := range dom {
				if c.Skip() {
					continue
				}
				src := plit(x) + " " + op + " " + plit(y)
				c.Do(src, func(t *mc.T) {
					want, kind := refBinary(op, x, y)
					if kind == refUndef {
						return
					}
					v, err, p := s.Eval1(src)
					checkExact(t, s, src, v, err, p, want, kind)
				})
			}
		}
	}

	c.Group("unary")
	for _, op := range p01Unary {
		for _, x := range dom {
			if c.Skip() {
				continue
			}
			src := op + " " + plit(x)
			c.Do(src, func(t *mc.T) {
				want, kind := refUnary(op, x)
				if kind == refUndef {
					return
				}
				v, err, p := s.Eval1(src)
				checkExact(t, s, src, v, err, p, want, kind)
			})
		}
	}

	// Small dense blocks: every pair of small operands, including those of ! << >> **.
	c.Group("dense")
	n := int64(24)
	if !c.Quick {
		n = 70
	}
	for _, op := range append([]string{"!", "<<", ">>", "**"}, "&", "|", "^", "*") {
		for a := -n; a <= n; a++ {
			for b := -n; b <= n; b++ {
				if c.Skip() {
					continue
				}
				x, y := rat(a, 1), rat(b, 1)
				src := plit(x) + " " + op + " " + plit(y)
				c.Do("dense "+src, func(t *mc.T) {
					want, kind := refBinary(op, x, y)
					if kind == refUndef {
						return
					}
					v, err, p := s.Eval1(src)
					checkExact(t, s, src, v, err, p, want, kind)
				})
			}
		}
	}
	c.Group("shift-power-factorial range")
	top := int64(200)
	if !c.Quick {
		top = 1200
	}
	for k := int64(0); k <= top; k++ {
		for _, src := range []string{fmt.Sprintf("! %d", k), fmt.Sprintf("3 << %d", k), fmt.Sprintf("(-3) << %d", k), fmt.Sprintf("(2**200) >> %d", k), fmt.Sprintf("(-(2**200)) >> %d", k),
			fmt.Sprintf("2 ** %d", k), fmt.Sprintf("(-2) ** %d", k), fmt.Sprintf("2 ** -%d", k), fmt.Sprintf("3 ** %d", k), fmt.Sprintf("(2/3) ** %d", k), fmt.Sprintf("(-2/3) ** -%d", k),
			fmt.Sprintf("%d ! %d", k/3, k), fmt.Sprintf("%d ! %d", k-1, k), fmt.Sprintf("3 ! %d", k)} {
			if c.Skip() {
				continue
			}
			c.Do("range "+src, func(t *mc.T) {
				var want *big.Rat
				var kind refKind
				f := strings.Fields(src)
				if len(f) == 2 {
					want, kind = refUnary("!", rat(k, 1))
				} else {
					x := parseRefLit(f[0])
					y, _ := new(big.Rat).SetString(f[2])
					want, kind = refBinary(f[1], x, y)
				}
				v, err, p := s.Eval1(src)
				checkExact(t, s, src, v, err, p, want, kind)
			})
		}
	}

	// Computed operands: the same numbers reached through operations instead
	// of literals (other representations, if the interpreter lets them out).
	c.Group("binary/computed")
	routes := []string{"-(-X)", "(X+1)-1", "(X*3)/3", "(X/3)*3", "abs X", "X max X-1", "(X-1) max X", "(1000000000000 min X) max X", "(X - 2**100) + 2**100", "(X max -2**70)", "(X min 2**70)", "(X<<3)>>3", "X idiv 1", "X div 1", "0 + X", "X | 0", "real X j 0", "1 first_op X", "+/X 0 0", "first X 1", "X mod X+1"}
	sub := pick(dom, map[bool]int{true: 3, false: 1}[c.Quick])
	ops2 := []string{"+", "-", "*", "/", "max", "==", "<", "&", "<<", "mod", "div", "idiv", "**"}
	for _, r := range routes {
		if strings.Contains(r, "first_op") {
			continue
		}
		for _, x := range sub {
			for _, op := range ops2 {
				for _, y := range []*big.Rat{rat(0, 1), rat(2, 1), rat(-1, 1), rat(3, 2), ratI(pow2(31)), ratI(pow2(64))} {
					if c.Skip() {
						continue
					}
					key := "route " + r + " X=" + lit(x) + " then " + op + " " + lit(y)
					c.Do(key, func(t *mc.T) {
						a := strings.ReplaceAll(r, "X", plit(x))
						av, err, p := s.Eval1(a)
						if p != nil {
							t.Failf("%s: %s", a, p)
							return
						}
						if err != "" {
							return // e.g. shifts of rationals
						}
						ar, ok := ratOf(av)
						if !ok {
							t.Failf("%s: not exact: %s", a, ivy.DumpRep(av))
							return
						}
						if !strings.Contains(r, "abs") && !strings.Contains(r, "mod") && ar.Cmp(x) != 0 && !strings.Contains(r, "min") && !strings.Contains(r, "max") && !strings.Contains(r, ">>") {
							t.Failf("%s: want %s, got %s", a, lit(x), ivy.DumpRep(av))
							return
						}
						want, kind := refBinary(op, ar, y)
						if kind == refUndef {
							return
						}
						src := "(" + a + ") " + op + " " + plit(y)
						v, err, p := s.Eval1(src)
						checkExact(t, s, src, v, err, p, want, kind)
						if op == "+" {
							battery(t, s, a, av, ar)
						}
					})
				}
			}
		}
	}

	// Depth-2 compositions.
	c.Group("depth2")
	d2 := []*big.Rat{rat(0, 1), rat(1, 1), rat(-1, 1), rat(2, 1), rat(3, 1), ratI(pow2(31)), ratI(new(big.Int).Neg(pow2(31))), rat(1<<31-1, 1), ratI(pow2(32)), ratI(pow2(63)), ratI(new(big.Int).Neg(pow2(63))), rat(1, 2), rat(-7, 3), ratI(pow2(64))}
	o2 := []string{"+", "-", "*", "/", "max", "min", "&", "|", "^", "mod", "div", "idiv", "imod", "<", "=="}
	for _, a := range d2 {
		for _, op1 := range o2 {
			for _, b := range d2 {
				for _, op2 := range o2 {
					for _, d := range d2 {
						if c.Quick && (len(lit(a))+len(lit(b))*3+len(lit(d))*7+len(op1)+len(op2))%4 != 0 {
							continue
						}
						if c.Skip() {
							continue
						}
						src := "(" + plit(a) + " " + op1 + " " + plit(b) + ") " + op2 + " " + plit(d)
						c.Do(src, func(t *mc.T) {
							m, k1 := refBinary(op1, a, b)
							if k1 == refUndef {
								return
							}
							var want *big.Rat
							kind := refErr
							if k1 == refOK {
								want, kind = refBinary(op2, m, d)
							}
							if kind == refUndef {
								return
							}
							v, err, p := s.Eval1(src)
							checkExact(t, s, src, v, err, p, want, kind)
						})
					}
				}
			}
		}
	}
}

func pick(dom []*big.Rat, step int) []*big.Rat {
	var out []*big.Rat
	for i := 0; i < len(dom); i += step {
		out = append(out, dom[i])
	}
	return out
}

// parseRefLit reads the few literal forms used as left operands above.
func parseRefLit(s string) *big.Rat {
	s = strings.Trim(s, "()")
	neg := strings.HasPrefix(s, "-")
	s = strings.Trim(strings.TrimPrefix(s, "-"), "()")
	var r *big.Rat
	if i := strings.Index(s, "**"); i >= 0 {
		b, _ := new(big.Rat).SetString(s[:i])
		e, _ := new(big.Rat).SetString(s[i+2:])
		r, _ = refBinary("**", b, e)
	} else {
		r, _ = new(big.Rat).SetString(s)
	}
	if neg {
		r = new(big.Rat).Neg(r)
	}
	return r
}
