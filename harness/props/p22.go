package props

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P22", Run: runP22,
		Rule:        "encode/decode: every radix vector up to length 3 over an alphabet (negative, zero, one, fractional, word-boundary and big radices) x every value of a boundary list, and every pair of vector lengths and matrix shapes within the bounds, against Euclidean digit extraction and polynomial evaluation, with B decode B encode x; char/code: every integer from -70000 to beyond the last code point (and big ones) and every code point; text: every value of a corpus x every output setting against what is printed, ivy text x for exact numbers in every base; formatted text: every value x every (decimals), (width decimals), (width decimals style) and every flag/width/precision/verb combination within the bounds against Go's formatting of the same number",
		Assumptions: []string{"radix vectors longer than 3 and widths above 12 behave alike", "Go's fmt and math/big formatting of a single number are correct"}})
}

// eDivMod is Euclidean division on rationals: 0 <= rem < |b|.
func eDivMod(a, b *big.Rat) (quo, rem *big.Rat) {
	if b.Sign() == 0 {
		return new(big.Rat), new(big.Rat).Set(a)
	}
	q := new(big.Rat).Quo(a, new(big.Rat).Abs(b))
	f := new(big.Int).Div(q.Num(), q.Denom()) // Denominator positive: floor.
	rem = new(big.Rat).Sub(a, new(big.Rat).Mul(ratI(f), new(big.Rat).Abs(b)))
	if b.Sign() < 0 {
		f.Neg(f)
	}
	return ratI(f), rem
}

// encode22 is the digits of x in the radixes, and what is left over.
func encode22(radix []*big.Rat, x *big.Rat) ([]*big.Rat, *big.Rat) {
	out := make([]*big.Rat, len(radix))
	for i := len(radix) - 1; i >= 0; i-- {
		x, out[i] = eDivMod(x, radix[i])
	}
	return out, x
}

func decode22(radix, digits []*big.Rat) *big.Rat {
	n := max(len(radix), len(digits))
	if len(radix) == 0 || len(digits) == 0 {
		return new(big.Rat)
	}
	at := func(v []*big.Rat, i int) *big.Rat {
		if len(v) == 1 {
			return v[0]
		}
		return v[i]
	}
	// Horner's rule.
	sum := new(big.Rat)
	for i := 0; i < n; i++ {
		if i > 0 {
			sum.Mul(sum, at(radix, i))
		}
		sum.Add(sum, at(digits, i))
	}
	return sum
}

func ratVec(rs []*big.Rat) *ref.V {
	v := ref.Vec()
	for _, r := range rs {
		v.Data = append(v.Data, ref.Rat(r))
	}
	v.Shape[0] = len(v.Data)
	return v
}

// want22 compares a result with the reference; a nil want is an error.
func want22(t *mc.T, what string, v value.Value, err string, p *ivy.Panic, want *ref.V) bool {
	t.Step(1)
	if want == nil {
		if p != nil || err == "" {
			t.Failf("%s is %s, should be an error", what, show(v, err, p))
			return false
		}
		return true
	}
	if p != nil || err != "" {
		t.Failf("%s is %s, should be %s", what, show(v, err, p), want)
		return false
	}
	g, e := ref.From(v)
	if e != nil || !ref.Equal(g, want) {
		t.Failf("%s is %s, should be %s (%v)", what, show(v, err, p), want, e)
		return false
	}
	t.Observe(want.String())
	return true
}

func runP22(c *mc.Ctx) {
	s := ivy.New()
	quick := c.Quick

	radix := []*big.Rat{rat(-3, 1), rat(-1, 1), rat(0, 1), rat(1, 1), rat(2, 1), rat(3, 1), rat(7, 1), rat(10, 1), rat(60, 1), rat(1, 2), rat(-3, 2), ratI(pow2(31)), ratI(bi("100000000000000000000"))}
	vals := symInts(append(smallInts(1, 2, 3, 5, 7, 9, 10, 11, 59, 60, 61, 100, 999, 3599, 3600, 86399),
		append(append(around(pow2(31)), around(pow2(32))...), append(around(pow2(63)), bi("123456789012345678901234567890123456789"))...)...)...)
	vals = append(vals, rat(1, 2), rat(-1, 2), rat(7, 3), rat(-7, 3), rat(22, 7), rat(123456789, 1000), new(big.Rat).SetFrac(pow2(70), bi("3")))

	c.Group("encode")
	one := func(key string, rs []*big.Rat) {
		c.Case("enc "+key, func(t *mc.T) {
			u := ratVec(rs)
			s.SetVar("A", u.Value())
			s.SetVar("B", u.Value())
			for _, x := range vals {
				s.SetVar("x", ref.Rat(x).Value())
				dig, rest := encode22(rs, x)
				var want *ref.V
				if len(rs) == 1 {
					want = ref.Rat(dig[0])
				} else {
					want = ratVec(dig)
				}
				v, e, p := s.Eval1("A encode x")
				if !want22(t, fmt.Sprintf("%s encode %s", u, lit(x)), v, e, p, want) {
					return
				}
				v, e, p = s.Eval1("A encode ,x")
				if !want22(t, fmt.Sprintf("%s encode ,%s", u, lit(x)), v, e, p, want) {
					return
				}
				v, e, p = s.Eval1("A decode A encode x")
				if !want22(t, fmt.Sprintf("A decode A encode x with A %s, x %s", u, lit(x)), v, e, p, ref.Rat(decode22(rs, dig))) {
					return
				}
				// The operands are unharmed.
				if g, _ := ref.From(s.Var("A")); !ref.Equal(g, u) {
					t.Failf("%s encode %s changed its left operand to %s", u, lit(x), g)
				}
				if g, _ := ref.From(s.Var("x")); g.R == nil || g.R.Cmp(x) != 0 {
					t.Failf("%s encode %s changed its right operand to %s", u, lit(x), g)
				}
				// In range: it comes back whole.
				nozero := true
				for _, r := range rs[1:] {
					nozero = nozero && r.Sign() != 0
				}
				if nozero && rest.Sign() == 0 && decode22(rs, dig).Cmp(x) != 0 && len(rs) > 0 {
					t.Failf("reference: %s decode digits of %s", u, lit(x))
				}
			}
		})
	}
	for i, r := range radix {
		one(fmt.Sprint(i), []*big.Rat{r})
		for j, q := range radix {
			one(fmt.Sprint(i, j), []*big.Rat{r, q})
			for k, z := range radix {
				if quick && (k%2 == 1 || j%3 == 2) && !(i == j && j == k) {
					continue
				}
				one(fmt.Sprint(i, j, k), []*big.Rat{r, q, z})
			}
		}
	}
	for _, n := range []int{0, 4, 8, 31, 32, 33, 64, 70} {
		for _, b := range []int64{2, 3, 10, 16} {
			var rs []*big.Rat
			for i := 0; i < n; i++ {
				rs = append(rs, rat(b, 1))
			}
			if n > 0 {
				one(fmt.Sprint("long ", n, b), rs)
			}
		}
	}

	c.Group("encode shapes")
	shapes := [][]int{{0}, {1}, {2}, {3}, {5}, {1, 1}, {2, 2}, {2, 3}, {3, 1}, {1, 3}, {0, 2}, {2, 0}, {2, 1, 2}, {2, 2, 2}, {1, 1, 1}, {70}, {20, 30}}
	lefts := [][]int64{{}, {10}, {0}, {10, 10}, {2, 3, 4}, {0, 24, 60, 60}, {-7, 7}, {1}}
	for _, l := range lefts {
		for _, sh := range shapes {
			c.Case(fmt.Sprint("encsh ", l, sh), func(t *mc.T) {
				rs := []*big.Rat{}
				for _, x := range l {
					rs = append(rs, rat(x, 1))
				}
				for variant := 0; variant < 2; variant++ {
					b := ref.Gather(sh, func(ix []int) *ref.V {
						n := int64(variant)
						for _, i := range ix {
							n = n*31 + int64(i) + 1
						}
						switch n % 5 {
						case 3:
							return ref.Rat(rat(-n*n, 1))
						case 4:
							return ref.Rat(new(big.Rat).SetFrac(big.NewInt(n*n*n+1), bi("3")))
						}
						return ref.Rat(rat(n*n*1237, 1))
					})
					s.SetVar("A", ratVec(rs).Value())
					s.SetVar("B", b.Value())
					cols := make([][]*big.Rat, len(b.Data))
					for i, e := range b.Data {
						cols[i], _ = encode22(rs, e.R)
					}
					var want *ref.V
					full := append([]int{len(rs)}, sh...)
					n := 0
					arr := ref.Gather(full, func(ix []int) *ref.V {
						i := ix[0]
						j := n % max(1, len(b.Data))
						n++
						return ref.Rat(cols[j][i])
					})
					switch {
					case len(sh) == 1 && sh[0] == 1 && len(rs) == 1:
						want = arr.Data[0]
					case len(sh) == 1 && sh[0] == 1:
						want = ref.Vec(arr.Data...)
					case len(sh) == 1 && len(rs) == 1:
						want = ref.Vec(arr.Data...)
					default:
						want = arr
					}
					v, e, p := s.Eval1("A encode B")
					if !want22(t, fmt.Sprintf("%v encode %s", l, b), v, e, p, want) {
						return
					}
					if len(l) == 1 {
						v, e, p = s.Eval1(fmt.Sprintf("(%d) encode B", l[0]))
						want22(t, fmt.Sprintf("%d encode %s", l[0], b), v, e, p, want)
					}
				}
			})
		}
	}

	c.Group("decode")
	digs := []*big.Rat{rat(0, 1), rat(1, 1), rat(-2, 1), rat(9, 1), rat(1, 3), ratI(pow2(31)), ratI(pow2(64))}
	for la := 0; la <= 3; la++ {
		for lb := 0; lb <= 4; lb++ {
			c.Case(fmt.Sprint("dec ", la, lb), func(t *mc.T) {
				var rec func(pre []*big.Rat, n int, from []*big.Rat, f func([]*big.Rat))
				rec = func(pre []*big.Rat, n int, from []*big.Rat, f func([]*big.Rat)) {
					if n == 0 {
						f(pre)
						return
					}
					for _, x := range from {
						rec(append(append([]*big.Rat{}, pre...), x), n-1, from, f)
					}
				}
				rx := radix
				if la > 1 {
					rx = []*big.Rat{rat(-3, 1), rat(0, 1), rat(10, 1), rat(1, 2), ratI(pow2(31))}
				}
				dg := digs
				if lb > 2 {
					dg = digs[:5]
				}
				if lb > 3 {
					dg = digs[1:4]
				}
				rec(nil, la, rx, func(a []*big.Rat) {
					av := ratVec(a)
					s.SetVar("A", av.Value())
					rec(nil, lb, dg, func(b []*big.Rat) {
						if t.Failed() {
							return
						}
						s.SetVar("B", ratVec(b).Value())
						v, e, p := s.Eval1("A decode B")
						var want *ref.V
						if la == 0 || lb == 0 || la == 1 || lb == 1 || la == lb {
							want = ref.Rat(decode22(a, b))
						}
						want22(t, fmt.Sprintf("%s decode %s", av, ratVec(b)), v, e, p, want)
					})
				})
			})
		}
	}
	for _, l := range [][]int64{{}, {10}, {0}, {10, 10}, {2, 3, 4}, {-7, 7}, {1, 2, 3, 4, 5}} {
		for _, sh := range [][]int{{1, 1}, {2, 2}, {2, 3}, {3, 1}, {1, 3}, {0, 2}, {2, 0}, {2, 1, 2}, {3, 2, 2}, {1, 1, 1}, {5, 7}, {2, 2000}, {2, 60, 60}, {1, 60, 60}} {
			c.Case(fmt.Sprint("decmat ", l, sh), func(t *mc.T) {
				rs := []*big.Rat{}
				for _, x := range l {
					rs = append(rs, rat(x, 1))
				}
				n := 0
				b := ref.Gather(sh, func(ix []int) *ref.V {
					n++
					if n%7 == 3 {
						return ref.Rat(rat(int64(n), 3))
					}
					return ref.Int(n*n%97 - 20)
				})
				s.SetVar("A", ratVec(rs).Value())
				s.SetVar("B", b.Value())
				v, e, p := s.Eval1("A decode B")
				var want *ref.V
				if len(l) == 1 || sh[0] == 1 || len(l) == sh[0] {
					cell := ref.Size(sh[1:])
					d := make([]*ref.V, cell)
					for j := range d {
						var col []*big.Rat
						for i := 0; i < sh[0]; i++ {
							col = append(col, b.Data[i*cell+j].R)
						}
						d[j] = ref.Rat(decode22(rs, col))
					}
					want = ref.Arr(sh[1:], d)
				}
				want22(t, fmt.Sprintf("%v decode array of shape %v", l, sh), v, e, p, want)
			})
		}
	}

	c.Group("char")
	const chunk = 4096
	valid := func(n int) bool { return n >= 0 && n <= unicode.MaxRune && (n < 0xd800 || n > 0xdfff) }
	for lo := -69632; lo < 0x110000+2*chunk; lo += chunk {
		c.Case(fmt.Sprintf("code points %d..", lo), func(t *mc.T) {
			var good []value.Value
			for n := lo; n < lo+chunk; n++ {
				s.SetVar("n", value.Int(n))
				v, e, p := s.Eval1("char n")
				t.Step(1)
				if !valid(n) {
					if e == "" || p != nil {
						t.Failf("char %d is %s, should be an error", n, show(v, e, p))
						return
					}
					continue
				}
				good = append(good, value.Int(n))
				if e != "" || p != nil || v != value.Value(value.Char(n)) {
					t.Failf("char %d is %s", n, show(v, e, p))
					return
				}
				s.SetVar("k", v)
				v, e, p = s.Eval1("code k")
				if e != "" || p != nil || v != value.Value(value.Int(n)) {
					t.Failf("code char %d is %s", n, show(v, e, p))
					return
				}
			}
			if len(good) == 0 {
				return
			}
			s.SetVar("n", value.NewVector(good...))
			for _, e := range []string{"(code char n) === n", "(code char (2,len/2) rho n) === (2,len/2) rho n", "(char code char n) === char n"} {
				v, err, p := s.Eval1(strings.ReplaceAll(e, "len", fmt.Sprint(len(good))))
				t.Step(1)
				if err != "" || p != nil || v != value.Value(value.Int(1)) {
					t.Failf("%s with n the %d valid code points from %d is %s", e, len(good), lo, show(v, err, p))
				}
			}
			// One invalid element spoils a vector.
			if len(good) > 1 {
				bad := append([]value.Value{}, good...)
				bad[len(bad)/2] = value.Int(0xd800)
				s.SetVar("n", value.NewVector(bad...))
				if v, err, p := s.Eval1("char n"); err == "" || p != nil {
					t.Failf("char of a vector with a surrogate is %s", clip22(show(v, err, p)))
				}
			}
		})
	}
	for _, x := range []string{"2147483647", "2147483648", "4294967296", "4294967393", "18446744073709551713", "-9223372036854775807", "1/2", "97/2", "0.5", "1j1", "1e100", "'a'", "float 97"} {
		c.Case("char "+x, func(t *mc.T) {
			v, e, p := s.Eval1("char " + x)
			t.Step(1)
			if e == "" || p != nil {
				t.Failf("char %s is %s, should be an error", x, show(v, e, p))
			}
		})
	}
	for _, x := range []string{"97", "1/2", "2.5", "1j1", "1e40", "1 2", "2 2 rho 5"} {
		c.Case("code "+x, func(t *mc.T) {
			v, e, p := s.Eval1("code " + x)
			t.Step(1)
			if e == "" || p != nil {
				t.Failf("code %s is %s, should be an error", x, show(v, e, p))
			}
		})
	}

	text22(c, s)
	format22(c, s)
}

func clip22(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// corpus22 is a set of expressions for values of every kind and form.
func corpus22() []string {
	l := []string{"'a'", "' '", "'é'", "'世'", "'\\n'", "'ab'", "''", "'a b'", "'世界 é'", "'a' 'bc' ''",
		"iota 0", "iota 1", ",'a'", "iota 10", "-iota 10", "1 'a' 2", "'a' 1", "1 'ab' 2", "(1 2) 3", "(1 2) (3 4)", "((1 2) 3) 4", "(2 2 rho 1 2 3 4) 5", "(2 2 rho 'abcd') 'x'",
		"2 2 rho 1 20 300 4", "2 3 rho 1/2 3 4.5 'x' 1j1 100", "2 2 2 rho iota 8", "1 1 rho 5", "2 2 rho 'abcd'", "2 2 rho 'aé世d'", "2 2 rho 'ab' 'c' 1 (2 3)", "0 3 rho 1", "3 0 rho 1", "2 2 2 2 rho iota 16", "1 2 3 rho 'abcdef'", "2 2 rho (1 2) (3 4) (5 6) 7", "3 3 rho -1 0 1/3",
		"pi", "e", "sqrt 2", "2 2 rho sqrt 2", "sqrt iota 3", "float 3", "float 1e20", "float 1e-20", "float 1e100", "1e1000 * pi", "float 1/3", "-float 1/3", "0 * pi", "pi - pi",
		"1j2", "1/2j-3/4", "pi j 2", "0j1", "-1j-1", "1j2 3", "1j0", "sqrt -2", "2 2 rho 1j2 3 4j-5 6",
		"100 rho 'abcdefghij '", "40 rho 1e10", "3 30 rho 'the quick brown '", "iota 60", "1000000000 * iota 30", "2 20 rho 1000000 + iota 40"}
	for _, r := range append(boundaryInts(false), boundaryRats(false)...) {
		l = append(l, lit(r))
	}
	return l
}

func text22(c *mc.Ctx, s *ivy.Sess) {
	c.Group("text")
	corpus := corpus22()
	type set struct {
		base   int
		format string
		prec   uint
	}
	var sets []set
	for _, b := range []int{0, 2, 3, 7, 8, 10, 16} {
		sets = append(sets, set{b, "", 256})
	}
	for _, f := range []string{"%.3f", "%8.2f", "%-8d|", "%x", "%d", "%e", "%.20g", "<%v>", "%5s", "%c", "%q"} {
		sets = append(sets, set{0, f, 256}, set{10, f, 64})
	}
	sets = append(sets, set{0, "", 20}, set{0, "", 1000})
	for _, st := range sets {
		for _, src := range corpus {
			c.Case(fmt.Sprintf("text %v %s", st, src), func(t *mc.T) {
				defer func() {
					s.Conf.SetBase(0, 0)
					s.Conf.SetFormat("")
					s.Conf.SetFloatPrec(256)
				}()
				s.Conf.SetFloatPrec(st.prec)
				if _, e, p := s.Run("x = " + src); e != "" || p != nil {
					t.Failf("cannot make %s: %s %v", src, e, p)
					return
				}
				s.Conf.SetBase(0, st.base)
				s.Conf.SetFormat(st.format)
				out, e1, p1 := s.Run("x")
				v, e2, p2 := s.Eval1("text x")
				t.Step(2)
				if p1 != nil || p2 != nil || (e1 == "") != (e2 == "") {
					t.Failf("printing %s gives %q %v, text gives %q %v", src, e1, p1, e2, p2)
					return
				}
				if e1 != "" {
					return
				}
				if !isText22(v, strings.TrimSuffix(out, "\n")) {
					t.Failf("%s with %v prints %q but text gives %s", src, st, out, show(v, e2, p2))
				}
				t.Observe(out)
			})
		}
	}
	c.Group("ivy text")
	for _, b := range []int{0, 2, 3, 8, 10, 16} {
		for _, src := range corpus {
			c.Case(fmt.Sprintf("ivytext %d %s", b, src), func(t *mc.T) {
				defer s.Conf.SetBase(0, 0)
				s.Run("x = " + src)
				x := s.Var("x")
				if !exact22(x) {
					return
				}
				s.Conf.SetBase(b, b)
				if _, e, p := s.Eval1("text x"); e != "" && p == nil && b != 0 && b != 10 {
					return // Too large for this base.
				}
				v, e, p := s.Eval1("ivy text x")
				t.Step(1)
				if e != "" || p != nil || ivy.DumpRep(v) != ivy.DumpRep(x) {
					t.Failf("base %d: ivy text %s is %s, should be %s", b, src, show(v, e, p), ivy.DumpRep(x))
				}
			})
		}
	}
}

func isText22(v value.Value, want string) bool {
	x, ok := v.(*value.Vector)
	if !ok {
		return false
	}
	r := []rune(want)
	if x.Len() != len(r) {
		return false
	}
	for i := range r {
		if x.At(i) != value.Value(value.Char(r[i])) {
			return false
		}
	}
	return true
}

// exact22 reports whether v is an exact number or a non-empty vector of them.
func exact22(v value.Value) bool {
	switch x := v.(type) {
	case value.Int, value.BigInt, value.BigRat:
		return true
	case value.Complex:
		return false
	case *value.Vector:
		for i := 0; i < x.Len(); i++ {
			if _, ok := ratOf(x.At(i)); !ok {
				return false
			}
		}
		return x.Len() > 1
	}
	return false
}

// num22 is one scalar to be formatted.
type num22 struct {
	src    string
	r      *big.Rat // exact value
	char   bool
	im     *big.Rat // complex
	binary bool     // floating point
}

func nums22() []num22 {
	var l []num22
	for _, r := range []*big.Rat{rat(0, 1), rat(1, 1), rat(-1, 1), rat(7, 1), rat(42, 1), rat(-255, 1), rat(65536, 1), ratI(pow2(31)), ratI(new(big.Int).Neg(pow2(63))), ratI(bi("123456789012345678901234567890")),
		rat(1, 2), rat(-1, 3), rat(5, 2), rat(1999, 1000), rat(-7, 2), rat(1, 8), rat(123456789, 1000), new(big.Rat).SetFrac(bi("1"), pow2(70)), new(big.Rat).SetFrac(pow2(70), bi("3"))} {
		l = append(l, num22{src: plit(r), r: r})
	}
	for _, r := range []*big.Rat{rat(0, 1), rat(1, 1), rat(-5, 2), rat(1, 1024), rat(-12345, 8), ratI(pow2(100)), rat(999999, 64), ratI(new(big.Int).Add(pow2(53), bi("1"))), ratI(new(big.Int).Add(pow2(64), bi("3"))), ratI(bi("-1000000000000000000000000000001")), new(big.Rat).SetFrac(bi("1152921504606846977"), pow2(40))} {
		l = append(l, num22{src: "(float " + lit(r) + ")", r: r, binary: true})
	}
	for _, ch := range "a0世" {
		l = append(l, num22{src: "'" + string(ch) + "'", r: rat(int64(ch), 1), char: true})
	}
	l = append(l, num22{src: "(1j2)", r: rat(1, 1), im: rat(2, 1)}, num22{src: "(1/2j-3)", r: rat(1, 2), im: rat(-3, 1)})
	return l
}

// fmt22 is the expected text of n under one-verb format f; ok is false when
// nothing is claimed.
func fmt22(f string, verb byte, n num22, prec uint) (string, bool) {
	if n.im != nil {
		if !strings.ContainsRune("bdoOxXeEfFgG", rune(verb)) {
			return "", false
		}
		a, ok1 := fmt22(f, verb, num22{r: n.r}, prec)
		b, ok2 := fmt22(f, verb, num22{r: n.im}, prec)
		return a + "j" + b, ok1 && ok2
	}
	switch verb {
	case 'e', 'E', 'f', 'F', 'g', 'G':
		return fmt.Sprintf(f, new(big.Float).SetPrec(prec).SetRat(n.r)), true
	case 'b', 'd', 'o', 'O', 'x', 'X':
		if n.binary {
			if verb == 'x' {
				return fmt.Sprintf(f, new(big.Float).SetPrec(prec).SetRat(n.r)), true
			}
			if verb == 'X' {
				return "", false
			}
			i := new(big.Int).Quo(n.r.Num(), n.r.Denom()) // Truncates.
			return fmt.Sprintf(f, i), true
		}
		if n.r.IsInt() {
			return fmt.Sprintf(f, n.r.Num()), true
		}
		return fmt.Sprintf(f, n.r.Num()) + "/" + fmt.Sprintf(f, n.r.Denom()), true
	case 'c', 'U':
		if n.char || n.isRune() {
			return fmt.Sprintf(f, rune(n.r.Num().Int64())), true
		}
	case 's', 'q':
		if n.char || n.isRune() {
			return fmt.Sprintf(f, string(rune(n.r.Num().Int64()))), true
		}
	case 't':
		if !n.char {
			return fmt.Sprintf(f, n.r.Sign() != 0), true
		}
	case 'v':
		if n.char {
			return fmt.Sprintf(f, string(rune(n.r.Num().Int64()))), true
		}
		if !n.binary {
			return fmt.Sprintf(f, lit(n.r)), true
		}
		return fmt.Sprintf(f, new(big.Float).SetPrec(prec).SetRat(n.r).Text('g', 12)), true
	}
	return "", false
}

// isRune: n is the integer of a character.
func (n num22) isRune() bool {
	return !n.binary && n.r.IsInt() && n.r.Sign() >= 0 && n.r.Num().Cmp(bi("55296")) < 0
}

func format22(c *mc.Ctx, s *ivy.Sess) {
	c.Group("format")
	nums := nums22()
	type fm struct {
		left string // ivy source of the left operand
		f    string // the Go format
		verb byte
	}
	var fs []fm
	for _, d := range []int{0, 1, 2, 3, 10, 40} {
		fs = append(fs, fm{fmt.Sprint(d), fmt.Sprintf("%%.%df", d), 'f'}, fm{fmt.Sprintf("(,%d)", d), fmt.Sprintf("%%.%df", d), 'f'})
		for _, w := range []int{-12, 0, 1, 5, 12} {
			ws := fmt.Sprint(w)
			if w == 0 {
				ws = "0"
			}
			fs = append(fs, fm{fmt.Sprintf("(%d,%d)", w, d), fmt.Sprintf("%%%s.%df", ws, d), 'f'})
			for _, v := range "efgEFG" {
				lv := v | ' '
				fs = append(fs, fm{fmt.Sprintf("(%d,%d,'%c')", w, d, v), fmt.Sprintf("%%%s.%d%c", ws, d, lv), byte(lv)})
			}
		}
	}
	flags := []string{"", "-", "+", " ", "0", "#", "+0", "-+"}
	wids := []string{"", "1", "6", "12"}
	precs := []string{"", ".0", ".1", ".3", ".12"}
	if !c.Quick {
		flags = append(flags, "- ", "+#", " 0")
		wids = append(wids, "3", "20", "40")
		precs = append(precs, ".2", ".7", ".30")
	}
	for _, v := range "bcdeEfFgGoOqstUvxX" {
		fs = append(fs, fm{fmt.Sprintf("'%c'", v), "%" + string(v), byte(v)})
		for _, fl := range flags {
			for _, w := range wids {
				for _, p := range precs {
					if (v == 'o' || v == 'O') && strings.ContainsAny(fl, "#0") {
						continue // Go itself differs between int and big.Int.
					}
					if p != "" && strings.ContainsRune("cqtUbdoOxX", v) {
						continue
					}
					f := "%" + fl + w + p + string(v)
					fs = append(fs, fm{"'" + f + "'", f, byte(v)})
					if fl == "" || fl == "-" {
						fs = append(fs, fm{"'<" + f + ">'", "<" + f + ">", byte(v)}, fm{"'%% " + f + "%%'", "%% " + f + "%%", byte(v)})
						if v != 'e' && len(fl+w+p) > 0 && !strings.HasPrefix(w, "1") {
							fs = append(fs, fm{"'" + fl + w + p + string(v) + "'", f, byte(v)})
						}
					}
				}
			}
		}
	}
	prec := s.Conf.FloatPrec()
	for _, f := range fs {
		c.Case("format "+f.left, func(t *mc.T) {
			var list []string
			var texts []string
			// A rational or complex is written in parts; a format with more
			// than the verb is repeated for each.
			for _, n := range nums {
				want, ok := fmt22(f.f, f.verb, n, prec)
				if !ok {
					continue
				}
				v, e, p := s.Eval1(f.left + " text " + n.src)
				t.Step(1)
				if e != "" || p != nil || !isText22(v, want) {
					t.Failf("%s text %s is %s, should be %q", f.left, n.src, show(v, e, p), want)
					return
				}
				t.Observe(want)
				if !n.char {
					list = append(list, n.src)
					texts = append(texts, want)
				}
			}
			if len(list) > 3 {
				// Vectors: separated by blanks. Matrices: rows on lines.
				v, e, p := s.Eval1(f.left + " text " + strings.Join(list, ", "))
				t.Step(2)
				want := strings.Join(texts, " ")
				if e != "" || p != nil || !isText22(v, want) {
					t.Failf("%s text of the vector %s is %s, should be %q", f.left, list, show(v, e, p), want)
					return
				}
				v, e, p = s.Eval1(f.left + " text 2 2 rho " + strings.Join(list[:4], ", "))
				want = texts[0] + " " + texts[1] + "\n" + texts[2] + " " + texts[3]
				if e != "" || p != nil || !isText22(v, want) {
					t.Failf("%s text of a matrix of %s is %s, should be %q", f.left, list[:4], show(v, e, p), want)
					return
				}
				v, e, p = s.Eval1(f.left + " text 2 1 2 rho " + strings.Join(list[:4], ", "))
				want = texts[0] + " " + texts[1] + "\n\n" + texts[2] + " " + texts[3]
				if e != "" || p != nil || !isText22(v, want) {
					t.Failf("%s text of a rank 3 matrix of %s is %s, should be %q", f.left, list[:4], show(v, e, p), want)
					return
				}
			}
			// Strings.
			for _, str := range []string{"abc", "世 é", "a"} {
				var want string
				switch f.verb {
				case 's', 'q', 'x', 'X', 'v':
					want = fmt.Sprintf(f.f, str)
				case 'b', 'd', 'o', 'O', 'c', 'U', 'e', 'E', 'f', 'F', 'g', 'G':
					for i, r := range []rune(str) {
						if i > 0 {
							want += " "
						}
						w, _ := fmt22(f.f, f.verb, num22{r: rat(int64(r), 1), char: true}, prec)
						want += w
					}
				default:
					continue
				}
				s.SetVar("str", ref.Str(str).Value())
				v, e, p := s.Eval1(f.left + " text str")
				t.Step(1)
				if e != "" || p != nil || !isText22(v, want) {
					t.Failf("%s text %q is %s, should be %q", f.left, str, show(v, e, p), want)
					return
				}
			}
		})
	}
	for _, f := range []string{"-1", "(,-1)", "4 -1", "-4 -1", "1/2", "'%'", "'%%'", "'%y'", "'abc%'", "1 2 'y'", "1 2 3", "1 2 3 4", "iota 0", "1.5", "2 2 rho 3", "1j2", "1 'a'", "'a' 1"} {
		c.Case("bad format "+f, func(t *mc.T) {
			for _, x := range []string{"3", "'abc'", "1 2 3", "2 2 rho 5", "1/2"} {
				v, e, p := s.Eval1("(" + f + ") text " + x)
				t.Step(1)
				if e == "" || p != nil {
					t.Failf("(%s) text %s is %s, should be an error", f, x, show(v, e, p))
				}
			}
		})
	}
}
