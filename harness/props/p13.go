package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P13", Run: runP13,
		Rule:        "(print) every integer and rational of the boundary alphabets, every integer to 1100 and every power of every base to 2^130 ±1, and complex pairs of them, under all output bases 0 and 2..16: the text is the reference positional notation (or the documented error for large integers in the other bases) and, read back under that input base, alone and in a vector, is the same value; (read) all strings of up to 6 (thorough 7) characters over sign, boundary digits, '/', 'j', and for bases 0 and 10 '.', 'e' and the 0x 0o 0b prefixes, under every input base: every string that is a constant of the reference grammar reads as its exact value, every string of digits with one outside the base is an error; upper-case digits and long digit strings likewise; (floats) mantissas around rounding boundaries times powers of ten and two under the default and all %.Nf %.Ne %.Ng formats, N to 12, print the correctly rounded decimal.",
		Assumptions: []string{"decimal points and exponents only in bases 0 and 10; ties may round either way; floats beyond 2^10000 only to 11 digits"}})
}

func p13bases() []int {
	b := []int{0}
	for i := 2; i <= 16; i++ {
		b = append(b, i)
	}
	return b
}

func printable13(i *big.Int, b int) bool {
	switch b {
	case 0, 2, 8, 10, 16:
		return true
	}
	return i.BitLen() <= 31
}

func text13(r *big.Rat, b int) (string, bool) {
	d := b
	if d == 0 {
		d = 10
	}
	ok := printable13(r.Num(), b) && (r.IsInt() || printable13(r.Denom(), b))
	if r.IsInt() {
		return r.Num().Text(d), ok
	}
	return r.Num().Text(d) + "/" + r.Denom().Text(d), ok
}

func runP13(c *mc.Ctx) {
	vals := append(boundaryInts(true), boundaryRats(true)...)
	for i := int64(0); i <= 1100; i++ {
		vals = append(vals, rat(i, 1), rat(-i, 1))
	}
	for b := int64(2); b <= 16; b++ {
		p := big.NewInt(b)
		for p.BitLen() <= 130 {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(p, big.NewInt(d))
				vals = append(vals, ratI(x), ratI(new(big.Int).Neg(x)))
				if d != 0 {
					vals = append(vals, new(big.Rat).SetFrac(x, p), new(big.Rat).SetFrac(p, x))
				}
			}
			p = new(big.Int).Mul(p, big.NewInt(b))
		}
	}
	seen := map[string]bool{}
	k := 0
	for _, v := range vals {
		if !seen[v.String()] {
			seen[v.String()] = true
			vals[k] = v
			k++
		}
	}
	vals = vals[:k]
	s := ivy.New()
	c.Group("print")
	bases := p13bases()
	for _, b := range bases {
		check := func(t *mc.T, v value.Value, want string, ok bool) {
			s.SetVar("xval", v)
			s.Conf.SetBase(0, b)
			out, e, p := s.Run("xval")
			t.Step(2)
			if !ok {
				if e == "" && out == want+"\n" {
					return // Not required, but right.
				}
				if e == "" || out != "" || p != nil {
					t.Failf("obase %d: %s prints %q, error %q %v; it should be an error", b, ivy.Dump(v), out, e, p)
				}
				return
			}
			if p != nil || e != "" || out != want+"\n" {
				t.Failf("obase %d: %s prints %q %q %v, should be %q", b, ivy.Dump(v), out, e, p, want)
				return
			}
			t.Observe(want)
			for _, ctx := range []string{"%s", "%s %[1]s 1", "(%s)", "0+%s"} {
				s.Conf.SetBase(b, b)
				w, err, p := s.Eval1(fmt.Sprintf(ctx, want))
				if err == "" && p == nil && ctx == "%s %[1]s 1" {
					x, ok := w.(*value.Vector)
					if !ok || x.Len() != 3 || ivy.Dump(x.At(1)) != ivy.Dump(v) {
						t.Failf("base %d: vector of %s reads back as %s", b, want, show(w, err, p))
						return
					}
					w = x.At(0)
				}
				if err != "" || p != nil || ivy.DumpRep(w) != ivy.DumpRep(v) {
					t.Failf("base %d: %q (printed for %s) in %q reads back as %s", b, want, ivy.Dump(v), ctx, show(w, err, p))
					return
				}
			}
			// Mixed bases do not interfere.
			s.Conf.SetBase(b, 0)
			w, err, p := s.Eval1(want)
			if err != "" || p != nil || ivy.Dump(w) != ivy.Dump(v) {
				t.Failf("ibase %d obase 0: %q reads as %s", b, want, show(w, err, p))
			}
		}
		for lo := 0; lo < len(vals); lo += 50 {
			c.Case(fmt.Sprintf("obase %d values %d..", b, lo), func(t *mc.T) {
				for _, r := range vals[lo:min(lo+50, len(vals))] {
					want, ok := text13(r, b)
					check(t, numVal(r), want, ok)
					if t.Failed() {
						return
					}
				}
			})
		}
		c.Case(fmt.Sprintf("obase %d complex", b), func(t *mc.T) {
			parts := []*big.Rat{rat(0, 1), rat(1, 1), rat(-1, 1), rat(15, 1), rat(-255, 1), rat(1, 15), rat(-16, 255), rat(1<<62, 1), ratI(pow2(70)), rat(11, 1)}
			for _, re := range parts {
				for _, im := range parts {
					if im.Sign() == 0 {
						continue
					}
					a, ok1 := text13(re, b)
					d, ok2 := text13(im, b)
					check(t, value.NewComplex(numVal(re), numVal(im)), a+"j"+d, ok1 && ok2)
					if t.Failed() {
						return
					}
				}
			}
		})
	}

	c.Group("read")
	for _, b := range bases {
		var alpha string
		if b == 0 || b == 10 {
			alpha = "-+0179./ej"
			if b == 0 {
				alpha += "xb"
			}
		} else {
			alpha = "-/j01" + string("0123456789abcdef"[b-1])
			if b > 4 {
				alpha += string("0123456789abcdef"[b/2])
			}
			if b < 10 {
				alpha += string("0123456789"[b]) // not a digit
			} else {
				alpha += strings.ToUpper(string("0123456789abcdef"[b-1])) + "9"
			}
		}
		max := 6
		if !c.Quick {
			max = 7
		}
		var rec func(pre string)
		rec = func(pre string) {
			if len(pre) == 2 || len(pre) == 1 {
				c.Case(fmt.Sprintf("ibase %d constants %s…", b, pre), func(t *mc.T) {
					var all func(tok string)
					all = func(tok string) {
						if !t.Failed() {
							read13(t, s, b, tok)
						}
						if len(tok) < max && len(pre) == 2 {
							for _, r := range alpha {
								all(tok + string(r))
							}
						}
					}
					all(pre)
				})
			}
			if len(pre) < 2 {
				for _, r := range alpha {
					rec(pre + string(r))
				}
			}
		}
		rec("")
		// Long digit strings, both cases.
		d := b
		if d == 0 {
			d = 10
		}
		for lo := 0; lo < len(vals); lo += 100 {
			c.Case(fmt.Sprintf("ibase %d long constants %d..", b, lo), func(t *mc.T) {
				for _, r := range vals[lo:min(lo+100, len(vals))] {
					n := r.Num().Text(d)
					if !r.IsInt() {
						n += "/" + r.Denom().Text(d)
					}
					for _, tok := range []string{n, strings.ToUpper(n), n + "j" + n} {
						if !t.Failed() {
							read13(t, s, b, tok)
						}
					}
				}
			})
		}
	}
	if true {
		c.Case("ibase 0 prefixes", func(t *mc.T) {
			for _, r := range vals {
				if !r.IsInt() {
					continue
				}
				a := new(big.Int).Abs(r.Num())
				sg := ""
				if r.Sign() < 0 {
					sg = "-"
				}
				for _, f := range []struct {
					p string
					b int
				}{{"0x", 16}, {"0X", 16}, {"0o", 8}, {"0O", 8}, {"0b", 2}, {"0B", 2}, {"0", 8}} {
					tok := sg + f.p + a.Text(f.b)
					for _, tk := range []string{tok, tok + "/" + f.p + "7", tok + "j" + tok} {
						if f.b == 2 && strings.HasSuffix(tk, "7") {
							continue
						}
						if !t.Failed() {
							read13(t, s, 0, tk)
						}
					}
				}
			}
		})
	}

	c.Group("floats")
	var mants []string
	for _, m := range []string{"1", "9", "99", "999999999999", "9999999999994", "9999999999996", "1000000000004", "1000000000006", "1234567890124", "1234567890126", "5", "25", "15", "12345678", "314159265358979323846264338327950288", "2718281828459045235360287471352662497", "4999999999999999999999", "50000000000000000001", "1999999999999", "123456", "999999", "9999995", "1000001", "4", "6", "44444444444444444", "66666666666666666666", "142857142857142857142857", "33333333333333333"} {
		mants = append(mants, m, "-"+m)
	}
	es := []int{}
	for e := -40; e <= 40; e++ {
		es = append(es, e)
	}
	es = append(es, 300, -300, 2900, -2900)
	for _, m := range mants {
		c.Case("float "+m, func(t *mc.T) {
			for _, e := range es {
				f, _, err := big.ParseFloat(fmt.Sprintf("%se%d", m, e), 10, 256, big.ToNearestEven)
				if err != nil {
					panic(err)
				}
				exact, _ := f.Rat(nil)
				s.Conf.SetBase(0, 0)
				s.SetVar("xval", value.BigFloat{Float: f})
				for n := -1; n <= 12; n++ {
					for _, verb := range "gfe" {
						if n == -1 && verb != 'g' || verb == 'f' && (e > 60 || e < -60) {
							continue
						}
						if n == 0 && verb == 'g' {
							continue
						}
						prec := n
						if n == -1 {
							s.Conf.SetFormat("")
							prec = 12
						} else {
							s.Conf.SetFormat(fmt.Sprintf("%%.%d%c", n, verb))
						}
						out, er, p := s.Run("xval")
						t.Step(1)
						out = strings.TrimSuffix(out, "\n")
						if er != "" || p != nil {
							t.Failf("%se%d with format %q: %s %v", m, e, s.Conf.Format(), er, p)
							return
						}
						if !round13(out, exact, byte(verb), prec) {
							t.Failf("%se%d with format %q prints %q", m, e, s.Conf.Format(), out)
							return
						}
						t.Observe(out)
					}
				}
				s.Conf.SetFormat("")
			}
			// Beyond the range of exact printing.
			for _, k := range []int{9990, 10001, 20000, 33333, 100000, 1000003, 50000000, -9990, -10001, -10002, -33333, -100000, -1000003, -50000000} {
				f, _, _ := big.ParseFloat(m, 10, 256, big.ToNearestEven)
				x := new(big.Float).SetMantExp(f, k)
				s.SetVar("xval", value.BigFloat{Float: x})
				out, er, p := s.Run("xval")
				t.Step(1)
				if er != "" || p != nil || !near13(strings.TrimSuffix(out, "\n"), x) {
					t.Failf("%s*2**%d prints %q %q %v", m, k, out, er, p)
					return
				}
			}
		})
	}
}

// parse13 is the reference reading of a constant. known is false if the string
// is not one the reference grammar covers; nil with known means an error.
func parse13(b int, tok string) (re, im *big.Rat, known bool) {
	if i := strings.IndexByte(tok, 'j'); i >= 0 {
		r, k1 := real13(b, tok[:i])
		m, k2 := real13(b, tok[i+1:])
		if !k1 || !k2 {
			return nil, nil, false
		}
		return r, m, true
	}
	r, k := real13(b, tok)
	return r, new(big.Rat), k
}

func real13(b int, s string) (*big.Rat, bool) {
	if s == "" {
		return nil, false
	}
	neg := s[0] == '-'
	if neg || s[0] == '+' {
		s = s[1:]
	}
	var r *big.Rat
	var k bool
	if i := strings.IndexByte(s, '/'); i >= 0 {
		n, k1 := nat13(b, s[:i])
		d, k2 := nat13(b, s[i+1:])
		if !k1 || !k2 {
			return nil, false
		}
		if n == nil || d == nil || d.Sign() == 0 {
			return nil, true
		}
		r, k = new(big.Rat).SetFrac(n, d), true
	} else if (b == 0 || b == 10) && strings.ContainsAny(s, ".e") {
		r, k = dec13(s)
	} else {
		var n *big.Int
		n, k = nat13(b, s)
		if n != nil {
			r = new(big.Rat).SetInt(n)
		}
	}
	if k && r != nil && neg {
		r = new(big.Rat).Neg(r)
	}
	return r, k
}

// dec13 reads digits[.digits][e[+-]digits].
func dec13(s string) (*big.Rat, bool) {
	i := 0
	mant := new(big.Int)
	nd, scale := 0, 0
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		mant.Mul(mant, big.NewInt(10)).Add(mant, big.NewInt(int64(s[i]-'0')))
		nd++
	}
	if i < len(s) && s[i] == '.' {
		for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			mant.Mul(mant, big.NewInt(10)).Add(mant, big.NewInt(int64(s[i]-'0')))
			nd++
			scale--
		}
	}
	if nd == 0 {
		return nil, false
	}
	if i < len(s) && s[i] == 'e' {
		i++
		neg := false
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			neg = s[i] == '-'
			i++
		}
		e, ne := 0, 0
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			e = e*10 + int(s[i]-'0')
			ne++
		}
		if ne == 0 {
			return nil, false
		}
		if neg {
			e = -e
		}
		scale += e
	}
	if i != len(s) {
		return nil, false
	}
	r := new(big.Rat).SetInt(mant)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(scale, -scale))), nil))
	if scale < 0 {
		r.Quo(r, p)
	} else {
		r.Mul(r, p)
	}
	return r, true
}

// nat13 reads digits in base b; nil for a digit out of range.
func nat13(b int, s string) (*big.Int, bool) {
	if b == 0 {
		b = 10
		if len(s) > 1 && s[0] == '0' {
			switch s[1] {
			case 'x', 'X':
				b, s = 16, s[2:]
			case 'o', 'O':
				b, s = 8, s[2:]
			case 'b', 'B':
				b, s = 2, s[2:]
			default:
				b, s = 8, s[1:]
			}
		}
	}
	if s == "" {
		return nil, false
	}
	n := new(big.Int)
	bad := false
	for _, c := range s {
		d := 0
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		default:
			return nil, false
		}
		if d >= b {
			if c > '9' {
				return nil, false // A name, perhaps.
			}
			bad = true
		}
		n.Mul(n, big.NewInt(int64(b))).Add(n, big.NewInt(int64(d)))
	}
	if bad {
		return nil, true
	}
	return n, true
}

func read13(t *mc.T, s *ivy.Sess, b int, tok string) {
	re, im, known := parse13(b, tok)
	if !known {
		return
	}
	s.Conf.SetBase(b, 0)
	v, e, p := s.Eval1(tok)
	t.Step(1)
	if p != nil {
		t.Failf("ibase %d: %s: %v", b, tok, p)
		return
	}
	if re == nil || im == nil {
		if e == "" {
			t.Failf("ibase %d: %s is not a number in this base but reads as %s", b, tok, show(v, e, p))
		}
		return
	}
	var want string
	if im.Sign() == 0 {
		want = ivy.DumpRep(numVal(re))
	} else {
		want = ivy.DumpRep(value.NewComplex(numVal(re), numVal(im)))
	}
	if e != "" || ivy.DumpRep(v) != want {
		t.Failf("ibase %d: %s reads as %s, should be %s", b, tok, show(v, e, p), want)
	}
	t.Observe(want)
}

// round13 reports whether text is x correctly rounded in the given style.
func round13(text string, x *big.Rat, verb byte, prec int) bool {
	got, ok := new(big.Rat).SetString(text)
	if !ok {
		return false
	}
	// The exponent of the leading digit.
	a := new(big.Rat).Abs(x)
	exp := 0
	ten := rat(10, 1)
	pow := func(n int) *big.Rat {
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(n, -n))), nil))
		if n < 0 {
			p.Inv(p)
		}
		return p
	}
	if a.Sign() != 0 {
		exp = int(float64(a.Num().BitLen()-a.Denom().BitLen()) * 0.30103)
		for a.Cmp(pow(exp)) < 0 {
			exp--
		}
		for a.Cmp(new(big.Rat).Mul(ten, pow(exp))) >= 0 {
			exp++
		}
	}
	var ulp *big.Rat // value of the last digit shown
	switch verb {
	case 'f':
		ulp = pow(-prec)
	case 'e':
		ulp = pow(exp - prec)
	case 'g':
		ulp = pow(exp - prec + 1)
	}
	half := new(big.Rat).Mul(ulp, rat(1, 2))
	d := new(big.Rat).Sub(got, x)
	if d.Abs(d).Cmp(half) > 0 {
		return false
	}
	// It is a multiple of the ulp.
	if !new(big.Rat).Quo(got, ulp).IsInt() {
		return false
	}
	// The style.
	s := strings.TrimPrefix(text, "-")
	if (x.Sign() < 0) != (s != text) {
		return false
	}
	hasE := strings.Contains(s, "e")
	m, _, _ := strings.Cut(s, "e")
	digits := strings.ReplaceAll(m, ".", "")
	_, frac, _ := strings.Cut(m, ".")
	switch verb {
	case 'f':
		return !hasE && len(frac) == prec
	case 'e':
		return hasE && len(frac) == prec && len(digits) == prec+1
	}
	// %g: the exponent after rounding decides.
	rexp := exp
	if new(big.Rat).Abs(got).Cmp(pow(exp+1)) >= 0 {
		rexp++
	}
	if hasE != (rexp < -4 || rexp >= max(prec, 1)) {
		return false
	}
	return !strings.HasSuffix(frac, "0")
}

// near13 reports whether the decimal text is x to 11 digits.
func near13(text string, x *big.Float) bool {
	f, _, err := big.ParseFloat(text, 10, 256, big.ToNearestEven)
	if err != nil {
		return false
	}
	d := new(big.Float).Sub(f, x)
	if d.Sign() == 0 {
		return true
	}
	return d.MantExp(nil)-x.MantExp(nil) < -36
}
