package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

// digits07 is the value of s read as digits in a base above 10, nil if it is not that.
func digits07(s string, base int) *big.Int {
	n := new(big.Int)
	if s == "" {
		return nil
	}
	for _, r := range s {
		d := 99
		switch {
		case '0' <= r && r <= '9':
			d = int(r - '0')
		case 'a' <= r && r <= 'z':
			d = int(r-'a') + 10
		case 'A' <= r && r <= 'Z':
			d = int(r-'A') + 10
		}
		if d >= base {
			return nil
		}
		n.Mul(n, big.NewInt(int64(base)))
		n.Add(n, big.NewInt(int64(d)))
	}
	return n
}

// names07 checks, for every input base, that every word starting with a letter is
// read as a number if it is one in that base and as a name otherwise, and
// that this does not depend on a sign, slash or operator next to it.
func names07(c *mc.Ctx) {
	c.Group("names in every base")
	alpha := "abgzjeA1_"
	length := 3
	if !c.Quick {
		length = 4
	}
	for _, base := range []int{0, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16} {
		for _, first := range alpha {
			if first == '1' || c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("names base=%d first=%c", base, first), func(t *mc.T) {
				var rec func(w string)
				rec = func(w string) {
					if t.Failed() {
						return
					}
					if w != "_" && value.UnaryOps[w] == nil && value.BinaryOps[w] == nil {
						name07(t, base, w)
					}
					if len(w) < length {
						for _, r := range alpha {
							rec(w + string(r))
						}
					}
				}
				rec(string(first))
			})
		}
	}
	// Operator names may start with digits of the base.
	for _, base := range []int{0, 2, 8, 10, 11, 13, 16} {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("operator names base=%d", base), func(t *mc.T) {
			setup := "op dab z = z + 1\nop y bed z = y - z\nop a1b z = -z\nx = 1 10 11\n"
			want, got := ivy.New(), ivy.New()
			for _, s := range []*ivy.Sess{want, got} {
				if _, e, p := s.Run(setup); e != "" || p != nil {
					t.Failf("setup: %s %v", e, p)
					return
				}
			}
			got.Run(fmt.Sprintf(")ibase %d\n", base))
			for _, op := range []string{"abs", "ceil", "floor", "cos", "dab", "a1b", "count", "flatten", "down", "code"} {
				for _, f := range []string{"-%s x", "+%s x", "1-%s x", "1 -%s x", "1/%s x", "x/%s x", "x-%s x", "(x)-%s x", "x[1]-%s x", "-%s@ x", "1,%s x", "-%s -%[1]s x", "%s/x", "1*%s x", "1=%s x", "1==%s x"} {
					cmp07(t, want, got, base, fmt.Sprintf(f, op))
				}
			}
			for _, op := range []string{"and", "div", "drop", "bed", "decode", "encode", "fill", "flip"} {
				for _, f := range []string{"x +.%s x", "x -.%s x", "1 1+.%s 1 1", "x o.%s x", "1 o.%s 1", "%s/1 1 1", "-%s/x", "1-%s/x", "1/%s/x", "-%s\\x", "x %s x", "x %s.+ x", "x %s.%[1]s x", "x+.%s -x", "1 1 %s 1 1"} {
					cmp07(t, want, got, base, fmt.Sprintf(f, op))
				}
			}
		})
	}
}

func cmp07(t *mc.T, want, got *ivy.Sess, base int, src string) {
	if t.Failed() {
		return
	}
	wv, we, wp := want.Eval1(src)
	gv, ge, gp := got.Eval1(src)
	t.Step(1)
	if wp != nil || gp != nil || (we == "") != (ge == "") || we == "" && ivy.Dump(wv) != ivy.Dump(gv) {
		t.Failf(")ibase %d: %s gives %s %s %v, in the default base %s %s %v", base, src, ivy.Dump(gv), ge, gp, ivy.Dump(wv), we, wp)
	}
	t.Observe(fmt.Sprintf("%d %s %s", base, src, ivy.Dump(gv)))
}

// name07 checks one word.
func name07(t *mc.T, base int, w string) {
	var re, im *big.Int // If a number.
	var half *big.Int   // If digits and a j, which start a number if a signed number follows.
	if base > 10 {
		if h, ok := strings.CutSuffix(w, "j"); ok {
			half = digits07(h, base)
		}
		r, i, isJ := strings.Cut(w, "j")
		re = digits07(r, base)
		if isJ {
			if im = digits07(i, base); im == nil {
				re = nil
			}
		}
	}
	s := ivy.New()
	s.Run(fmt.Sprintf(")ibase %d\n", base))
	if re == nil {
		s.SetVar(w, value.Int(7))
	}
	fail := func(src string, v value.Value, err string, p *ivy.Panic, want string) {
		t.Failf(")ibase %d: %s gives %s %s %v, want %s", base, src, ivy.Dump(v), err, p, want)
	}
	check := func(src string, want value.Value) bool {
		v, err, p := s.Eval1(src)
		t.Step(1)
		if err != "" || p != nil || ivy.Dump(v) != ivy.Dump(want) {
			fail(src, v, err, p, ivy.Dump(want))
			return false
		}
		return true
	}
	t.Observe(fmt.Sprintf("%d %s %v", base, w, re == nil))
	rat := func(a, b int64) value.Value {
		if a%b == 0 {
			return value.Int(a / b)
		}
		return value.BigRat{Rat: big.NewRat(a, b)}
	}
	vec := value.NewVector
	if re == nil {
		for _, f := range []struct {
			src  string
			want value.Value
		}{
			{"%s", value.Int(7)}, {"-%s", value.Int(-7)}, {"+%s", value.Int(7)}, {"1-%s", value.Int(-6)}, {"1 -%s", value.Int(-6)}, {"1 - %s", value.Int(-6)},
			{"1/%s", rat(1, 7)}, {"1 / %s", rat(1, 7)}, {"-1/%s", rat(-1, 7)}, {"%s/%[1]s", value.Int(1)}, {"%s-1", value.Int(6)}, {"%s -1", vec(value.Int(7), value.Int(-1))}, {"%s - 1", value.Int(6)},
			{"1 %s 1", vec(value.Int(1), value.Int(7), value.Int(1))}, {"(%s)-%[1]s", value.Int(0)}, {"-/%s 1", value.Int(6)}, {"1*%s", value.Int(7)}, {"1 1 +.*%s %[1]s", value.Int(14)},
			{"--%s", value.Int(7)}, {"-(%s)", value.Int(-7)}, {"-%s 1", vec(value.Int(-7), value.Int(-1))},
		} {
			if half != nil && f.src == "%s-1" {
				f.want = value.NewComplex(value.Int(int(half.Int64())), value.Int(-1))
			}
			if !check(fmt.Sprintf(f.src, w), f.want) {
				return
			}
		}
		if _, err, p := s.Eval(w + " = 1"); err != "" || p != nil {
			fail(w+" = 1", nil, err, p, "an assignment")
			return
		}
		check("-"+w, value.Int(-1))
		return
	}
	num := func(r *big.Rat) value.Value {
		if !r.IsInt() {
			return value.BigRat{Rat: r}
		}
		return value.Int(int(r.Num().Int64()))
	}
	mk := func(r *big.Rat) value.Value {
		if im == nil || im.Sign() == 0 {
			return num(r)
		}
		return value.NewComplex(num(r), num(new(big.Rat).SetInt(im)))
	}
	x := new(big.Rat).SetInt(re)
	neg := new(big.Rat).Neg(x)
	if !check(w, mk(x)) || !check("-"+w, mk(neg)) || !check("("+w+")", mk(x)) || !check("1 "+w, vec(value.Int(1), mk(x))) || !check("1 -"+w, vec(value.Int(1), mk(neg))) {
		return
	}
	if re.Sign() != 0 && !check("1/"+w, mk(new(big.Rat).Inv(x))) {
		return
	}
	if _, err, p := s.Eval(w + " = 1"); err == "" || p != nil {
		fail(w+" = 1", nil, err, p, "an error")
	}
}
