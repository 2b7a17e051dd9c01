// Package props holds one bounded-exhaustive check per property.
package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

// All is the list of checks.
var All []*mc.Prop

func register(p *mc.Prop) { All = append(All, p) }

func bi(s string) *big.Int {
	i, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad int " + s)
	}
	return i
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func ratI(i *big.Int) *big.Rat { return new(big.Rat).SetInt(i) }

func rat(a, b int64) *big.Rat { return big.NewRat(a, b) }

// lit renders r as an ivy literal (default base settings).
func lit(r *big.Rat) string {
	if r.IsInt() {
		return r.Num().String()
	}
	return r.String()
}

// plit is lit, parenthesized.
func plit(r *big.Rat) string { return "(" + lit(r) + ")" }

func ratOf(v value.Value) (*big.Rat, bool) {
	switch x := v.(type) {
	case value.Int:
		return new(big.Rat).SetInt64(int64(x)), true
	case value.BigInt:
		return new(big.Rat).SetInt(x.Int), true
	case value.BigRat:
		return new(big.Rat).Set(x.Rat), true
	}
	return nil, false
}

// show describes an evaluation outcome.
func show(v value.Value, err string, p *ivy.Panic) string {
	switch {
	case p != nil:
		return p.String()
	case err != "":
		return "error " + err
	case v == nil:
		return "no value"
	}
	return ivy.DumpRep(v)
}

// symInts returns 0 and ±each given integer, deduplicated.
func symInts(is ...*big.Int) []*big.Rat {
	seen := map[string]bool{}
	var out []*big.Rat
	add := func(i *big.Int) {
		if !seen[i.String()] {
			seen[i.String()] = true
			out = append(out, ratI(i))
		}
	}
	add(big.NewInt(0))
	for _, i := range is {
		add(i)
		add(new(big.Int).Neg(i))
	}
	return out
}

func around(i *big.Int) []*big.Int {
	return []*big.Int{new(big.Int).Sub(i, big.NewInt(1)), i, new(big.Int).Add(i, big.NewInt(1))}
}

func smallInts(is ...int64) []*big.Int {
	var out []*big.Int
	for _, i := range is {
		out = append(out, big.NewInt(i))
	}
	return out
}

// boundaryInts is the integer alphabet straddling every representation boundary.
func boundaryInts(big_ bool) []*big.Rat {
	is := smallInts(1, 2, 3, 4, 5, 7, 10, 12, 16, 31, 32, 63, 64, 100, 255, 256, 46340, 46341, 65535, 65536, 1000003)
	for _, b := range []uint{30, 31, 32, 53, 62, 63, 64} {
		is = append(is, around(pow2(b))...)
	}
	is = append(is, pow2(96), bi("1000000000000000000"), bi("10000000000000000000"), bi("100000000000000000000"))
	if big_ {
		is = append(is, around(pow2(127))...)
		is = append(is, around(pow2(128))...)
		is = append(is, bi("2305843009213693951"), new(big.Int).Exp(big.NewInt(10), big.NewInt(40), nil), new(big.Int).Mul(big.NewInt(3), pow2(70)))
		is = append(is, new(big.Int).Mul(pow2(31), pow2(31)), smallInts(6, 8, 9, 33, 65, 127, 128, 32767, 32768, 92681, 92682, 3037000499, 3037000500)[0])
		is = append(is, smallInts(8, 9, 33, 65, 127, 128, 32767, 32768, 92681, 92682, 3037000499, 3037000500)...)
	}
	return symInts(is...)
}

// boundaryRats is the alphabet of non-integer rationals.
func boundaryRats(big_ bool) []*big.Rat {
	var out []*big.Rat
	add := func(n, d *big.Int) {
		r := new(big.Rat).SetFrac(n, d)
		if r.IsInt() {
			return
		}
		for _, o := range out {
			if o.Cmp(r) == 0 {
				return
			}
		}
		out = append(out, r, new(big.Rat).Neg(r))
	}
	one := big.NewInt(1)
	for _, p := range [][2]int64{{1, 2}, {1, 3}, {2, 3}, {3, 2}, {5, 6}, {7, 10}, {22, 7}, {1, 1000000007}} {
		add(big.NewInt(p[0]), big.NewInt(p[1]))
	}
	for _, b := range []uint{31, 63, 64} {
		add(one, pow2(b))
		add(pow2(b), big.NewInt(3))
		if big_ {
			add(new(big.Int).Sub(pow2(b), one), big.NewInt(2))
			add(new(big.Int).Add(pow2(b), one), new(big.Int).Sub(pow2(b), one))
		}
	}
	add(bi("100000000000000000000"), big.NewInt(3))
	add(big.NewInt(3), bi("100000000000000000000"))
	return out
}

func joinInts(is []int) string {
	var s []string
	for _, i := range is {
		s = append(s, fmt.Sprint(i))
	}
	return strings.Join(s, " ")
}

// ratTok is the value of a number token [+-]digits[/digits], nil if malformed.
func ratTok(s string) *big.Rat {
	s = strings.TrimPrefix(s, "+")
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// numVal is the value ivy represents r by.
func numVal(r *big.Rat) value.Value {
	v, err, p := ratSess.Eval1(lit(r))
	if err != "" || p != nil {
		panic("numVal " + lit(r) + err)
	}
	return v
}

var ratSess = ivy.New()
