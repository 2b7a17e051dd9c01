package props

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P19", Run: runP19,
		Rule:        "every roll size 1..80 and around every word boundary x origins x seeds (range; for small sizes every value is reached), every deal A?B up to B=12 and larger ones x origins x seeds (distinct, in range; for B up to 4 every arrangement is reached), rand over operand kinds and precisions (0 <= r < operand, full precision), every illegal operand; all programs of up to three random expressions x seeds executed in a fresh session, again in a used session, and with every one of a list of non-random lines (including failing ones) between them, comparing all outputs; every single-bit seed",
		Assumptions: []string{"the quality of the generator beyond reaching every value is not judged"}})
}

func roll19(t *mc.T, s *ivy.Sess, src string, n *big.Int, origin int64) (*big.Int, bool) {
	v, e, p := s.Eval1(src)
	t.Step(1)
	r, ok := (*big.Rat)(nil), false
	if e == "" && p == nil {
		r, ok = ratOf(v)
	}
	if !ok || !r.IsInt() {
		t.Failf("%s (n %s, origin %d) is %s", src, n, origin, show(v, e, p))
		return nil, false
	}
	x := new(big.Int).Sub(r.Num(), big.NewInt(origin))
	if x.Sign() < 0 || x.Cmp(n) >= 0 {
		t.Failf("%s with origin %d is %s, not among the first %s integers", src, origin, r.Num(), n)
		return nil, false
	}
	if got, want := strings.TrimPrefix(ivy.DumpRep(v), "I"), strings.TrimPrefix(ivy.DumpRep(numVal(r)), "I"); got != want || (r.Num().BitLen() < 31) != (ivy.DumpRep(v)[0] != 'I' && r.Num().BitLen() < 31) {
		t.Failf("%s gives the malformed number %s", src, ivy.DumpRep(v))
		return nil, false
	}
	if _, isInt := v.(value.Int); isInt && r.Num().BitLen() > 31 {
		t.Failf("%s gives a small integer beyond its range: %s", src, ivy.DumpRep(v))
		return nil, false
	}
	return x, true
}

func runP19(c *mc.Ctx) {
	s := ivy.New()
	seeds := []uint64{0, 1, 2, 12345, 1 << 40, 1<<62 + 7}
	if !c.Quick {
		for i := uint64(3); i < 60; i++ {
			seeds = append(seeds, i, i<<32+i)
		}
	}
	origins := []int64{0, 1, 2, 10, 1 << 31}
	var sizes []*big.Int
	for i := int64(1); i <= 80; i++ {
		sizes = append(sizes, big.NewInt(i))
	}
	for _, k := range []uint{8, 16, 30, 31, 32, 33, 62, 63, 64, 65, 100} {
		for _, x := range around(pow2(k)) {
			sizes = append(sizes, x)
		}
	}
	sizes = append(sizes, bi("10000000000000000000000000000000000000000"))

	c.Group("roll")
	for _, o := range origins {
		for _, n := range sizes {
			c.Case(fmt.Sprintf("roll %s origin %d", n, o), func(t *mc.T) {
				s.Conf.SetOrigin(int(o))
				defer s.Conf.SetOrigin(1)
				seen := map[string]int{}
				high, low := false, false
				half := new(big.Int).Rsh(n, 1)
				for _, sd := range seeds {
					s.Conf.SetRandomSeed(sd)
					for k := 0; k < 60; k++ {
						x, ok := roll19(t, s, "?"+n.String(), n, o)
						if !ok {
							return
						}
						seen[x.String()]++
						if x.Cmp(half) < 0 {
							low = true
						} else {
							high = true
						}
					}
				}
				if n.Cmp(big.NewInt(12)) <= 0 && len(seen) != int(n.Int64()) {
					t.Failf("%d rolls of ?%s reach only %d values", 60*len(seeds), n, len(seen))
				}
				if n.Cmp(big.NewInt(1)) > 0 && (!high || !low) {
					t.Failf("%d rolls of ?%s all lie in one half", 60*len(seeds), n)
				}
				if n.BitLen() > 30 && len(seen) < 50*len(seeds) {
					t.Failf("%d rolls of ?%s give only %d different values", 60*len(seeds), n, len(seen))
				}
				// Arrays.
				for _, sh := range []string{"5", "2 3", "2 2 2", "0", "1"} {
					v, e, p := s.Eval1("? " + sh + " rho " + n.String())
					t.Step(1)
					if e != "" || p != nil {
						t.Failf("? %s rho %s is %s", sh, n, show(v, e, p))
						return
					}
					var vec *value.Vector
					switch x := v.(type) {
					case *value.Vector:
						vec = x
					case *value.Matrix:
						vec = x.Data()
					}
					want, _, _ := s.Eval1("count ," + sh + " rho 0")
					if vec == nil || want == nil || fmt.Sprint(vec.Len()) != strings.Trim(want.String(), "()") {
						t.Failf("? %s rho %s is %s", sh, n, show(v, e, p))
						return
					}
					for i := 0; i < vec.Len(); i++ {
						r, ok := ratOf(vec.At(i))
						if !ok || !r.IsInt() || new(big.Int).Sub(r.Num(), big.NewInt(o)).Sign() < 0 || new(big.Int).Sub(r.Num(), big.NewInt(o)).Cmp(n) >= 0 {
							t.Failf("? %s rho %s has the element %s", sh, n, ivy.DumpRep(vec.At(i)))
							return
						}
					}
				}
			})
		}
	}
	c.Group("deal")
	for _, o := range origins {
		for _, b := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 64, 1000, 5000} {
			for a := 0; a <= b; a++ {
				if b > 12 && a > 3 && a < b-2 {
					continue
				}
				c.Case(fmt.Sprintf("deal %d?%d origin %d", a, b, o), func(t *mc.T) {
					s.Conf.SetOrigin(int(o))
					defer s.Conf.SetOrigin(1)
					arr := map[string]bool{}
					rounds := 1
					if b <= 4 {
						rounds = 1000 / len(seeds)
					}
					for _, sd := range seeds {
						s.Conf.SetRandomSeed(sd)
						for k := 0; k <= rounds; k++ {
							v, e, p := s.Eval1(fmt.Sprintf("%d?%d", a, b))
							t.Step(1)
							vec, ok := v.(*value.Vector)
							if !ok || vec.Len() != a {
								t.Failf("%d?%d is %s", a, b, show(v, e, p))
								return
							}
							seen := map[int64]bool{}
							for i := 0; i < a; i++ {
								r, ok := ratOf(vec.At(i))
								if !ok || !r.IsInt() {
									t.Failf("%d?%d is %s", a, b, show(v, e, p))
									return
								}
								x := r.Num().Int64() - o
								if x < 0 || x >= int64(b) || seen[x] {
									t.Failf("%d?%d with origin %d is %s", a, b, o, show(v, e, p))
									return
								}
								if _, isInt := vec.At(i).(value.Int); isInt && r.Num().BitLen() > 31 {
									t.Failf("%d?%d gives a malformed integer: %s", a, b, show(v, e, p))
									return
								}
								seen[x] = true
							}
							arr[ivy.Dump(v)] = true
						}
					}
					if b <= 4 {
						n := 1
						for i := 0; i < a; i++ {
							n *= b - i
						}
						if len(arr) != n {
							t.Failf("%d?%d reaches %d of %d arrangements", a, b, len(arr), n)
						}
					}
				})
			}
		}
	}
	c.Group("rand")
	for _, prec := range []uint{16, 53, 64, 256, 1000} {
		for _, src := range []string{"1", "2", "3", "1/3", "1000000000000", "1e-30", "(float 1/7)", "(sqrt 2)", "1e100", "7/1000000007", "0"} {
			c.Case(fmt.Sprintf("rand %s prec %d", src, prec), func(t *mc.T) {
				s.Conf.SetFloatPrec(prec)
				defer s.Conf.SetFloatPrec(256)
				bound, e, p := s.Eval1("float " + src)
				if e != "" || p != nil {
					t.Failf("float %s: %s", src, e)
					return
				}
				f := new(big.Float)
				switch x := bound.(type) {
				case value.BigFloat:
					f = x.Float
				case value.Int:
					f.SetInt64(int64(x))
				default:
					r, _ := ratOf(x)
					f.SetPrec(2000).SetRat(r)
				}
				s.SetVar("f", bound)
				seen := map[string]bool{}
				minBits := uint(1 << 20)
				maxBits := uint(0)
				for _, sd := range seeds {
					s.Conf.SetRandomSeed(sd)
					for k := 0; k < 40; k++ {
						v, e, p := s.Eval1("rand " + src)
						t.Step(1)
						if e != "" || p != nil {
							t.Failf("rand %s is %s", src, show(v, e, p))
							return
						}
						var x *big.Float
						switch w := v.(type) {
						case value.BigFloat:
							x = w.Float
						default:
							r, ok := ratOf(w)
							if !ok {
								t.Failf("rand %s is %s", src, show(v, e, p))
								return
							}
							x = new(big.Float).SetPrec(2000).SetRat(r)
						}
						if x.Sign() < 0 || (src != "0" && x.Cmp(f) >= 0) || (src == "0" && x.Sign() != 0) {
							t.Failf("rand %s is %s, not in range", src, show(v, e, p))
							return
						}
						minBits, maxBits = min(minBits, x.MinPrec()), max(maxBits, x.MinPrec())
						seen[x.Text('p', 0)] = true
					}
				}
				if src == "0" {
					return
				}
				if n := 40 * len(seeds); prec > 50 && len(seen) < n-2 {
					t.Failf("%d uses of rand %s at prec %d give only %d values", n, src, prec, len(seen))
				}
				if src == "1" && (maxBits > prec || maxBits+8 < prec) {
					t.Failf("rand 1 at prec %d has %d random bits", prec, maxBits)
				}
			})
		}
	}
	c.Group("errors")
	for _, src := range []string{"?0", "?-1", "?1/2", "?2.5", "?'a'", "?1j1", "?-100000000000000000000", "? 3 0", "? 1 2 -3", "rand -1", "rand -1/2", "rand -100000000000000000000", "rand float -1", "rand 'a'", "rand 1j1", "3?2", "-1?3", "1?-3", "1/2?3", "1?5/2", "'a'?3", "1 2?3", "1?3 4", "1j1?3", "1?100000000000000000000", "100000000000000000000?100000000000000000001"} {
		c.Case("error "+src, func(t *mc.T) {
			v, e, p := s.Eval1(src)
			t.Step(1)
			if e == "" || p != nil {
				t.Failf("%s is %s, should be an error", src, show(v, e, p))
			}
		})
	}

	c.Group("reproducible")
	exprs := []string{"?6", "?1000000", "?3000000000", "?100000000000000000000000", "?2", "3?7", "1?1", "0?4", "rand 1", "rand 1/3", "? 4 rho 6", "? 2 2 rho 100000000000", "(?6) + ?6", "roll 3", "roll@ 5 6 7", "? 3000 rho 1000", "rand 5 rho 1"}
	quiet := []string{"1 + 1", "iota 10", ")prec", ")origin", "1/0", "x = 3", "op foo a = a + 1", "foo 3", "up 3 1 2", "1 2 3 / ", "zzz", ")base 10", ")op foo", "+/ iota 1000", "sqrt 2", "?0", "3 ? 2", "?'a'", "text 3", "'abc' iota 'c'", "ivy '1 + 2'", "2 2 rho iota 4", ")maxbits 1000000", ")format \"\"", "# comment", "", "rho ?", "up 2000 rho 5 3 9 1", "unique 3 1 3", "float 3", "3 3 3 union 4", ")ibase", ")op foo", "inv 2 2 rho 1 2 3 4", ")format '%.3f'\n)format ''", "sys 'seed'", "pi"}
	prog := func(t *mc.T, s *ivy.Sess, seed uint64, p []string, between string, dirty bool) (string, bool) {
		if dirty {
			s.Run("?6\n?1e30\nrand 3\n5?9\n")
		}
		if between != "" && dirty {
			s.Run(between)
		}
		if _, e, pc := s.Run(fmt.Sprintf(")seed %d\n", seed)); e != "" || pc != nil {
			t.Failf(")seed %d: %s %v", seed, e, pc)
			return "", false
		}
		var b strings.Builder
		for _, x := range p {
			out, e, pc := s.Run(x + "\n")
			t.Step(1)
			if e != "" || pc != nil {
				t.Failf("%s: %s %v", x, e, pc)
				return "", false
			}
			b.WriteString(out)
			if between != "" {
				s.Run(between + "\n")
			}
		}
		return b.String(), true
	}
	fresh := func() *ivy.Sess {
		s := ivy.New()
		s.Run("op roll a = ? a\n")
		return s
	}
	var progs [][]string
	for _, a := range exprs {
		progs = append(progs, []string{a})
		for _, b := range exprs {
			progs = append(progs, []string{a, b})
			for k, d := range exprs {
				if !c.Quick || k%4 == 0 {
					progs = append(progs, []string{a, b, d})
				}
			}
		}
	}
	used := fresh()
	used.Run("?6\nrand 1\n")
	for i, p := range progs {
		c.Case(fmt.Sprint("program ", p), func(t *mc.T) {
			seed := seeds[i%len(seeds)]
			want, ok := prog(t, fresh(), seed, p, "", false)
			if !ok {
				return
			}
			for k := 0; k < 3; k++ {
				between := ""
				if k > 0 {
					between = quiet[(i*2+k)%len(quiet)]
				}
				got, ok := prog(t, used, seed, p, between, true)
				if ok && got != want {
					t.Failf("seed %d: %q prints %q in a fresh session, %q in another with %q between", seed, p, want, got, between)
				}
			}
			t.Observe(want)
		})
	}
	for _, q := range quiet {
		for i, p := range progs[:40] {
			c.Case(fmt.Sprintf("between %q %v", q, p), func(t *mc.T) {
				want, ok := prog(t, fresh(), seeds[i%len(seeds)], p, "", false)
				got, ok2 := prog(t, fresh(), seeds[i%len(seeds)], p, q, true)
				if ok && ok2 && got != want {
					t.Failf("seed %d: %q prints %q, but %q with %q between", seeds[i%len(seeds)], p, want, got, q)
				}
			})
		}
	}
	// Every bit of the seed counts.
	c.Group("seeds")
	for i := 0; i < 62; i++ {
		for k := i - 1; k < i; k++ {
			c.Case(fmt.Sprint("seed bit ", i), func(t *mc.T) {
				outs := map[string]uint64{}
				for _, sd := range []uint64{0, 1 << i, 1<<i | 1<<(61-i), 1<<62 - 1, 1<<i ^ 12345, 12345} {
					s := fresh()
					out, ok := prog(t, s, sd, []string{"?100000000000000000000", "rand 1", "5?1000"}, "", false)
					if !ok {
						return
					}
					if o, dup := outs[out]; dup && o != sd {
						t.Failf("seeds %d and %d give the same sequence", o, sd)
					}
					outs[out] = sd
				}
			})
		}
	}
}
