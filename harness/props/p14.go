package props

import (
	"fmt"
	"strings"

	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P14", Run: runP14,
		Rule:        "every structural operator x every array of every shape within the bounds (distinct elements, so any misplaced element shows; numbers, characters and nested elements) x every left operand in the bounded ranges x origins 0 and 1, compared with index-by-index reference definitions; inverse laws evaluated by ivy itself on every shape",
		Assumptions: []string{"shapes beyond the bounds behave like shapes within them; sizes around the persistent-slice chunk (16, 256) are included for vectors and 2-d matrices"}})
}

// shapesUpTo lists all shapes with rank 1..len(maxExt) and extents 0..maxExt[rank-1].
func shapesUpTo(maxExt ...int) [][]int {
	var out [][]int
	for r, m := range maxExt {
		eachTuple(m+1, r+1, func(ix []int) { out = append(out, append([]int{}, ix...)) })
	}
	return out
}

// fillKinds makes arrays of the shape with various distinct contents.
func fillKinds(shape []int) map[string]*ref.V {
	n := ref.Size(shape)
	num := make([]*ref.V, n)
	chr := make([]*ref.V, n)
	nest := make([]*ref.V, n)
	for i := 0; i < n; i++ {
		num[i] = ref.Int(i + 11)
		chr[i] = ref.Chr(rune('a' + i%26 + i/26*64))
		switch i % 3 {
		case 0:
			nest[i] = ref.Ints(i+1, i+2)
		case 1:
			nest[i] = ref.Str("xy")
		default:
			nest[i] = ref.Int(i)
		}
	}
	return map[string]*ref.V{"num": ref.Arr(shape, num), "chr": ref.Arr(shape, chr), "nest": ref.Arr(shape, nest)}
}

var kindNames = []string{"num", "chr", "nest"}

// checkV compares an evaluation with the reference (nil: an error is required).
func checkV(t *mc.T, s *ivy.Sess, src string, want *ref.V, lax bool) bool {
	v, err, p := s.Eval1(src)
	t.Step(1)
	if p != nil {
		t.Failf("%s: %s", src, p)
		return false
	}
	if want == nil {
		if err == "" {
			t.Failf("%s: want an error, got %s", src, ivy.Dump(v))
			return false
		}
		return true
	}
	if err != "" {
		t.Failf("%s: want %s, got error %s", src, want, err)
		return false
	}
	got, e := ref.From(v)
	if e != nil {
		t.Failf("%s: want %s, got a malformed value: %v", src, want, e)
		return false
	}
	t.Observe(got.String())
	if !ref.Equal(got, want) {
		if lax && want.Rank() == 1 && len(want.Data) == 1 && ref.Equal(got, want.Data[0]) {
			return true // a one-element vector shown as a scalar
		}
		t.Failf("%s: want %s, got %s", src, want, got)
		return false
	}
	return true
}

func isNested(v *ref.V) bool {
	for _, e := range v.Elems() {
		if !e.Scalar() {
			return true
		}
	}
	return false
}

func shapeStr(s []int) string { return strings.Trim(fmt.Sprint(s), "[]") }

func vecLit(a []int) string {
	if len(a) == 0 {
		return "(0 rho 0)"
	}
	if len(a) == 1 {
		return fmt.Sprintf("(%d)", a[0])
	}
	return "(" + joinInts(a) + ")"
}

func runP14(c *mc.Ctx) {
	shapes := shapesUpTo(5, 4, 3, 2)
	shapes = append(shapes, []int{2, 1, 2, 1, 3})
	bigShapes := [][]int{{15}, {16}, {17}, {33}, {255}, {256}, {257}, {4096}, {4097}, {16, 16}, {17, 16}, {3, 100}, {100, 3}, {2, 130}, {257, 2}, {5, 1, 60}, {1, 300}, {300, 1}, {7, 11, 13}}
	if !c.Quick {
		shapes = append(shapesUpTo(8, 5, 4, 3, 2), [][]int{{1, 2, 1, 2, 1}, {2, 1, 3, 1, 2}, {2, 2, 1, 2, 1, 2}}...)
		bigShapes = append(bigShapes, []int{1000}, []int{4095}, []int{5000}, []int{64, 64}, []int{65, 63}, []int{4, 5, 6, 7})
	}
	s := ivy.New()
	origins := []int{0, 1}
	// The shape of an enormous result must be refused, not attempted.
	c.Group("unary")
	for _, sh := range append(append([][]int{}, shapes...), bigShapes...) {
		for _, kind := range kindNames {
			key := fmt.Sprintf("unary shape=%s %s", shapeStr(sh), kind)
			if c.Skip() {
				continue
			}
			c.Do(key, func(t *mc.T) {
				x := fillKinds(sh)[kind]
				for _, o := range origins {
					s := s
					if o == 0 {
						s = ivy.New()
						s.Run(")origin 0\n")
					}
					s.SetVar("x", x.Value())
					checkV(t, s, "rho x", ref.Rho(x), false)
					checkV(t, s, "count x", ref.Count(x), false)
					checkV(t, s, ", x", ref.Ravel(x), false)
					checkV(t, s, "flatten x", ref.Flatten(x), false)
					checkV(t, s, "box x", ref.Box(x), false)
					checkV(t, s, "first x", ref.First(x), false)
					checkV(t, s, "rot x", ref.Reverse(x, x.Rank()-1), false)
					checkV(t, s, "flip x", ref.Reverse(x, 0), false)
					checkV(t, s, "transp x", ref.Transp(x), false)
					checkV(t, s, "rot rot x", x, false)
					checkV(t, s, "flip flip x", x, false)
					checkV(t, s, "transp transp x", x, false)
					checkV(t, s, "(rho x) rho , x", x, false)
					checkV(t, s, "x , (0 rho 0)", func() *ref.V {
						if x.Rank() == 1 {
							return x
						}
						return ref.Cat(x, ref.Ints(), true)
					}(), false)
					if x.Rank() > 1 {
						checkV(t, s, "split x", ref.Split(x), false)
						if kind != "nest" && len(x.Data) > 0 {
							checkV(t, s, "mix split x", x, false)
						}
					}
					if x.Rank() == 1 && kind == "num" {
						checkV(t, s, "mix x", x, false)
					}
					ident := "x[" + strings.Repeat(";", x.Rank()-1) + "]"
					checkV(t, s, ident, x, false)
					if x.Rank() == 2 {
						checkV(t, s, "(transp x)", ref.Gather([]int{sh[1], sh[0]}, func(ix []int) *ref.V { return x.At([]int{ix[1], ix[0]}) }), false)
					}
					t.Observe(x.String())
				}
			})
		}
	}
	// Mix of ragged vectors pads with zeros on the right.
	c.Group("mix")
	for n := 1; n <= 3; n++ {
		eachTuple(4, n, func(lens []int) {
			if c.Skip() {
				return
			}
			ls := append([]int{}, lens...)
			c.Do("mix ragged "+joinInts(ls), func(t *mc.T) {
				var d []*ref.V
				w, all := 0, true
				for i, l := range ls {
					// length 3 stands for a scalar
					if l == 3 {
						d = append(d, ref.Int(100*i+7))
						w = max(w, 1)
					} else {
						d = append(d, ref.Iota(100*i+10, l+1))
						w = max(w, l+1)
						all = false
					}
				}
				x := ref.Vec(d...)
				s.SetVar("x", x.Value())
				if all {
					checkV(t, s, "mix x", x, false)
					return
				}
				want := ref.Gather([]int{n, w}, func(ix []int) *ref.V {
					e := d[ix[0]].Elems()
					if ix[1] < len(e) {
						return e[ix[1]]
					}
					return ref.Int(0)
				})
				checkV(t, s, "mix x", want, false)
				t.Observe(want.String())
			})
		})
	}
	c.Group("iota")
	for _, o := range []int{0, 1, 2, 5} {
		for n := -1; n <= 300; n++ {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("iota %d origin=%d", n, o), func(t *mc.T) {
				s := ivy.New()
				s.Run(fmt.Sprintf(")origin %d\n", o))
				if n < 0 {
					checkV(t, s, "iota (-1)", nil, false)
					return
				}
				checkV(t, s, fmt.Sprintf("iota %d", n), ref.Iota(o, n), false)
			})
		}
		for _, sh := range shapesUpTo(0, 3, 3, 2) {
			if len(sh) < 2 || c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("iota %s origin=%d", shapeStr(sh), o), func(t *mc.T) {
				s := ivy.New()
				s.Run(fmt.Sprintf(")origin %d\n", o))
				checkV(t, s, "iota "+shapeStr(sh), ref.Gather(sh, func(ix []int) *ref.V {
					jx := append([]int{}, ix...)
					for i := range jx {
						jx[i] += o
					}
					return ref.Ints(jx...)
				}), false)
			})
		}
	}
	c.Group("reshape")
	for _, sh := range shapes {
		for _, kind := range kindNames {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("reshape of shape=%s %s", shapeStr(sh), kind), func(t *mc.T) {
				x := fillKinds(sh)[kind]
				s.SetVar("x", x.Value())
				for _, to := range shapesUpTo(6, 4, 3) {
					checkV(t, s, vecLit(to)+" rho x", ref.Reshape(to, x), false)
				}
				checkV(t, s, "(-1) rho x", nil, false)
				checkV(t, s, "2 (-1) rho x", nil, false)
				checkV(t, s, "(1/2) rho x", nil, false)
				checkV(t, s, "'a' rho x", nil, false)
				checkV(t, s, "(2 2 rho 1) rho x", nil, false)
				for _, big := range []int{15, 16, 17, 255, 256, 257, 600} {
					checkV(t, s, fmt.Sprintf("%d rho x", big), ref.Reshape([]int{big}, x), false)
				}
			})
		}
	}
	c.Group("rotate")
	for _, sh := range append(append([][]int{}, shapes...), bigShapes...) {
		for _, kind := range kindNames {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("rotate shape=%s %s", shapeStr(sh), kind), func(t *mc.T) {
				x := fillKinds(sh)[kind]
				s.SetVar("x", x.Value())
				for n := -7; n <= 7; n++ {
					checkV(t, s, fmt.Sprintf("(%d) rot x", n), ref.Rotate(n, x, x.Rank()-1), x.Rank() == 1)
					checkV(t, s, fmt.Sprintf("(%d) flip x", n), ref.Rotate(n, x, 0), x.Rank() == 1)
				}
				for _, n := range []int{1000000007, -1000000007, 15, -16, 256} {
					checkV(t, s, fmt.Sprintf("(%d) rot x", n), ref.Rotate(n, x, x.Rank()-1), x.Rank() == 1)
					checkV(t, s, fmt.Sprintf("(%d) flip x", n), ref.Rotate(n, x, 0), x.Rank() == 1)
				}
				checkV(t, s, "1 2 rot x", nil, false)
				checkV(t, s, "(1/2) rot x", nil, false)
				checkV(t, s, "(1/2) flip x", nil, false)
			})
		}
	}
	c.Group("transp by axes")
	for _, sh := range shapes {
		if len(sh) < 2 {
			continue
		}
		for _, o := range origins {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("transp shape=%s origin=%d", shapeStr(sh), o), func(t *mc.T) {
				s := ivy.New()
				s.Run(fmt.Sprintf(")origin %d\n", o))
				x := fillKinds(sh)["num"]
				s.SetVar("x", x.Value())
				for n := 1; n <= len(sh)+1; n++ {
					eachTuple(n+2, n, func(a []int) {
						zero := make([]int, n)
						lit := make([]int, n)
						for i := range a {
							zero[i] = a[i] - 1
							lit[i] = a[i] - 1 + o
						}
						want := ref.TranspBy(zero, x)
						checkV(t, s, vecLit(lit)+" transp x", want, false)
					})
				}
			})
		}
	}
	c.Group("take and drop")
	lim := 4
	if !c.Quick {
		lim = 6
	}
	for _, sh := range shapes {
		for _, kind := range kindNames {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("take/drop shape=%s %s", shapeStr(sh), kind), func(t *mc.T) {
				x := fillKinds(sh)[kind]
				s.SetVar("x", x.Value())
				for n := 1; n <= len(sh)+1; n++ {
					l := lim
					if n >= 3 {
						l = 2
					}
					eachTuple(2*l+1, n, func(ix []int) {
						a := make([]int, n)
						pad := false
						for i := range a {
							a[i] = ix[i] - l
							if i < len(sh) && (a[i] > sh[i] || -a[i] > sh[i]) {
								pad = true
							}
						}
						lit := vecLit(a)
						if n > len(sh) {
							pad = true
						}
						if !(pad && isNested(x)) {
							checkV(t, s, lit+" take x", ref.Take(a, x), false)
						}
						if n <= len(sh) || len(sh) > 1 {
							checkV(t, s, lit+" drop x", ref.Drop(a, x), false)
						}
						if n == 1 && len(sh) == 1 && a[0] >= 0 && a[0] <= sh[0] {
							checkV(t, s, fmt.Sprintf("(%d take x), (%d drop x)", a[0], a[0]), x, false)
							checkV(t, s, fmt.Sprintf("((-%d) drop x), ((-%d) take x)", a[0], a[0]), x, false)
						}
					})
				}
				checkV(t, s, "(1/2) take x", nil, false)
				checkV(t, s, "'a' drop x", nil, false)
			})
		}
	}
	for _, n := range []int{14, 15, 16, 17, 18, 31, 32, 33, 255, 256, 257, 300} {
		for _, m := range []int{0, 1, 15, 16, 17, 255, 256, 257, 310} {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("take/drop %d of %d", m, n), func(t *mc.T) {
				x := ref.Iota(1, n)
				s.SetVar("x", x.Value())
				for _, k := range []int{m, -m} {
					checkV(t, s, vecLit([]int{k})+" take x", ref.Take([]int{k}, x), false)
					checkV(t, s, vecLit([]int{k})+" drop x", ref.Drop([]int{k}, x), false)
				}
				y := ref.Iota(5000, m)
				s.SetVar("y", y.Value())
				checkV(t, s, "x , y", ref.Cat(x, y, true), false)
				checkV(t, s, "x ,% y", ref.Cat(x, y, false), false)
			})
		}
	}
	c.Group("catenate")
	cs := append(shapesUpTo(3, 3, 2), nil)
	if !c.Quick {
		cs = append(shapesUpTo(4, 4, 3, 2), nil)
	}
	scal := map[string]*ref.V{"num": ref.Int(7), "chr": ref.Chr('z'), "nest": ref.Rat(rat(1, 2))}
	for _, a := range cs {
		for _, b := range cs {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("catenate %s with %s", shapeStr(a), shapeStr(b)), func(t *mc.T) {
				for _, ka := range kindNames {
					for _, kb := range kindNames {
						x, y := scal[ka], scal[kb]
						if a != nil {
							x = fillKinds(a)[ka]
						}
						if b != nil {
							y = fillKinds(b)[kb]
						}
						s.SetVar("x", x.Value())
						s.SetVar("y", y.Value())
						checkV(t, s, "x , y", ref.Cat(x, y, true), false)
						checkV(t, s, "x ,% y", ref.Cat(x, y, false), false)
					}
				}
			})
		}
	}
	c.Group("sel, fill, part")
	for _, sh := range shapesUpTo(4, 3, 2) {
		for _, kind := range kindNames {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("sel/fill/part shape=%s %s", shapeStr(sh), kind), func(t *mc.T) {
				x := fillKinds(sh)[kind]
				s.SetVar("x", x.Value())
				last := sh[len(sh)-1]
				for n := 1; n <= max(last+1, 2); n++ {
					rng := 5
					if n > 4 {
						rng = 3
					}
					eachTuple(rng, n, func(ix []int) {
						a := make([]int, n)
						neg := false
						for i := range a {
							a[i] = ix[i] - 1
							neg = neg || a[i] < 0
						}
						if rng == 5 {
							for i := range a {
								a[i] = ix[i] - 2
								neg = neg || a[i] < 0
							}
						}
						checkV(t, s, vecLit(a)+" sel x", ref.Sel(a, x), false)
						if len(sh) == 1 {
							checkV(t, s, vecLit(a)+" fill x", ref.FillOp(a, x), false)
						}
						if !neg || len(x.Data) > 0 { // Whether an unused negative score is noticed is not specified.
							checkV(t, s, vecLit(a)+" part x", ref.Part(a, x), false)
						}
					})
				}
				checkV(t, s, "(1/2) sel x", func() *ref.V {
					if last == 0 || len(x.Data) == 0 {
						v, err, _ := s.Eval1("(1/2) sel x")
						if err == "" {
							r, _ := ref.From(v)
							return r
						}
					}
					return nil
				}(), false)
			})
		}
	}
	// Vectors on both sides of the chunk size.
	for _, n := range []int{15, 16, 17, 256, 257} {
		for _, m := range []int{-1, 0, 1, 2, 3} {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("sel %d of %d", m, n), func(t *mc.T) {
				x := ref.Iota(1, n)
				s.SetVar("x", x.Value())
				checkV(t, s, fmt.Sprintf("(%d) sel x", m), ref.Sel([]int{m}, x), false)
				a := make([]int, n)
				for i := range a {
					a[i] = (i * (m + 2)) % 3
				}
				s.SetVar("a", ref.Ints(a...).Value())
				checkV(t, s, "a sel x", ref.Sel(a, x), false)
				checkV(t, s, "a part x", ref.Part(a, x), false)
			})
		}
	}
	c.Group("large matrices")
	for _, sh := range append(append([][]int{}, bigShapes...), [][]int{{400, 2}, {2, 400}, {20, 20, 20}, {300, 2, 2}, {3, 3, 3, 3, 3}, {70, 70}}...) {
		if len(sh) < 2 {
			continue
		}
		for _, kind := range kindNames {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("large shape=%s %s", shapeStr(sh), kind), func(t *mc.T) {
				x := fillKinds(sh)[kind]
				s.SetVar("x", x.Value())
				last := sh[len(sh)-1]
				counts := func(d int) []int { return []int{1, -1, 0, d - 1, 1 - d, d, d + 3, -d - 3} }
				c0 := counts(sh[0])
				for i, k := range c0 {
					a := []int{k}
					if !(i > 5 && isNested(x)) {
						checkV(t, s, vecLit(a)+" take x", ref.Take(a, x), false)
					}
					checkV(t, s, vecLit(a)+" drop x", ref.Drop(a, x), false)
					for j := range c0 {
						a := []int{k, counts(sh[1])[j]}
						if !((i > 5 || j > 5) && isNested(x)) {
							checkV(t, s, vecLit(a)+" take x", ref.Take(a, x), false)
						}
						checkV(t, s, vecLit(a)+" drop x", ref.Drop(a, x), false)
					}
				}
				// All permutations of the axes, and the diagonals.
				n := len(sh)
				eachTuple(n, n, func(ix []int) {
					lit := make([]int, n)
					distinct := map[int]bool{}
					for i := range ix {
						lit[i] = ix[i] + 1
						distinct[ix[i]] = true
					}
					if len(distinct) < n-1 {
						return
					}
					checkV(t, s, vecLit(lit)+" transp x", ref.TranspBy(append([]int{}, ix...), x), false)
				})
				// Catenation with itself, a row, a plane, and a scalar.
				row := ref.Iota(1000, last)
				s.SetVar("y", row.Value())
				checkV(t, s, "x , x", ref.Cat(x, x, true), false)
				checkV(t, s, "x ,% x", ref.Cat(x, x, false), false)
				checkV(t, s, "x ,% 7", ref.Cat(x, ref.Int(7), false), false)
				checkV(t, s, "7 , x", ref.Cat(ref.Int(7), x, true), false)
				if n == 2 {
					checkV(t, s, "x ,% y", ref.Cat(x, row, false), false)
					checkV(t, s, "y ,% x", ref.Cat(row, x, false), false)
				}
				for _, m := range []int{2, 3, 5} {
					a := make([]int, last)
					b := make([]int, last)
					for i := range a {
						a[i] = i % m
						b[i] = 1 + i/m
					}
					s.SetVar("a", ref.Ints(a...).Value())
					s.SetVar("b", ref.Ints(b...).Value())
					checkV(t, s, "a sel x", ref.Sel(a, x), false)
					checkV(t, s, "a part x", ref.Part(a, x), false)
					checkV(t, s, "b part x", ref.Part(b, x), false)
				}
			})
		}
	}
}
