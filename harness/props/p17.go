package props

import (
	"fmt"
	"strings"

	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P17", Run: runP17,
		Rule:        "every shape within the bounds x every tuple of index slots over an alphabet of slot forms (empty, every scalar in and just out of range, all short vectors, empty vector, matrix, wrong types) x origins, read and then assigned with scalar, conforming and non-conforming right sides, compared with the outer-product definition; the whole variable and an alias of it are compared after every assignment; also vectors of index vectors, locals, and assignments to nested cells",
		Assumptions: []string{"extents beyond 3 and ranks beyond 3 (4 in thorough; 6 and 7 with scalars, whole and reversed dimensions) behave alike; large vectors and matrices around the storage chunk are included with sampled-by-rule index sets"}})
}

type slot struct {
	src string
	v   *ref.V // nil with src=="" : empty slot
	bad bool
	dup bool
}

// slotAlphabet lists the slot forms for a dimension of extent d.
func slotAlphabet(d, o int, rich bool) []slot {
	sl := []slot{{}}
	for i := -1; i <= d; i++ {
		sl = append(sl, slot{src: fmt.Sprintf("(%d)", i+o), v: ref.Int(i + o)})
	}
	vec := func(is ...int) {
		dup := false
		for i := range is {
			for j := range is[:i] {
				dup = dup || is[i] == is[j]
			}
			is[i] += o
		}
		v := ref.Ints(is...)
		sl = append(sl, slot{src: v.Src(), v: v, dup: dup})
	}
	vec()
	for i := 0; i < d; i++ {
		vec(i)
	}
	if rich {
		for i := 0; i < d; i++ {
			for j := 0; j < d; j++ {
				vec(i, j)
			}
		}
	} else if d > 0 {
		vec(d-1, 0)
	}
	vec(0, d)
	vec(-1, 0)
	if d > 0 {
		m := ref.Gather([]int{2, 2}, func(ix []int) *ref.V { return ref.Int((ix[0]*2+ix[1]*3)%d + o) })
		sl = append(sl, slot{src: m.Src(), v: m, dup: true})
		m = ref.Gather([]int{1, d}, func(ix []int) *ref.V { return ref.Int(d - 1 - ix[1] + o) })
		sl = append(sl, slot{src: m.Src(), v: m})
	}
	sl = append(sl, slot{src: "'a'", bad: true}, slot{src: "(1/2)", bad: true}, slot{src: "(10**20)", bad: true})
	if rich {
		sl = append(sl, slot{src: "pi", bad: true}, slot{src: "(1 'a')", bad: true}, slot{src: "1j1", bad: true})
	}
	return sl
}

func runP17(c *mc.Ctx) {
	shapes := append(shapesUpTo(4, 3), [][]int{{1, 1, 1}, {2, 2, 2}, {2, 1, 3}, {1, 2, 2}, {2, 3, 2}, {0, 2, 2}, {2, 0, 2}, {2, 2, 0}, {3, 2, 1}}...)
	if !c.Quick {
		shapes = append(shapesUpTo(5, 4), shapesUpTo(0, 0, 3)...)
		shapes = append(shapes, []int{2, 2, 2, 2}, []int{1, 2, 3, 2}, []int{2, 1, 1, 3})
	}
	for _, o := range []int{1, 0, 2} {
		s := ivy.New()
		s.Run(fmt.Sprintf(")origin %d\n", o))
		for _, sh := range shapes {
			for n := 1; n <= len(sh)+1; n++ {
				var alph [][]slot
				for k := 0; k < n; k++ {
					d := 1
					if k < len(sh) {
						d = sh[k]
					}
					alph = append(alph, slotAlphabet(d, o, n <= 2))
				}
				c.Group(fmt.Sprintf("rank %d, %d slots", len(sh), n))
				// One case per choice of the first slot and (if any) second.
				outer := [][]int{}
				for i := range alph[0] {
					if n == 1 {
						outer = append(outer, []int{i})
						continue
					}
					for j := range alph[1] {
						outer = append(outer, []int{i, j})
					}
				}
				for _, pre := range outer {
					if c.Skip() {
						continue
					}
					key := fmt.Sprintf("origin=%d shape=%s slots=%d first=%v", o, shapeStr(sh), n, pre)
					c.Do(key, func(t *mc.T) {
						ix := append([]int{}, pre...)
						for len(ix) < n {
							ix = append(ix, 0)
						}
						for {
							sl := make([]slot, n)
							for k := range sl {
								sl[k] = alph[k][ix[k]]
							}
							p17one(t, s, sh, sl, o)
							k := n - 1
							for ; k >= len(pre); k-- {
								if ix[k]++; ix[k] < len(alph[k]) {
									break
								}
								ix[k] = 0
							}
							if k < len(pre) {
								break
							}
						}
					})
				}
			}
		}
	}
	// Higher ranks, with fewer forms of slot.
	c.Group("high rank")
	shapes = [][]int{{2, 2, 2, 2}, {1, 2, 3, 2}, {2, 1, 2, 1, 2}, {2, 2, 1, 2, 3, 2}}
	if !c.Quick {
		shapes = append(shapes, []int{3, 1, 2, 3, 2}, []int{2, 2, 2, 2, 2, 2}, []int{2, 1, 2, 2, 1, 2, 2})
	}
	for _, o := range []int{1, 0} {
		s := ivy.New()
		s.Run(fmt.Sprintf(")origin %d\n", o))
		for _, sh := range shapes {
			for n := 1; n <= len(sh); n++ {
				alph := make([][]slot, n)
				for k := range alph {
					d := sh[k]
					v := ref.Ints(d-1+o, o)
					alph[k] = []slot{{}, {src: fmt.Sprint(o), v: ref.Int(o)}, {src: fmt.Sprint(d - 1 + o), v: ref.Int(d - 1 + o)}, {src: v.Src(), v: v, dup: d == 1}}
					if k == n-1 {
						alph[k] = append(alph[k], slot{src: fmt.Sprint(d + o), v: ref.Int(d + o)})
					}
				}
				for first := range alph[0] {
					if c.Skip() {
						continue
					}
					c.Do(fmt.Sprintf("origin=%d shape=%s slots=%d first=%d", o, shapeStr(sh), n, first), func(t *mc.T) {
						sl := make([]slot, n)
						sl[0] = alph[0][first]
						var rec func(k int)
						rec = func(k int) {
							if t.Failed() {
								return
							}
							if k == n {
								p17one(t, s, sh, sl, o)
								return
							}
							for _, x := range alph[k] {
								sl[k] = x
								rec(k + 1)
							}
						}
						rec(1)
					})
				}
			}
		}
	}
	// Index vectors.
	c.Group("index vectors")
	for _, o := range []int{1, 0} {
		for _, sh := range [][]int{{3}, {2, 3}, {3, 2}, {2, 2, 2}, {2, 3, 2}, {1, 1}} {
			for n := 1; n <= len(sh)+1; n++ {
				for cnt := 1; cnt <= 2; cnt++ {
					if c.Skip() {
						continue
					}
					c.Do(fmt.Sprintf("index vectors origin=%d shape=%s len=%d count=%d", o, shapeStr(sh), n, cnt), func(t *mc.T) {
						s := ivy.New()
						s.Run(fmt.Sprintf(")origin %d\n", o))
						eachTuple(4, n*cnt, func(ix []int) {
							x := ref.Iota(11, sh...)
							var list []*ref.V
							ok := n <= len(sh)
							var d []*ref.V
							rest := []int{}
							if ok {
								rest = sh[n:]
							}
							offs := []int{}
							for k := 0; k < cnt; k++ {
								is := make([]int, n)
								off := 0
								for j := range is {
									i := ix[k*n+j] - 1
									is[j] = i + o
									if ok && j < len(sh) {
										if i < 0 || i >= sh[j] {
											ok = false
										}
										off = off*sh[j] + i
									}
								}
								list = append(list, ref.Ints(is...))
								if ok {
									sz := ref.Size(rest)
									for q := 0; q < sz; q++ {
										d = append(d, x.Data[off*sz+q])
										offs = append(offs, off*sz+q)
									}
								}
							}
							var want *ref.V
							if ok {
								want = ref.Arr(append([]int{cnt}, rest...), d)
							}
							s.SetVar("x", x.Value())
							iv := ref.Vec(list...).Src()
							if !checkV(t, s, "x["+iv+"]", want, false) {
								return
							}
							// Assignment of a scalar.
							v, err, p := s.Eval1("x[" + iv + "] = 999")
							t.Step(1)
							_ = v
							if p != nil || (err == "") != ok {
								t.Failf("x[%s] = 999 for shape %v: %s", iv, sh, show(v, err, p))
								return
							}
							wantX := ref.Arr(sh, append([]*ref.V{}, x.Data...))
							if ok {
								for _, o := range offs {
									wantX.Data[o] = ref.Int(999)
								}
							}
							got, e := ref.From(s.Var("x"))
							if e != nil || !ref.Equal(got, wantX) {
								t.Failf("after x[%s] = 999, x is %v, want %v", iv, got, wantX)
							}
						})
					})
				}
			}
		}
	}
	// Bigger arrays: every element by index, assigned and read back; slices with strides.
	c.Group("large")
	for _, n := range []int{15, 16, 17, 31, 255, 256, 257, 300, 4095, 4096, 4097} {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("large vector %d", n), func(t *mc.T) {
			s := ivy.New()
			x := ref.Iota(1, n)
			s.SetVar("x", x.Value())
			s.Run("y = x\n")
			step := 1
			if n > 500 {
				step = 7
			}
			cur := append([]*ref.V{}, x.Data...)
			for i := 0; i < n; i += step {
				s.Eval(fmt.Sprintf("x[%d] = -%d", i+1, i+1))
				cur[i] = ref.Int(-(i + 1))
				v, err, p := s.Eval1(fmt.Sprintf("x[%d]", i+1))
				t.Step(2)
				if p != nil || err != "" || ivy.Dump(v) != fmt.Sprint(-(i+1)) {
					t.Failf("x[%d] of %d after assignment: %s", i+1, n, show(v, err, p))
					return
				}
			}
			got, _ := ref.From(s.Var("x"))
			if !ref.Equal(got, ref.Vec(cur...)) {
				t.Failf("vector of %d after element assignments is wrong", n)
			}
			got, _ = ref.From(s.Var("y"))
			if !ref.Equal(got, x) {
				t.Failf("alias of vector of %d changed", n)
			}
			for _, k := range []int{1, 2, 16, 100} {
				if k > n {
					continue
				}
				s.SetVar("x", x.Value())
				s.SetVar("i", ref.Iota(n-k+1, k).Value())
				s.SetVar("r", ref.Iota(100000, k).Value())
				checkV(t, s, "x[i]", ref.Arr([]int{k}, x.Data[n-k:]), false)
				s.Eval("x[i] = r")
				want := ref.Vec(append(append([]*ref.V{}, x.Data[:n-k]...), ref.Iota(100000, k).Data...)...)
				got, _ := ref.From(s.Var("x"))
				if !ref.Equal(got, want) {
					t.Failf("x[last %d] = ... on vector of %d is wrong", k, n)
				}
			}
		})
	}
	for _, sh := range [][]int{{16, 17}, {3, 100}, {100, 3}, {257, 2}, {6, 7, 8}} {
		if c.Skip() {
			continue
		}
		c.Do("large matrix "+shapeStr(sh), func(t *mc.T) {
			s := ivy.New()
			x := ref.Iota(1, sh...)
			s.SetVar("x", x.Value())
			for k := 0; k < sh[0]; k++ {
				checkV(t, s, fmt.Sprintf("x[%d]", k+1), ref.Index(x, []*ref.V{ref.Int(k + 1)}, 1), false)
			}
			for k := 0; k < sh[1]; k++ {
				checkV(t, s, fmt.Sprintf("x[;%d]", k+1), ref.Index(x, []*ref.V{nil, ref.Int(k + 1)}, 1), false)
				s.SetVar("z", x.Value())
				s.Eval(fmt.Sprintf("z[;%d] = 0", k+1))
				_, offs, _ := ref.IndexOffsets(sh, []*ref.V{nil, ref.Int(k + 1)}, 1)
				want := ref.Arr(sh, append([]*ref.V{}, x.Data...))
				for _, o := range offs {
					want.Data[o] = ref.Int(0)
				}
				got, _ := ref.From(s.Var("z"))
				if !ref.Equal(got, want) {
					t.Failf("z[;%d] = 0 on shape %v is wrong", k+1, sh)
				}
			}
			// Whole columns in reverse.
			s.SetVar("i", ref.Reverse(ref.Iota(1, sh[1]), 0).Value())
			s.SetVar("z", x.Value())
			s.Eval("z[;i] = x")
			idx := []*ref.V{nil, ref.Reverse(ref.Iota(1, sh[1]), 0)}
			checkV(t, s, "z", ref.Index(x, idx, 1), false)
		})
	}
	// Locals and nested cells.
	c.Group("locals")
	for _, sh := range [][]int{{3}, {2, 2}, {17}, {5, 60}} {
		if c.Skip() {
			continue
		}
		c.Do("local "+shapeStr(sh), func(t *mc.T) {
			s := ivy.New()
			s.Run("op v seti x = x[v] = 77; x\nop setall x = x[] = 5; x\nop twice x = y = x; y[1] = 9; x y\n")
			x := ref.Iota(1, sh...)
			s.SetVar("g", x.Value())
			want := ref.Arr(sh, append([]*ref.V{}, x.Data...))
			sz := ref.Size(sh[1:])
			for k := 0; k < sz; k++ {
				want.Data[sz+k] = ref.Int(77)
			}
			checkV(t, s, "2 seti g", want, false)
			checkV(t, s, "g", x, false)
			checkV(t, s, "setall g", ref.Gather(sh, func([]int) *ref.V { return ref.Int(5) }), false)
			checkV(t, s, "g", x, false)
			want = ref.Arr(sh, append([]*ref.V{}, x.Data...))
			for k := 0; k < sz; k++ {
				want.Data[k] = ref.Int(9)
			}
			checkV(t, s, "twice g", ref.Vec(x, want), false)
			checkV(t, s, "g", x, false)
			// A whole array into one cell nests.
			if len(sh) == 1 {
				s.Run("g[1] = 4 5\n")
				w := ref.Vec(append([]*ref.V{ref.Ints(4, 5)}, x.Data[1:]...)...)
				checkV(t, s, "g", w, false)
				checkV(t, s, "g[1]", ref.Ints(4, 5), false)
				checkV(t, s, "g[1][2]", ref.Int(5), false)
			}
		})
	}
}

func p17one(t *mc.T, s *ivy.Sess, sh []int, sl []slot, o int) {
	x := ref.Iota(11, sh...)
	var idx []*ref.V
	var srcs []string
	bad, dup := false, false
	for _, k := range sl {
		idx = append(idx, k.v)
		srcs = append(srcs, k.src)
		bad = bad || k.bad
		dup = dup || k.dup
	}
	src := "x[" + strings.Join(srcs, ";") + "]"
	s.SetVar("x", x.Value())
	s.SetVar("y", s.Var("x"))
	var want *ref.V
	var out, offs []int
	ok := false
	if !bad {
		out, offs, ok = ref.IndexOffsets(sh, idx, o)
		want = ref.Index(x, idx, o)
	}
	name := fmt.Sprintf("%s (shape %v origin %d)", src, sh, o)
	if !checkV(t, s, src, want, false) {
		return
	}
	try := func(rhs *ref.V, legal bool) bool {
		s.SetVar("x", s.Var("y"))
		s.SetVar("r", rhs.Value())
		v, err, p := s.Eval1(src + " = r")
		t.Step(1)
		if p != nil {
			t.Failf("%s = %s: %s", name, rhs, p)
			return false
		}
		if (err == "") != legal {
			t.Failf("%s = %s: legal=%v but got %s", name, rhs, legal, show(v, err, p))
			return false
		}
		wantX := ref.Arr(sh, append([]*ref.V{}, x.Data...))
		if legal {
			for i, o := range offs {
				switch {
				case len(out) == 0 || rhs.Scalar():
					wantX.Data[o] = rhs
				default:
					wantX.Data[o] = rhs.Data[i]
				}
			}
		}
		got, e := ref.From(s.Var("x"))
		if e != nil || !ref.Equal(got, wantX) {
			t.Failf("after %s = %s: x is %v %v, want %s", name, rhs, got, e, wantX)
			return false
		}
		t.Observe(wantX.String())
		got, e = ref.From(s.Var("y"))
		if e != nil || !ref.Equal(got, x) {
			t.Failf("after %s = %s: the alias y changed to %v", name, rhs, got)
			return false
		}
		return true
	}
	if !try(ref.Int(-5), ok) {
		return
	}
	if !ok {
		try(ref.Ints(1, 2), false)
		return
	}
	if len(out) == 0 {
		try(ref.Ints(7, 8, 9), true) // nests
		return
	}
	if !dup {
		if !try(ref.Iota(-100, out...), true) {
			return
		}
	}
	// One element too many, and the wrong rank.
	out2 := append([]int{}, out...)
	out2[len(out2)-1]++
	if !try(ref.Iota(-100, out2...), false) {
		return
	}
	try(ref.Iota(-100, append(append([]int{}, out...), 1)...), false)
	if len(out) > 1 {
		try(ref.Iota(-100, out[1:]...), false)
	}
}
