package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P15", Run: runP15,
		Rule:        "all pairs of an element alphabet (characters, every number representation including equal values in different representations, complex, empty, nested and differently shaped values), all vectors up to a length over sub-alphabets, all small matrices, and rule-generated vectors of sizes beyond every internal algorithm switch, through in, iota, union, intersect, unique, where, up, down, === and !== under several origins; the oracle is a linear-search model over an independently written total order on exact values",
		Assumptions: []string{"floats in the alphabet are exactly representable, so equality with rationals is exact", "which representation of equal numbers of different types unique keeps is not specified", "grade of a matrix need not be stable"}})
}

// kind ranks a value in the total order.
func kind15(v value.Value) int {
	switch x := v.(type) {
	case value.Char:
		return 0
	case value.Complex:
		_, im := x.Components()
		if r, ok := exact15(im); ok && r.Sign() == 0 {
			return 1
		}
		return 2
	case *value.Vector:
		return 3
	case *value.Matrix:
		return 4
	}
	return 1
}

func exact15(v value.Value) (*big.Rat, bool) {
	switch x := v.(type) {
	case value.BigFloat:
		r, _ := x.Float.Rat(nil)
		return r, r != nil
	case value.Complex:
		re, _ := x.Components()
		return exact15(re)
	}
	return ratOf(v)
}

func cmp15(u, v value.Value) int {
	ku, kv := kind15(u), kind15(v)
	if ku != kv {
		if ku < kv {
			return -1
		}
		return 1
	}
	lex := func(a, b *value.Vector) int {
		for i := 0; i < a.Len(); i++ {
			if s := cmp15(a.At(i), b.At(i)); s != 0 {
				return s
			}
		}
		return 0
	}
	si := func(a, b int) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	}
	switch ku {
	case 0:
		return si(int(u.(value.Char)), int(v.(value.Char)))
	case 1:
		a, _ := exact15(u)
		b, _ := exact15(v)
		return a.Cmp(b)
	case 2:
		ar, ai := u.(value.Complex).Components()
		br, bi := v.(value.Complex).Components()
		if s := cmp15(ar, br); s != 0 {
			return s
		}
		return cmp15(ai, bi)
	case 3:
		a, b := u.(*value.Vector), v.(*value.Vector)
		if s := si(a.Len(), b.Len()); s != 0 {
			return s
		}
		return lex(a, b)
	}
	a, b := u.(*value.Matrix), v.(*value.Matrix)
	if s := si(a.Data().Len(), b.Data().Len()); s != 0 {
		return s
	}
	// The relative order of equal-sized matrices of different shape is only
	// required to be consistent; equality is what matters here.
	if shapeStr(a.Shape()) != shapeStr(b.Shape()) {
		return strings.Compare(shapeStr(a.Shape()), shapeStr(b.Shape()))
	}
	return lex(a.Data(), b.Data())
}

type env15 struct {
	s      *ivy.Sess
	origin int
}

func (e *env15) eval(t *mc.T, expr string, vals ...value.Value) (value.Value, bool) {
	for i, v := range vals {
		e.s.SetVar(string(rune('x'+i)), v)
	}
	v, err, p := e.s.Eval1(expr)
	t.Step(1)
	if p != nil {
		t.Failf("%s with %s: %s", expr, dump15(vals), p)
		return nil, false
	}
	if err != "" {
		t.Observe("error")
		return nil, true
	}
	t.Observe(ivy.Dump(v))
	return v, true
}

func dump15(vals []value.Value) string {
	var s []string
	for i, v := range vals {
		s = append(s, string(rune('x'+i))+"="+clipS(ivy.DumpRep(v), 300))
	}
	return strings.Join(s, " ")
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// want checks a list result; a scalar and a one-element vector are not distinguished.
func (e *env15) want(t *mc.T, expr string, want []value.Value, vals ...value.Value) {
	got, ok := e.eval(t, expr, vals...)
	if !ok {
		return
	}
	if got == nil {
		t.Failf("%s with %s: error", expr, dump15(vals))
		return
	}
	g := arrOf(got)
	bad := len(g.data) != len(want) || len(g.shape) > 1 || g.shape == nil && len(want) != 1
	for i := range want {
		bad = bad || ivy.DumpRep(g.data[i]) != ivy.DumpRep(want[i])
	}
	if bad {
		t.Failf("%s with %s gives %s, want %s", expr, dump15(vals), clipS(ivy.DumpRep(got), 400), clipS(ivy.DumpRep(value.NewVector(want...)), 400))
	}
}

func (e *env15) wantShape(t *mc.T, expr string, shape []int, want []value.Value, vals ...value.Value) {
	got, ok := e.eval(t, expr, vals...)
	if !ok {
		return
	}
	w := arr{shape, want}.val()
	if got == nil || ivy.DumpRep(got) != ivy.DumpRep(w) {
		if got != nil && len(want) == 1 && len(shape) == 1 && ivy.DumpRep(got) == ivy.DumpRep(want[0]) {
			return
		}
		gs := "error"
		if got != nil {
			gs = ivy.DumpRep(got)
		}
		t.Failf("%s with %s gives %s, want %s", expr, dump15(vals), clipS(gs, 400), clipS(ivy.DumpRep(w), 400))
	}
}

func b15(b bool) value.Value {
	if b {
		return value.Int(1)
	}
	return value.Int(0)
}

func find15(d []value.Value, x value.Value) int {
	for i, y := range d {
		if cmp15(y, x) == 0 {
			return i
		}
	}
	return -1
}

// mixed reports whether equal elements have different representations.
func mixed15(d []value.Value) bool {
	for i := range d {
		for j := range d[:i] {
			if cmp15(d[i], d[j]) == 0 && ivy.DumpRep(d[i]) != ivy.DumpRep(d[j]) {
				return true
			}
		}
	}
	return false
}

// pair checks the binary operators on two vectors (or scalars).
func (e *env15) pair(t *mc.T, xv, yv value.Value) {
	X, Y := arrOf(xv), arrOf(yv)
	var in, idx, uni, inter []value.Value
	for _, a := range X.data {
		f := find15(Y.data, a) >= 0
		in = append(in, b15(f))
		if f {
			inter = append(inter, a)
		}
	}
	uni = append(uni, X.data...)
	for _, b := range Y.data {
		i := find15(X.data, b)
		idx = append(idx, value.Int(i+e.origin))
		if i < 0 {
			uni = append(uni, b)
		}
	}
	e.want(t, "x in y", in, xv, yv)
	e.want(t, "x iota y", idx, xv, yv)
	e.want(t, "x union y", uni, xv, yv)
	e.want(t, "x intersect y", inter, xv, yv)
	same := cmp15(xv, yv) == 0
	e.want(t, "x === y", []value.Value{b15(same)}, xv, yv)
	e.want(t, "x !== y", []value.Value{b15(!same)}, xv, yv)
}

func (e *env15) single(t *mc.T, xv value.Value) {
	X := arrOf(xv)
	// unique
	var u []value.Value
	for _, a := range X.data {
		if find15(u, a) < 0 {
			u = append(u, a)
		}
	}
	if !mixed15(X.data) {
		e.want(t, "unique x", u, xv)
	} else if got, ok := e.eval(t, "unique x", xv); ok {
		bad := got == nil
		if !bad {
			g := arrOf(got)
			bad = len(g.data) != len(u)
			for i := range g.data {
				bad = bad || find15(u, g.data[i]) < 0 || find15(g.data[:i], g.data[i]) >= 0
			}
		}
		if bad {
			t.Failf("unique of %s: %s", ivy.DumpRep(xv), show(got, "", nil))
		}
	}
	// up, down
	if oddMatrices15(X.data) {
		return // The order of such matrices is not specified, only that they differ.
	}
	ix := make([]int, len(X.data))
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(i, j int) bool { return cmp15(X.data[ix[i]], X.data[ix[j]]) < 0 })
	up, down := make([]value.Value, len(ix)), make([]value.Value, len(ix))
	for i, k := range ix {
		up[i] = value.Int(k + e.origin)
		down[len(ix)-1-i] = up[i]
	}
	e.want(t, "up x", up, xv)
	e.want(t, "down x", down, xv)
}

// oddMatrices15 reports whether there are matrices of equal size and different shape.
func oddMatrices15(d []value.Value) bool {
	for i := range d {
		m, ok := d[i].(*value.Matrix)
		for j := range d[:i] {
			if n, ok1 := d[j].(*value.Matrix); ok && ok1 && m.Data().Len() == n.Data().Len() && shapeStr(m.Shape()) != shapeStr(n.Shape()) {
				return true
			}
		}
	}
	return false
}

// alphabet15 evaluates the element alphabet in a session.
func alphabet15(s *ivy.Sess, srcs string) []value.Value {
	var out []value.Value
	for _, src := range strings.Split(srcs, ";") {
		v, err, p := s.Eval1(src)
		if v == nil {
			panic(fmt.Sprint(src, err, p))
		}
		out = append(out, v)
	}
	return out
}

const elems15 = "'a';'b';'é';0;1;2;-1;2000000000;1/2;-1/2;float 1/2;1/3;2/3;sqrt 2;2**70;-(2**70);1+2**70;(2**70)/3;float (2**70)/8;1j1;1j2;0j1;1j-1;1/2j1;(float 1/2) j 1;0 rho 0;''; , 1;1 2;2 1;1 3;0 1 2;(1/2) 2;(float 1/2) 2;'ab';(1 2) 3;(1 2) (3 4);2 2 rho 1 2 3 4;1 4 rho 1 2 3 4;4 1 rho 1 2 3 4;2 2 rho 1 2 3 5;2 3 rho 0;3 2 rho 0;1 2 3 rho 0;0 2 rho 0;2 0 rho 0;1 1 rho 1"

func runP15(c *mc.Ctx) {
	s := ivy.New()
	all := alphabet15(s, elems15)
	// The model's own order must be a total order on the alphabet.
	for _, a := range all {
		for _, b := range all {
			if cmp15(a, b) != -cmp15(b, a) {
				panic("model order is not antisymmetric")
			}
		}
	}
	envs := map[int]*env15{}
	env := func(o int) *env15 {
		if envs[o] == nil {
			s := ivy.New()
			s.Run(fmt.Sprintf(")origin %d\n", o))
			envs[o] = &env15{s, o}
		}
		return envs[o]
	}
	for _, o := range []int{1, 0, 3} {
		c.Group("element pairs")
		for i := range all {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("pairs origin=%d element=%d", o, i), func(t *mc.T) {
				e := env(o)
				for j := range all {
					e.s.SetVar("x", all[i])
					e.s.SetVar("y", all[j])
					same := cmp15(all[i], all[j]) == 0
					e.want(t, "x === y", []value.Value{b15(same)}, all[i], all[j])
					e.want(t, "x !== y", []value.Value{b15(!same)}, all[i], all[j])
					e.pair(t, value.NewVector(all[i]), value.NewVector(all[j]))
					if kind15(all[i]) < 3 && kind15(all[j]) < 3 {
						e.pair(t, all[i], all[j])
					}
					e.single(t, value.NewVector(all[i], all[j]))
					for k := range all {
						e.single(t, value.NewVector(all[i], all[j], all[k]))
					}
				}
			})
		}
	}
	vectors := func(al []value.Value, maxLen int) []value.Value {
		var out []value.Value
		for n := 0; n <= maxLen; n++ {
			eachTuple(len(al), n, func(ix []int) {
				d := make([]value.Value, n)
				for i, k := range ix {
					d[i] = al[k]
				}
				out = append(out, value.NewVector(d...))
			})
		}
		return out
	}
	type pool struct {
		name, src string
		pairLen   int
		oneLen    int
	}
	pools := []pool{
		{"integers", "0;1;2;3;2**70", 3, 6},
		{"mixed", "'a';1;1/2;float 1/2;1j1;1 2", 3, 5},
		{"nested", "1;1 2;'ab';2 2 rho 1 2 3 4;1 4 rho 1 2 3 4;0 rho 0", 2, 5},
		{"characters", "'a';'b';'c'", 3, 6},
	}
	if !c.Quick {
		for i := range pools {
			pools[i].oneLen++
			pools[i].pairLen++
		}
		pools[0].pairLen, pools[1].pairLen = 4, 3
	}
	for _, pl := range pools {
		al := alphabet15(s, pl.src)
		vs := vectors(al, pl.pairLen)
		c.Group("vector pairs, " + pl.name)
		for i := range vs {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("vector pairs %s %d", pl.name, i), func(t *mc.T) {
				e := env(1 - i%2)
				for j := range vs {
					e.pair(t, vs[i], vs[j])
				}
				for _, a := range al {
					if kind15(a) < 3 {
						e.pair(t, vs[i], a)
						e.pair(t, a, vs[i])
					}
				}
			})
		}
		c.Group("vectors, " + pl.name)
		for first := range al {
			for second := range al {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("vectors %s first=%d second=%d", pl.name, first, second), func(t *mc.T) {
					e := env(1 - first%2)
					for _, v := range vectors(al, pl.oneLen-2) {
						d := append([]value.Value{al[first], al[second]}, vecElems(v.(*value.Vector))...)
						e.single(t, value.NewVector(d...))
					}
				})
			}
		}
	}
	// Sizes beyond the algorithm switches, contents by rule.
	c.Group("large vectors")
	big := alphabet15(s, "3;1;'a';2;1/2;7;1j1;(1 2);5;2**70;-4;9;sqrt 2;'z';11;13;-8;4;100;(2 1);6;8")
	sizes := []int{11, 12, 13, 16, 17, 33, 64, 100, 255, 257, 300, 500}
	if !c.Quick {
		sizes = append(sizes, 1000, 4000, 4097)
	}
	gen := func(n, mul, add, k int, pool []value.Value) []value.Value {
		d := make([]value.Value, n)
		for i := range d {
			d[i] = pool[(i*i*mul+i*add+i/3)%k]
		}
		return d
	}
	ints := make([]value.Value, 600)
	for i := range ints {
		ints[i] = value.Int((i*7919 + 13) % 1009)
	}
	for _, n := range sizes {
		for _, k := range []int{1, 2, 3, 5, 11, 22} {
			for mul := 0; mul < 3; mul++ {
				if c.Skip() {
					continue
				}
				c.Do(fmt.Sprintf("large n=%d k=%d mul=%d", n, k, mul), func(t *mc.T) {
					for _, o := range []int{1, 0} {
						e := env(o)
						for _, pl := range [][]value.Value{big, ints} {
							kk := k
							if len(pl) > 100 {
								kk = k * 27
							}
							d := gen(n, mul, k+1, kk, pl)
							v := value.NewVector(d...)
							e.single(t, v)
							for _, m := range []int{0, 1, 5, 13, 40, 300} {
								w := value.NewVector(gen(m, 1, 2, kk, pl)...)
								e.pair(t, v, w)
								if m < 300 {
									e.pair(t, w, v)
								}
							}
						}
					}
				})
			}
		}
	}
	// where
	c.Group("where")
	for n := 0; n <= 5; n++ {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("where vectors %d", n), func(t *mc.T) {
			for _, o := range []int{1, 0, 3} {
				e := env(o)
				eachTuple(3, n, func(ix []int) {
					d := make([]value.Value, n)
					var want []value.Value
					for i, k := range ix {
						d[i] = value.Int(k)
						for range k {
							want = append(want, value.Int(i+o))
						}
					}
					e.want(t, "where x", want, value.NewVector(d...))
				})
				for _, bad := range alphabet15(s, "1 (-1) 0;1 (1/2);'a' 1;1 (2**70);1 1j1;1 (1 2)") {
					if v, ok := e.eval(t, "where x", bad); ok && v != nil {
						t.Failf("where %s accepted: %s", ivy.Dump(bad), ivy.Dump(v))
					}
				}
			}
		})
	}
	for _, sh := range [][]int{{0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 2, 3}} {
		if c.Skip() {
			continue
		}
		c.Do("where matrices "+shapeStr(sh), func(t *mc.T) {
			n := ref.Size(sh)
			k := 3
			if n > 6 {
				k = 2
			}
			for _, o := range []int{1, 0} {
				e := env(o)
				eachTuple(k, n, func(ix []int) {
					d := make([]value.Value, n)
					var want []value.Value
					for i, m := range ix {
						d[i] = value.Int(m)
						co := make([]value.Value, len(sh))
						r := i
						for a := len(sh) - 1; a >= 0; a-- {
							co[a] = value.Int(r%sh[a] + o)
							r /= sh[a]
						}
						for range m {
							want = append(want, value.NewVector(co...))
						}
					}
					x := arr{sh, d}.val()
					got, ok := e.eval(t, "where x", x)
					if ok && (got == nil || ivy.Dump(got) != ivy.Dump(value.NewVector(want...))) {
						t.Failf("where %s = %s, want %s", ivy.Dump(x), show(got, "", nil), ivy.Dump(value.NewVector(want...)))
					}
				})
			}
		})
	}
	// Matrices: grade, in, index of.
	c.Group("matrices")
	mpool := alphabet15(s, "1;2;'a'")
	for _, sh := range [][]int{{0, 2}, {2, 0}, {1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 2}, {5, 1}, {2, 2, 2}, {3, 1, 2}} {
		if c.Skip() {
			continue
		}
		c.Do("grade matrices "+shapeStr(sh), func(t *mc.T) {
			n := ref.Size(sh)
			k := 3
			if n > 7 {
				k = 2
			}
			e := env(1)
			eachTuple(k, n, func(ix []int) {
				d := make([]value.Value, n)
				for i, m := range ix {
					d[i] = mpool[m]
				}
				e.gradeMatrix(t, sh, d)
			})
		})
	}
	for _, n := range []int{13, 20, 60, 300} {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("grade large matrices %d", n), func(t *mc.T) {
			for _, o := range []int{1, 0} {
				for w := 1; w <= 3; w++ {
					for k := 1; k < 22; k++ {
						env(o).gradeMatrix(t, []int{n, w}, gen(n*w, 1, k, k, big))
					}
				}
			}
		})
	}
	for _, sh := range [][]int{{0, 2}, {2, 0}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {2, 2, 2}, {3, 1, 2}, {2, 2, 1}} {
		for _, bs := range [][]int{{}, {0}, {1}, {2}, {3}, {1, 2}, {2, 2}, {3, 2}, {2, 0}, {0, 2}, {2, 1}, {2, 2, 2}, {2, 1, 2}, {3, 2, 1}} {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("matrix search %s %s", shapeStr(sh), shapeStr(bs)), func(t *mc.T) {
				for _, o := range []int{1, 0} {
					for k := 1; k <= 5; k++ {
						for mul := 0; mul < 4; mul++ {
							a := gen(ref.Size(sh), mul, 1, k, big)
							b := gen(ref.Size(bs), 1, mul+1, k, big)
							env(o).search(t, sh, a, bs, b)
							env(o).search(t, bs, b, sh, a)
						}
					}
				}
			})
		}
	}
}

func (e *env15) gradeMatrix(t *mc.T, sh []int, d []value.Value) {
	x := arr{sh, d}.val()
	n := sh[0]
	st := ref.Size(sh[1:])
	cmp := func(a, b int) int {
		for i := 0; i < st; i++ {
			if s := cmp15(d[a*st+i], d[b*st+i]); s != 0 {
				return s
			}
		}
		return 0
	}
	for _, op := range []string{"up", "down"} {
		got, ok := e.eval(t, op+" x", x)
		if !ok {
			return
		}
		if got == nil {
			t.Failf("%s of %s: error", op, ivy.Dump(x))
			return
		}
		g := arrOf(got)
		if len(g.data) != n {
			t.Failf("%s of %s: %s", op, ivy.Dump(x), ivy.Dump(got))
			return
		}
		seen := make([]bool, n)
		prev := -1
		for i, v := range g.data {
			k, isInt := v.(value.Int)
			r := int(k) - e.origin
			if !isInt || r < 0 || r >= n || seen[r] {
				t.Failf("%s of %s is not a permutation: %s", op, clipS(ivy.Dump(x), 300), clipS(ivy.Dump(got), 300))
				return
			}
			seen[r] = true
			if i > 0 {
				s := cmp(prev, r)
				if s == 0 && (op == "up") != (prev < r) {
					t.Failf("%s of %s is not stable: %s", op, clipS(ivy.Dump(x), 300), clipS(ivy.Dump(got), 300))
					return
				}
				if op == "up" && s > 0 || op == "down" && s < 0 {
					t.Failf("%s of %s does not sort: %s", op, clipS(ivy.Dump(x), 300), clipS(ivy.Dump(got), 300))
					return
				}
			}
			prev = r
		}
	}
}

// search checks in and index-of where at least one operand is a matrix.
func (e *env15) search(t *mc.T, as []int, a []value.Value, bs []int, b []value.Value) {
	if len(as) == 0 {
		as = nil
	}
	if len(bs) == 0 {
		bs = nil
	}
	x, y := arr{as, a}.val(), arr{bs, b}.val()
	var in []value.Value
	for _, v := range a {
		in = append(in, b15(find15(b, v) >= 0))
	}
	ish := as
	if ish == nil {
		ish = []int{1}
	}
	e.wantShape(t, "x in y", ish, in, x, y)
	// Index of: cells of y with the shape of the major cells of x.
	xs, ys := as, bs
	if xs == nil {
		xs = []int{1}
	}
	if ys == nil {
		ys = []int{1}
	}
	cell := xs[1:]
	okShape := len(cell) <= len(ys)
	if okShape {
		okShape = shapeStr(cell) == shapeStr(ys[len(ys)-len(cell):])
	}
	if !okShape {
		if got, ok := e.eval(t, "x iota y", x, y); ok && got != nil {
			t.Failf("iota of shapes %v and %v gives %s", as, bs, ivy.Dump(got))
		}
		return
	}
	frame := ys[:len(ys)-len(cell)]
	n := ref.Size(cell)
	var want []value.Value
	for i := 0; i < ref.Size(frame); i++ {
		w := -1
		for j := 0; j < xs[0] && w < 0; j++ {
			eq := true
			for k := 0; k < n; k++ {
				eq = eq && cmp15(a[j*n+k], b[i*n+k]) == 0
			}
			if eq {
				w = j
			}
		}
		want = append(want, value.Int(w+e.origin))
	}
	if len(frame) == 0 {
		frame = []int{1}
	}
	e.wantShape(t, "x iota y", frame, want, x, y)
}
