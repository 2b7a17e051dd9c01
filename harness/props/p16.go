package props

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
	"verif/ref"
)

func init() {
	register(&mc.Prop{ID: "P16", Run: runP16,
		Rule:        "every derived operator form (f/ f/% f\\ f\\% f.g o.f f@ @f @f@ and stacked @) x every binary or unary f of an alphabet (associative and non-associative built-ins, user-defined operators, user-defined operators hiding built-ins) x every shape within the bounds x rotations of a pool of mixed elements; the oracle writes the result out element by element, applying f by separate two-operand evaluations in right-associative order, and predicts shape and error",
		Assumptions: []string{"the two-operand application of f is checked by P01, P02, P24, P25", "reductions of empty axes have no defined value; only the absence of a crash is required"}})
}

type arr struct {
	shape []int // nil: scalar
	data  []value.Value
}

func (a arr) val() value.Value {
	if a.shape == nil {
		return a.data[0]
	}
	v := value.NewVector(a.data...)
	if len(a.shape) == 1 {
		return v
	}
	return value.NewMatrix(append([]int{}, a.shape...), v)
}

func arrOf(v value.Value) arr {
	switch x := v.(type) {
	case *value.Vector:
		return arr{[]int{x.Len()}, vecElems(x)}
	case *value.Matrix:
		return arr{append([]int{}, x.Shape()...), vecElems(x.Data())}
	}
	return arr{nil, []value.Value{v}}
}

func vecElems(x *value.Vector) []value.Value {
	d := make([]value.Value, 0, x.Len())
	for i := 0; i < x.Len(); i++ {
		d = append(d, x.At(i))
	}
	return d
}

// applier evaluates two-operand and one-operand applications, one at a time.
type applier struct {
	s     *ivy.Sess
	cache map[string]value.Value
}

func (a *applier) bin(op string, x, y value.Value) value.Value {
	if x == nil || y == nil {
		return nil
	}
	k := op + "\x00" + ivy.DumpRep(x) + "\x00" + ivy.DumpRep(y)
	if v, ok := a.cache[k]; ok {
		return v
	}
	a.s.SetVar("ea", x)
	a.s.SetVar("eb", y)
	v, _, p := a.s.Eval1("ea " + op + " eb")
	if p != nil {
		panic(fmt.Sprintf("ea %s eb with %s %s: %s", op, ivy.Dump(x), ivy.Dump(y), p))
	}
	if len(a.cache) < 200000 {
		a.cache[k] = v
	}
	return v
}

func (a *applier) un(op string, x value.Value) value.Value {
	k := op + "\x01" + ivy.DumpRep(x)
	if v, ok := a.cache[k]; ok {
		return v
	}
	a.s.SetVar("ea", x)
	v, _, p := a.s.Eval1(op + " ea")
	if p != nil {
		panic(fmt.Sprintf("%s ea with %s: %s", op, ivy.Dump(x), p))
	}
	if len(a.cache) < 200000 {
		a.cache[k] = v
	}
	return v
}

// fold is the right-associative reduction of a nonempty list.
func (a *applier) fold(op string, d []value.Value) value.Value {
	acc := d[len(d)-1]
	for i := len(d) - 2; i >= 0; i-- {
		acc = a.bin(op, d[i], acc)
		if acc == nil {
			return nil
		}
	}
	return acc
}

// lanes lists the index lists along an axis, in row-major order of the rest.
func lanes(shape []int, axis int) [][]int {
	stride := ref.Size(shape[axis+1:])
	n := shape[axis]
	var out [][]int
	for o := 0; o < ref.Size(shape[:axis]); o++ {
		for in := 0; in < stride; in++ {
			var l []int
			for k := 0; k < n; k++ {
				l = append(l, (o*n+k)*stride+in)
			}
			out = append(out, l)
		}
	}
	return out
}

func dropAxis(shape []int, axis int) []int {
	s := append([]int{}, shape[:axis]...)
	return append(s, shape[axis+1:]...)
}

// reduce and scan; ok=false means an error is required; spec=false unspecified.
func (a *applier) reduce(op string, x arr, first bool) (r arr, ok, spec bool) {
	if x.shape == nil {
		return x, true, true
	}
	if ref.Size(x.shape) == 0 {
		return x, false, false
	}
	axis := len(x.shape) - 1
	if first {
		axis = 0
	}
	for _, l := range lanes(x.shape, axis) {
		var d []value.Value
		for _, i := range l {
			d = append(d, x.data[i])
		}
		v := a.fold(op, d)
		if v == nil {
			return r, false, true
		}
		r.data = append(r.data, v)
	}
	r.shape = dropAxis(x.shape, axis)
	if len(r.shape) == 0 {
		return arrOf(r.data[0]), true, true
	}
	return r, true, true
}

func (a *applier) scan(op string, x arr, first bool) (r arr, ok, spec bool) {
	if x.shape == nil {
		return x, true, true
	}
	if ref.Size(x.shape) == 0 {
		return x, false, false
	}
	axis := len(x.shape) - 1
	if first {
		axis = 0
	}
	r = arr{x.shape, make([]value.Value, len(x.data))}
	for _, l := range lanes(x.shape, axis) {
		var d []value.Value
		for _, i := range l {
			d = append(d, x.data[i])
			v := a.fold(op, d)
			if v == nil {
				return r, false, true
			}
			r.data[i] = v
		}
	}
	return r, true, true
}

func atLeastVec(x arr) arr {
	if x.shape == nil {
		return arr{[]int{1}, x.data}
	}
	return x
}

func (a *applier) outer(op string, x, y arr) (r arr, ok, spec bool) {
	x, y = atLeastVec(x), atLeastVec(y)
	r.shape = append(append([]int{}, x.shape...), y.shape...)
	for _, u := range x.data {
		for _, v := range y.data {
			w := a.bin(op, u, v)
			if w == nil {
				return r, false, true
			}
			r.data = append(r.data, w)
		}
	}
	return r, true, true
}

func (a *applier) inner(f, g string, x, y arr) (r arr, ok, spec bool) {
	x, y = atLeastVec(x), atLeastVec(y)
	n := y.shape[0]
	if x.shape[len(x.shape)-1] != n {
		return r, false, true
	}
	if n == 0 || len(x.data) == 0 || len(y.data) == 0 {
		return r, false, false
	}
	r.shape = append(append([]int{}, x.shape[:len(x.shape)-1]...), y.shape[1:]...)
	ys := ref.Size(y.shape[1:])
	for i := 0; i < len(x.data)/n; i++ {
		for j := 0; j < ys; j++ {
			var d []value.Value
			for k := 0; k < n; k++ {
				w := a.bin(g, x.data[i*n+k], y.data[k*ys+j])
				if w == nil {
					return r, false, true
				}
				d = append(d, w)
			}
			v := a.fold(f, d)
			if v == nil {
				return r, false, true
			}
			r.data = append(r.data, v)
		}
	}
	if len(r.shape) == 0 {
		return arrOf(r.data[0]), true, true
	}
	return r, true, true
}

// cells splits the leading d axes.
func cells(x arr, d int) []value.Value {
	if d == 0 {
		return []value.Value{x.val()}
	}
	if d == len(x.shape) {
		return x.data
	}
	sz := ref.Size(x.shape[d:])
	var out []value.Value
	for i := 0; i < ref.Size(x.shape[:d]); i++ {
		out = append(out, arr{x.shape[d:], x.data[i*sz : (i+1)*sz]}.val())
	}
	return out
}

func (a *applier) each(op string, n int, x arr) (r arr, ok, spec bool) {
	if x.shape == nil {
		return r, false, false
	}
	d := min(n, len(x.shape))
	if n > d || ref.Size(x.shape) == 0 {
		return r, false, false
	}
	for _, c := range cells(x, d) {
		v := a.un(op, c)
		if v == nil {
			return r, false, true
		}
		r.data = append(r.data, v)
	}
	r.shape = x.shape[:d]
	return r, true, true
}

func (a *applier) beach(op string, nl, nr int, x, y arr) (r arr, ok, spec bool) {
	if nl > 0 && (x.shape == nil || nl > len(x.shape)) || nr > 0 && (y.shape == nil || nr > len(y.shape)) {
		return r, false, false
	}
	if nl > 0 && ref.Size(x.shape) == 0 || nr > 0 && ref.Size(y.shape) == 0 {
		return r, false, false
	}
	for _, u := range cells(x, nl) {
		for _, v := range cells(y, nr) {
			w := a.bin(op, u, v)
			if w == nil {
				return r, false, true
			}
			r.data = append(r.data, w)
		}
	}
	if nl > 0 {
		r.shape = append(r.shape, x.shape[:nl]...)
	}
	if nr > 0 {
		r.shape = append(r.shape, y.shape[:nr]...)
	}
	return r, true, true
}

const p16setup = `op a f b = a-2*b
op a g b =
	a === b: 1
	c = a-b
	c + b*3

op cat2 x = x,x
op dbl x = x+x
op a max b = (a*3)-b
op a xor b = b-a
op abs x = x+100
op a rec b =
	a <= 0: b
	(a-1) rec b+a

`

func runP16(c *mc.Ctx) {
	s := ivy.New()
	if _, e, p := s.Run(p16setup); e != "" || p != nil {
		panic(fmt.Sprint("setup: ", e, p))
	}
	s2 := ivy.New() // no user operators
	pools := [][]value.Value{}
	for _, l := range [][]string{
		{"3", "5", "2", "7", "11", "1", "13", "0", "4", "9", "6"},
		{"1/2", "2**64", "3", "(-2)", "2/3", "7", "5", "1j2"},
		{"'a'", "'b'", "3", "'c'"},
		{"1 2", "3 4", "5", "(6 7)"},
		{"0", "1", "1", "0", "1"},
	} {
		var p []value.Value
		for _, e := range l {
			v, err, pn := s.Eval1(e)
			if err != "" || pn != nil {
				panic(e + err)
			}
			p = append(p, v)
		}
		pools = append(pools, p)
	}
	mk := func(shape []int, pool, off int) arr {
		n := 1
		if shape != nil {
			n = ref.Size(shape)
		}
		a := arr{shape: shape}
		for i := 0; i < n; i++ {
			a.data = append(a.data, pools[pool][(off+i)%len(pools[pool])])
		}
		if shape == nil {
			return arrOf(a.data[0])
		}
		return a
	}
	apps := map[*ivy.Sess]*applier{s: {s, map[string]value.Value{}}, s2: {s2, map[string]value.Value{}}}
	check := func(t *mc.T, ss *ivy.Sess, src string, x, y arr, r arr, ok, spec bool) bool {
		ss.SetVar("x", x.val())
		if y.data != nil || y.shape != nil {
			ss.SetVar("y", y.val())
		}
		v, err, p := ss.Eval1(src)
		t.Step(1)
		in := func() string {
			r := "x=" + ivy.Dump(x.val())
			if y.data != nil || y.shape != nil {
				r += " y=" + ivy.Dump(y.val())
			}
			return r
		}
		switch {
		case p != nil:
			t.Failf("%s with %s: %s", src, in(), p)
			return false
		case !spec:
			return true
		case !ok:
			if err == "" {
				t.Failf("%s with %s: want an error, got %s", src, in(), ivy.Dump(v))
				return false
			}
			return true
		}
		want := ivy.Dump(r.val())
		if err != "" || ivy.Dump(v) != want {
			t.Failf("%s with %s: want %s, got %s", src, in(), want, show(v, err, p))
			return false
		}
		t.Observe(want)
		return true
	}
	shapes := append([][]int{nil}, shapesUpTo(6, 3, 2)...)
	bigShapes := [][]int{{15}, {17}, {40}, {16, 2}, {2, 17}, {20, 20}, {2, 3, 20}, {130, 2}, {2, 130}, {2, 2, 2, 2}, {3, 1, 2, 2}, {2, 1, 2, 2, 3}, {2, 2, 1, 2, 1, 2}}
	if !c.Quick {
		shapes = append([][]int{nil}, shapesUpTo(9, 4, 3, 2)...)
		bigShapes = append(bigShapes, []int{100}, []int{300}, []int{33, 33}, []int{300, 2}, []int{2, 300})
	}
	fs := []struct {
		op   string
		user bool
	}{{"+", false}, {"-", false}, {"*", false}, {"/", false}, {"max", false}, {"min", false}, {"or", false}, {"and", false}, {"xor", false}, {"|", false}, {"&", false}, {"^", false}, {"<", false}, {"==", false}, {"nand", false}, {"nor", false}, {",", false}, {"mod", false}, {"idiv", false}, {"!=", false}, {"j", false}, {"rho", false}, {"take", false}, {"===", false},
		{"f", true}, {"g", true}, {"max", true}, {"xor", true}, {"rec", true}}
	// Pools that keep the op from exploding.
	poolsFor := func(op string) []int {
		switch op {
		case "*", "rho", "take", "rec", "j", ",":
			return []int{0, 4}
		case "or", "and", "xor":
			return []int{0, 1, 3, 4} // reassociation may avoid mixing characters and numbers
		}
		return []int{0, 1, 2, 3, 4}
	}
	for _, f := range fs {
		ss := s2
		if f.user {
			ss = s
		}
		a := apps[ss]
		tag := ""
		if f.user {
			tag = "user "
		}
		for _, sh := range append(append([][]int{}, shapes...), bigShapes...) {
			if ref.Size(sh) > 9 && (f.op == "," || f.op == "rho" || f.op == "take" || f.op == "rec" || f.op == "/" || f.op == "j" || f.op == "*") && ref.Size(sh) > 40 {
				continue
			}
			if sh != nil && len(sh) > 0 && ref.Size(sh) > 9 && (f.op == "rho") {
				continue
			}
			if c.Skip() {
				continue
			}
			c.Group("reduce and scan")
			c.Do(fmt.Sprintf("%s%s/ and scan on %s", tag, f.op, shapeStr(sh)), func(t *mc.T) {
				for _, pl := range poolsFor(f.op) {
					for off := 0; off < len(pools[pl]); off++ {
						if ref.Size(sh) > 9 && off > 1 {
							break
						}
						x := mk(sh, pl, off)
						if pl == 2 && x.shape == nil {
							continue // a character is not an array
						}
						for _, first := range []bool{false, true} {
							pct := ""
							if first {
								pct = "%"
							}
							r, ok, spec := a.reduce(f.op, x, first)
							if !check(t, ss, f.op+"/"+pct+" x", x, arr{}, r, ok, spec) {
								return
							}
							r, ok, spec = a.scan(f.op, x, first)
							if !check(t, ss, f.op+"\\"+pct+" x", x, arr{}, r, ok, spec) {
								return
							}
						}
					}
				}
			})
		}
		if f.op == "rho" || f.op == "take" {
			continue
		}
		oshapes := [][]int{nil, {0}, {1}, {2}, {3}, {2, 2}, {2, 3}, {3, 2}, {2, 1, 2}, {0, 2}}
		if !c.Quick {
			oshapes = append(oshapes, []int{4}, []int{3, 3}, []int{1, 3}, []int{2, 2, 2}, []int{7}, []int{11, 11})
		}
		for _, xs := range oshapes {
			for _, ys := range oshapes {
				if c.Skip() {
					continue
				}
				c.Group("outer")
				c.Do(fmt.Sprintf("%s%s o.%s %s", tag, shapeStr(xs), f.op, shapeStr(ys)), func(t *mc.T) {
					for _, pl := range poolsFor(f.op) {
						for off := 0; off < 4; off++ {
							x, y := mk(xs, pl, off), mk(ys, pl, off+1)
							r, ok, spec := a.outer(f.op, x, y)
							if !check(t, ss, "x o."+f.op+" y", x, y, r, ok, spec) {
								return
							}
							for _, gp := range []string{"+", "-", "max"} {
								r, ok, spec = a.inner(f.op, gp, x, y)
								if !check(t, ss, "x "+f.op+"."+gp+" y", x, y, r, ok, spec) {
									return
								}
								r, ok, spec = a.inner(gp, f.op, x, y)
								if !check(t, ss, "x "+gp+"."+f.op+" y", x, y, r, ok, spec) {
									return
								}
							}
							for nl := 0; nl <= 3; nl++ {
								for nr := 0; nr <= 3; nr++ {
									if nl+nr == 0 {
										continue
									}
									r, ok, spec = a.beach(f.op, nl, nr, x, y)
									if !check(t, ss, "x "+strings.Repeat("@", nl)+f.op+strings.Repeat("@", nr)+" y", x, y, r, ok, spec) {
										return
									}
								}
							}
						}
					}
				})
			}
		}
	}
	c.Group("inner large")
	for _, n := range []int{15, 16, 17, 33, 100, 257} {
		for _, fg := range [][2]string{{"+", "*"}, {"-", "max"}, {"max", "-"}, {"f", "-"}, {"g", "f"}, {"min", "xor"}} {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("inner %d %v", n, fg), func(t *mc.T) {
				a := apps[s]
				for _, sh := range [][2][]int{{{n}, {n}}, {{2, n}, {n, 3}}, {{n}, {n, 2}}, {{3, n}, {n}}, {{n, 2}, {2, n}}} {
					if len(sh[0]) == 2 && sh[0][0] == n && n > 40 {
						continue
					}
					x, y := mk(sh[0], 0, 1), mk(sh[1], 0, 5)
					r, ok, spec := a.inner(fg[0], fg[1], x, y)
					if !check(t, s, "x "+fg[0]+"."+fg[1]+" y", x, y, r, ok, spec) {
						return
					}
				}
			})
		}
	}
	for _, f := range []string{"-", "rho", "iota", "rot", "cat2", "dbl", "abs", "floor", "up", "count", ",", "box", "transp", "flip"} {
		for _, sh := range append(append([][]int{}, shapes...), bigShapes...) {
			if c.Skip() {
				continue
			}
			c.Group("each")
			c.Do(fmt.Sprintf("%s@ on %s", f, shapeStr(sh)), func(t *mc.T) {
				a := apps[s]
				for _, pl := range []int{0, 3} {
					for off := 0; off < 3; off++ {
						for n := 1; n <= 3; n++ {
							x := mk(sh, pl, off)
							r, ok, spec := a.each(f, n, x)
							if !check(t, s, f+strings.Repeat("@", n)+" x", x, arr{}, r, ok, spec) {
								return
							}
						}
					}
				}
			})
		}
	}
}
