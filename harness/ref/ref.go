// Package ref is the reference model of ivy's array values: plain Go slices
// with a shape, exact numbers, and the structural operators written directly
// from their definitions.
package ref

import (
	"fmt"
	"math/big"
	"strings"

	"robpike.io/ivy/value"
)

// V is a value. Shape nil: a scalar. Len(Shape)==1: a vector.
type V struct {
	Shape []int
	Data  []*V
	R     *big.Rat // exact number
	C     rune     // character, if Char
	Char  bool
	Other value.Value // anything else (floats, complex)
}

func Int(i int) *V      { return &V{R: big.NewRat(int64(i), 1)} }
func Rat(r *big.Rat) *V { return &V{R: r} }
func Chr(c rune) *V     { return &V{Char: true, C: c} }
func Vec(d ...*V) *V    { return &V{Shape: []int{len(d)}, Data: d} }
func Ints(is ...int) *V {
	var d []*V
	for _, i := range is {
		d = append(d, Int(i))
	}
	return Vec(d...)
}
func Arr(s []int, d []*V) *V { return &V{Shape: append([]int{}, s...), Data: d} }
func Str(s string) *V {
	var d []*V
	for _, c := range s {
		d = append(d, Chr(c))
	}
	return Vec(d...)
}

func (v *V) Scalar() bool { return v.Shape == nil }
func (v *V) Rank() int    { return len(v.Shape) }

// Elems is the data, a scalar counting as itself.
func (v *V) Elems() []*V {
	if v.Scalar() {
		return []*V{v}
	}
	return v.Data
}

func Size(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

// Iota makes an array of the shape with elements base, base+1, ...
func Iota(base int, shape ...int) *V {
	var d []*V
	for i := 0; i < Size(shape); i++ {
		d = append(d, Int(base+i))
	}
	return Arr(shape, d)
}

// From converts an ivy value. A rank-1 Matrix or anything else malformed is
// reported.
func From(v value.Value) (*V, error) {
	if v == nil {
		return nil, fmt.Errorf("nil value")
	}
	switch x := v.Inner().(type) {
	case value.Int:
		return &V{R: new(big.Rat).SetInt64(int64(x))}, nil
	case value.BigInt:
		return &V{R: new(big.Rat).SetInt(x.Int)}, nil
	case value.BigRat:
		return &V{R: new(big.Rat).Set(x.Rat)}, nil
	case value.Char:
		return Chr(rune(x)), nil
	case *value.Vector:
		d := make([]*V, x.Len())
		for i := range d {
			e, err := From(x.At(i))
			if err != nil {
				return nil, err
			}
			d[i] = e
		}
		return &V{Shape: []int{len(d)}, Data: d}, nil
	case *value.Matrix:
		s := append([]int{}, x.Shape()...)
		if len(s) < 2 {
			return nil, fmt.Errorf("matrix of rank %d (shape %v)", len(s), s)
		}
		if Size(s) != x.Data().Len() {
			return nil, fmt.Errorf("matrix of shape %v with %d elements", s, x.Data().Len())
		}
		d, err := From(x.Data())
		if err != nil {
			return nil, err
		}
		return &V{Shape: s, Data: d.Data}, nil
	case value.QuietValue:
		return From(x.Value)
	default:
		return &V{Other: v.Inner()}, nil
	}
}

// Value builds the ivy value.
func (v *V) Value() value.Value {
	switch {
	case v.Other != nil:
		return v.Other
	case v.Char:
		return value.Char(v.C)
	case v.R != nil:
		if v.R.IsInt() && v.R.Num().BitLen() < 32 {
			return value.Int(v.R.Num().Int64())
		}
		if v.R.IsInt() {
			return value.BigInt{Int: new(big.Int).Set(v.R.Num())}
		}
		return value.BigRat{Rat: new(big.Rat).Set(v.R)}
	case len(v.Shape) == 1:
		d := make([]value.Value, len(v.Data))
		for i, e := range v.Data {
			d[i] = e.Value()
		}
		return value.NewVector(d...)
	}
	d := make([]value.Value, len(v.Data))
	for i, e := range v.Data {
		d[i] = e.Value()
	}
	return value.NewMatrix(append([]int{}, v.Shape...), value.NewVector(d...))
}

func abs(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

// String is canonical (equal strings iff equal values).
func (v *V) String() string {
	var b strings.Builder
	v.str(&b)
	return b.String()
}

func (v *V) str(b *strings.Builder) {
	switch {
	case v == nil:
		b.WriteString("<error>")
	case v.Other != nil:
		fmt.Fprintf(b, "<%v>", v.Other)
	case v.Char:
		fmt.Fprintf(b, "'%c'", v.C)
	case v.R != nil:
		b.WriteString(v.R.RatString())
	default:
		if len(v.Shape) != 1 {
			fmt.Fprintf(b, "%v", v.Shape)
		}
		b.WriteByte('(')
		for i, e := range v.Data {
			if i > 0 {
				b.WriteByte(' ')
			}
			e.str(b)
		}
		b.WriteByte(')')
	}
}

// Src renders v as an ivy expression (in parentheses when needed).
func (v *V) Src() string {
	switch {
	case v.Char:
		return fmt.Sprintf("%q", string(v.C))
	case v.R != nil:
		if v.R.Sign() < 0 {
			return "(" + v.R.RatString() + ")"
		}
		return v.R.RatString()
	case len(v.Shape) == 1 && len(v.Data) == 0:
		return "(0 rho 0)"
	case len(v.Shape) == 1 && len(v.Data) == 1:
		if v.Data[0].Scalar() {
			return "(1 rho " + v.Data[0].Src() + ")"
		}
		return "(box " + v.Data[0].Src() + ")"
	case len(v.Shape) == 1:
		var p []string
		for _, e := range v.Data {
			s := e.Src()
			if e.R != nil && e.R.Sign() < 0 {
				s = e.R.RatString()
			}
			p = append(p, s)
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	var p []string
	for _, d := range v.Shape {
		p = append(p, fmt.Sprint(d))
	}
	return "(" + strings.Join(p, " ") + " rho " + Vec(v.Data...).Src() + ")"
}

func Equal(a, b *V) bool { return a.String() == b.String() }

// ---- operators. nil result: an error is required.

func cloneInts(s []int) []int { return append([]int{}, s...) }

// indexes calls f with every index vector of the shape in row-major order.
func indexes(shape []int, f func(ix []int)) {
	if Size(shape) == 0 {
		return
	}
	ix := make([]int, len(shape))
	for {
		f(ix)
		k := len(ix) - 1
		for ; k >= 0; k-- {
			if ix[k]++; ix[k] < shape[k] {
				break
			}
			ix[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

func offset(shape, ix []int) int {
	o := 0
	for i := range shape {
		o = o*shape[i] + ix[i]
	}
	return o
}

// At is the element at the index vector.
func (v *V) At(ix []int) *V { return v.Data[offset(v.Shape, ix)] }

// Gather builds an array of the shape from f.
func Gather(shape []int, f func(ix []int) *V) *V {
	var d []*V
	indexes(shape, func(ix []int) { d = append(d, f(ix)) })
	return Arr(shape, d)
}

func Rho(v *V) *V   { return Ints(v.Shape...) }
func Ravel(v *V) *V { return Vec(v.Elems()...) }
func Count(v *V) *V {
	if v.Scalar() {
		return Int(1)
	}
	return Int(v.Shape[0])
}
func First(v *V) *V {
	if v.Scalar() {
		return v
	}
	if len(v.Data) == 0 {
		return Int(0)
	}
	return v.Data[0]
}
func Flatten(v *V) *V {
	var d []*V
	var walk func(v *V)
	walk = func(v *V) {
		if v.Scalar() {
			d = append(d, v)
			return
		}
		for _, e := range v.Data {
			walk(e)
		}
	}
	walk(v)
	return Vec(d...)
}
func Box(v *V) *V { return Vec(v) }

// Reverse along the axis.
func Reverse(v *V, axis int) *V {
	if v.Scalar() {
		return v
	}
	return Gather(v.Shape, func(ix []int) *V {
		jx := cloneInts(ix)
		jx[axis] = v.Shape[axis] - 1 - ix[axis]
		return v.At(jx)
	})
}

// Rotate n along the axis.
func Rotate(n int, v *V, axis int) *V {
	if v.Scalar() {
		return v
	}
	return Gather(v.Shape, func(ix []int) *V {
		jx := cloneInts(ix)
		d := v.Shape[axis]
		jx[axis] = (((ix[axis] + n) % d) + d) % d
		return v.At(jx)
	})
}

func Transp(v *V) *V {
	if v.Rank() < 2 {
		return v
	}
	n := v.Rank()
	s := make([]int, n)
	for i := range s {
		s[i] = v.Shape[n-1-i]
	}
	return Gather(s, func(ix []int) *V {
		jx := make([]int, n)
		for i := range jx {
			jx[i] = ix[n-1-i]
		}
		return v.At(jx)
	})
}

// TranspBy is A transp v; a is zero-based. (a transp v)[i] = v[i[a]].
func TranspBy(a []int, v *V) *V {
	if len(a) != v.Rank() {
		return nil
	}
	rank := 0
	for _, x := range a {
		if x < 0 || x >= v.Rank() {
			return nil
		}
		rank = max(rank, x+1)
	}
	s := make([]int, rank)
	for i := range s {
		s[i] = -1
	}
	for i, x := range a {
		if s[x] < 0 || v.Shape[i] < s[x] {
			s[x] = v.Shape[i]
		}
	}
	for _, d := range s {
		if d < 0 {
			return nil
		}
	}
	return Gather(s, func(ix []int) *V {
		jx := make([]int, v.Rank())
		for i, x := range a {
			jx[i] = ix[x]
		}
		return v.At(jx)
	})
}

// Reshape is a rho v, len(a)>0.
func Reshape(a []int, v *V) *V {
	for _, d := range a {
		if d < 0 {
			return nil
		}
	}
	src := v.Elems()
	if len(src) == 0 {
		src = []*V{Int(0)}
	}
	var d []*V
	for i := 0; i < Size(a); i++ {
		d = append(d, src[i%len(src)])
	}
	return Arr(a, d)
}

func allChars(d []*V) bool {
	for _, e := range d {
		if !e.Char {
			return false
		}
	}
	return true
}

// Fill is the padding element for simple arrays.
func Fill(v *V) *V {
	if len(v.Elems()) > 0 && allChars(v.Elems()) {
		return Chr(' ')
	}
	return Int(0)
}

// Take is a take v (v not nested where padding is needed).
func Take(a []int, v *V) *V {
	if v.Scalar() {
		v = Vec(v)
	}
	if len(a) > v.Rank() {
		if Size(v.Shape) != 1 {
			return nil
		}
		s := make([]int, len(a))
		for i := range s {
			s[i] = 1
		}
		v = Arr(s, v.Data)
	}
	a = cloneInts(a)
	for len(a) < v.Rank() {
		a = append(a, v.Shape[len(a)])
	}
	s := make([]int, len(a))
	for i := range a {
		s[i] = int(abs(int64(a[i])))
	}
	fill := Fill(v)
	return Gather(s, func(ix []int) *V {
		jx := make([]int, len(ix))
		for i := range ix {
			jx[i] = ix[i]
			if a[i] < 0 {
				jx[i] = v.Shape[i] - s[i] + ix[i]
			}
			if jx[i] < 0 || jx[i] >= v.Shape[i] {
				return fill
			}
		}
		return v.At(jx)
	})
}

// Drop is a drop v.
func Drop(a []int, v *V) *V {
	if v.Scalar() {
		v = Vec(v)
	}
	if len(a) > v.Rank() {
		return nil
	}
	s := cloneInts(v.Shape)
	lo := make([]int, len(s))
	for i, n := range a {
		if n >= 0 {
			lo[i] = n
			s[i] = max(0, s[i]-n)
		} else {
			s[i] = max(0, s[i]+n)
		}
	}
	return Gather(s, func(ix []int) *V {
		jx := cloneInts(ix)
		for i := range jx {
			jx[i] += lo[i]
		}
		return v.At(jx)
	})
}

// Cat catenates along the given axis kind (last or first).
func Cat(u, v *V, last bool) *V {
	if u.Rank() <= 1 && v.Rank() <= 1 {
		return Vec(append(append([]*V{}, u.Elems()...), v.Elems()...)...)
	}
	axis := func(r int) int {
		if last {
			return r - 1
		}
		return 0
	}
	rest := func(s []int) []int {
		if last {
			return s[:len(s)-1]
		}
		return s[1:]
	}
	eq := func(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	withAxis := func(v *V) *V { // add a unit axis
		s := cloneInts(v.Shape)
		if last {
			s = append(s, 1)
		} else {
			s = append([]int{1}, s...)
		}
		return Arr(s, v.Data)
	}
	one := func(v *V) bool { return v.Scalar() || (v.Rank() == 1 && v.Shape[0] == 1) }
	extend := func(e *V, like *V) *V {
		s := cloneInts(like.Shape)
		s[axis(len(s))] = 1
		return Gather(s, func([]int) *V { return e.Elems()[0] })
	}
	switch {
	case u.Rank() == v.Rank() && eq(rest(u.Shape), rest(v.Shape)):
	case u.Rank() == v.Rank()+1 && !v.Scalar() && eq(rest(u.Shape), v.Shape):
		v = withAxis(v)
	case v.Rank() == u.Rank()+1 && !u.Scalar() && eq(rest(v.Shape), u.Shape):
		u = withAxis(u)
	case one(u) && v.Rank() > 1:
		u = extend(u, v)
	case one(v) && u.Rank() > 1:
		v = extend(v, u)
	default:
		return nil
	}
	ax := axis(u.Rank())
	s := cloneInts(u.Shape)
	n := s[ax]
	s[ax] += v.Shape[ax]
	return Gather(s, func(ix []int) *V {
		if ix[ax] < n {
			return u.At(ix)
		}
		jx := cloneInts(ix)
		jx[ax] -= n
		return v.At(jx)
	})
}

// AllZeros is v with numbers zeroed and characters blanked.
func AllZeros(v *V) *V {
	switch {
	case v.Char:
		return Chr(' ')
	case v.Scalar():
		return Int(0)
	}
	d := make([]*V, len(v.Data))
	for i, e := range v.Data {
		d[i] = AllZeros(e)
	}
	return Arr(v.Shape, d)
}

// Sel is a sel v.
func Sel(a []int, v *V) *V {
	if v.Scalar() {
		v = Vec(v)
	}
	n := v.Shape[v.Rank()-1]
	if len(a) != 1 && len(a) != n {
		return nil
	}
	type pick struct {
		i    int
		zero bool
	}
	var picks []pick
	for i := 0; i < n; i++ {
		c := a[i%len(a)]
		for k := 0; k < int(abs(int64(c))); k++ {
			picks = append(picks, pick{i, c < 0})
		}
	}
	s := cloneInts(v.Shape)
	s[len(s)-1] = len(picks)
	return Gather(s, func(ix []int) *V {
		jx := cloneInts(ix)
		p := picks[ix[len(ix)-1]]
		jx[len(jx)-1] = p.i
		if p.zero {
			return AllZeros(v.At(jx))
		}
		return v.At(jx)
	})
}

// FillOp is a fill v (vectors).
func FillOp(a []int, v *V) *V {
	src := v.Elems()
	n := 0
	for _, x := range a {
		if x > 0 {
			n++
		}
	}
	if n != len(src) {
		return nil
	}
	pad := Int(0)
	if allChars(src) {
		pad = Chr(' ')
	}
	var d []*V
	j := 0
	for _, x := range a {
		switch {
		case x > 0:
			for k := 0; k < x; k++ {
				d = append(d, src[j])
			}
			j++
		case x == 0:
			d = append(d, pad)
		default:
			for k := 0; k < -x; k++ {
				d = append(d, pad)
			}
		}
	}
	return Vec(d...)
}

// Part is a part v.
func Part(a []int, v *V) *V {
	if v.Scalar() {
		v = Vec(v)
	}
	n := v.Shape[v.Rank()-1]
	if len(a) == 1 && v.Rank() > 1 {
		b := make([]int, n)
		for i := range b {
			b[i] = a[0]
		}
		a = b
	}
	if len(a) != n {
		return nil
	}
	for _, x := range a {
		if x < 0 {
			return nil
		}
	}
	row := func(r []*V) []*V {
		var out []*V
		var cur []*V
		prev := 0
		for i, x := range a {
			if x != 0 {
				if x > prev && len(cur) > 0 {
					out = append(out, Vec(cur...))
					cur = nil
				}
				cur = append(cur, r[i])
			}
			prev = x
		}
		if len(cur) > 0 {
			out = append(out, Vec(cur...))
		}
		return out
	}
	if v.Rank() == 1 {
		return Vec(row(v.Data)...)
	}
	var d []*V
	w := len(row(make([]*V, n)))
	for i := 0; i < Size(v.Shape[:v.Rank()-1]); i++ {
		d = append(d, row(v.Data[i*n:(i+1)*n])...)
	}
	s := cloneInts(v.Shape)
	s[len(s)-1] = w
	return Arr(s, d)
}

// Split is split v for rank >= 2.
func Split(v *V) *V {
	n := v.Shape[v.Rank()-1]
	s := v.Shape[:v.Rank()-1]
	var d []*V
	for i := 0; i < Size(s); i++ {
		d = append(d, Vec(v.Data[i*n:(i+1)*n]...))
	}
	return Arr(s, d)
}

// Index is v[idx...]; nil entries are empty slots. Values are zero-based.
func IndexOffsets(shape []int, idx []*V, origin int) (out []int, offs []int, ok bool) {
	if len(idx) > len(shape) {
		return nil, nil, false
	}
	var lists [][]int
	for k, x := range idx {
		var l []int
		if x == nil {
			for i := 0; i < shape[k]; i++ {
				l = append(l, i)
			}
			out = append(out, shape[k])
		} else {
			for _, e := range x.Elems() {
				if e.R == nil || !e.R.IsInt() || !e.R.Num().IsInt64() {
					return nil, nil, false
				}
				i := int(e.R.Num().Int64()) - origin
				if i < 0 || i >= shape[k] {
					return nil, nil, false
				}
				l = append(l, i)
			}
			out = append(out, x.Shape...)
		}
		lists = append(lists, l)
	}
	rest := shape[len(idx):]
	out = append(out, rest...)
	dims := make([]int, len(lists))
	for i, l := range lists {
		dims[i] = len(l)
	}
	sz := Size(rest)
	indexes(dims, func(ix []int) {
		o := 0
		for i := range ix {
			o = o*shape[i] + lists[i][ix[i]]
		}
		for k := 0; k < sz; k++ {
			offs = append(offs, o*sz+k)
		}
	})
	return out, offs, true
}

// Index is v[idx].
func Index(v *V, idx []*V, origin int) *V {
	if v.Scalar() {
		return nil
	}
	out, offs, ok := IndexOffsets(v.Shape, idx, origin)
	if !ok {
		return nil
	}
	if len(out) == 0 {
		return v.Data[offs[0]]
	}
	var d []*V
	for _, o := range offs {
		d = append(d, v.Data[o])
	}
	return Arr(out, d)
}
