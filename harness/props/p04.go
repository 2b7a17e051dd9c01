package props

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value/persist"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P04", Run: runP04,
		Rule:        "explicit-state exploration of the real persist package: every history of operations up to the depth bound from every starting size in an alphabet straddling the chunk and height boundaries (16, 256, 4096), with up to two live transients and every persisted version kept; after every history every version and transient is read back through Len, At, All and Slice and compared with plain Go slices",
		Assumptions: []string{"int elements stand for all element types", "a transient read while an iterator over it is live is out of scope"}})
}

const p04any = -1 // element with undefined contents

type p04obj struct {
	t *persist.TransientSlice[int]
	s *persist.Slice[int]
	m []int
}

type p04state struct {
	trs   [2]*p04obj // live transients
	cur   int
	snaps []*p04obj
	next  int
}

func clone(m []int) []int { return append([]int(nil), m...) }

func (st *p04state) fresh(n int) []int {
	x := make([]int, n)
	for i := range x {
		st.next++
		x[i] = st.next
	}
	return x
}

type p04op struct {
	name string
	do   func(st *p04state) bool // false: not applicable
}

func p04append(n int) p04op {
	return p04op{fmt.Sprintf("append%d", n), func(st *p04state) bool {
		o := st.trs[st.cur]
		x := st.fresh(n)
		src := clone(x)
		o.t.Append(src...)
		o.m = append(o.m, x...)
		for i := range src { // the caller may reuse its slice
			src[i] = -7
		}
		return true
	}}
}

func p04set(name string, at func(n int) int) p04op {
	return p04op{"set" + name, func(st *p04state) bool {
		o := st.trs[st.cur]
		i := at(len(o.m))
		if i < 0 || i >= len(o.m) {
			return false
		}
		x := st.fresh(1)[0]
		o.t.Set(i, x)
		o.m[i] = x
		return true
	}}
}

// p04resize resizes; fill: 0 leaves new elements undefined, 1 sets all upward, 2 sets all downward, 3 sets only the last
func p04resize(name string, to func(n int) int, fill int) p04op {
	return p04op{fmt.Sprintf("resize%s/%d", name, fill), func(st *p04state) bool {
		o := st.trs[st.cur]
		old := len(o.m)
		n := to(old)
		if n < 0 || n == old && fill > 0 || n < old && fill > 0 || n > old && fill == 0 {
			return false
		}
		o.t.Resize(n)
		if n <= old {
			o.m = clone(o.m[:n])
			return true
		}
		for len(o.m) < n {
			o.m = append(o.m, p04any)
		}
		x := st.fresh(n - old)
		for k := range x {
			i := old + k
			switch fill {
			case 2:
				i = n - 1 - k
			case 3:
				if k > 0 {
					continue
				}
				i = n - 1
			}
			o.t.Set(i, x[k])
			o.m[i] = x[k]
		}
		return true
	}}
}

var p04persist = p04op{"persist", func(st *p04state) bool {
	o := st.trs[st.cur]
	st.snaps = append(st.snaps, &p04obj{s: o.t.Persist(), m: clone(o.m)})
	return true
}}

// p04fork makes the other transient from the k'th latest version and switches to it.
func p04fork(k int) p04op {
	return p04op{fmt.Sprintf("fork%d", k), func(st *p04state) bool {
		if len(st.snaps) <= k {
			return false
		}
		sn := st.snaps[len(st.snaps)-1-k]
		st.cur = 1 - st.cur
		st.trs[st.cur] = &p04obj{t: sn.s.Transient(), m: clone(sn.m)}
		return true
	}}
}

var p04switch = p04op{"switch", func(st *p04state) bool {
	if st.trs[1-st.cur] == nil {
		return false
	}
	st.cur = 1 - st.cur
	return true
}}

type p04reader interface {
	Len() int
	At(int) int
}

func p04check(t *mc.T, what string, o *p04obj, full bool) bool {
	var r p04reader
	if o.s != nil {
		r = o.s
	} else {
		r = o.t
	}
	n := r.Len()
	if n != len(o.m) {
		t.Failf("%s: Len %d, want %d", what, n, len(o.m))
		return false
	}
	for i := 0; i < n; i++ {
		if x := r.At(i); x != o.m[i] && o.m[i] != p04any {
			t.Failf("%s: At(%d) = %d, want %d", what, i, x, o.m[i])
			return false
		}
	}
	ranges := [][2]int{{0, n}}
	if full {
		ranges = append(ranges, [2]int{n / 2, n}, [2]int{n, n}, [2]int{min(n, 15), max(min(n, 15), n-1)}, [2]int{min(n, 16), max(min(n, 16), n-n%16)}, [2]int{n / 3, 2 * n / 3})
	}
	for ri, ab := range ranges {
		k := ab[0]
		visit := func(i, x int) bool {
			if i != k || x != o.m[k] && o.m[k] != p04any {
				t.Failf("%s: Slice(%d,%d) yields [%d]=%d, want [%d]=%d", what, ab[0], ab[1], i, x, k, o.m[k])
				k = -1
				return false
			}
			k++
			return true
		}
		switch {
		case ri == 0 && o.s != nil:
			for i, x := range o.s.All() {
				if !visit(i, x) {
					return false
				}
			}
		case ri == 0:
			for i, x := range o.t.All() {
				if !visit(i, x) {
					return false
				}
			}
		case o.s != nil:
			for i, x := range o.s.Slice(ab[0], ab[1]) {
				if !visit(i, x) {
					return false
				}
			}
		default:
			for i, x := range o.t.Slice(ab[0], ab[1]) {
				if !visit(i, x) {
					return false
				}
			}
		}
		if k != ab[1] {
			t.Failf("%s: Slice(%d,%d) stopped at %d", what, ab[0], ab[1], k)
			return false
		}
	}
	if full {
		// Early stop: exactly the requested prefix is visited.
		for _, stop := range []int{0, 1, 15, 16, n - 1} {
			if stop < 0 || stop >= n {
				continue
			}
			cnt := 0
			for i := range o2all(o) {
				cnt++
				if i == stop {
					break
				}
			}
			if cnt != stop+1 {
				t.Failf("%s: iteration stopped at %d visited %d", what, stop, cnt)
				return false
			}
		}
		for _, bad := range []int{-1, n, n + 1, n + 16, 1 << 40} {
			if !p04panics(func() { r.At(bad) }) {
				t.Failf("%s: At(%d) with Len %d did not panic", what, bad, n)
				return false
			}
			if o.t != nil && !p04panics(func() { o.t.Set(bad, 1) }) {
				t.Failf("%s: Set(%d) with Len %d did not panic", what, bad, n)
				return false
			}
		}
	}
	return true
}

func o2all(o *p04obj) func(func(int, int) bool) {
	if o.s != nil {
		return o.s.All()
	}
	return o.t.All()
}

func p04panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func runP04(c *mc.Ctx) {
	low := func(n int) int { return 0 }
	mid := func(n int) int { return n / 2 }
	last := func(n int) int { return n - 1 }
	treeLast := func(n int) int { return n/16*16 - 1 }
	up := func(k int) func(int) int { return func(n int) int { return n + k } }
	align := func(n int) int { return n / 16 * 16 }
	half := func(n int) int { return n / 2 }
	zero := func(n int) int { return 0 }
	next16 := func(n int) int { return n/16*16 + 16 }
	under := func(b int) func(int) int {
		return func(n int) int {
			if n > b {
				return b
			}
			return -1
		}
	}
	ops := []p04op{
		p04append(1), p04append(16), p04append(37),
		p04set("0", low), p04set("mid", mid), p04set("last", last), p04set("treelast", treeLast),
		p04resize("-1", up(-1), 0), p04resize("-17", up(-17), 0), p04resize("align", align, 0), p04resize("half", half, 0), p04resize("zero", zero, 0),
		p04resize("+1", up(1), 1), p04resize("next16", next16, 2), p04resize("+33", up(33), 3), p04resize("+300", up(300), 1),
		p04persist, p04fork(0), p04fork(1), p04switch,
	}
	more := []p04op{p04append(0), p04append(15), p04append(17), p04append(256), p04append(3850), p04set("1/3", func(n int) int { return n / 3 }), p04resize("256", under(256), 0), p04resize("255", under(255), 0), p04resize("272", under(272), 0), p04resize("+0", up(0), 0), p04resize("+16", up(16), 2), p04resize("+257", up(257), 3), p04fork(2)}
	explore := func(group string, starts []int, ops []p04op, depth int) {
		c.Group(group)
		for _, start := range starts {
			// one case per (start, first op, second op)
			for a := range ops {
				for b := range ops {
					if c.Skip() {
						continue
					}
					c.Do(fmt.Sprintf("%s start=%d %s %s", group, start, ops[a].name, ops[b].name), func(t *mc.T) {
						eachTuple(len(ops), depth-2, func(ix []int) {
							if t.Failed() {
								return
							}
							hist := append([]int{a, b}, ix...)
							p04run(t, start, ops, hist)
						})
					})
				}
			}
		}
	}
	small := []int{0, 1, 15, 16, 17, 32, 33, 47, 255, 256, 257, 272}
	big := []int{4080, 4096, 4097, 4112}
	d := 4
	if !c.Quick {
		d = 5
	}
	explore("small", small, ops, d)
	explore("big", big, ops, d-1)
	explore("wide", []int{0, 5, 16, 250, 256, 300}, append(append([]p04op{}, ops...), more...), d-1)
	// Every size: build by single appends and by one append, persist at every length.
	c.Group("sizes")
	for n := 0; n <= 700; n++ {
		if c.Skip() {
			continue
		}
		c.Do(fmt.Sprintf("size %d", n), func(t *mc.T) {
			st := &p04state{}
			var s0 persist.Slice[int]
			a := &p04obj{t: s0.Transient()}
			st.trs[0] = a
			p04append(n).do(st)
			for k := 0; k <= n; k += 1 + k/40 {
				// shrink a fork to k, grow it back, compare
				snap := &p04obj{s: a.t.Persist(), m: clone(a.m)}
				f := &p04obj{t: snap.s.Transient(), m: clone(a.m)}
				st.trs[1] = f
				st.cur = 1
				p04resize("", func(int) int { return k }, 0).do(st)
				if !p04check(t, fmt.Sprintf("shrunk to %d", k), f, false) {
					return
				}
				p04resize("", func(int) int { return n }, 1).do(st)
				t.Step(3)
				if !p04check(t, fmt.Sprintf("regrown from %d", k), f, k%7 == 0) || !p04check(t, "snapshot", snap, false) {
					return
				}
				st.cur = 0
			}
			p04check(t, "original", a, true)
			t.Observe(fmt.Sprint(n))
		})
	}
}

func p04run(t *mc.T, start int, ops []p04op, hist []int) {
	st := &p04state{}
	var s0 persist.Slice[int]
	st.trs[0] = &p04obj{t: s0.Transient()}
	p04append(start).do(st)
	p04persist.do(st)
	names := func(k int) string {
		var s []string
		for _, h := range hist[:k] {
			s = append(s, ops[h].name)
		}
		return strings.Join(s, " ")
	}
	for i, h := range hist {
		if !ops[h].do(st) {
			if i < len(hist)-1 {
				return // covered by the shorter history
			}
			break
		}
		t.Step(1)
	}
	sig := fmt.Sprint(st.cur)
	for i, o := range st.trs {
		if o != nil {
			if !p04check(t, fmt.Sprintf("start %d, %s: transient %d", start, names(len(hist)), i), o, i == st.cur && hist[len(hist)-1]%3 == 0) {
				return
			}
			sig += fmt.Sprintf(" %d", len(o.m))
		}
	}
	for i, o := range st.snaps {
		if !p04check(t, fmt.Sprintf("start %d, %s: version %d", start, names(len(hist)), i), o, false) {
			return
		}
		sig += fmt.Sprintf(" v%d", len(o.m))
	}
	t.Observe(sig)
}
