// Package propsrace holds the checks that run under the controlled scheduler.
package propsrace

import (
	"fmt"
	"strings"

	"robpike.io/ivy/value/persist"
	"verif/mc"
	"verif/shim/vsched"
)

// All is the list of checks.
var All []*mc.Prop

func init() {
	All = append(All, &mc.Prop{ID: "P05", Run: runP05, CaseCPU: 150,
		Rule:        "every interleaving, up to the preemption bound and at statement and atomic-operation granularity, of 2-3 goroutines doing Set/At/Len on distinct indexes of one real TransientSlice (its source rewritten so that the explorer owns every scheduling decision), from every kind of starting transient (fresh with holes, derived from a published slice, partly owned, re-used after Persist) and every placement of the indexes relative to leaves, inodes and tail; every write must be present, every other element, every read and every published slice unchanged; the race detector checks each schedule for happens-before races (scheduler handoffs are hidden from it)",
		Assumptions: []string{"Set, At and Len calls of a thread are the only concurrent operations (Append, Resize and Persist need exclusive access)", "interleavings needing more preemptions than the bound are not explored", "sequentially consistent execution of statements; weaker behaviours are caught as data races"}})
}

type p05act struct {
	kind byte // s, a, l
	i    int
}

func (a p05act) String() string { return fmt.Sprintf("%c%d", a.kind, a.i) }

type p05setup struct {
	name string
	make func() (t *persist.TransientSlice[int], m []int, pub []*persist.Slice[int], pubm [][]int)
}

func seq(n, base int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = base + i
	}
	return x
}

func clone(m []int) []int { return append([]int(nil), m...) }

func p05setups(n int) []p05setup {
	return []p05setup{
		{"holes", func() (*persist.TransientSlice[int], []int, []*persist.Slice[int], [][]int) {
			t := new(persist.TransientSlice[int])
			t.Resize(n)
			return t, make([]int, n), nil, nil
		}},
		{"derived", func() (*persist.TransientSlice[int], []int, []*persist.Slice[int], [][]int) {
			var s0 persist.Slice[int]
			t := s0.Transient()
			t.Append(seq(n, 1000)...)
			s := t.Persist()
			return s.Transient(), seq(n, 1000), []*persist.Slice[int]{s}, [][]int{seq(n, 1000)}
		}},
		{"reused", func() (*persist.TransientSlice[int], []int, []*persist.Slice[int], [][]int) {
			var s0 persist.Slice[int]
			t := s0.Transient()
			t.Append(seq(n, 1000)...)
			s := t.Persist()
			return t, seq(n, 1000), []*persist.Slice[int]{s}, [][]int{seq(n, 1000)}
		}},
		{"owned", func() (*persist.TransientSlice[int], []int, []*persist.Slice[int], [][]int) {
			var s0 persist.Slice[int]
			t := s0.Transient()
			t.Append(seq(n, 1000)...)
			return t, seq(n, 1000), nil, nil
		}},
		{"partly", func() (*persist.TransientSlice[int], []int, []*persist.Slice[int], [][]int) {
			var s0 persist.Slice[int]
			t := s0.Transient()
			t.Append(seq(n, 1000)...)
			s := t.Persist()
			t2 := s.Transient()
			m := seq(n, 1000)
			t2.Set(5, 77)
			m[5] = 77
			return t2, m, []*persist.Slice[int]{s}, [][]int{seq(n, 1000)}
		}},
	}
}

func runP05(c *mc.Ctx) {
	type scen struct {
		n     int
		progs [][]p05act
	}
	S := func(i int) p05act { return p05act{'s', i} }
	A := func(i int) p05act { return p05act{'a', i} }
	L := p05act{'l', 0}
	var scens []scen
	add := func(n int, progs ...[]p05act) { scens = append(scens, scen{n, progs}) }
	T := func(a ...p05act) []p05act { return a }
	// sizes: tail only; one leaf plus tail; two leaves; two inode subtrees; three levels
	add(10, T(S(1)), T(S(2)))
	add(10, T(S(1)), T(A(2), L))
	add(10, T(S(1)), T(S(2)), T(A(3)))
	add(20, T(S(1)), T(S(2)))
	add(20, T(S(1)), T(S(17)))
	add(20, T(S(17)), T(S(18)))
	add(20, T(S(1)), T(A(2)))
	add(20, T(S(1), S(18)), T(S(17), S(2)))
	add(40, T(S(1)), T(S(17)))
	add(40, T(S(1), S(33)), T(S(2), S(17)))
	add(40, T(S(1)), T(A(2), A(17), A(33), L))
	add(40, T(S(1)), T(S(2)), T(S(3)))
	add(40, T(S(1)), T(S(17)), T(A(18)))
	add(300, T(S(1)), T(S(2)))
	add(300, T(S(1)), T(S(257)))
	add(300, T(S(1)), T(S(17)))
	add(300, T(S(258)), T(A(257), A(3), A(299)))
	add(300, T(S(257), S(298)), T(S(258), S(299)))
	if !c.Quick {
		add(10, T(S(1), S(3)), T(S(2), A(5)), T(S(4), L))
		add(40, T(S(1), S(18)), T(S(17), S(2)), T(A(33), S(34)))
		add(300, T(S(1)), T(S(17)), T(S(257)))
		add(4100, T(S(1)), T(S(4097)))
		add(4100, T(S(1)), T(S(300)))
		add(4100, T(S(4000)), T(A(4001), A(4098), A(1)))
	}
	for _, sc := range scens {
		for _, su := range p05setups(sc.n) {
			if c.Skip() {
				continue
			}
			var ps []string
			nact := 0
			for _, p := range sc.progs {
				ps = append(ps, fmt.Sprint(p))
				nact += len(p)
			}
			bound := 2
			if c.Quick && len(sc.progs) > 2 && sc.n > 10 {
				bound = 1
			}
			if !c.Quick && len(sc.progs) == 2 && nact <= 4 {
				bound = 3
			}
			key := fmt.Sprintf("n=%d %s %s", sc.n, su.name, strings.Join(ps, " || "))
			c.Group(fmt.Sprintf("n=%d", sc.n))
			c.Do(key, func(t *mc.T) {
				outcomes := map[string]bool{}
				execs, points, fail, sched := vsched.Explore(bound, func() ([]func(), func() string) {
					tr, m, pub, pubm := su.make()
					reads := make([][]int, len(sc.progs))
					want := clone(m)
					var fs []func()
					wantReads := make([][]int, len(sc.progs))
					for k, prog := range sc.progs {
						for _, a := range prog {
							switch a.kind {
							case 's':
								want[a.i] = 100000 + a.i
							case 'a':
								wantReads[k] = append(wantReads[k], m[a.i])
							case 'l':
								wantReads[k] = append(wantReads[k], sc.n)
							}
						}
						fs = append(fs, func() {
							for _, a := range prog {
								switch a.kind {
								case 's':
									tr.Set(a.i, 100000+a.i)
								case 'a':
									reads[k] = append(reads[k], tr.At(a.i))
								case 'l':
									reads[k] = append(reads[k], tr.Len())
								}
							}
						})
					}
					return fs, func() string {
						if fmt.Sprint(reads) != fmt.Sprint(wantReads) {
							return fmt.Sprintf("concurrent reads saw %v, want %v", reads, wantReads)
						}
						if msg := same("transient", tr.Len(), tr.At, want); msg != "" {
							return msg
						}
						s := tr.Persist()
						for i := 0; i < sc.n; i += 1 + sc.n/20 {
							tr.Set(i, -5)
						}
						if msg := same("slice persisted afterwards", s.Len(), s.At, want); msg != "" {
							return msg
						}
						for k := range pub {
							if msg := same("slice published before", pub[k].Len(), pub[k].At, pubm[k]); msg != "" {
								return msg
							}
						}
						outcomes["ok"] = true
						return ""
					}
				})
				t.Step(points)
				t.Observe(fmt.Sprint(key, execs))
				c.Count("schedules", int64(execs))
				if fail != "" {
					t.Failf("%s (after %d schedules; decisions %v)", fail, execs, trim(sched))
				}
			})
		}
	}
}

func trim(s []int) string {
	var b strings.Builder
	for i, x := range s {
		if x != 0 {
			fmt.Fprintf(&b, " @%d:%d", i, x)
		}
	}
	return b.String()
}

func same(what string, n int, at func(int) int, want []int) string {
	if n != len(want) {
		return fmt.Sprintf("%s: Len %d, want %d", what, n, len(want))
	}
	for i := range want {
		if x := at(i); x != want[i] {
			return fmt.Sprintf("%s: [%d] = %d, want %d", what, i, x, want[i])
		}
	}
	return ""
}
