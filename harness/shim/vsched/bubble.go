package vsched

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"verif/shim/vrace"
)

// Bubble mode: the code under test may block on channels and wait groups of its
// own. Each run takes place in a synctest bubble; synctest.Wait tells the
// controller when every goroutine is parked at a Yield or blocked by the code
// itself, and the controller then picks the one to go on. Every departure from
// the default choice (the goroutine that ran last, else the oldest) costs one
// unit of the bound (delay bounding).

type bthread struct {
	id, gid int
	wake    chan struct{}
	parked  bool
	done    bool
	blocked any
}

var bub struct {
	on      bool
	mu      sync.Mutex // under vrace.Disable only
	threads [256]*bthread
	n       int
	last    int
}

func gid() int {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	s, _, _ = strings.Cut(s, " ")
	id, _ := strconv.Atoi(s)
	return id
}

//go:norace
func bself() *bthread {
	bub.mu.Lock()
	defer bub.mu.Unlock()
	g := gid()
	for _, t := range bub.threads[:bub.n] {
		if t.gid == g && !t.done {
			return t
		}
	}
	return nil
}

//go:norace
func bpark(t *bthread) {
	bub.mu.Lock()
	t.parked = true
	bub.mu.Unlock()
	<-t.wake
}

// BYield is Yield in bubble mode.
//
//go:norace
func BYield() {
	if !bub.on {
		return
	}
	vrace.Disable()
	if t := bself(); t != nil {
		bpark(t)
	}
	vrace.Enable()
}

// BBlock suspends the caller until BUnblock of the same object.
//
//go:norace
func BBlock(obj any) {
	vrace.Disable()
	t := bself()
	if t == nil {
		panic("vsched: unmanaged goroutine blocked")
	}
	bub.mu.Lock()
	t.blocked = obj
	bub.mu.Unlock()
	bpark(t)
	vrace.Enable()
}

//go:norace
func BUnblock(obj any) {
	if !bub.on {
		return
	}
	vrace.Disable()
	bub.mu.Lock()
	for _, t := range bub.threads[:bub.n] {
		if t.blocked == obj {
			t.blocked = nil
		}
	}
	bub.mu.Unlock()
	vrace.Enable()
}

// Go starts f in a managed goroutine (in bubble mode) or just starts it.
//
//go:norace
func Go(f func()) {
	if !bub.on {
		go f()
		return
	}
	vrace.Disable()
	bub.mu.Lock()
	t := &bthread{id: bub.n, wake: make(chan struct{})}
	bub.threads[bub.n] = t
	bub.n++
	bub.mu.Unlock()
	vrace.Enable()
	go bmain(t, f)
}

//go:norace
func bmain(t *bthread, f func()) {
	vrace.Disable()
	bub.mu.Lock()
	t.gid = gid()
	bub.mu.Unlock()
	bpark(t)
	vrace.Enable()
	defer bexit(t)
	f()
}

//go:norace
func bexit(t *bthread) {
	vrace.Disable()
	bub.mu.Lock()
	t.done = true
	bub.mu.Unlock()
	vrace.Enable()
}

// runBubble executes f (and whatever it starts) under the decisions.
//
//go:norace
func runBubble(tt *testing.T, f func(), decisions []int, delays int) (pts []point, problem string) {
	synctest.Test(tt, func(*testing.T) {
		vrace.Disable()
		bub.n = 0
		bub.last = 0
		bub.on = true
		vrace.Enable()
		done := make(chan struct{}, 1)
		Go(func() { f(); done <- struct{}{} })
		vrace.Disable()
		used := 0
		steps := 0
		for {
			synctest.Wait()
			bub.mu.Lock()
			var cands []*bthread
			alive := 0
			for _, t := range bub.threads[:bub.n] {
				if !t.done {
					alive++
				}
				if !t.done && t.parked && t.blocked == nil {
					cands = append(cands, t)
				}
			}
			bub.mu.Unlock()
			if len(cands) == 0 {
				if alive > 0 {
					problem = "deadlock"
				}
				break
			}
			if steps++; steps > 200000 {
				problem = "execution does not terminate"
				break
			}
			// The one that ran last first, then by age.
			sort.SliceStable(cands, func(i, j int) bool {
				return cands[i].id == bub.last && cands[j].id != bub.last
			})
			n := len(cands)
			if used >= delays {
				n = 1
			}
			k := 0
			if n > 1 {
				if len(pts) < len(decisions) {
					k = decisions[len(pts)]
					if k >= n {
						problem = "schedule replay diverged"
						k = 0
					}
				}
				pts = append(pts, point{n, k})
			}
			if k > 0 {
				used++
			}
			t := cands[k]
			bub.last = t.id
			t.parked = false
			t.wake <- struct{}{}
		}
		bub.on = false
		vrace.Enable()
		if problem == "" {
			<-done
		} else {
			panic("vsched: " + problem) // the bubble cannot end with goroutines left
		}
	})
	return pts, problem
}

// ExploreBubble runs body under every schedule with at most the given number of
// departures from the default schedule.
func ExploreBubble(tt *testing.T, delays, limit int, body func() (f func(), check func() string)) (execs, points int, failure string, schedule []int, complete bool) {
	var dec []int
	for {
		f, check := body()
		pts, problem := runBubble(tt, f, dec, delays)
		execs++
		points += len(pts) + 1
		if problem == "" {
			problem = check()
		}
		if problem != "" {
			for _, p := range pts {
				schedule = append(schedule, p.chosen)
			}
			return execs, points, problem, schedule, false
		}
		i := len(pts) - 1
		for i >= 0 && pts[i].chosen+1 >= pts[i].alts {
			i--
		}
		if i < 0 {
			return execs, points, "", nil, true
		}
		if limit > 0 && execs >= limit {
			return execs, points, "", nil, false
		}
		dec = dec[:0]
		for j := 0; j < i; j++ {
			dec = append(dec, pts[j].chosen)
		}
		dec = append(dec, pts[i].chosen+1)
	}
}

// InBubble reports bubble mode.
//
//go:norace
func InBubble() bool { return bub.on }
