// Package vsched is a controlled scheduler: exactly one managed goroutine runs
// at a time, and at every Yield the explorer decides which one goes on.
// Handoffs are hidden from the race detector, so that in a -race build every
// explored schedule is also checked for happens-before races between the
// managed goroutines.
package vsched

import "verif/shim/vrace"

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked any // what it waits for
}

var (
	active  bool
	cur     *thread
	threads []*thread
	choices []int // decisions to replay
	pos     int
	trace   []point
	steps   int
	preempt int
	bound   int
	bad     string
	finish  chan struct{}
)

// point is one scheduling decision.
type point struct {
	alts   int // number of threads that could have been chosen, in canonical order
	chosen int // which was
}

const maxSteps = 100000


// pick decides who runs next; the current thread is first among the alternatives.
//
//go:norace
func pick() *thread {
	curOK := cur != nil && !cur.done && cur.blocked == nil
	var alts [64]int
	n := 0
	if curOK {
		alts[0] = cur.id
		n = 1
	}
	if !curOK || preempt < bound {
		for _, t := range threads {
			if !t.done && t.blocked == nil && (!curOK || t != cur) {
				alts[n] = t.id
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	k := 0
	if n > 1 {
		if pos < len(choices) {
			k = choices[pos]
			if k >= n {
				bad = "schedule replay diverged"
				k = 0
			}
		}
		pos++
		trace = append(trace, point{n, k})
	}
	if curOK && alts[k] != cur.id {
		preempt++
	}
	return threads[alts[k]]
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	steps++
	if steps > maxSteps {
		bad = "execution does not terminate"
		panic(bad)
	}
	if preempt >= bound {
		return // the current thread goes on
	}
	me := cur
	next := pick()
	if next == me {
		return
	}
	switchTo(me, next)
}

//go:norace
func switchTo(me, next *thread) {
	vrace.Disable()
	cur = next
	next.wake <- struct{}{}
	<-me.wake
	vrace.Enable()
}

// Block suspends the current thread until Unblock of the same object.
//
//go:norace
func Block(obj any) {
	if !active {
		panic("vsched: blocked outside a controlled run")
	}
	me := cur
	me.blocked = obj
	next := pick()
	if next == nil {
		bad = "deadlock"
		me.blocked = nil
		panic(bad)
	}
	switchTo(me, next)
}

// Unblock makes threads blocked on obj runnable.
//
//go:norace
func Unblock(obj any) {
	for _, t := range threads {
		if t.blocked == obj {
			t.blocked = nil
		}
	}
}

//go:norace
func exit(me *thread) {
	vrace.Disable()
	me.done = true
	next := pick()
	if next == nil {
		left := false
		for _, t := range threads {
			if !t.done {
				left = true
			}
		}
		if left {
			bad = "deadlock"
		}
		active = false
		finish <- struct{}{}
	} else {
		cur = next
		next.wake <- struct{}{}
	}
	vrace.Enable()
}

// Run executes the functions concurrently under the given decisions and returns
// the decision points met.
//
//go:norace
func Run(fs []func(), decisions []int, preemptions int) (pts []point, problem string) {
	threads, trace, pos, steps, preempt, bad = nil, trace[:0], 0, 0, 0, ""
	choices, bound, cur = decisions, preemptions, nil
	finish = make(chan struct{}, 1)
	panics := make([]any, len(fs))
	joined := make(chan struct{}, len(fs))
	for i := range fs {
		threads = append(threads, &thread{id: i, wake: make(chan struct{}, 1)})
	}
	for i := range fs {
		t, f := threads[i], fs[i]
		go func() {
			vrace.Disable()
			<-t.wake
			vrace.Enable()
			func() {
				defer func() { panics[t.id] = recover() }()
				f()
			}()
			exit(t)
			joined <- struct{}{} // real synchronization with the caller
		}()
	}
	active = true
	vrace.Disable()
	cur = pick()
	cur.wake <- struct{}{}
	<-finish
	vrace.Enable()
	if bad == "deadlock" {
		return trace, bad
	}
	for range fs {
		<-joined
	}
	for i, p := range panics {
		if p != nil && bad == "" {
			bad = "thread panicked: " + toString(p)
			_ = i
		}
	}
	return trace, bad
}

// Explore runs body under every schedule with at most the given number of
// preemptions. body must build a fresh instance and return its threads and a
// final check. It stops at the first failing schedule.
func Explore(preemptions int, body func() (fs []func(), check func() string)) (execs, points int, failure string, schedule []int) {
	var dec []int
	for {
		fs, check := body()
		pts, problem := Run(fs, dec, preemptions)
		execs++
		points += len(pts)
		if problem == "" {
			problem = check()
		}
		if problem != "" {
			for _, p := range pts {
				schedule = append(schedule, p.chosen)
			}
			return execs, points, problem, schedule
		}
		// Backtrack.
		i := len(pts) - 1
		for i >= 0 && pts[i].chosen+1 >= pts[i].alts {
			i--
		}
		if i < 0 {
			return execs, points, "", nil
		}
		dec = dec[:0]
		for j := 0; j < i; j++ {
			dec = append(dec, pts[j].chosen)
		}
		dec = append(dec, pts[i].chosen+1)
	}
}
