// Package mc is the bounded-exhaustive exploration driver shared by all checks.
//
// A property's Run function walks its whole (bounded) case space in a fixed
// order. Every worker process walks the same order and executes the cases
// whose ordinal falls in its residue class; the parent merges the results,
// re-runs anything that failed, filters known findings and writes evidence.
package mc

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/shim/vrace"
)

// Prop is one property's check.
type Prop struct {
	ID          string
	Run         func(c *Ctx)
	Rule        string   // what is enumerated and what the oracle is
	Assumptions []string // stated assumptions
	Workers     int      // 0: one per CPU
	CaseCPU     int      // seconds of CPU time after which a case counts as hung (default 60)
}

// Ctx is the state of one worker's walk.
type Ctx struct {
	Prop     string
	Quick    bool
	worker   int
	nworkers int
	idx      int64
	skipTo   int64
	only     string
	prog     *os.File
	out      *bufio.Writer
	outMu    sync.Mutex
	deadline time.Time
	stopped  bool

	cases, transitions, violations int64
	states                         map[uint64]struct{}
	outcomes                       map[uint64]struct{}
	samples                        []string
	groups                         map[string]int64
	group                          string

	curMu    sync.Mutex
	curKey   string
	curStart time.Time
	curCPU   time.Duration
}

// T is one case.
type T struct {
	c      *Ctx
	key    string
	failed bool
	obs    uint64
}

type record struct {
	Kind string
	Key  string `json:",omitempty"`
	Msg  string `json:",omitempty"`
	Sum  *summary
}

type summary struct {
	Cases, Transitions int64
	Exhaustive         bool
	Samples            []string
	Groups             map[string]int64
	Walked             int64
}

// Skip advances the ordinal and reports whether this worker must skip it.
func (c *Ctx) Skip() bool {
	i := c.idx
	c.idx++
	if c.stopped {
		return true
	}
	if c.only != "" {
		return false
	}
	if i%int64(c.nworkers) != int64(c.worker) || i < c.skipTo {
		return true
	}
	if i&0xff == int64(c.worker) || c.cases&0x3f == 0 {
		if time.Now().After(c.deadline) {
			c.stopped = true
			return true
		}
	}
	return false
}

// Stopped reports that the deadline was hit.
func (c *Ctx) Stopped() bool { return c.stopped }

// Replaying reports whether a single case is being replayed.
func (c *Ctx) Replaying() bool { return c.only != "" }

// Count adds to a named counter in the evidence.
func (c *Ctx) Count(name string, n int64) { c.groups[name] += n }

// Group names the part of the space being explored (for the evidence).
func (c *Ctx) Group(name string) { c.group = name }

// Do executes the case (the caller has already passed Skip).
func (c *Ctx) Do(key string, f func(t *T)) {
	if c.only != "" && c.only != key {
		return
	}
	c.cases++
	c.groups[c.group]++
	if len(c.samples) < 3 && (c.cases == 1 || c.cases == 50 || c.cases == 1000) {
		c.samples = append(c.samples, clip(key, 300))
	}
	c.curMu.Lock()
	c.curKey, c.curStart, c.curCPU = key, time.Now(), cpuNow()
	c.curMu.Unlock()
	if c.prog != nil {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], uint64(c.idx-1))
		binary.LittleEndian.PutUint64(b[8:], uint64(len(key)))
		c.prog.WriteAt(append(b[:], key...), 0)
	}
	t := &T{c: c, key: key, obs: 14695981039346656037}
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.Failf("Go panic escaped: %v\n%s", e, clip(string(debug.Stack()), 3000))
			}
		}()
		f(t)
	}()
	if slow > 0 && time.Since(c.curStart) > slow {
		if f, err := os.OpenFile(os.Getenv("VC_SLOWLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(f, "%v %s\n", time.Since(c.curStart), clip(key, 200))
			f.Close()
		}
	}
	c.curMu.Lock()
	c.curKey = ""
	c.curMu.Unlock()
	if len(c.states) < 4_000_000 {
		c.states[t.obs] = struct{}{}
	}
}

// slow, if set (in the environment, for development), has slow cases named.
var slow, _ = time.ParseDuration(os.Getenv("VC_SLOW"))

// Case is Skip+Do.
func (c *Ctx) Case(key string, f func(t *T)) {
	if !c.Skip() {
		c.Do(key, f)
	}
}

// Failf records a violation in this case.
func (t *T) Failf(format string, args ...any) {
	if t.failed {
		return
	}
	t.failed = true
	t.c.violations++
	t.c.emit(record{Kind: "violation", Key: t.key, Msg: clip(fmt.Sprintf(format, args...), 6000)})
}

// Failed reports whether the case failed.
func (t *T) Failed() bool { return t.failed }

// Step counts executed transitions (statements, operations, scheduling steps).
func (t *T) Step(n int) { t.c.transitions += int64(n) }

// Observe mixes an observed (canonical) state into the case's state hash, and
// counts the state.
func (t *T) Observe(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	v := h.Sum64()
	t.obs = t.obs*1099511628211 ^ v
	if len(t.c.states) < 4_000_000 {
		t.c.states[v] = struct{}{}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

func (c *Ctx) emit(r record) {
	b, _ := json.Marshal(r)
	c.outMu.Lock()
	c.out.Write(b)
	c.out.WriteByte('\n')
	c.out.Flush()
	c.outMu.Unlock()
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process if one case uses an absurd amount of CPU time
// (or, deadlocked, of wall time). Normal cases take milliseconds.
func (c *Ctx) watchdog(limit int) {
	for {
		time.Sleep(2 * time.Second)
		c.curMu.Lock()
		key, start, cpu := c.curKey, c.curStart, c.curCPU
		c.curMu.Unlock()
		if key == "" {
			continue
		}
		if cpuNow()-cpu > time.Duration(limit)*time.Second || time.Since(start) > 4*time.Duration(limit)*time.Second {
			fmt.Fprintf(os.Stderr, "watchdog: case did not terminate\n")
			os.Exit(97)
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Flags, defined early so that package testing's flag parsing knows them.
var (
	flagId       = flag.String("prop", "", "property id")
	flagTier     = flag.String("tier", "quick", "quick or thorough")
	flagWorker   = flag.Int("worker", -1, "worker number (internal)")
	flagNworkers = flag.Int("n", 0, "number of workers")
	flagSkipto   = flag.Int64("skip", 0, "first ordinal (internal)")
	flagOnly     = flag.String("case", "", "replay just this case key")
	flagProg     = flag.String("progress", "", "progress file (internal)")
	flagBudget   = flag.Int("budget", 0, "seconds")
	flagMax      = flag.Int("max", 10, "violations to print")
	flagNoev     = flag.Bool("noevidence", false, "do not write evidence")
)

// Main is the entry point.
func Main(props []*Prop) {
	flag.Parse()
	var p *Prop
	for _, q := range props {
		if q.ID == *flagId {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", *flagId)
		os.Exit(2)
	}
	if *flagBudget == 0 {
		*flagBudget = 600
		if *flagTier == "thorough" {
			*flagBudget = 3600
		}
	}
	if *flagWorker >= 0 || *flagOnly != "" {
		runWorker(p, *flagTier, *flagWorker, *flagNworkers, *flagSkipto, *flagOnly, *flagProg, *flagBudget)
		return
	}
	os.Exit(parent(p, *flagTier, *flagNworkers, *flagBudget, !*flagNoev))
}

func runWorker(p *Prop, tier string, worker, n int, skipTo int64, only, prog string, budget int) {
	debug.SetGCPercent(400)
	if !vrace.On {
		// Runaway allocation must end this process, not the sandbox.
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	}
	real := os.Stdout
	// ivy occasionally writes to the process's stdout; keep that away from the protocol.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	c := &Ctx{Prop: p.ID, Quick: tier != "thorough", worker: worker, nworkers: n, skipTo: skipTo, only: only,
		out: bufio.NewWriter(real), states: map[uint64]struct{}{}, groups: map[string]int64{},
		deadline: time.Now().Add(time.Duration(budget) * time.Second)}
	if prog != "" {
		f, err := os.OpenFile(prog, os.O_CREATE|os.O_RDWR, 0o644)
		if err == nil {
			c.prog = f
		}
	}
	limit := p.CaseCPU
	if limit == 0 {
		limit = 60
	}
	if tier == "thorough" {
		limit *= 10
	}
	go c.watchdog(limit)
	p.Run(c)
	if only != "" {
		if c.cases == 0 {
			fmt.Fprintf(real, "case %q not found\n", only)
			os.Exit(2)
		}
		if c.violations > 0 {
			os.Exit(1)
		}
		fmt.Fprintln(real, "case passes")
		os.Exit(0)
	}
	if prog != "" {
		// State hashes for merging.
		if f, err := os.Create(prog + ".states"); err == nil {
			w := bufio.NewWriter(f)
			var b [8]byte
			for h := range c.states {
				binary.LittleEndian.PutUint64(b[:], h)
				w.Write(b[:])
			}
			w.Flush()
			f.Close()
		}
	}
	c.emit(record{Kind: "summary", Sum: &summary{Cases: c.cases, Transitions: c.transitions,
		Exhaustive: !c.stopped, Samples: c.samples, Groups: c.groups, Walked: c.idx}})
}

type violation struct{ Key, Msg string }

func parent(p *Prop, tier string, n, budget int, writeEvidence bool) int {
	start := time.Now()
	if n == 0 {
		n = p.Workers
	}
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "vc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	var mu sync.Mutex
	var viols []violation
	var sum summary
	sum.Exhaustive = true
	sum.Groups = map[string]int64{}
	states := map[uint64]struct{}{}
	var wg sync.WaitGroup
	infra := ""
	walked := int64(-1)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			skip := int64(0)
			deaths := 0
			for {
				prog := filepath.Join(scratch, fmt.Sprintf("w%d.%d", k, deaths))
				left := budget - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-worker", strconv.Itoa(k), "-n", strconv.Itoa(n),
					"-skip", strconv.FormatInt(skip, 10), "-progress", prog, "-budget", strconv.Itoa(left))
				cmd.Dir = scratch
				var errb tailBuffer
				cmd.Stderr = &errb
				cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+filepath.Join(scratch, fmt.Sprintf("s%d", k)))
				os.MkdirAll(filepath.Join(scratch, fmt.Sprintf("s%d", k)), 0o755)
				pipe, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					mu.Lock()
					infra = err.Error()
					mu.Unlock()
					return
				}
				done := false
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 1<<26)
				for sc.Scan() {
					var r record
					if json.Unmarshal(sc.Bytes(), &r) != nil {
						continue
					}
					mu.Lock()
					switch r.Kind {
					case "violation":
						viols = append(viols, violation{r.Key, r.Msg})
					case "summary":
						done = true
						sum.Cases += r.Sum.Cases
						sum.Transitions += r.Sum.Transitions
						sum.Exhaustive = sum.Exhaustive && r.Sum.Exhaustive
						sum.Samples = append(sum.Samples, r.Sum.Samples...)
						for g, v := range r.Sum.Groups {
							sum.Groups[g] += v
						}
						if walked >= 0 && walked != r.Sum.Walked && r.Sum.Exhaustive {
							infra = fmt.Sprintf("workers disagree on the size of the space: %d vs %d", walked, r.Sum.Walked)
						}
						if r.Sum.Exhaustive {
							walked = r.Sum.Walked
						}
					}
					mu.Unlock()
				}
				werr := cmd.Wait()
				if done {
					if b, err := os.ReadFile(prog + ".states"); err == nil {
						mu.Lock()
						for i := 0; i+8 <= len(b); i += 8 {
							states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
						}
						mu.Unlock()
					}
					return
				}
				// The worker died: find the case, and try it alone.
				b, _ := os.ReadFile(prog)
				if len(b) < 16 {
					mu.Lock()
					infra = fmt.Sprintf("worker %d died before its first case: %v\n%s", k, werr, errb.String())
					mu.Unlock()
					return
				}
				ord := int64(binary.LittleEndian.Uint64(b))
				key := string(b[16:min(len(b), 16+int(binary.LittleEndian.Uint64(b[8:])))])
				rerun := exec.Command(self, "-prop", p.ID, "-tier", tier, "-case", key, "-budget", "800")
				rerun.Dir = scratch
				rerun.Env = cmd.Env
				var rb tailBuffer
				rerun.Stderr = &rb
				rerr := rerun.Run()
				mu.Lock()
				if rerr != nil {
					viols = append(viols, violation{key, fmt.Sprintf("the process did not survive this case: %v\n%s", werr, headOf(rb.String(), 2500))})
				}
				if rerr == nil {
					fmt.Fprintf(os.Stderr, "note: worker %d died (%v) in %s, which passes alone: %s\n", k, werr, clip(key, 200), headOf(errb.String(), 500))
				}
				deaths++
				const maxDeaths = 3
				sum.Exhaustive = sum.Exhaustive && deaths < maxDeaths
				mu.Unlock()
				if deaths >= maxDeaths {
					return
				}
				skip = ord + 1
			}
		}(k)
	}
	wg.Wait()
	if infra != "" {
		fmt.Fprintln(os.Stderr, "check error:", infra)
		return 2
	}
	known := loadKnown(p.ID)
	sort.Slice(viols, func(i, j int) bool { return viols[i].Key < viols[j].Key })
	repdir := filepath.Join(verifDir(), "replays")
	var real []violation
	seenKnown := map[string]bool{}
	for _, v := range viols {
		if w, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				seenKnown[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, w)
			}
			continue
		}
		real = append(real, v)
	}
	if len(real) > 0 {
		os.MkdirAll(repdir, 0o755)
		// Simplest first.
		sort.SliceStable(real, func(i, j int) bool { return len(real[i].Key) < len(real[j].Key) })
		for i, v := range real {
			if i >= *flagMax {
				fmt.Printf("... and %d more violations\n", len(real)-i)
				break
			}
			path := filepath.Join(repdir, fmt.Sprintf("%s-%03d.txt", p.ID, i))
			os.WriteFile(path, []byte(fmt.Sprintf("property: %s\ncase: %s\nreplay: bash /verif/check.sh %s %s -case %q\n\n%s\n", p.ID, v.Key, p.ID, tier, v.Key, v.Msg)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("    case: %s\n    %s\n", clip(v.Key, 400), strings.ReplaceAll(clip(v.Msg, 800), "\n", "\n    "))
		}
	}
	wall := time.Since(start).Seconds()
	if writeEvidence {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		if len(sum.Samples) > 12 {
			sum.Samples = sum.Samples[:12]
		}
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]any{
				"states": len(states), "transitions": sum.Transitions,
				"traces_validated_against_impl": sum.Cases,
				"samples":                       sum.Samples, "exhaustive": sum.Exhaustive,
				"rule": p.Rule, "groups": sum.Groups,
			},
			"assumptions": p.Assumptions,
			"wall_s":      wall,
			"violations":  len(real),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: cases=%d transitions=%d states=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n",
		p.ID, tier, sum.Cases, sum.Transitions, len(states), sum.Exhaustive, len(real), len(seenKnown), wall)
	if len(real) > 0 {
		return 1
	}
	return 0
}

func headOf(s string, n int) string { return clip(s, n) }

// tailBuffer keeps the first 64k written.
type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p[:min(len(p), 1<<16-len(t.b))]...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// loadKnown reads known_findings.txt. Lines that count here look like
//
//	known: property=P01 case="the case key, as a Go string" what fails
//
// Lines starting "fixed:" record repaired defects and suppress nothing.
func loadKnown(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+id+" case=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		known[key] = strings.TrimSpace(rest[len(q):])
	}
	return known
}
