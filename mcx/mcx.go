// Package mcx is the exploration engine: it enumerates bounded spaces of cases completely (flat index
// spaces, or trees of choices), runs every case against the real code on all cores, counts what was
// covered, and turns the first disagreement, panic, crash or hang into a replayable violation.
package mcx

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Slot layout in the progress file shared with the parent process.
const (
	SlotWords = 8 // seq, active, sweep, index, ...
	MaxSlots  = 64
	ProgSize  = SlotWords * 8 * MaxSlots
)

type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Sweep    string `json:"sweep"`
	Index    uint64 `json:"index"`
	Choices  []int  `json:"choices,omitempty"`
	Detail   string `json:"detail"`
	Repro    string `json:"repro,omitempty"`
	Stack    string `json:"stack,omitempty"`
}

type SweepStat struct {
	Name     string  `json:"name"`
	Kind     string  `json:"kind"`
	Cases    uint64  `json:"cases"`
	Size     uint64  `json:"size,omitempty"`
	Complete bool    `json:"complete"`
	Seconds  float64 `json:"seconds"`
	Sample   string  `json:"sample,omitempty"`
	Outcomes int     `json:"distinct_outcomes,omitempty"`

	slowest time.Duration
}

type Result struct {
	Evaluations uint64         `json:"evaluations"`
	NonTrivial  uint64         `json:"nontrivial"`
	States      uint64         `json:"states"`
	Transitions uint64         `json:"transitions"`
	Traces      uint64         `json:"traces"`
	Samples     []string       `json:"samples"`
	Sweeps      []SweepStat    `json:"sweeps"`
	Notes       map[string]any `json:"notes,omitempty"`
	Exhaustive  bool           `json:"exhaustive"`
	Violations  []Violation    `json:"violations,omitempty"`
}

type Run struct {
	ID, Tier string
	Out      string // where the result goes
	Thorough bool
	Workers  int
	Deadline time.Time
	prog     []uint64

	mu        sync.Mutex
	res       Result
	stop      atomic.Bool
	timeout   atomic.Bool
	replay    *Violation
	sweepNo   int
	replaying bool
}

// W is the per-worker handle given to every case.
type W struct {
	R        *Run
	slot     []uint64
	sweep    string
	index    uint64
	ch       *Chooser
	evals    uint64
	nontriv  uint64
	states   uint64
	trans    uint64
	traces   uint64
	outcomes map[uint64]struct{}
	sample   string
	Scratch  any // per-worker scratch owned by the sweep
}

type failure struct{ msg string }

func NewRun(id, tier, prog string, limit time.Duration) (*Run, error) {
	r := &Run{ID: id, Tier: tier, Thorough: tier == "thorough", Workers: runtime.GOMAXPROCS(0), Deadline: time.Now().Add(limit)}
	r.res.Exhaustive = true
	r.res.Notes = map[string]any{}
	if r.Workers > MaxSlots {
		r.Workers = MaxSlots
	}
	if prog != "" {
		f, err := os.OpenFile(prog, os.O_RDWR, 0)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		m, err := syscall.Mmap(int(f.Fd()), 0, ProgSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			return nil, err
		}
		r.prog = unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), ProgSize/8)
	} else {
		r.prog = make([]uint64, ProgSize/8)
	}
	return r, nil
}

func (r *Run) SetReplay(v *Violation) { r.replay = v }
func (r *Run) Replaying() bool        { return r.replay != nil }
func (r *Run) Replayed() bool         { return r.replaying }

func (r *Run) Result() Result {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.timeout.Load() {
		r.res.Exhaustive = false
	}
	return r.res
}

func (r *Run) Note(k string, v any) {
	r.mu.Lock()
	r.res.Notes[k] = v
	r.mu.Unlock()
}

func (r *Run) Stopped() bool { return r.stop.Load() }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough {
		return t
	}
	return q
}

// Fail reports that the current case breaks the property and abandons it.
func (w *W) Fail(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:3000] + " [...] " + msg[len(msg)-2900:]
	}
	panic(failure{msg})
}

// NonTrivial counts the current case as one that exercises the property beyond the default path.
func (w *W) NonTrivial() { w.nontriv++ }

// Eval counts extra library evaluations inside a case (each case counts as one by itself).
func (w *W) Eval(n int) { w.evals += uint64(n) }

func (w *W) AddStates(n int) { w.states += uint64(n) }
func (w *W) Step(n int)      { w.trans += uint64(n) }
func (w *W) Trace()          { w.traces++ }

// Outcome records a hash of what was observed, to show that the cases differ in effect.
func (w *W) Outcome(h uint64) {
	if len(w.outcomes) < 1<<16 {
		w.outcomes[h] = struct{}{}
	}
}

// Sample keeps the text of a case for the evidence file (the last one offered per sweep and worker wins).
func (w *W) Sample(f func() string) {
	if w.sample == "" {
		w.sample = f()
	}
}

func Hash(b ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range b {
		for _, c := range p {
			h ^= uint64(c)
			h *= 1099511628211
		}
		h ^= 0xff51
		h *= 1099511628211
	}
	return h
}

func (r *Run) begin(name string) (int, bool) {
	if r.stop.Load() {
		return 0, false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.sweepNo++
	if r.replay != nil && r.replay.Sweep != name {
		return 0, false
	}
	return r.sweepNo, true
}

func (r *Run) newW(i, no int, name string) *W {
	return &W{R: r, slot: r.prog[i*SlotWords : (i+1)*SlotWords], sweep: name, outcomes: map[uint64]struct{}{}}
}

func (w *W) enter(no int, idx uint64) {
	w.index = idx
	atomic.StoreUint64(&w.slot[2], uint64(no))
	atomic.StoreUint64(&w.slot[3], idx)
	atomic.StoreUint64(&w.slot[1], 1)
	atomic.AddUint64(&w.slot[0], 1)
}

func (w *W) leave() { atomic.StoreUint64(&w.slot[1], 0) }

func (r *Run) violation(v Violation) {
	r.mu.Lock()
	r.res.Violations = append(r.res.Violations, v)
	r.mu.Unlock()
	if !r.stop.Swap(true) && r.Out != "" {
		// the other workers finish their cases; a violation is not held up by one that takes long
		time.AfterFunc(15*time.Second, func() {
			r.WriteResult(r.Out)
			os.Exit(0)
		})
	}
}

// guard runs f and returns a description of the failure, if any.
func guard(f func()) (msg, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				msg = fl.msg
				return
			}
			msg = fmt.Sprintf("panic: %v", e)
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// reproduce runs a failing case again, up to five times, unless it takes long: a violation is reported
// soon even when its case is a heavy one.
func reproduce(began time.Time, f func()) string {
	const patience = 3 * time.Second
	rep, n := 0, 0
	first := time.Since(began)
	for start := time.Now(); n < 5 && time.Since(start)+first < patience; n++ {
		if m, _ := guard(f); m != "" {
			rep++
		}
	}
	return fmt.Sprintf("reproduced %d/%d", rep, n)
}

func (w *W) merge(st *SweepStat, all map[uint64]struct{}) {
	r := w.R
	r.res.Evaluations += w.evals
	r.res.NonTrivial += w.nontriv
	r.res.States += w.states
	r.res.Transitions += w.trans
	r.res.Traces += w.traces
	for h := range w.outcomes {
		all[h] = struct{}{}
	}
	if w.sample != "" && (st.Sample == "" || len(w.sample) < len(st.Sample)) {
		st.Sample = w.sample
	}
}

// Sweep runs f for every index in [0,n).
func (r *Run) Sweep(name string, n uint64, f func(w *W, i uint64)) {
	no, ok := r.begin(name)
	if !ok {
		return
	}
	if r.replay != nil {
		r.replaying = true
		if r.replay.Choices == nil {
			w := r.newW(0, no, name)
			w.enter(no, r.replay.Index)
			msg, stack := guard(func() { f(w, r.replay.Index) })
			if msg != "" {
				r.violation(Violation{r.ID, r.Tier, name, r.replay.Index, nil, msg, "", stack})
			}
		}
		return
	}
	start := time.Now()
	st := SweepStat{Name: name, Kind: "sweep", Size: n}
	var next atomic.Uint64
	chunk := n / uint64(r.Workers*64)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	var cases atomic.Uint64
	var slowest atomic.Int64
	all := map[uint64]struct{}{}
	var wg sync.WaitGroup
	for k := 0; k < r.Workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := r.newW(k, no, name)
			defer func() {
				w.leave()
				r.mu.Lock()
				w.merge(&st, all)
				r.mu.Unlock()
			}()
			for !r.stop.Load() {
				lo := next.Add(chunk) - chunk
				if lo >= n {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				if time.Now().After(r.Deadline) {
					r.timeout.Store(true)
					return
				}
				i := lo
				var began time.Time
				msg, stack := guard(func() {
					for ; i < hi; i++ {
						w.enter(no, i)
						w.evals++
						began = time.Now()
						f(w, i)
						if d := int64(time.Since(began)); d > slowest.Load() {
							slowest.Store(d)
						}
					}
				})
				done := i - lo
				if msg != "" {
					rep := reproduce(began, func() { f(w, i) })
					r.violation(Violation{r.ID, r.Tier, name, i, nil, msg, rep, stack})
				}
				cases.Add(done)
			}
		}(k)
	}
	wg.Wait()
	st.Cases = cases.Load()
	st.Complete = st.Cases == n
	st.slowest = time.Duration(slowest.Load())
	r.finish(st, all, start)
}

func (r *Run) finish(st SweepStat, all map[uint64]struct{}, start time.Time) {
	st.Seconds = time.Since(start).Seconds()
	st.Outcomes = len(all)
	r.mu.Lock()
	if !st.Complete {
		r.res.Exhaustive = false
	}
	if st.Sample != "" {
		r.res.Samples = append(r.res.Samples, st.Name+": "+st.Sample)
	}
	r.res.Sweeps = append(r.res.Sweeps, st)
	r.mu.Unlock()
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%-40s cases=%d outcomes=%d %.2fs slowest=%v complete=%v\n", st.Name, st.Cases, st.Outcomes, st.Seconds, st.slowest, st.Complete)
	}
}

// Chooser resolves the nondeterminism of one execution.
type Chooser struct {
	prefix []int
	path   []int
	arity  []int
	budget int // remaining deviations, -1: unlimited
}

// Choose returns a value in [0,n); choice 0 is the default.
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("mcx: choice of nothing")
	}
	v := 0
	if len(c.path) < len(c.prefix) {
		v = c.prefix[len(c.path)]
		if v >= n {
			panic(fmt.Sprintf("mcx: divergence while replaying a prefix: choice %d of %d", v, n))
		}
	}
	if c.budget == 0 {
		n = 1
	}
	if v != 0 && c.budget > 0 {
		c.budget--
	}
	c.path = append(c.path, v)
	c.arity = append(c.arity, n)
	return v
}

func (c *Chooser) Path() []int { return append([]int(nil), c.path...) }

// Explore runs f on every path of its choice tree (with at most dev non-default choices if dev >= 0).
func (r *Run) Explore(name string, dev int, f func(w *W, c *Chooser)) {
	no, ok := r.begin(name)
	if !ok {
		return
	}
	if r.replay != nil {
		r.replaying = true
		w := r.newW(0, no, name)
		w.enter(no, 0)
		c := &Chooser{prefix: r.replay.Choices, budget: dev}
		if dev < 0 {
			c.budget = -1
		}
		msg, stack := guard(func() { f(w, c) })
		if msg != "" {
			r.violation(Violation{r.ID, r.Tier, name, 0, c.Path(), msg, "", stack})
		}
		return
	}
	start := time.Now()
	st := SweepStat{Name: name, Kind: "explore"}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	busy := 0
	var cases atomic.Uint64
	complete := true
	all := map[uint64]struct{}{}
	var wg sync.WaitGroup
	for k := 0; k < r.Workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := r.newW(k, no, name)
			defer func() {
				w.leave()
				r.mu.Lock()
				w.merge(&st, all)
				r.mu.Unlock()
			}()
			for {
				mu.Lock()
				for len(stack) == 0 && busy > 0 && !r.stop.Load() {
					cond.Wait()
				}
				if len(stack) == 0 || r.stop.Load() {
					if len(stack) > 0 {
						complete = false
					}
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(r.Deadline) {
					r.timeout.Store(true)
					complete = false
					stack = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				mu.Unlock()

				c := &Chooser{prefix: p, budget: dev}
				if dev < 0 {
					c.budget = -1
				}
				idx := cases.Add(1)
				w.enter(no, idx)
				w.evals++
				began := time.Now()
				msg, stk := guard(func() { f(w, c) })
				if msg != "" {
					path := c.Path()
					rep := reproduce(began, func() { f(w, &Chooser{prefix: path, budget: -1}) })
					r.violation(Violation{r.ID, r.Tier, name, 0, path, msg, rep, stk})
				}
				mu.Lock()
				for i := len(c.arity) - 1; i >= len(p); i-- {
					for alt := c.arity[i] - 1; alt >= 1; alt-- {
						np := make([]int, i+1)
						copy(np, c.path[:i])
						np[i] = alt
						stack = append(stack, np)
					}
				}
				busy--
				mu.Unlock()
				cond.Broadcast()
			}
		}(k)
	}
	wg.Wait()
	st.Cases = cases.Load()
	st.Complete = complete && !r.stop.Load()
	r.finish(st, all, start)
}

// Search is a breadth-first search over the states reachable from init. A state is a history of events;
// apply replays a history on fresh real objects, checks the invariant and returns a canonical key.
func (r *Run) Search(name string, events int, depth int, apply func(w *W, hist []int) (key uint64, enabled bool)) {
	no, ok := r.begin(name)
	if !ok {
		return
	}
	if r.replay != nil {
		r.replaying = true
		w := r.newW(0, no, name)
		w.enter(no, 0)
		msg, stack := guard(func() { apply(w, r.replay.Choices) })
		if msg != "" {
			r.violation(Violation{r.ID, r.Tier, name, 0, r.replay.Choices, msg, "", stack})
		}
		return
	}
	start := time.Now()
	st := SweepStat{Name: name, Kind: "search"}
	all := map[uint64]struct{}{}
	seen := map[uint64]struct{}{}
	frontier := [][]int{}
	ws := make([]*W, r.Workers)
	for k := range ws {
		ws[k] = r.newW(k, no, name)
	}
	run1 := func(w *W, h []int) (key uint64, en bool) {
		w.enter(no, 0)
		w.evals++
		began := time.Now()
		msg, stk := guard(func() { key, en = apply(w, h) })
		w.leave()
		if msg != "" {
			rep := reproduce(began, func() { apply(w, h) })
			r.violation(Violation{r.ID, r.Tier, name, 0, append([]int{}, h...), msg, rep, stk})
		}
		return
	}
	key, _ := run1(ws[0], nil)
	seen[key] = struct{}{}
	frontier = append(frontier, nil)
	complete := true
	var cases uint64 = 1
	var trans uint64
	for d := 0; d < depth && len(frontier) > 0 && !r.stop.Load(); d++ {
		type out struct {
			key uint64
			ok  bool
		}
		n := len(frontier) * events
		outs := make([]out, n)
		var next atomic.Int64
		var wg sync.WaitGroup
		var timedOut atomic.Bool
		for k := 0; k < r.Workers; k++ {
			wg.Add(1)
			go func(w *W) {
				defer wg.Done()
				for !r.stop.Load() {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					if time.Now().After(r.Deadline) {
						timedOut.Store(true)
						return
					}
					h := append(append([]int{}, frontier[i/events]...), i%events)
					outs[i].key, outs[i].ok = run1(w, h)
				}
			}(ws[k])
		}
		wg.Wait()
		if timedOut.Load() {
			r.timeout.Store(true)
			complete = false
			break
		}
		if r.stop.Load() {
			complete = false
			break
		}
		var nf [][]int
		for i := range outs {
			cases++
			if !outs[i].ok {
				continue
			}
			trans++
			if _, dup := seen[outs[i].key]; !dup {
				seen[outs[i].key] = struct{}{}
				nf = append(nf, append(append([]int{}, frontier[i/events]...), i%events))
			}
		}
		frontier = nf
	}
	for _, w := range ws {
		r.mu.Lock()
		w.merge(&st, all)
		r.mu.Unlock()
	}
	r.mu.Lock()
	r.res.States += uint64(len(seen))
	r.res.Transitions += trans
	r.mu.Unlock()
	st.Cases = cases
	st.Complete = complete
	r.finish(st, seen, start)
}

func (r *Run) WriteResult(path string) error {
	res := r.Result()
	sort.SliceStable(res.Samples, func(i, j int) bool { return false })
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		return err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := os.WriteFile(path+".part", b, 0o644); err != nil {
		return err
	}
	return os.Rename(path+".part", path)
}

// ExploreLocal runs f on every path of its choice tree, with at most dev non-default choices if dev >= 0,
// within the current case. It stops early when f returns false and reports how many paths it ran.
func ExploreLocal(dev int, f func(c *Chooser) bool) (n int) {
	stack := [][]int{nil}
	for len(stack) > 0 {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c := &Chooser{prefix: p, budget: dev}
		if dev < 0 {
			c.budget = -1
		}
		n++
		if !f(c) {
			return
		}
		for i := len(c.arity) - 1; i >= len(p); i-- {
			for alt := c.arity[i] - 1; alt >= 1; alt-- {
				np := make([]int, i+1)
				copy(np, c.path[:i])
				np[i] = alt
				stack = append(stack, np)
			}
		}
	}
	return
}
