// Package engine is a stateless, exhaustive explorer. An execution of a
// scenario is a deterministic function of the vector of choices it makes
// through Run.Choose; the explorer enumerates every choice vector (depth
// first, in parallel) and the scenario checks the property on each of them.
package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Choice is one resolved nondeterministic decision.
type Choice struct {
	N     int32
	Pick  int32
	Label string
}

type violation struct {
	msg  string
	sure bool
}

// Stop is panicked by Run.Prune to end an execution without a verdict.
type prune struct{}

// Run is a single execution.
type Run struct {
	prefix  []int32
	trace   []Choice
	notes   []string
	dev     int
	devMax  int
	x       *exploration
	w       *worker
	Verbose bool
	cleanup []func()
	sure    bool
}

// Choose returns a value in [0,n); all n are explored.
func (r *Run) Choose(n int, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("engine: Choose(%d, %q)", n, label))
	}
	i := len(r.trace)
	var pick int32
	if i < len(r.prefix) {
		pick = r.prefix[i]
		if int(pick) >= n {
			panic(harnessError{fmt.Sprintf("replay divergence at choice %d (%s): pick %d of %d", i, label, pick, n)})
		}
	}
	r.trace = append(r.trace, Choice{int32(n), pick, label})
	return int(pick)
}

type harnessError struct{ msg string }

// Bool is Choose(2) == 1.
func (r *Run) Bool(label string) bool { return r.Choose(2, label) == 1 }

// Dev is a choice whose non-zero answers are deviations from the default and
// are counted against the scenario's deviation bound.
func (r *Run) Dev(n int, label string) int {
	if r.dev >= r.devMax || n <= 1 {
		return 0
	}
	k := r.Choose(n, label)
	if k != 0 {
		r.dev++
	}
	return k
}

// CanDev reports whether Dev can still answer anything but zero.
func (r *Run) CanDev() bool { return r.dev < r.devMax }

// Deviations returns the number of deviations used so far.
func (r *Run) Deviations() int { return r.dev }

// Prune abandons this execution (it is a duplicate of another one).
func (r *Run) Prune() { panic(prune{}) }

// Failf reports a violation of the property.
func (r *Run) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...), false})
}

// FailSuref reports a violation that needs no confirmation by running the
// execution again (and might not be visible a second time in this process).
func (r *Run) FailSuref(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...), true})
}

// HarnessFailf reports a problem with the machinery itself.
func (r *Run) HarnessFailf(format string, a ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

// Notef attaches a line to the execution's report.
func (r *Run) Notef(format string, a ...interface{}) {
	if r.Verbose {
		r.notes = append(r.notes, fmt.Sprintf(format, a...))
	}
}

// Step counts one transition: one operation executed on the implementation.
func (r *Run) Step() { r.w.steps++ }

// StepN counts n transitions.
func (r *Run) StepN(n int) { r.w.steps += int64(n) }

// Cases counts n further complete cases compared with the oracle inside this
// execution (used by enumerations too large for one choice each).
func (r *Run) Cases(n int) { r.w.cases += int64(n); r.w.beat.Store(time.Now().UnixNano()) }

// Tick tells the watchdog that the execution is alive.
func (r *Run) Tick() { r.w.beat.Store(time.Now().UnixNano()) }

// Defer registers a cleanup.
func (r *Run) Defer(f func()) { r.cleanup = append(r.cleanup, f) }

// State records an observed state.
func (r *Run) State(b []byte) { r.x.addState(Hash(b)) }

// StateS records an observed state.
func (r *Run) StateS(s string) { r.x.addState(HashS(s)) }

// StateH records the hash of an observed state.
func (r *Run) StateH(h uint64) { r.x.addState(h) }

// Hash is FNV-1a over 8-byte words with a final avalanche.
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		v := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
		h = (h ^ v) * 0x9E3779B97F4A7C15
		h ^= h >> 29
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= uint64(len(b)) << 56
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

// HashS is Hash of a string.
func HashS(s string) uint64 { return Hash([]byte(s)) }

// Scenario is a family of executions.
type Scenario struct {
	Name   string
	Bound  string // human readable statement of the bound
	DevMax int
	Body   func(*Run)
	Serial bool // explore with one worker
	// Config is the number of leading choices that select a configuration.
	Config int
	// Share of the time budget; 0 means 1.
	Weight int
	// Each execution is confirmed this many times before being believed.
	Confirm int
}

const nShards = 64

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type exploration struct {
	sc     *Scenario
	mu     sync.Mutex
	stack  []item
	idle   int32
	nw     int
	done   bool
	cond   *sync.Cond
	shards *[nShards]stateShard
	capped atomic.Bool
	nstate atomic.Int64

	stop     atomic.Bool
	timedOut atomic.Bool
	deadline time.Time

	vioMu       sync.Mutex
	vio         *Result
	flaky       []string
	harness     string
	samples     []Sample
	sampleNext  int64
	execs       atomic.Int64
	confirmRuns int
}

const maxStates = 24 << 20

func (x *exploration) addState(h uint64) {
	s := &x.shards[h%nShards]
	s.mu.Lock()
	if _, ok := s.m[h]; !ok {
		if x.nstate.Load() < maxStates {
			s.m[h] = struct{}{}
			x.nstate.Add(1)
		} else {
			x.capped.Store(true)
		}
	}
	s.mu.Unlock()
}

type item struct {
	prefix []int32
	next   int32
	n      int32
}

type worker struct {
	ended               bool
	steps, cases, execs int64
	local               []item
	beat                atomic.Int64
	cur                 atomic.Pointer[[]int32]
	busy                atomic.Bool
	maxDepth            int
}

// Sample is one written-out execution.
type Sample struct {
	Scenario string   `json:"scenario"`
	Choices  []string `json:"choices"`
	Notes    []string `json:"notes,omitempty"`
}

// Result is a violation.
type Result struct {
	Scenario string   `json:"scenario"`
	Choices  []int32  `json:"choices"`
	Labels   []string `json:"labels"`
	Msg      string   `json:"message"`
	Notes    []string `json:"notes,omitempty"`
	Confirms int      `json:"confirmed_by_reruns"`
}

// ScenarioStats describes what was covered.
type ScenarioStats struct {
	Name       string  `json:"name"`
	Bound      string  `json:"bound"`
	Executions int64   `json:"executions"`
	Cases      int64   `json:"cases"`
	Steps      int64   `json:"transitions"`
	States     int64   `json:"states"`
	MaxDepth   int     `json:"max_choices"`
	Exhaustive bool    `json:"exhaustive"`
	WallS      float64 `json:"wall_s"`
}

func labels(tr []Choice) []string {
	out := make([]string, 0, len(tr))
	for _, c := range tr {
		if len(out) >= 400 {
			out = append(out, "...")
			break
		}
		out = append(out, fmt.Sprintf("%s=%d/%d", c.Label, c.Pick, c.N))
	}
	return out
}

// runOnce executes one choice vector.
func (x *exploration) runOnce(w *worker, prefix []int32, r *Run, verbose bool) (msg string, harness string) {
	r.prefix = prefix
	r.trace = r.trace[:0]
	r.notes = nil
	r.dev = 0
	r.devMax = x.sc.DevMax
	r.sure = false
	r.x = x
	r.w = w
	r.Verbose = verbose
	r.cleanup = r.cleanup[:0]
	w.beat.Store(time.Now().UnixNano())
	w.cur.Store(&prefix)
	w.busy.Store(true)
	defer w.busy.Store(false)
	defer func() {
		for i := len(r.cleanup) - 1; i >= 0; i-- {
			r.cleanup[i]()
		}
		r.cleanup = r.cleanup[:0]
	}()
	defer func() {
		if p := recover(); p != nil {
			switch v := p.(type) {
			case violation:
				msg = v.msg
				r.sure = v.sure
			case prune:
			case harnessError:
				harness = v.msg
			default:
				st := string(debug.Stack())
				msg = fmt.Sprintf("panic: %v\n%s", p, trimStack(st))
			}
		}
	}()
	x.sc.Body(r)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// drop the frames of the recovery itself
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (x *exploration) work(w *worker) {
	var r Run
	for {
		if x.stop.Load() {
			x.finish()
			return
		}
		var it item
		if n := len(w.local); n > 0 {
			it = w.local[n-1]
			w.local = w.local[:n-1]
			// share with idle workers
			if atomic.LoadInt32(&x.idle) > 0 && len(w.local) > 0 {
				x.mu.Lock()
				x.stack = append(x.stack, w.local[0])
				w.local = append(w.local[:0], w.local[1:]...)
				x.cond.Signal()
				x.mu.Unlock()
			} else if atomic.LoadInt32(&x.idle) > 0 && it.n-it.next > 1 {
				mid := it.next + (it.n-it.next)/2
				x.mu.Lock()
				x.stack = append(x.stack, item{it.prefix, mid, it.n})
				x.cond.Signal()
				x.mu.Unlock()
				it.n = mid
			}
		} else {
			x.mu.Lock()
			for len(x.stack) == 0 && !x.done {
				if int(atomic.AddInt32(&x.idle, 1)) == x.nw {
					x.done = true
					x.cond.Broadcast()
				} else {
					x.cond.Wait()
				}
				atomic.AddInt32(&x.idle, -1)
			}
			if x.done && len(x.stack) == 0 {
				x.mu.Unlock()
				return
			}
			it = x.stack[len(x.stack)-1]
			x.stack = x.stack[:len(x.stack)-1]
			x.mu.Unlock()
		}
		var prefix []int32
		if it.next >= 0 {
			prefix = make([]int32, len(it.prefix)+1)
			copy(prefix, it.prefix)
			prefix[len(it.prefix)] = it.next
			if it.next+1 < it.n {
				w.local = append(w.local, item{it.prefix, it.next + 1, it.n})
			}
		}
		mine := true
		if Shard.N > 1 {
			var skip bool
			if skip, mine = Shard.owner(prefix, x.sc.Config); skip {
				continue
			}
		}
		steps0, cases0 := w.steps, w.cases
		n := x.execs.Add(1)
		sample := n == 1 || n == 2 || n == 7 || n == 50 || n == 400 || n == 3000
		msg, herr := x.runOnce(w, prefix, &r, sample)
		if mine {
			w.execs++
		} else {
			w.steps, w.cases = steps0, cases0
		}
		if len(r.trace) > w.maxDepth {
			w.maxDepth = len(r.trace)
		}
		if sample && len(x.samples) < 8 {
			x.vioMu.Lock()
			x.samples = append(x.samples, Sample{x.sc.Name, labels(r.trace), r.notes})
			x.vioMu.Unlock()
		}
		if herr != "" {
			x.vioMu.Lock()
			x.harness = herr
			x.vioMu.Unlock()
			x.stop.Store(true)
			continue
		}
		if msg != "" {
			x.confirm(w, &r, msg)
		}
		// push alternatives beyond the prefix
		tr := r.trace
		var full []int32
		for i := len(tr) - 1; i >= len(prefix); i-- {
			if tr[i].N > 1 {
				full = make([]int32, len(tr))
				for j := range tr {
					full[j] = tr[j].Pick
				}
				break
			}
		}
		if full != nil {
			// deepest last so that it is explored first (DFS)
			for i := len(prefix); i < len(tr); i++ {
				if tr[i].N > 1 {
					w.local = append(w.local, item{full[:i:i], 1, tr[i].N})
				}
			}
		}
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			if len(w.local) > 0 || !x.quiet() {
				x.timedOut.Store(true)
				x.stop.Store(true)
			}
		}
	}
}

// Shard selects the part of the choice tree this process explores.
var Shard ShardSpec

// ShardSpec is part I of N. Executions with fewer than K non-default choices
// are run by every part and counted by the first; the others belong to the
// part given by their first K non-default choices.
type ShardSpec struct{ I, N, K int }

func (s ShardSpec) owner(prefix []int32, config int) (skip, mine bool) {
	nz := 0
	h := uint64(14695981039346656037)
	for i, p := range prefix {
		if p != 0 {
			h = (h ^ uint64(i)<<20 ^ uint64(p)) * 1099511628211
			h ^= h >> 31
			if i < config {
				continue
			}
			if nz++; nz == s.K {
				h *= 0x9E3779B97F4A7C15
				h ^= h >> 33
				return int(h%uint64(s.N)) != s.I, true
			}
		}
	}
	return false, s.I == 0
}

func (x *exploration) quiet() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.stack) == 0 && int(atomic.LoadInt32(&x.idle)) == x.nw-1
}

func (x *exploration) finish() {
	x.mu.Lock()
	x.done = true
	x.stack = nil
	x.cond.Broadcast()
	x.mu.Unlock()
}

func (x *exploration) confirm(w *worker, r *Run, msg string) {
	full := make([]int32, len(r.trace))
	for j := range r.trace {
		full[j] = r.trace[j].Pick
	}
	saved := append([]Choice(nil), r.trace...)
	x.vioMu.Lock()
	defer x.vioMu.Unlock()
	if x.vio != nil {
		return
	}
	c := x.confirmRuns
	if c == 0 {
		c = 20
	}
	if x.sc.Confirm > 0 {
		c = x.sc.Confirm
	}
	ok := 0
	var notes []string
	if r.sure {
		x.vio = &Result{Scenario: x.sc.Name, Choices: full, Labels: labels(saved), Msg: msg, Notes: r.notes}
		x.stop.Store(true)
		return
	}
	for i := 0; i < c && ok < 5; i++ {
		m, h := x.runOnce(w, full, r, true)
		if m != "" && h == "" {
			ok++
			msg = m
			notes = r.notes
			saved = append(saved[:0], r.trace...)
		}
	}
	r.trace = append(r.trace[:0], saved...)
	if ok == 0 {
		x.flaky = append(x.flaky, msg)
		return
	}
	if len(notes) > 60 {
		notes = notes[:60]
	}
	x.vio = &Result{Scenario: x.sc.Name, Choices: full, Labels: labels(saved), Msg: msg, Notes: notes, Confirms: ok}
	x.stop.Store(true)
}

// Report is the outcome of exploring all scenarios of a property.
type Report struct {
	Stats     []ScenarioStats
	Samples   []Sample
	Violation *Result
	Flaky     []string
	Harness   string
	Hang      *Result
}

// StateDump, if set, is given every state when a scenario ends.
var StateDump func(scenario string, h uint64)

// HangLimit is how long one execution may run without a sign of life.
var HangLimit = 150 * time.Second

// MemLimit is the heap size that is taken to be a runaway allocation.
var MemLimit uint64 = 22 << 30

// Explore enumerates every scenario. Workers <= 0 means one per CPU.
func Explore(scs []Scenario, workers int, budget time.Duration, onFatal func(*Result)) *Report {
	rep := &Report{}
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	start := time.Now()
	totalWeight := 0
	for i := range scs {
		if scs[i].Weight == 0 {
			scs[i].Weight = 1
		}
		totalWeight += scs[i].Weight
	}
	for i := range scs {
		sc := &scs[i]
		remaining := budget - time.Since(start)
		if remaining < time.Second {
			remaining = time.Second
		}
		share := time.Duration(float64(remaining) * float64(sc.Weight) / float64(totalWeight))
		totalWeight -= sc.Weight
		x := &exploration{sc: sc, deadline: time.Now().Add(share)}
		x.cond = sync.NewCond(&x.mu)
		x.shards = new([nShards]stateShard)
		for j := range x.shards {
			x.shards[j].m = make(map[uint64]struct{})
		}
		x.nw = workers
		if sc.Serial {
			x.nw = 1
		}
		x.stack = []item{{nil, -1, 0}}
		ws := make([]*worker, x.nw)
		var wg sync.WaitGroup
		t0 := time.Now()
		for j := range ws {
			ws[j] = &worker{}
			ws[j].beat.Store(time.Now().UnixNano())
			wg.Add(1)
			go func(w *worker) { defer wg.Done(); x.work(w); w.ended = true }(ws[j])
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		tick := time.NewTicker(200 * time.Millisecond)
	wait:
		for k := 0; ; k++ {
			select {
			case <-fin:
				break wait
			case <-tick.C:
				for _, w := range ws {
					if w.busy.Load() && time.Since(time.Unix(0, w.beat.Load())) > HangLimit {
						var p []int32
						if q := w.cur.Load(); q != nil {
							p = *q
						}
						onFatal(&Result{Scenario: sc.Name, Choices: p, Msg: fmt.Sprintf("execution made no progress for %s (hang, livelock or deadlock)", HangLimit)})
					}
				}
				if k%5 == 0 {
					var ms runtime.MemStats
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > MemLimit {
						oldest := ws[0]
						for _, w := range ws {
							if w.busy.Load() && w.beat.Load() < oldest.beat.Load() {
								oldest = w
							}
						}
						var p []int32
						if q := oldest.cur.Load(); q != nil {
							p = *q
						}
						onFatal(&Result{Scenario: sc.Name, Choices: p, Msg: "runaway memory use"})
					}
				}
			}
		}
		tick.Stop()
		st := ScenarioStats{Name: sc.Name, Bound: sc.Bound, WallS: time.Since(t0).Seconds(), Exhaustive: !x.timedOut.Load() && x.vio == nil && x.harness == ""}
		for _, w := range ws {
			if !w.ended && x.harness == "" {
				x.harness = "a worker ended early"
				st.Exhaustive = false
			}
			st.Executions += w.execs
			st.Cases += w.cases
			st.Steps += w.steps
			if w.maxDepth > st.MaxDepth {
				st.MaxDepth = w.maxDepth
			}
		}
		st.States = x.nstate.Load()
		if x.capped.Load() {
			st.Bound += " (distinct states counted up to a cap)"
		}
		if StateDump != nil {
			for j := range x.shards {
				for h := range x.shards[j].m {
					StateDump(sc.Name, h)
				}
			}
		}
		rep.Stats = append(rep.Stats, st)
		rep.Samples = append(rep.Samples, x.samples...)
		rep.Flaky = append(rep.Flaky, x.flaky...)
		if x.harness != "" {
			rep.Harness = sc.Name + ": " + x.harness
			return rep
		}
		if x.vio != nil {
			rep.Violation = x.vio
			return rep
		}
	}
	return rep
}

// Replay runs one recorded choice vector and returns the violation message.
func Replay(sc *Scenario, choices []int32) (msg, harness string, notes []string, lab []string) {
	x := &exploration{sc: sc, nw: 1}
	x.cond = sync.NewCond(&x.mu)
	x.shards = new([nShards]stateShard)
	for j := range x.shards {
		x.shards[j].m = make(map[uint64]struct{})
	}
	w := &worker{}
	var r Run
	msg, harness = x.runOnce(w, choices, &r, true)
	return msg, harness, r.notes, labels(r.trace)
}

// Evidence is written to evidence/<id>.json.
type Evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// WriteJSON writes v atomically.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

// Coverage summarises the statistics.
func (rep *Report) Coverage() map[string]interface{} {
	var ex, ca, st, sts int64
	exh := true
	for _, s := range rep.Stats {
		ex += s.Executions
		ca += s.Cases
		st += s.Steps
		sts += s.States
		exh = exh && s.Exhaustive
	}
	samples := rep.Samples
	sort.SliceStable(samples, func(i, j int) bool { return len(samples[i].Choices) < len(samples[j].Choices) })
	if len(samples) > 12 {
		samples = samples[len(samples)-12:]
	}
	c := map[string]interface{}{
		"states": sts, "transitions": st, "traces_validated_against_impl": ex + ca,
		"executions": ex, "bulk_cases": ca,
		"samples": samples, "exhaustive": exh, "scenarios": rep.Stats,
	}
	if len(rep.Flaky) > 0 {
		c["unreproducible_observations"] = rep.Flaky
	}
	return c
}
