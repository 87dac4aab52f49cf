package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/engine"
	"verif.local/mc/props"
	"verif.local/mc/vsched"
)

// shardOut is what a shard process writes.
type shardOut struct {
	Report engine.Report
	States map[string]int
}

// runShard explores one part of the schedules and writes the outcome to MC_OUT.
func runShard(p *props.Prop, scs []engine.Scenario, budget time.Duration) {
	var i, n int
	fmt.Sscanf(os.Getenv("MC_SHARD"), "%d/%d", &i, &n)
	engine.Shard = engine.ShardSpec{I: i, N: n, K: 2}
	out := os.Getenv("MC_OUT")
	write := func(rep *engine.Report, states map[string][]uint64) {
		o := shardOut{Report: *rep, States: map[string]int{}}
		var sb []byte
		for _, s := range rep.Stats {
			o.States[s.Name] = len(states[s.Name])
			for _, h := range states[s.Name] {
				sb = binary.LittleEndian.AppendUint64(sb, h)
			}
		}
		os.WriteFile(out+".states", sb, 0o644)
		engine.WriteJSON(out, o)
	}
	if f := os.Getenv("MC_PROFILE"); f != "" {
		if w, err := os.Create(fmt.Sprintf("%s.%d", f, i)); err == nil {
			pprof.StartCPUProfile(w)
		}
	}
	inTest(func() {
		if vsched.Race && i == 0 && !seesRaces() {
			write(&engine.Report{Harness: "the race detector does not see a data race of two threads"}, nil)
			os.Exit(0)
		}
		states := map[string][]uint64{}
		engine.StateDump = func(sc string, h uint64) { states[sc] = append(states[sc], h) }
		rep := engine.Explore(scs, 1, budget, func(res *engine.Result) {
			write(&engine.Report{Violation: res}, nil)
			os.Exit(1)
		})
		write(rep, states)
		pprof.StopCPUProfile()
		os.Exit(0)
	})
}

// inTest runs f as a test, which synctest needs.
func inTest(f func()) {
	a := os.Args
	os.Args = a[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
		vsched.T = t
		f()
	}}}, nil, nil)
}

// runShards runs the shard processes of one phase and merges their reports.
func runShards(bin string, args []string, env []string, suffix string, log *bytes.Buffer) (*engine.Report, error) {
	dir, err := os.MkdirTemp("", "shards")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	outs := make([]*shardOut, n)
	errs := make([]string, n)
	cmds := make([]*exec.Cmd, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		path := filepath.Join(dir, fmt.Sprintf("out%d", i))
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), append(env, "MC_CHILD=1", fmt.Sprintf("MC_SHARD=%d/%d", i, n), "MC_OUT="+path, "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 history_size=2")...)
		var tail tailBuf
		cmd.Stderr = &tail
		cmd.Stdout = &tail
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := cmd.Wait()
			b, rerr := os.ReadFile(path)
			if rerr != nil {
				mu.Lock()
				errs[i] = fmt.Sprintf("%v\n%s", err, tail.String())
				mu.Unlock()
				return
			}
			var o shardOut
			if err := json.Unmarshal(b, &o); err != nil {
				mu.Lock()
				errs[i] = err.Error()
				mu.Unlock()
				return
			}
			mu.Lock()
			outs[i] = &o
			log.WriteString(tail.String())
			if o.Report.Violation != nil {
				if s := tail.String(); strings.Contains(s, "DATA RACE") {
					if k := strings.LastIndex(s, "WARNING: DATA RACE"); k >= 0 {
						s = s[k:]
					}
					if len(s) > 3000 {
						s = s[:3000]
					}
					o.Report.Violation.Msg += "\n" + s
				}
				for _, c := range cmds {
					if c != nil && c != cmd && c.Process != nil {
						c.Process.Kill()
					}
				}
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	rep := &engine.Report{}
	sets := map[string]map[uint64]struct{}{}
	for i, o := range outs {
		if o == nil {
			continue
		}
		if o.Report.Violation != nil && rep.Violation == nil {
			rep.Violation = o.Report.Violation
		}
		if o.Report.Harness != "" {
			rep.Harness = o.Report.Harness
		}
		rep.Flaky = append(rep.Flaky, o.Report.Flaky...)
		if i == 0 {
			rep.Samples = append(rep.Samples, o.Report.Samples...)
		}
		sb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d.states", i)))
		for _, s := range o.Report.Stats {
			k := -1
			for j := range rep.Stats {
				if rep.Stats[j].Name == s.Name+suffix {
					k = j
				}
			}
			if k < 0 {
				rep.Stats = append(rep.Stats, engine.ScenarioStats{Name: s.Name + suffix, Bound: s.Bound, Exhaustive: true})
				k = len(rep.Stats) - 1
				sets[s.Name] = map[uint64]struct{}{}
			}
			t := &rep.Stats[k]
			t.Executions += s.Executions
			t.Cases += s.Cases
			t.Steps += s.Steps
			t.Exhaustive = t.Exhaustive && s.Exhaustive
			t.MaxDepth = max(t.MaxDepth, s.MaxDepth)
			t.WallS = max(t.WallS, s.WallS)
			for j := 0; j < o.States[s.Name] && len(sb) >= 8; j++ {
				sets[s.Name][binary.LittleEndian.Uint64(sb)] = struct{}{}
				sb = sb[8:]
			}
			t.States = int64(len(sets[s.Name]))
		}
	}
	if rep.Violation == nil && rep.Harness == "" {
		for _, e := range errs {
			if e != "" {
				return rep, fmt.Errorf("%s", e)
			}
		}
	}
	return rep, nil
}

// superviseShards decides a property whose schedules are explored by several
// processes, first without and then with the race detector.
func superviseShards(p *props.Prop, args []string, finish func(rep *engine.Report), crash func(out string)) {
	total := &engine.Report{}
	phases := []struct {
		bin, suffix string
		env         []string
	}{{os.Args[0], "", nil}}
	if _, err := os.Stat(os.Args[0] + ".race"); err == nil {
		phases = append(phases, struct {
			bin, suffix string
			env         []string
		}{os.Args[0] + ".race", " (race detector on)", nil})
	}
	for _, ph := range phases {
		for try := 0; ; try++ {
			var log bytes.Buffer
			rep, err := runShards(ph.bin, args, ph.env, ph.suffix, &log)
			if rep == nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			if err != nil {
				out := err.Error()
				isCrash := strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ")
				if !isCrash {
					fmt.Fprintln(os.Stderr, out)
					os.Exit(2)
				}
				if try == 0 {
					fmt.Println("a process crashed; running again to confirm")
					continue
				}
				crash(out)
				os.Exit(1)
			}
			total.Stats = append(total.Stats, rep.Stats...)
			total.Samples = append(total.Samples, rep.Samples...)
			total.Flaky = append(total.Flaky, rep.Flaky...)
			total.Violation = rep.Violation
			total.Harness = rep.Harness
			break
		}
		if total.Violation != nil || total.Harness != "" {
			break
		}
	}
	finish(total)
}

type firstChoice struct{}

func (firstChoice) Choose(n int, label string) int  { return 0 }
func (firstChoice) Preempt(n int, label string) int { return 0 }
func (firstChoice) CanPreempt() bool                { return false }

// seesRaces checks the machinery: two threads that run one after the other
// without synchronisation are a data race.
func seesRaces() bool {
	before := vsched.RaceErrors()
	shared := new(int)
	vsched.Execute(firstChoice{}, func(s *vsched.Sched) {
		for i := 0; i < 2; i++ {
			s.Go("self test", func() {
				vsched.Point()
				*shared++
				vsched.Point()
			})
		}
		s.Run()
	})
	return vsched.RaceErrors() > before
}
