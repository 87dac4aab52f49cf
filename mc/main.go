// Command mc decides one property by bounded exhaustive exploration.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/engine"
	"verif.local/mc/props"
)

type replayFile struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Result   *engine.Result `json:"violation"`
	HowTo    string         `json:"how_to_replay"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	evDir := flag.String("evidence", "/verif/evidence", "evidence directory")
	replay := flag.String("replay", "", "replay a violation file")
	only := flag.String("scenario", "", "run only scenarios whose name contains this")
	budget := flag.Duration("budget", 0, "time budget")
	workers := flag.Int("workers", 0, "workers")
	flag.Parse()
	p := props.All[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	t := props.Tier{Thorough: *tier == "thorough"}
	if *budget == 0 {
		*budget = 480 * time.Second
		if t.Thorough {
			*budget = 40 * time.Minute
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	if *replay != "" {
		doReplay(p, *replay)
		return
	}
	evPath := filepath.Join(*evDir, p.ID+".json")
	repPath := filepath.Join(*evDir, "replay-"+p.ID+".json")
	start := time.Now()
	report := func(res *engine.Result, cov map[string]interface{}) {
		engine.WriteJSON(repPath, replayFile{p.ID, *tier, res, fmt.Sprintf("cd /verif && ./run.sh %s %s -replay %s", p.ID, *tier, repPath)})
		if cov == nil {
			cov = map[string]interface{}{"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []interface{}{res}, "exhaustive": false}
		}
		engine.WriteJSON(evPath, engine.Evidence{Property: p.ID, Tier: *tier, Seed: seed, Level: p.Level, Coverage: cov, Assumptions: p.Assumptions, WallS: time.Since(start).Seconds(), Violations: 1})
		fmt.Printf("scenario %s: %s\n", res.Scenario, printable(res.Msg))
		for _, n := range res.Notes {
			fmt.Printf("  %s\n", printable(n))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, repPath)
	}

	finish := func(rep *engine.Report) {
		if rep.Harness != "" {
			fmt.Fprintf(os.Stderr, "machinery error: %s\n", printable(rep.Harness))
			os.Exit(3)
		}
		cov := rep.Coverage()
		if rep.Violation != nil {
			report(rep.Violation, cov)
			os.Exit(1)
		}
		engine.WriteJSON(evPath, engine.Evidence{Property: p.ID, Tier: *tier, Seed: seed, Level: p.Level, Coverage: cov, Assumptions: p.Assumptions, WallS: time.Since(start).Seconds()})
		for _, s := range rep.Stats {
			fmt.Printf("%-26s %9d executions %10d cases %10d transitions %8d states exhaustive=%v %.1fs  [%s]\n", s.Name, s.Executions, s.Cases, s.Steps, s.States, s.Exhaustive, s.WallS, s.Bound)
		}
		for _, f := range rep.Flaky {
			fmt.Printf("note: an observation could not be reproduced and was discarded: %s\n", printable(f))
		}
		fmt.Printf("OK property=%s tier=%s %.1fs\n", p.ID, *tier, time.Since(start).Seconds())
		os.Exit(0)
	}
	if p.Sched && os.Getenv("MC_CHILD") == "" {
		os.Remove(repPath)
		superviseShards(p, os.Args[1:], finish, func(out string) {
			if len(out) > 6000 {
				out = out[:6000]
			}
			report(&engine.Result{Scenario: "process crash", Msg: "the code under test crashed the process:\n" + out, Confirms: 2}, nil)
		})
	}

	if os.Getenv("MC_CHILD") == "" {
		// Supervise: a crash of the code under test that Go cannot recover
		// from (fatal error, panic on another goroutine) ends the child.
		os.Remove(repPath)
		for try := 0; ; try++ {
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), "MC_CHILD=1")
			cmd.Stdout = os.Stdout
			var tail tailBuf
			cmd.Stderr = io.MultiWriter(&tail)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			err := cmd.Run()
			if err == nil {
				os.Exit(0)
			}
			code := cmd.ProcessState.ExitCode()
			out := tail.String()
			if code == 1 {
				os.Exit(1)
			}
			if code == 3 { // the machinery's own error
				fmt.Fprint(os.Stderr, out)
				os.Exit(2)
			}
			crash := strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ")
			if !crash {
				fmt.Fprint(os.Stderr, out)
				fmt.Fprintf(os.Stderr, "child ended: %v\n", err)
				os.Exit(2)
			}
			if try == 0 {
				fmt.Printf("the process crashed; running again to confirm\n")
				continue
			}
			if len(out) > 6000 {
				out = out[:6000]
			}
			report(&engine.Result{Scenario: "process crash", Msg: "the code under test crashed the process:\n" + out, Confirms: 2}, nil)
			os.Exit(1)
		}
	}

	scs := p.Scenarios(t)
	if *only != "" {
		var f []engine.Scenario
		for _, s := range scs {
			if strings.Contains(s.Name, *only) {
				f = append(f, s)
			}
		}
		scs = f
	}
	w := *workers
	if w == 0 {
		w = p.Workers
	}
	if p.Sched {
		runShard(p, scs, *budget*9/20)
	}
	finish(engine.Explore(scs, w, *budget, func(res *engine.Result) {
		report(res, nil)
		os.Exit(1)
	}))
}

func doReplay(p *props.Prop, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	scs := p.Scenarios(props.Tier{Thorough: rf.Tier == "thorough"})
	for i := range scs {
		if scs[i].Name == rf.Result.Scenario {
			wrap := func(f func()) { f() }
			if p.Sched {
				wrap = inTest
			}
			wrap(func() {
				msg, h, notes, lab := engine.Replay(&scs[i], rf.Result.Choices)
				fmt.Println("choices:", strings.Join(lab, " "))
				for _, n := range notes {
					fmt.Println(" ", printable(n))
				}
				if h != "" {
					fmt.Println("machinery:", printable(h))
					os.Exit(2)
				}
				if msg == "" {
					fmt.Println("no violation on this tree")
					os.Exit(0)
				}
				fmt.Println(printable(msg))
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				os.Exit(1)
			})
		}
	}
	fmt.Fprintln(os.Stderr, "scenario not found")
	os.Exit(2)
}

// tailBuf keeps the head of what is written to it.
type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return t.b.String() }

// printable makes s fit for a terminal: valid, without control characters, and not endless.
func printable(s string) string {
	const max = 6000
	if len(s) > max {
		s = s[:max] + "..."
	}
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\t' || c >= ' ' && c != 0x7f && c != 0xfffd {
			return c
		}
		return '?'
	}, s)
}
