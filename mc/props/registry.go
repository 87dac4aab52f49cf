package props

import (
	"context"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
)

// Tier selects the bounds.
type Tier struct{ Thorough bool }

// pick returns q for the quick tier and t for the thorough one.
func (t Tier) pick(q, th int) int {
	if t.Thorough {
		return th
	}
	return q
}

// Prop is a registered property.
type Prop struct {
	ID          string
	Level       string
	Scenarios   func(t Tier) []engine.Scenario
	Assumptions []string
	// Sched properties run in the binary built from the instrumented sources.
	Sched bool
	// Run replaces the standard exploration.
	Workers int
}

// All properties by id.
var All = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	All[p.ID] = p
}

var bg = context.Background()

// buildBytes runs f on a fresh builder and returns the bytes it sends.
func buildBytes(r *engine.Run, n int, f func(x *xtorm.XPipe)) []byte {
	x := xtorm.New(n)
	f(x)
	c, err := send(x)
	if err != nil {
		r.Failf("Send reported %q for valid input", err)
	}
	if c.calls != 1 {
		r.Failf("Send called the connection %d times", c.calls)
	}
	r.Step()
	return c.buf
}

// expectStream fails the run unless b decodes to want.
func expectStream(r *engine.Run, b []byte, want []exp) {
	if err := checkStream(b, want); err != nil {
		r.Failf("%v", err)
	}
	r.State(b)
}
