package props

import (
	"context"
	"errors"
	"fmt"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"verif.local/mc/engine"
	"verif.local/mc/vsched"
)

// chooser lets the scheduler resolve its decisions through an execution.
type chooser struct{ r *engine.Run }

func (c chooser) Choose(n int, label string) int  { return c.r.Choose(n, label) }
func (c chooser) Preempt(n int, label string) int { return c.r.Dev(n, label) }
func (c chooser) CanPreempt() bool                { return c.r.CanDev() }

// Outcomes of an exchange.
const (
	exOK = iota
	exErr
	exResp // an error response
)

const (
	maxPConns = 16
	maxPOps   = 16
)

// poolMon observes a pool through its connector and connections. It is used
// by one goroutine at a time; its functions are invisible to the race
// detector so that they order nothing.
type poolMon struct {
	conns  [maxPConns]pconn
	n      int
	ops    [maxPOps]pop
	bad    string
	closes struct {
		begun, running, nilReturns int
		final                      bool // a Close has returned nil with no other one running
	}
	inProg    int // sends in progress
	inProgOld int // of those, started before the close was final
	dialFail  bool
	faults    bool
	closeErrs bool               // connections may report an error when closed
	closeErr  bool               // one did
	endClose  context.CancelFunc // ends the context of a Close
	h         uint64
}

type pop struct {
	tid, idx          int
	begun, done       bool
	afterFinal        bool
	cancelled         bool
	dials             int
	conn              int // connection of the exchange, -1 if none
	outcome           int
	err               error
	resp              netx.Response
	exchanges         int
	dialErr           error
	startedWhileFinal bool
}

type pconn struct {
	m                    *poolMon
	id                   int
	busy, closed, failed bool
	op                   int
}

//go:norace
func (m *poolMon) fail(s string) {
	if m.bad == "" {
		m.bad = s
	}
}

//go:norace
func (m *poolMon) event(a, b, c int) {
	m.h = (m.h ^ uint64(a<<16|b<<8|c)) * 1099511628211
	m.h ^= m.h >> 29
}

//go:norace
func (m *poolMon) begin(c *pconn, op int) {
	m.event(1, c.id, op)
	if c.closed {
		m.fail(fmt.Sprintf("connection %d is used after it was closed", c.id))
	}
	if c.busy {
		m.fail(fmt.Sprintf("connection %d is used by two sends at once", c.id))
	}
	if c.failed {
		m.fail(fmt.Sprintf("connection %d is reused although an exchange on it failed", c.id))
	}
	c.busy = true
	c.op = op
	o := &m.ops[op]
	o.conn = c.id
	if o.exchanges++; o.exchanges > 1 {
		m.fail(fmt.Sprintf("one send exchanges %d times", o.exchanges))
	}
	if o.done {
		m.fail("an exchange starts after its send returned")
	}
}

//go:norace
func (m *poolMon) end(c *pconn, op, outcome int, err error, resp netx.Response) {
	m.event(2, c.id, outcome)
	if c.closed {
		m.fail(fmt.Sprintf("connection %d is closed while in use", c.id))
	}
	c.busy = false
	c.failed = outcome != exOK
	o := &m.ops[op]
	o.outcome, o.err, o.resp = outcome, err, resp
}

//go:norace
func (m *poolMon) close(c *pconn) {
	m.event(3, c.id, 0)
	if c.closed {
		m.fail(fmt.Sprintf("connection %d is closed twice", c.id))
	}
	if c.busy {
		m.fail(fmt.Sprintf("connection %d is closed while in use", c.id))
	}
	c.closed = true
}

//go:norace
func (m *poolMon) dial(op int, fails bool, err error) *pconn {
	m.event(4, op, 0)
	if op >= 0 {
		m.ops[op].dials++
		if fails {
			m.ops[op].dialErr = err
		}
	}
	if fails {
		return nil
	}
	if m.n == maxPConns {
		m.fail("too many dials")
		return nil
	}
	c := &m.conns[m.n]
	c.m, c.id = m, m.n
	m.n++
	return c
}

//go:norace
func (m *poolMon) open() int {
	n := 0
	for i := 0; i < m.n; i++ {
		if !m.conns[i].closed {
			n++
		}
	}
	return n
}

//go:norace
func (m *poolMon) sendBegin(op, tid, idx int, cancelled bool) {
	m.event(5, op, 0)
	o := &m.ops[op]
	o.tid, o.idx, o.begun, o.cancelled, o.conn = tid, idx, true, cancelled, -1
	o.startedWhileFinal = m.closes.final
	m.inProg++
	if !m.closes.final {
		m.inProgOld++
	}
}

//go:norace
func (m *poolMon) sendEnd(op int, resp []netx.Response, err error) {
	m.event(6, op, 0)
	o := &m.ops[op]
	o.done = true
	m.inProg--
	if !o.startedWhileFinal {
		m.inProgOld--
	}
	who := fmt.Sprintf("send %d of thread %d", o.idx, o.tid)
	if o.conn >= 0 && o.outcome != exOK && !m.conns[o.conn].closed {
		m.fail(who + " returned without closing its failed connection")
	}
	switch {
	case o.exchanges == 1 && o.outcome == exErr:
		if !errors.Is(err, o.err) {
			m.fail(fmt.Sprintf("%s: the exchange failed with %q, the caller gets %v", who, o.err, err))
		}
	case o.exchanges == 1:
		if err != nil {
			m.fail(fmt.Sprintf("%s: the exchange succeeded, the caller gets %v", who, err))
		} else if len(resp) != 1 || resp[0] != o.resp {
			m.fail(fmt.Sprintf("%s: the caller gets the responses %v, want [%v]", who, resp, o.resp))
		}
	case err == nil:
		m.fail(who + " reports success without an exchange")
	case o.dialErr != nil:
		if !errors.Is(err, o.dialErr) {
			m.fail(fmt.Sprintf("%s: dialling failed, the caller gets %v", who, err))
		}
	case errors.Is(err, pool.ErrPoolClosed):
		if m.closes.begun == 0 {
			m.fail(who + " reports a closed pool before any Close")
		}
	case o.cancelled && errors.Is(err, context.Canceled):
	default:
		m.fail(fmt.Sprintf("%s fails with %v although nothing failed", who, err))
	}
	if o.startedWhileFinal {
		if o.dials > 0 {
			m.fail(who + " dials although the pool is closed")
		}
		if !errors.Is(err, pool.ErrPoolClosed) && !o.cancelled {
			m.fail(fmt.Sprintf("%s on a closed pool returns %v", who, err))
		}
	}
	m.settled()
}

// settled checks what must hold once the pool is closed and nothing started
// before that is running.
//
//go:norace
func (m *poolMon) settled() {
	if m.closes.final && m.open() > m.inProgOld {
		m.fail(fmt.Sprintf("the pool is closed and %d sends are in progress, but %d connections are open", m.inProgOld, m.open()))
	}
}

//go:norace
func (m *poolMon) closeBegin() {
	m.event(7, 0, 0)
	m.closes.begun++
	m.closes.running++
}

//go:norace
func (m *poolMon) closeEnd(err error, cancelled bool) {
	m.event(8, 0, 0)
	m.closes.running--
	if err == nil {
		m.closes.nilReturns++
		if m.closes.running == 0 {
			m.closes.final = true
		}
	} else if !cancelled && m.closes.begun == 1 && !m.closeErr {
		m.fail(fmt.Sprintf("the only Close returns %v", err))
	}
	m.settled()
}

// takeEndClose returns what ends the context of a running Close, if the explorer
// chooses to end it now. (Not under the race detector: handing over the function is
// itself unsynchronised.)
//
//go:norace
func (m *poolMon) takeEndClose() context.CancelFunc {
	f := m.endClose
	if f == nil || vsched.Race || vsched.Choose(2, "context of Close ends") == 0 {
		return nil
	}
	m.event(10, 0, 0)
	m.endClose = nil
	return f
}

//go:norace
func (m *poolMon) setEndClose(f context.CancelFunc) { m.endClose = f }

//go:norace
func (m *poolMon) closeFails() { m.closeErr = true }

//go:norace
func (m *poolMon) cancel(op int) {
	m.event(9, op, 0)
	m.ops[op].cancelled = true
}

type opKey struct{}

// cancelKey carries the function that ends the context of a send.
type cancelKey struct{}

// endContext ends the context of operation op, if it can be ended and the explorer
// chooses to.
func endContext(ctx context.Context, m *poolMon, op int) bool {
	cancel, ok := ctx.Value(cancelKey{}).(context.CancelFunc)
	if !ok || ctx.Err() != nil || vsched.Choose(2, "context ends") == 0 {
		return false
	}
	m.cancel(op)
	cancel()
	return true
}

// fakeConnector dials fake connections.
type fakeConnector struct{ m *poolMon }

// New dials; the operation is carried by the context.
func (f fakeConnector) New(ctx context.Context) (netx.Conn, error) {
	op, ok := ctx.Value(opKey{}).(int)
	if !ok {
		op = -1
	}
	vsched.At("dialling")
	var err error
	fails := f.m.dialFail && vsched.Choose(2, "dial") == 1
	if endContext(ctx, f.m, op) && fails {
		err = ctx.Err()
	} else if fails {
		err = fmt.Errorf("dial %d fails", op)
	}
	c := f.m.dial(op, fails, err)
	if c == nil {
		if err == nil {
			err = errors.New("no more connections")
		}
		return nil, err
	}
	vsched.At("dialled")
	return c, nil
}

type tagResponse struct{ s string }
type tagError struct{ s string }

func (e *tagError) Error() string { return e.s }

func (c *pconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	if w, ok := ctx.Value(warmKey{}).(*warmGate); ok {
		w.ready <- struct{}{}
		<-w.gate
		return nil, nil
	}
	op := int(b[0])
	c.m.begin(c, op)
	vsched.At("exchanging")
	outcome := exOK
	if c.m.faults {
		outcome = vsched.Choose(3, "exchange")
	}
	ended := endContext(ctx, c.m, op)
	var err error
	var resp netx.Response
	switch outcome {
	case exOK:
		resp = &tagResponse{fmt.Sprintf("response %d", op)}
	case exErr:
		err = &tagError{fmt.Sprintf("exchange %d fails", op)}
		if ended {
			err = ctx.Err()
		}
	case exResp:
		resp = &tagError{fmt.Sprintf("error response %d", op)}
	}
	vsched.At("exchanged")
	c.m.end(c, op, outcome, err, resp)
	if err != nil {
		return nil, err
	}
	return []netx.Response{resp}, nil
}

func (c *pconn) Close() error {
	vsched.At("closing")
	c.m.close(c)
	if f := c.m.takeEndClose(); f != nil {
		f()
	}
	vsched.At("closed")
	if c.m.closeErrs && vsched.Choose(2, "close") == 1 {
		c.m.closeFails()
		return errClose
	}
	return nil
}

var errClose = errors.New("closing fails")

func (c *pconn) IsSecure() bool { return false }

var _ netx.Conn = (*pconn)(nil)

// poolCase is a set of threads; each letter of a thread is an operation:
// Y close with a context that may end meanwhile, s send, k send with a cancelled context, x send with a context that may end
// while it dials or exchanges, C close, K close with a cancelled
// context.
type poolCase struct {
	name    string
	threads []string
	sizes   []int
	warm    []int // idle connections to begin with
	faults  bool
	dial    bool
	cerr    bool // connections may report an error when closed
	pre     int  // preemption bounds
	preT    int
	preR    int // with the race detector
	preRT   int
}

func poolBody(ps poolCase) func(*engine.Run) {
	return func(r *engine.Run) {
		size := ps.sizes[r.Choose(len(ps.sizes), "size")]
		warm := ps.warm[r.Choose(len(ps.warm), "warm")]
		if warm > size {
			r.Prune()
		}
		races := vsched.RaceErrors()
		m := &poolMon{}
		vsched.Execute(chooser{r}, func(s *vsched.Sched) {
			if r.Verbose {
				s.Trace = func(th, loc string) { r.Notef("%s runs from %s", th, loc) }
			}
			s.OnStep = func(s *vsched.Sched) {
				h := m.h
				s.Locs(func(i int, loc string, parked bool) { h = (h ^ engine.HashS(loc)) * 1099511628211 })
				r.StateH(h)
				r.Step()
			}
			var p pool.Pool
			s.Detached(func() { p = fifoch.New(fakeConnector{m}, size) })
			op := 0
			cancelled, cancel := context.WithCancel(context.Background())
			cancel()
			send := func(tid, op, idx int, ctx context.Context, isCancelled bool) {
				m.sendBegin(op, tid, idx, isCancelled)
				resp, err := p.Send(context.WithValue(ctx, opKey{}, op), []byte{byte(op), 1, 2, 3})
				m.sendEnd(op, resp, err)
			}
			if warm > 0 {
				// overlapping sends leave that many idle connections
				s.Detached(func() {
					if err := warmUp(p, m, warm); err != nil {
						r.HarnessFailf("warming up: %v", err)
					}
				})
			}
			m.faults, m.dialFail, m.closeErrs = ps.faults, ps.dial, ps.cerr
			for t, prog := range ps.threads {
				first := op
				op += len(prog)
				s.Go(fmt.Sprintf("thread %d (%s)", t, prog), func() {
					for i, c := range prog {
						switch c {
						case 's':
							send(t, first+i, i, context.Background(), false)
						case 'x':
							ctx, cancel := context.WithCancel(context.Background())
							send(t, first+i, i, context.WithValue(ctx, cancelKey{}, context.CancelFunc(cancel)), false)
							cancel()
						case 'k':
							send(t, first+i, i, cancelled, true)
						case 'Y':
							ctx, cancel := context.WithCancel(context.Background())
							m.setEndClose(cancel)
							m.closeBegin()
							err := p.Close(ctx)
							m.setEndClose(nil)
							m.closeEnd(err, ctx.Err() != nil)
							cancel()
						case 'C', 'K':
							ctx := context.Background()
							if c == 'K' {
								ctx = cancelled
							}
							m.closeBegin()
							err := p.Close(ctx)
							m.closeEnd(err, c == 'K')
						}
					}
				})
			}
			if err := s.Run(); err != nil {
				if m.bad != "" {
					r.Notef("earlier: %s", m.bad)
				}
				r.Failf("%v", err)
			}
			if m.bad != "" {
				r.Failf("pool of %d, %d idle: %s", size, warm, m.bad)
			}
			if m.closes.begun == 0 && m.open() > size {
				r.Failf("pool of %d keeps %d connections open", size, m.open())
			}
			if m.closes.final && m.open() > 0 {
				r.Failf("%d connections stay open in a closed pool", m.open())
			}
			// a last Close must find every connection that is still open
			var err error
			var pv interface{}
			m.closeBegin()
			s.Detached(func() {
				defer func() { pv = recover() }()
				err = p.Close(context.Background())
			})
			if pv != nil {
				r.Failf("a last Close panics: %v", pv)
			}
			m.closeEnd(err, false)
			if err == nil && m.open() > 0 {
				m.fail(fmt.Sprintf("%d connections are neither idle nor closed", m.open()))
			}
			if m.bad != "" {
				r.Failf("pool of %d, %d idle, last Close: %s", size, warm, m.bad)
			}
		})
		if vsched.RaceErrors() > races {
			r.FailSuref("data race")
		}
	}
}

// warmUp leaves n idle connections in p.
func warmUp(p pool.Pool, m *poolMon, n int) error {
	gates := make([]chan struct{}, n)
	ready := make(chan struct{}, n)
	done := make(chan error, n)
	for i := range gates {
		gates[i] = make(chan struct{})
		go func() {
			_, err := p.Send(context.WithValue(context.Background(), warmKey{}, &warmGate{ready, gates[i]}), []byte{0})
			done <- err
		}()
		<-ready
	}
	for i := range gates {
		close(gates[i])
		if err := <-done; err != nil {
			return err
		}
	}
	return nil
}

type warmKey struct{}
type warmGate struct{ ready, gate chan struct{} }

func poolScenarios(t Tier, list []poolCase) []engine.Scenario {
	var out []engine.Scenario
	for _, ps := range list {
		pre := t.pick(ps.pre, ps.preT)
		if vsched.Race {
			pre = t.pick(ps.preR, ps.preRT)
		}
		if pre < 0 {
			continue
		}
		b := fmt.Sprintf("threads %v (s send, k send with cancelled context, x send with a context that may end meanwhile, C close, K close with cancelled context, Y close with a context that may end meanwhile), pools of %v", ps.threads, ps.sizes)
		if ps.warm != nil {
			b += fmt.Sprintf(" with %v idle connections", ps.warm)
		}
		if ps.faults {
			b += ", every exchange succeeding, failing or answering with an error"
		}
		if ps.dial {
			b += ", every dial succeeding or failing"
		}
		if ps.cerr {
			b += ", every close of a connection succeeding or reporting an error"
		}
		b += fmt.Sprintf("; all interleavings with <= %d preemptions at any statement", pre)
		out = append(out, engine.Scenario{Name: ps.name, Bound: b, DevMax: pre, Config: 2, Body: poolBody(ps)})
	}
	return out
}

var poolAssumptions = []string{
	"The scheduler interleaves at statements of the repository's own code and at calls of the fake connector and connections; within a statement the race detector looks for unsynchronised accesses.",
	"Package sync is replaced by an equivalent made of channels, select statements are resolved by the explorer (any ready case).",
}

func init() {
	register(&Prop{ID: "C18", Sched: true, Assumptions: poolAssumptions, Scenarios: func(t Tier) []engine.Scenario {
		return poolScenarios(t, []poolCase{
			{name: "two sends", threads: []string{"s", "s"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, faults: true, dial: true, pre: 3, preT: 4, preR: 2, preRT: 3},
			{name: "two sends that succeed", threads: []string{"s", "s"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, pre: 4, preT: 6, preR: -1, preRT: 3},
			{name: "two threads, two sends each", threads: []string{"ss", "ss"}, sizes: []int{0, 1, 2}, warm: []int{0, 1}, pre: 3, preT: 4, preR: 2, preRT: 3},
			{name: "two threads with failures", threads: []string{"ss", "ss"}, sizes: []int{1, 2}, warm: []int{0, 1}, faults: true, dial: true, pre: 1, preT: 2, preR: -1, preRT: 1},
			{name: "three sends", threads: []string{"s", "s", "s"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "three threads with failures", threads: []string{"ss", "s", "s"}, sizes: []int{1, 2}, warm: []int{1}, faults: true, pre: 1, preT: 2, preR: -1, preRT: 1},
			{name: "four sends", threads: []string{"s", "s", "s", "s"}, sizes: []int{1, 2, 3}, warm: []int{0, 1, 3}, pre: 1, preT: 2, preR: -1, preRT: 1},
			{name: "send and close", threads: []string{"s", "C"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, faults: true, dial: true, pre: 4, preT: 6, preR: 2, preRT: 3},
			{name: "two sends and close", threads: []string{"s", "s", "C"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "contexts ending meanwhile", threads: []string{"x", "xs"}, sizes: []int{0, 1, 2}, warm: []int{0, 1}, faults: true, dial: true, pre: 1, preT: 2, preR: 0, preRT: 1},
			{name: "one context ending meanwhile", threads: []string{"x", "C"}, sizes: []int{0, 1}, warm: []int{0, 1}, faults: true, dial: true, pre: 3, preT: 5, preR: 1, preRT: 2},
			{name: "closing reports errors", threads: []string{"ss", "s"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, faults: true, cerr: true, pre: 1, preT: 2, preR: 0, preRT: 1},
			{name: "sends with cancelled contexts", threads: []string{"ks", "sk"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 2, preT: 3, preR: 1, preRT: 2},
		})
	}})
	register(&Prop{ID: "C19", Sched: true, Assumptions: poolAssumptions, Scenarios: func(t Tier) []engine.Scenario {
		return append(poolScenarios(t, []poolCase{
			{name: "two closes", threads: []string{"C", "C"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, pre: 4, preT: 8, preR: 2, preRT: 3},
			{name: "three closes", threads: []string{"C", "C", "C"}, sizes: []int{0, 2}, warm: []int{0, 1, 2}, pre: 2, preT: 4, preR: 1, preRT: 2},
			{name: "send and close", threads: []string{"s", "Cs"}, sizes: []int{0, 1, 2}, warm: []int{0, 1, 2}, faults: true, dial: true, pre: 3, preT: 5, preR: 1, preRT: 2},
			{name: "repeated use and close", threads: []string{"ss", "Cs"}, sizes: []int{1, 2}, warm: []int{0, 1}, pre: 3, preT: 4, preR: 1, preRT: 2},
			{name: "two closes and a send", threads: []string{"s", "C", "Cs"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "two sends and close", threads: []string{"s", "s", "Cs"}, sizes: []int{1, 2}, warm: []int{0, 2}, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "send, repeated closes", threads: []string{"s", "CsCs"}, sizes: []int{1, 2}, warm: []int{0, 1}, pre: 2, preT: 4, preR: 1, preRT: 2},
			{name: "closing reports errors", threads: []string{"s", "Cs"}, sizes: []int{0, 1, 2, 3}, warm: []int{0, 1, 2, 3}, cerr: true, pre: 2, preT: 4, preR: 1, preRT: 2},
			{name: "two closes, closing reports errors", threads: []string{"C", "CC"}, sizes: []int{1, 2, 3}, warm: []int{1, 2, 3}, cerr: true, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "contexts ending meanwhile", threads: []string{"x", "Cx"}, sizes: []int{1, 2}, warm: []int{0, 1}, faults: true, dial: true, pre: 2, preT: 3, preR: 1, preRT: 2},
			{name: "closes whose context ends meanwhile", threads: []string{"s", "YC"}, sizes: []int{1, 2, 3}, warm: []int{0, 1, 2, 3}, pre: 2, preT: 4, preR: 1, preRT: 2},
			{name: "two closes, one whose context ends meanwhile", threads: []string{"Ys", "C"}, sizes: []int{1, 2, 3}, warm: []int{1, 2, 3}, cerr: true, pre: 2, preT: 4, preR: 1, preRT: 2},
			{name: "cancelled closes", threads: []string{"s", "KC"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 3, preT: 4, preR: 1, preRT: 2},
			{name: "cancelled close and close", threads: []string{"K", "Cs"}, sizes: []int{1, 2}, warm: []int{0, 1, 2}, pre: 3, preT: 5, preR: 1, preRT: 2},
			{name: "cancelled send and close", threads: []string{"k", "Ck"}, sizes: []int{1, 2}, warm: []int{0, 1}, pre: 3, preT: 4, preR: 1, preRT: 2},
		}), closeLarge(append(upto(140)[1:], 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000)))
	}})
}
