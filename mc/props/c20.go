package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"syscall"
	"testing/synctest"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"verif.local/mc/engine"
	"verif.local/mc/vsched"
)

// Stages of a send through the pool.
const (
	stRunning = iota
	stDialling
	stExchanging
	stReturned
)

// qsend is a send started by the driver; its goroutine stops wherever it
// needs the connector or a connection and waits for the driver.
type qsend struct {
	id    int
	stage int
	conn  *qconn // in use
	b     []byte // what the connection was given
	go_   chan qanswer
	resp  []netx.Response
	err   error
	pv    interface{}
	ctx   context.Context
	end   context.CancelFunc // ends ctx
}

type qanswer struct {
	conn *qconn
	resp []netx.Response
	err  error
}

type qconn struct {
	id     int
	cerr   error // reported by Close
	closed int
	keep   bool // in use or idle, as the driver sees it
}

type qkey struct{}

type qconnector struct{ bad *string }

func (q qconnector) New(ctx context.Context) (netx.Conn, error) {
	s, ok := ctx.Value(qkey{}).(*qsend)
	if !ok {
		*q.bad = "the connector is not given the caller's context"
		return nil, errors.New("no context")
	}
	s.stage = stDialling
	a := <-s.go_
	s.stage = stRunning
	if a.err != nil {
		return nil, a.err
	}
	return a.conn, nil
}

func (c *qconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s := ctx.Value(qkey{}).(*qsend)
	s.stage, s.conn, s.b = stExchanging, c, b
	a := <-s.go_
	s.stage = stRunning
	return a.resp, a.err
}

func (c *qconn) Close() error {
	c.closed++
	return c.cerr
}

func (c *qconn) IsSecure() bool { return false }

// queueScenario explores every history of overlapping sends.
func queueScenario(name string, sizes []int, depth, maxOut int, cancels, faults, ending bool) engine.Scenario {
	b := fmt.Sprintf("every history of %d steps over pools of %v connections with <= %d sends outstanding; a step starts a send, answers a dial (connected", depth, sizes, maxOut)
	if faults {
		b += ", failed) or ends an exchange (success, error, success with partial responses and error, error response)"
	} else {
		b += ") or ends an exchange (success)"
	}
	if cancels {
		b += "; sends start with live or cancelled contexts, and select statements resolve either way"
	}
	if ending {
		b += "; the context of a send may end before a dial or exchange is answered, and connections may report an error when closed"
	}
	return engine.Scenario{Name: name, Bound: b, Config: 1, Body: func(r *engine.Run) {
		size := sizes[r.Choose(len(sizes), "size")]
		vsched.Execute(chooser{r}, func(s *vsched.Sched) {
			s.Detached(func() {
				queueHistory(r, size, depth, maxOut, cancels, faults, ending, func(a []qstep, _ func(int) int) int { return r.Choose(len(a), "step") })
			})
		})
	}}
}

// qstep is an alternative of the driver: kind 0 starts a send, 1 starts one with
// a cancelled context, 2 answers outstanding send k, 3 ends the context of send k and
// answers it.
type qstep struct{ kind, k, how int }

// largeScenario drives pools of many connections through whole waves of sends.
func largeScenario(sizes []int) engine.Scenario {
	return engine.Scenario{Name: "large pools", Bound: fmt.Sprintf("%d pool sizes %d..%d x waves of size-1, size, size+1, size+7 and 2*size overlapping sends, ended oldest first, newest first or alternating, all successful or every third failing; then the idle connections are reused one after another, and as another wave", len(sizes), sizes[0], sizes[len(sizes)-1]), Config: 1,
		Body: func(r *engine.Run) {
			size := sizes[r.Choose(len(sizes), "size")]
			n := []int{size - 1, size, size + 1, size + 7, 2 * size}[r.Choose(5, "wave")]
			order := r.Choose(3, "order")
			failing := r.Bool("failing")
			if n < 1 {
				n = 1
			}
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					ended := 0
					end := func(a []qstep, stage func(int) int) int {
						// among the outstanding sends
						k := 0
						outs := 0
						for _, x := range a {
							if x.kind == 2 && x.how == 0 {
								outs++
							}
						}
						switch order {
						case 1:
							k = outs - 1
						case 2:
							k = (ended % 2) * (outs - 1)
						}
						how := 0
						if failing && ended%3 == 2 {
							how = 1 + ended/3%3
						}
						ended++
						for i, x := range a {
							if x.kind == 2 && x.k == k && x.how == how {
								return i
							}
						}
						return len(a) - 1
					}
					dial := func(a []qstep, stage func(int) int) int {
						for i, x := range a {
							if x.kind == 2 && stage(x.k) == stDialling {
								return i
							}
						}
						return -1
					}
					step := 0
					queueHistory(r, size, 3*n+3*(size+2)+4*n, 1<<30, false, true, false, func(a []qstep, stage func(int) int) int {
						defer func() { step++ }()
						switch {
						case step < n: // a wave starts
							return 0
						case step < 2*n: // is connected
							if i := dial(a, stage); i >= 0 {
								return i
							}
							return 0
						case step < 3*n: // and ends
							return end(a, stage)
						}
						failing = false
						if step < 3*n+3*(size+2) { // one send after another
							if len(a) == 1 {
								return 0
							}
							if i := dial(a, stage); i >= 0 {
								return i
							}
							return end(a, stage)
						}
						if step < 3*n+3*(size+2)+n {
							return 0
						}
						if i := dial(a, stage); i >= 0 {
							return i
						}
						if len(a) == 1 {
							return 0
						}
						return end(a, stage)
					})
				})
			})
		}}
}

// longSeries: long series of sends, one after another, and how many go to each connection.
func longSeries(n int) engine.Scenario {
	return engine.Scenario{Name: "long series", Bound: fmt.Sprintf("pools of 1..3 with 1..3 idle connections, %d sends one after another with a response each; the last fails, and %d more follow", n, n/8), Config: 1,
		Body: func(r *engine.Run) {
			size := 1 + r.Choose(3, "size")
			warm := 1 + r.Choose(size, "idle")
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					q := &seqConnector{next: func(*seqConn) {}}
					p := fifoch.New(q, size)
					var fill func(k int)
					fill = func(k int) {
						if k == 0 {
							return
						}
						done := false
						q.next = func(c *seqConn) {
							if !done {
								done = true
								fill(k - 1)
							}
						}
						if _, err := p.Send(context.Background(), []byte("fill")); err != nil {
							r.Failf("filling the pool: %v", err)
						}
					}
					fill(warm)
					q.next = func(*seqConn) {}
					idle := append([]int(nil), q.uses...)
					for _, c := range q.conns {
						c.resp = []netx.Response{nil}
					}
					for i := 0; i < n+n/8; i++ {
						if len(idle) == 0 {
							idle = append(idle, len(q.conns))
							q.next = func(c *seqConn) { c.resp = []netx.Response{nil} }
						}
						want := idle[0]
						idle = idle[1:]
						if i == n {
							q.conns[want].err = io.ErrUnexpectedEOF
						} else {
							idle = append(idle, want)
						}
						used := len(q.uses)
						out, err := p.Send(context.Background(), []byte{byte(i)})
						if len(q.uses) != used+1 || q.uses[used] != want {
							r.Failf("pool of %d, %d idle: send %d went to %v, the longest idle connection is %d", size, warm, i, q.uses[used:], want)
						}
						if i == n && err == nil || i != n && (err != nil || len(out) != 1 || out[0] != nil) {
							r.Failf("pool of %d, %d idle: send %d reported %v %v", size, warm, i, out, err)
						}
					}
					for i, c := range q.conns {
						want := 0
						if c.err != nil {
							want = 1
						}
						if c.closed != want {
							r.Failf("connection %d of %d was closed %d times, its error being %v", i, len(q.conns), c.closed, c.err)
						}
					}
					r.StepN(n)
					r.StateS(fmt.Sprint(size, warm))
				})
			})
		}}
}

// seqConn is a connection whose exchanges end as scripted.
type seqConn struct {
	id     int
	closed int
	uses   *[]int
	resp   []netx.Response
	err    error
	got    []byte
	cerr   error  // reported by Close
	during func() // called in an exchange
}

func (c *seqConn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	*c.uses = append(*c.uses, c.id)
	c.got = append([]byte(nil), b...)
	if c.during != nil {
		f := c.during
		c.during = nil
		f()
	}
	return c.resp, c.err
}
func (c *seqConn) Close() error   { c.closed++; return c.cerr }
func (c *seqConn) IsSecure() bool { return false }

type seqConnector struct {
	conns []*seqConn
	uses  []int
	next  func(c *seqConn) // prepares a new connection
	err   error
}

func (q *seqConnector) New(ctx context.Context) (netx.Conn, error) {
	if q.err != nil {
		return nil, q.err
	}
	c := &seqConn{uses: &q.uses}
	q.next(c)
	c.id = len(q.conns)
	q.conns = append(q.conns, c)
	return c, nil
}

type tmpError struct{ temporary bool }

func (t *tmpError) Error() string   { return "network" }
func (t *tmpError) Timeout() bool   { return true }
func (t *tmpError) Temporary() bool { return t.temporary }

// exchangeErrors are errors an exchange can end with.
func exchangeErrors() []error {
	return []error{io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, &tmpError{true}, &tmpError{false}, net.ErrClosed, syscall.ECONNRESET, syscall.EPIPE,
		fmt.Errorf("read: %w", io.EOF), &connection.MySqlXError{Severity: 1, Code: 1053, SqlState: "08S01", Msg: "shutdown"}, &connection.MySqlXError{Code: 1045}, pool.ErrPoolClosed, errors.New("")}
}

// responseScenario: one send that ends in a particular way, then others.
func responseScenario(deep bool) engine.Scenario {
	var ns []int
	for n := 0; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025)
	if deep {
		ns = append(ns, 4097, 16385)
	}
	errs := exchangeErrors()
	failures := []netx.Response{&connection.MySqlXError{Code: 1062, SqlState: "23000", Msg: "Duplicate entry"}, &connection.MySqlXError{}, &connection.MySqlXError{Severity: 1, Code: 1}, &tagError{"other"}, errors.New("")}
	return engine.Scenario{Name: "how an exchange ends", Config: 1,
		Bound: fmt.Sprintf("pools of 1..3 with 0..3 idle connections: responses of %d lengths up to %d, none or one of %d kinds of error response at every position; %d kinds of exchange error with 0..3 responses; then the pool is used again", len(ns), ns[len(ns)-1], len(failures), len(errs)),
		Body: func(r *engine.Run) {
			size := 1 + r.Choose(3, "size")
			warm := r.Choose(size+1, "idle")
			var resp []netx.Response
			var xerr error
			healthy := true
			if r.Bool("exchange error") {
				xerr = errs[r.Choose(len(errs), "error")]
				if n := r.Choose(5, "responses"); n > 0 {
					resp = make([]netx.Response, n-1)
					if n == 4 {
						resp[2] = failures[0]
					}
				}
				healthy = false
			} else {
				n := ns[r.Choose(len(ns), "responses")]
				if n > 0 || r.Bool("empty, not nil") {
					resp = make([]netx.Response, n)
				}
				for i := range resp {
					if i%3 == 2 {
						resp[i] = &tagResponse{"ok"}
					}
				}
				if n > 0 {
					if k := r.Choose(1+len(failures), "error response"); k > 0 {
						healthy = false
						resp[r.Choose(n, "position")] = failures[k-1]
					}
				}
			}
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					q := &seqConnector{next: func(*seqConn) {}}
					p := fifoch.New(q, size)
					// fill the pool: overlapping sends, through connections that send again
					var fill func(k int)
					fill = func(k int) {
						if k == 0 {
							return
						}
						ctx := context.Background()
						done := false
						q.next = func(c *seqConn) {
							if done {
								return
							}
							done = true
							fill(k - 1)
						}
						if _, err := p.Send(ctx, []byte("fill")); err != nil {
							r.Failf("filling the pool: %v", err)
						}
					}
					fill(warm)
					q.next = func(*seqConn) {}
					if len(q.conns) != warm {
						r.HarnessFailf("%d connections for %d", len(q.conns), warm)
					}
					idle := append([]int(nil), q.uses...)
					what := fmt.Sprintf("pool of %d, %d idle, exchange ending with %d responses, %v", size, warm, len(resp), xerr)
					step := func(resp []netx.Response, xerr error, healthy bool, what string) {
						want, dials := -1, len(q.conns)
						if len(idle) > 0 {
							want, idle = idle[0], idle[1:]
						} else {
							want, dials = dials, dials+1
						}
						for _, c := range q.conns {
							c.resp, c.err = resp, xerr
						}
						q.next = func(c *seqConn) { c.resp, c.err = resp, xerr }
						u0 := len(q.uses)
						var got []netx.Response
						var err error
						if panics(func() { got, err = p.Send(context.Background(), []byte(what)) }) {
							r.Failf("%s: Send panics", what)
						}
						r.Step()
						if len(q.uses) != u0+1 || q.uses[u0] != want || len(q.conns) != dials {
							r.Failf("%s: exchanges on connections %v, expected one on %d", what, q.uses[u0:], want)
						}
						if string(q.conns[want].got) != what {
							r.Failf("%s: the connection was given %q", what, q.conns[want].got)
						}
						if !sameResponses(got, resp) || (err == nil) != (xerr == nil) || xerr != nil && !errors.Is(err, xerr) {
							r.Failf("%s: the caller gets %d responses, %v", what, len(got), err)
						}
						if healthy && len(idle) < size {
							idle = append(idle, want)
						}
						for _, c := range q.conns {
							n := 1
							for _, i := range idle {
								if i == c.id {
									n = 0
								}
							}
							if c.closed != n {
								r.Failf("%s: connection %d was closed %d times, expected %d", what, c.id, c.closed, n)
							}
						}
					}
					step(resp, xerr, healthy, what)
					for k := 0; k < size+2; k++ {
						step([]netx.Response{nil}, nil, true, fmt.Sprintf("send %d after a %s", k, what))
					}
					r.StateS(fmt.Sprint(what, q.uses))
				})
			})
		}}
}

// veryLargeScenario: pools of a size no other scenario reaches, filled once and used round.
func veryLargeScenario(sizes []int) engine.Scenario {
	return engine.Scenario{Name: "very large pools", Config: 1,
		Bound: fmt.Sprintf("%d pool sizes 0..%d, filled by size, size+1 or size+3 sends at once, then as many sends one after another and %d more", len(sizes), sizes[len(sizes)-1], 5),
		Body: func(r *engine.Run) {
			size := sizes[r.Choose(len(sizes), "size")]
			over := []int{0, 1, 3}[r.Choose(3, "surplus")]
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					q := &seqConnector{}
					p := fifoch.New(q, size)
					depth := 0
					q.next = func(c *seqConn) {
						if depth++; depth < size+over {
							if _, err := p.Send(context.Background(), []byte("fill")); err != nil {
								r.Failf("filling the pool: %v", err)
							}
						}
					}
					if size+over > 0 {
						p.Send(context.Background(), []byte("fill"))
					}
					q.next = func(*seqConn) {}
					n := len(q.conns)
					if n != size+over {
						r.Failf("pool of %d: %d sends at once used %d connections", size, size+over, n)
					}
					// the sends ended in the order of their uses
					idle := append([]int(nil), q.uses...)
					if len(idle) > size {
						for _, i := range idle[size:] {
							if q.conns[i].closed != 1 {
								r.Failf("pool of %d: the surplus connection of %d sends at once was closed %d times", size, size+over, q.conns[i].closed)
							}
						}
						idle = idle[:size]
					}
					q.uses = q.uses[:0]
					if size > 0 {
						for k := 0; k < size+5; k++ {
							p.Send(context.Background(), nil)
							if len(q.uses) != k+1 || q.uses[k] != idle[k%size] {
								r.Failf("pool of %d: send %d used connection %v, the longest idle one is %d", size, k, q.uses[k:], idle[k%size])
							}
						}
					}
					for _, i := range idle {
						if q.conns[i].closed != 0 {
							r.Failf("pool of %d, filled by %d sends at once: an idle connection was closed", size, size+over)
						}
					}
					if len(q.conns) != n {
						r.Failf("pool of %d: %d connections were dialled although enough were idle", size, len(q.conns)-n)
					}
					r.Step()
					r.StateS(fmt.Sprint(size, over))
				})
			})
		}}
}

// closeLarge: closing pools of many idle connections.
func closeLarge(sizes []int) engine.Scenario {
	return engine.Scenario{Name: "large pools", Config: 1,
		Bound: fmt.Sprintf("%d pool sizes 1..%d, full, half full or with one idle connection, closed by a thread of its own or during an exchange of one of them, closes of connections succeeding or some failing; closed once or twice, then used", len(sizes), sizes[len(sizes)-1]),
		Body: func(r *engine.Run) {
			size := sizes[r.Choose(len(sizes), "size")]
			n := []int{size, (size + 1) / 2, 1}[r.Choose(3, "idle")]
			inUse := r.Bool("during an exchange")
			cerr := r.Bool("failing closes")
			twice := r.Bool("closed twice")
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					q := &seqConnector{}
					p := fifoch.New(q, size)
					depth := 0
					q.next = func(c *seqConn) {
						if cerr && depth%3 == 0 {
							c.cerr = io.ErrClosedPipe
						}
						if depth++; depth < n {
							if _, err := p.Send(context.Background(), []byte("fill")); err != nil {
								r.Failf("filling the pool: %v", err)
							}
						}
					}
					p.Send(context.Background(), []byte("fill"))
					if len(q.conns) != n {
						r.Failf("pool of %d: %d sends at once used %d connections", size, n, len(q.conns))
					}
					what := fmt.Sprintf("pool of %d, %d idle", size, n)
					used := -1
					shut := func() {
						for k := 0; k < 1 || twice && k < 2; k++ {
							err := p.Close(context.Background())
							if err != nil && !cerr {
								r.Failf("%s: Close reports %v", what, err)
							}
							if err != nil {
								continue
							}
							for _, c := range q.conns {
								if want := 1; c.id == used && c.closed != 0 || c.id != used && c.closed != want {
									r.Failf("%s: when Close returned connection %d was closed %d times (in use: %v)", what, c.id, c.closed, c.id == used)
								}
							}
						}
					}
					if inUse {
						for _, c := range q.conns {
							c.during = func() {
								used = c.id
								shut()
							}
						}
						if _, err := p.Send(context.Background(), []byte("x")); err != nil {
							r.Failf("%s: the send during which the pool is closed reports %v", what, err)
						}
					} else {
						shut()
					}
					dials := len(q.conns)
					uses := len(q.uses)
					if _, err := p.Send(context.Background(), []byte("y")); !errors.Is(err, pool.ErrPoolClosed) || len(q.conns) != dials || len(q.uses) != uses {
						r.Failf("%s: a send after Close reports %v and dials %d connections", what, err, len(q.conns)-dials)
					}
					for _, c := range q.conns {
						if c.closed != 1 {
							r.Failf("%s: connection %d was closed %d times in the end", what, c.id, c.closed)
						}
					}
					r.Step()
					r.StateS(fmt.Sprint(what, inUse, cerr, twice))
				})
			})
		}}
}

// errorNumbersScenario: whatever error a response is, its connection is not
// used again; whatever error an exchange ends with, too.
func errorNumbersScenario() engine.Scenario {
	var codes []uint32
	for _, e := range errorNumbers {
		codes = append(codes, uint32(e.want))
	}
	for c := uint32(0); c < 300; c++ {
		codes = append(codes, c, 1000+c, 3000+c, 4000+c, 5000+c, 10000+c)
	}
	return engine.Scenario{Name: "every error number", Config: 1,
		Bound: fmt.Sprintf("%d error numbers x %d states or severity unset/ERROR/FATAL, as one of 1..3 responses or the error of an exchange, on a pool of 1 or 2; the next send must dial", len(codes), len(mysqlStates)),
		Body: func(r *engine.Run) {
			size := 1 + r.Choose(2, "size")
			n := 1 + r.Choose(3, "responses")
			at := r.Choose(n+1, "position")
			st := r.Choose(len(mysqlStates)+3, "state")
			vsched.Execute(chooser{r}, func(s *vsched.Sched) {
				s.Detached(func() {
					q := &seqConnector{next: func(*seqConn) {}}
					p := fifoch.New(q, size)
					for _, code := range codes {
						e := &connection.MySqlXError{Code: code, SqlState: "HY000", Msg: "text"}
						switch k := st - len(mysqlStates); k {
						case 0:
							e.Severity = 1
						case 1:
							e.SqlState, e.Msg = "", ""
						case 2:
							e.Msg = "Expectation failed: no_error"
						default:
							e.SqlState = mysqlStates[st]
						}
						resp := make([]netx.Response, n)
						var xerr error
						if at == n {
							xerr = e
						} else {
							resp[at] = e
						}
						dials := len(q.conns)
						q.next = func(c *seqConn) { c.resp, c.err = resp, xerr }
						got, err := p.Send(context.Background(), []byte("x"))
						r.Step()
						if len(q.conns) != dials+1 {
							r.Failf("pool of %d: there is no idle connection and Send dials %d connections (number %d)", size, len(q.conns)-dials, code)
						}
						if !sameResponses(got, resp) || xerr == nil && err != nil || xerr != nil && !errors.Is(err, xerr) {
							r.Failf("the exchange ended with %v, %v; the caller gets %v, %v", resp, xerr, got, err)
						}
						if c := q.conns[dials]; c.closed != 1 {
							r.Failf("pool of %d: a connection whose exchange ended with %v, %v was closed %d times", size, resp, xerr, c.closed)
						}
						q.conns, q.uses = q.conns[:0], q.uses[:0]
					}
					r.StateS(fmt.Sprint(size, n, at, st))
				})
			})
			r.Cases(len(codes)) // not inside the bubble, whose clock is not real
		}}
}

func queueHistory(r *engine.Run, size, depth, maxOut int, cancels, faults, ending bool, pick func([]qstep, func(int) int) int) {
	bad := ""
	var p pool.Pool = fifoch.New(qconnector{&bad}, size)
	vsched.Hook = func(n int, label string) int { return r.Choose(n, label) }
	defer func() { vsched.Hook = nil }()
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	var (
		idle  []*qconn
		conns []*qconn
		out   []*qsend
		n     int
		alts  = make([]qstep, 0, 40)
	)
	defer func() {
		// let everything end
		for _, s := range out {
			if s.stage == stDialling || s.stage == stExchanging {
				s.go_ <- qanswer{err: errors.New("the history ends")}
			}
		}
		synctest.Wait()
		for _, c := range idle {
			c.closed = 1
		}
	}()
	check := func(what string) {
		if bad != "" {
			r.Failf("%s: %s", what, bad)
		}
		for _, c := range conns {
			c.keep = false
		}
		for _, c := range idle {
			c.keep = true
		}
		for _, s := range out {
			if s.conn != nil && s.stage == stExchanging {
				s.conn.keep = true
			}
		}
		for _, c := range conns {
			want := 1
			if c.keep {
				want = 0
			}
			if c.closed != want {
				if want == 0 {
					r.Failf("%s: connection %d is in use or idle, but closed", what, c.id)
				}
				r.Failf("%s: connection %d is neither in use nor idle (idle: %d of %d) and was closed %d times", what, c.id, len(idle), size, c.closed)
			}
		}
		h := engine.HashS(fmt.Sprintf("%d idle, size %d", len(idle), size))
		for _, c := range idle {
			h = (h ^ uint64(c.id)) * 1099511628211
		}
		for _, s := range out {
			h = (h ^ uint64(s.stage*100)) * 1099511628211
			if s.conn != nil {
				h ^= uint64(s.conn.id+1) << 7
			}
		}
		r.StateH(h)
		r.Step()
	}
	// expect that s is exchanging on c
	expectExchange := func(s *qsend, c *qconn, what string) {
		switch {
		case s.pv != nil:
			r.Failf("%s: Send panics: %v", what, s.pv)
		case s.stage == stDialling:
			r.Failf("%s: dials although connection %d is idle", what, c.id)
		case s.stage == stReturned:
			r.Failf("%s: returned %v, %v without an exchange", what, s.resp, s.err)
		case s.stage == stRunning:
			r.Failf("%s: Send blocks", what)
		case s.conn != c:
			r.Failf("%s: uses connection %d, want %d", what, s.conn.id, c.id)
		}
		want := []byte{byte(s.id), 1, 2, 3, 250, byte(s.id * 7)}
		if !bytes.Equal(s.b, want) {
			r.Failf("%s: the connection is given % x instead of % x", what, s.b, want)
		}
	}
	drop := func(k int) { out = append(out[:k:k], out[k+1:]...) }
	for step := 0; step < depth; step++ {
		// alternatives: 0 start, 1 start cancelled, then the answers
		type alt = qstep
		alts = alts[:0]
		add := func(a alt) { alts = append(alts, a) }
		if len(out) < maxOut {
			add(alt{0, 0, 0})
			if cancels {
				add(alt{1, 0, 0})
			}
		}
		for k, s := range out {
			hows := 1
			switch {
			case !faults:
			case s.stage == stDialling:
				hows = 2
			default:
				hows = 4
			}
			for h := 0; h < hows; h++ {
				add(alt{2, k, h})
				if ending {
					add(alt{3, k, h})
				}
			}
		}
		a := alts[pick(alts, func(k int) int { return out[k].stage })]
		switch a.kind {
		case 0, 1:
			s := &qsend{id: n, go_: make(chan qanswer)}
			n++
			ctx := context.Background()
			if a.kind == 1 {
				ctx = cancelled
			}
			if ending {
				ctx, s.end = context.WithCancel(ctx)
				defer s.end()
			}
			s.ctx = context.WithValue(ctx, qkey{}, s)
			b := []byte{byte(s.id), 1, 2, 3, 250, byte(s.id * 7)}
			go func() {
				defer func() { s.pv = recover(); s.stage = stReturned }()
				s.resp, s.err = p.Send(s.ctx, b)
			}()
			synctest.Wait()
			r.Notef("send %d starts (cancelled %v)", s.id, a.kind == 1)
			what := fmt.Sprintf("send %d, pool of %d with %d idle", s.id, size, len(idle))
			if a.kind == 1 && s.stage == stReturned {
				if s.pv != nil {
					r.Failf("%s: Send panics: %v", what, s.pv)
				}
				if !errors.Is(s.err, context.Canceled) || len(s.resp) != 0 {
					r.Failf("%s with a cancelled context returned %v, %v", what, s.resp, s.err)
				}
				check(what + " with a cancelled context")
				break
			}
			if len(idle) > 0 {
				expectExchange(s, idle[0], what)
				idle = idle[1:]
			} else if a.kind == 1 {
				r.Failf("%s with a cancelled context neither fails nor uses an idle connection (stage %d)", what, s.stage)
			} else if s.stage != stDialling {
				if s.pv != nil {
					r.Failf("%s: Send panics: %v", what, s.pv)
				}
				r.Failf("%s does not dial (stage %d, %v)", what, s.stage, s.err)
			}
			out = append(out, s)
			check(what)
		case 2, 3:
			s := out[a.k]
			if a.kind == 3 {
				s.end()
				synctest.Wait()
				r.Notef("the context of send %d ends", s.id)
			}
			if s.stage == stDialling {
				if a.how == 0 {
					c := &qconn{id: len(conns)}
					if ending && r.Bool("reports an error when closed") {
						c.cerr = errClose
					}
					conns = append(conns, c)
					s.go_ <- qanswer{conn: c}
					synctest.Wait()
					what := fmt.Sprintf("send %d, dialled connection %d", s.id, c.id)
					r.Notef("%s", what)
					if a.kind == 3 && s.stage == stReturned && s.pv == nil && errors.Is(s.err, context.Canceled) {
						// given up: the connection is closed or kept
						drop(a.k)
						if c.closed == 0 && len(idle) < size {
							idle = append(idle[:len(idle):len(idle)], c)
						}
						check(what + ", context ended")
						break
					}
					expectExchange(s, c, what)
					check(what)
				} else {
					e := &tagError{fmt.Sprintf("dial of send %d fails", s.id)}
					s.go_ <- qanswer{err: e}
					synctest.Wait()
					what := fmt.Sprintf("send %d, dial failed", s.id)
					r.Notef("%s", what)
					if s.pv != nil {
						r.Failf("%s: Send panics: %v", what, s.pv)
					}
					if s.stage != stReturned || !errors.Is(s.err, e) && !(a.kind == 3 && errors.Is(s.err, context.Canceled)) {
						r.Failf("%s: stage %d, returned %v", what, s.stage, s.err)
					}
					drop(a.k)
					check(what)
				}
				break
			}
			c := s.conn
			ans := qanswer{resp: []netx.Response{&tagResponse{fmt.Sprint("response ", s.id)}, nil, &tagResponse{"more"}}}
			switch a.how {
			case 1:
				ans = qanswer{err: &tagError{fmt.Sprintf("exchange %d fails", s.id)}}
			case 2:
				ans.err = &tagError{fmt.Sprintf("exchange %d fails", s.id)}
			case 3:
				ans.resp = []netx.Response{nil, &tagError{fmt.Sprint("error response ", s.id)}, &tagResponse{"more"}}
			}
			s.go_ <- ans
			synctest.Wait()
			what := fmt.Sprintf("send %d, exchange on connection %d ended (%s)", s.id, c.id, []string{"success", "error", "partial responses and error", "error response"}[a.how])
			r.Notef("%s", what)
			if s.pv != nil {
				r.Failf("%s: Send panics: %v", what, s.pv)
			}
			if s.stage != stReturned {
				r.Failf("%s: Send does not return (stage %d)", what, s.stage)
			}
			if !sameResponses(s.resp, ans.resp) || (ans.err == nil) != (s.err == nil) || ans.err != nil && !errors.Is(s.err, ans.err) {
				r.Failf("%s: the caller gets %v, %v instead of %v, %v", what, s.resp, s.err, ans.resp, ans.err)
			}
			s.conn = nil
			drop(a.k)
			if a.how == 0 && len(idle) < size {
				idle = append(idle[:len(idle):len(idle)], c)
			}
			check(what)
		}
	}
}

func sameResponses(a, b []netx.Response) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "C20", Sched: true, Assumptions: []string{
		"Sends overlap as a whole: each one runs undisturbed between the points where it waits for the connector or a connection (finer interleavings: C18, C19).",
		"With a cancelled context and an idle connection, both using the connection and reporting the cancellation are accepted.",
	}, Scenarios: func(t Tier) []engine.Scenario {
		if vsched.Race {
			return nil
		}
		return []engine.Scenario{
			queueScenario("overlapping sends", []int{0, 1, 2, 3}, t.pick(10, 12), 3, false, true, false),
			queueScenario("cancelled contexts", []int{0, 1, 2}, t.pick(8, 10), 3, true, true, false),
			queueScenario("contexts ending meanwhile", []int{0, 1, 2}, t.pick(7, 9), 2, false, true, true),
			largeScenario(poolSizes(t.Thorough)),
			responseScenario(t.Thorough),
			longSeries(t.pick(70000, 300000)),
			errorNumbersScenario(),
			veryLargeScenario(append(upto(300), 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536)),
			queueScenario("long histories", []int{1, 2, 3}, t.pick(13, 16), 4, false, false, false),
		}
	}})
}

func poolSizes(thorough bool) []int {
	var out []int
	top := 40
	if thorough {
		top = 140
	}
	for i := 0; i <= top; i++ {
		out = append(out, i)
	}
	for _, n := range []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257} {
		if n > top {
			out = append(out, n)
		}
	}
	return out
}
