package props

import (
	"bytes"
	"context"
	"database/sql/driver"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"

	"verif.local/mc/engine"
)

type ctxKey struct{}

// outcomes a connection can answer Send with.
var sendOutcomes = []struct {
	name string
	resp func(k int) []netx.Response
	err  func(k int) error
}{
	{"ok", func(k int) []netx.Response { return []netx.Response{nil, &tagResponse{fmt.Sprint("r", k)}} }, func(int) error { return nil }},
	{"nothing", func(int) []netx.Response { return nil }, func(int) error { return nil }},
	{"error", func(int) []netx.Response { return nil }, func(k int) error { return &tagError{fmt.Sprint("e", k)} }},
	{"error response", func(k int) []netx.Response { return []netx.Response{&tagError{fmt.Sprint("x", k)}} }, func(int) error { return nil }},
	{"partial responses and error", func(k int) []netx.Response { return []netx.Response{nil, &tagError{fmt.Sprint("x", k)}} }, func(k int) error { return &tagError{fmt.Sprint("e", k)} }},
}

// sendHistory explores histories of building, sending and resetting one builder.
func sendHistory(name string, alpha []*op, fs []fault, depth int, sizes []int) engine.Scenario {
	return engine.Scenario{Name: name,
		Bound: fmt.Sprintf("every history of %d steps over %d operations, %d rejected operations, Send (5 outcomes of the connection; live, cancelled and valued contexts) and Reset, on a builder of initial capacity %v", depth, len(alpha), len(fs), sizes),
		Body: func(r *engine.Run) {
			x := xtorm.New(sizes[r.Choose(len(sizes), "capacity")])
			e, me := &env{}, &env{}
			var want []exp
			var prev []byte // bytes sent and not changed since
			sent, failed := false, false
			var firstErr error
			for i := 0; i < depth; i++ {
				k := r.Choose(2+len(alpha)+len(fs), "step")
				r.Step()
				switch {
				case k == 0: // Send
					o := sendOutcomes[r.Choose(len(sendOutcomes), "outcome")]
					ctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, i))
					if r.Bool("cancelled") {
						cancel()
					}
					resp, rerr := o.resp(i), o.err(i)
					calls := 0
					var got []byte
					out, err := x.Send(ctx, sendFunc(func(c context.Context, b []byte) ([]netx.Response, error) {
						calls++
						got = bytes.Clone(b)
						if c.Value(ctxKey{}) != i || (c.Err() != nil) != (ctx.Err() != nil) {
							r.Failf("step %d: Send gives the connection another context", i)
						}
						return resp, rerr
					}))
					cancel()
					if failed {
						if calls != 0 || err == nil {
							r.Failf("step %d: Send of a rejected unit of work: %d exchanges, error %v", i, calls, err)
						}
						if firstErr != nil && err.Error() != firstErr.Error() {
							r.Failf("step %d: Send reports %q, reported %q before", i, err, firstErr)
						}
						firstErr = err
						continue
					}
					if calls != 1 {
						r.Failf("step %d: Send uses the connection %d times", i, calls)
					}
					if err != rerr || !sameResponses(out, resp) {
						r.Failf("step %d: the connection answered %v, %v; Send returned %v, %v", i, resp, rerr, out, err)
					}
					if err := checkStream(got, want); err != nil {
						r.Failf("step %d: Send: %v", i, err)
					}
					if sent && !bytes.Equal(prev, got) {
						r.Failf("step %d: sending the same unit of work again sends other bytes", i)
					}
					prev, sent = got, true
					r.State(got)
				case k == 1: // Reset
					x.Reset()
					e, me = &env{}, &env{}
					want, sent, failed, firstErr = nil, false, false, nil
				case k < 2+len(alpha):
					o := alpha[k-2]
					o.apply(&x.Builder, e)
					if !failed {
						want = append(want, o.model(me)...)
					}
					sent = false
				default:
					fs[k-2-len(alpha)].do(&x.Builder)
					failed = true
				}
			}
		}}
}

type tempErr struct{ timeout, temporary bool }

func (e *tempErr) Error() string   { return "temporary failure" }
func (e *tempErr) Timeout() bool   { return e.timeout }
func (e *tempErr) Temporary() bool { return e.temporary }

// transportErrors are the kinds of error a connection may report.
func transportErrors() []error {
	out := []error{nil, &tagError{"e"}, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, net.ErrClosed, os.ErrDeadlineExceeded,
		context.Canceled, context.DeadlineExceeded, driver.ErrBadConn, pool.ErrPoolClosed, syscall.EPIPE, syscall.ECONNRESET, syscall.EINTR, syscall.EAGAIN,
		&tempErr{false, false}, &tempErr{false, true}, &tempErr{true, false}, &tempErr{true, true},
		&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED},
		&connection.MySqlXError{}, connection.ErrUnexpectedAuthenticateContinue}
	for _, code := range []uint32{1040, 1045, 1053, 1205, 1213, 2006, 2013, 3169, 5012, 5159} {
		out = append(out, &connection.MySqlXError{Code: code, SqlState: "HY000", Msg: "m"}, &connection.MySqlXError{Severity: 1, Code: code, SqlState: "40001", Msg: "m"})
	}
	for _, e := range out[1:] {
		out = append(out, fmt.Errorf("exchange failed: %w", e))
	}
	return out
}

// everyOutcome: one unit of work sent three times, extended before the third.
func everyOutcome() engine.Scenario {
	errs := transportErrors()
	counts := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 5000}
	sizes := []int{0, 1, 2, 40, 1000}
	stmt1, stmt2 := one("StmtExecute{stmt="+mStr("SELECT 1")+" }"), one("StmtExecute{stmt="+mStr("SELECT 2")+" }")
	return engine.Scenario{Name: "every outcome",
		Bound: fmt.Sprintf("units of work of %v statements sent twice, extended and sent again x %d kinds of error x %v responses, none, the first, the last or all of them errors x live and cancelled context", sizes, len(errs), counts),
		Body: func(r *engine.Run) {
			e := errs[r.Choose(len(errs), "error")]
			n := counts[r.Choose(len(counts), "responses")]
			size := sizes[r.Choose(len(sizes), "statements")]
			which := r.Choose(4, "error responses")
			resp := make([]netx.Response, n)
			for i := range resp {
				if which == 1 && i == 0 || which == 2 && i == n-1 || which == 3 {
					resp[i] = &tagError{fmt.Sprint("x", i)}
				}
			}
			if n == 0 && which%2 == 1 {
				resp = nil
			}
			ctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, n))
			defer cancel()
			if r.Bool("cancelled") {
				cancel()
			}
			x := xtorm.New(0)
			var want []exp
			for i := 0; i < size; i++ {
				x.StmtExecute("SELECT 1")
				want = append(want, stmt1)
			}
			for k := 0; k < 3; k++ {
				if k == 2 {
					x.StmtExecute("SELECT 2")
					want = append(want, stmt2)
				}
				calls := 0
				out, err := x.Send(ctx, sendFunc(func(c context.Context, b []byte) ([]netx.Response, error) {
					calls++
					if c.Value(ctxKey{}) != n || (c.Err() != nil) != (ctx.Err() != nil) {
						r.Failf("Send %d gives the connection another context", k)
					}
					if err := checkStream(b, want); err != nil {
						r.Failf("Send %d: %v", k, err)
					}
					return resp, e
				}))
				r.Step()
				if calls != 1 {
					r.Failf("Send %d uses the connection %d times; it answered %d responses and %v", k, calls, n, e)
				}
				if err != e || !sameResponses(out, resp) {
					r.Failf("Send %d: the connection answered %d responses and %v; Send returned %d responses and %v", k, n, e, len(out), err)
				}
			}
			r.StateS(fmt.Sprint(size, n, which, e))
		}}
}

// twoPipes explores histories of building, sending and resetting two builders in turns.
func twoPipes(depth int) engine.Scenario {
	sizes := []int{3, 700, 2000, 70000}
	return engine.Scenario{Name: "two builders",
		Bound: fmt.Sprintf("every history of %d steps over two builders: building a statement of %v bytes, Send (accepted or failing), Reset", depth, sizes),
		Body: func(r *engine.Run) {
			x := []*xtorm.XPipe{xtorm.New(0), xtorm.New(0)}
			want := make([][]exp, 2)
			used := false
			for i := 0; i < depth; i++ {
				k := 0
				if used || i > 0 { // the first builder is used first
					k = r.Choose(2, "builder")
				}
				used = true
				step := r.Choose(3+len(sizes), "step")
				r.Step()
				switch step {
				case 0, 1:
					var rerr error
					if step == 1 {
						rerr = &tagError{"e"}
					}
					_, err := x[k].Send(bg, sendFunc(func(c context.Context, b []byte) ([]netx.Response, error) {
						if err := checkStream(b, want[k]); err != nil {
							r.Failf("step %d, builder %d: Send: %v", i, k, err)
						}
						return nil, rerr
					}))
					if err != rerr {
						r.Failf("step %d, builder %d: Send returned %v, the connection %v", i, k, err, rerr)
					}
				case 2:
					x[k].Reset()
					want[k] = nil
				default:
					s := fmt.Sprintf("%d%d%s", i, k, pattern(sizes[step-3]))
					x[k].StmtExecute(s)
					want[k] = append(want[k], one("StmtExecute{stmt="+mStr(s)+" }"))
				}
			}
			for k := range x {
				c, err := send(x[k])
				if err != nil {
					r.Failf("builder %d: Send: %v", k, err)
				}
				if err := checkStream(c.buf, want[k]); err != nil {
					r.Failf("builder %d: Send: %v", k, err)
				}
				r.State(c.buf)
			}
		}}
}

// largeSends: units of work of many megabytes, sent twice, extended and sent again.
func largeSends(deep bool) engine.Scenario {
	sizes := []int{1<<16 - 9, 1<<16 + 1, 1 << 18, 1<<20 + 1, 1<<22 + 1, 1<<24 - 1, 1<<24 + 1, 1<<26 + 1}
	if deep {
		sizes = append(sizes, 1<<27+1, 1<<28+1)
	}
	capacities := []int{0, 1 << 20, 1 << 27}
	return engine.Scenario{Name: "large units of work",
		Bound: fmt.Sprintf("units of work holding a statement of %v bytes or as many bytes in 64 statements, sent twice, extended and sent again, answered with responses, an error or both; live and cancelled context; initial capacities %v", sizes, capacities),
		Body: func(r *engine.Run) {
			n := sizes[r.Choose(len(sizes), "size")]
			parts := []int{1, 64}[r.Choose(2, "statements")]
			x := xtorm.New(capacities[r.Choose(len(capacities), "capacity")])
			o := sendOutcomes[r.Choose(len(sendOutcomes), "outcome")]
			ctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, n))
			defer cancel()
			if r.Bool("cancelled") {
				cancel()
			}
			part := pattern(n / parts)
			one1 := one("StmtExecute{stmt=" + mStr(part) + " }")
			var want []exp
			for i := 0; i < parts; i++ {
				x.StmtExecute(part)
				want = append(want, one1)
			}
			for k := 0; k < 3; k++ {
				if k == 2 {
					x.StmtExecute("SELECT 2")
					want = append(want, one("StmtExecute{stmt="+mStr("SELECT 2")+" }"))
				}
				resp, rerr := o.resp(k), o.err(k)
				calls := 0
				out, err := x.Send(ctx, sendFunc(func(c context.Context, b []byte) ([]netx.Response, error) {
					calls++
					if c.Value(ctxKey{}) != n || (c.Err() != nil) != (ctx.Err() != nil) {
						r.Failf("Send %d of %d bytes gives the connection another context", k, n)
					}
					if calls == 1 {
						if err := checkStream(b, want); err != nil {
							r.Failf("Send %d of %d bytes: %v", k, n, err)
						}
					}
					return resp, rerr
				}))
				r.Step()
				if calls != 1 {
					r.Failf("Send %d of %d bytes uses the connection %d times", k, n, calls)
				}
				if err != rerr || !sameResponses(out, resp) {
					r.Failf("Send %d of %d bytes: the connection answered %v, %v; Send returned %v, %v", k, n, resp, rerr, out, err)
				}
			}
			r.StateS(fmt.Sprint(n, parts, o.name))
		}}
}

func init() {
	register(&Prop{ID: "C28", Scenarios: func(t Tier) []engine.Scenario {
		core := coreAlphabet()
		return []engine.Scenario{
			sendHistory("histories", core, coreFaults()[:3], t.pick(4, 5), []int{0, 64}),
			sendHistory("longer histories", []*op{core[0], core[5], core[10]}, coreFaults()[2:3], t.pick(6, 7), []int{0}),
			sendHistory("all rejections", core[:2], coreFaults(), t.pick(4, 5), []int{512}),
			everyOutcome(),
			largeSends(t.Thorough),
			twoPipes(t.pick(5, 6)),
		}
	}})
}
