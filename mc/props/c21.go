package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"verif.local/mc/engine"
	"verif.local/mc/vsched"
	"verif.local/mc/xwire"
)

// job is the work of one thread. run is executed under the scheduler and
// touches only the job's own data and what is deliberately shared; check is
// called afterwards and says what is wrong with the outcome.
type job struct {
	name  string
	run   func()
	check func() (out []byte, err error)
}

// together runs the jobs under every schedule and checks that each ends as it
// does on its own.
func together(r *engine.Run, jobs ...*job) {
	races := vsched.RaceErrors()
	vsched.Execute(chooser{r}, func(s *vsched.Sched) {
		if r.Verbose {
			s.Trace = func(th, loc string) { r.Notef("%s runs from %s", th, loc) }
		}
		s.OnStep = func(s *vsched.Sched) {
			h := uint64(14695981039346656037)
			s.Locs(func(i int, loc string, parked bool) { h = (h ^ engine.HashS(loc)) * 1099511628211 })
			r.StateH(h)
			r.Step()
		}
		for i, j := range jobs {
			s.Go(fmt.Sprintf("thread %d (%s)", i, j.name), j.run)
		}
		if err := s.Run(); err != nil {
			r.Failf("%v", err)
		}
		for i, j := range jobs {
			out, err := j.check()
			if err != nil {
				r.Failf("thread %d (%s), alongside %s: %v", i, j.name, jobs[1-i].name, err)
			}
			r.State(out)
		}
	})
	if vsched.RaceErrors() > races {
		r.FailSuref("data race between %s and %s", jobs[0].name, jobs[1].name)
	}
}

// build is a job that builds and sends a unit of work with a builder of its own.
func build(name string, size int, f func(x *xtorm.XPipe), want func() []exp) *job {
	var c *capture
	var err error
	return &job{name: name,
		run: func() {
			x := xtorm.New(size)
			f(x)
			c, err = send(x)
		},
		check: func() ([]byte, error) {
			if err != nil {
				return nil, fmt.Errorf("Send reported %q for valid input", err)
			}
			if c.calls != 1 {
				return nil, fmt.Errorf("Send called the connection %d times", c.calls)
			}
			return c.buf, checkStream(c.buf, want())
		}}
}

func progJob(size int, prog []node) *job {
	return build(fmt.Sprint(prog), size, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) },
		func() []exp { return modelProg(&env{}, prog) })
}

// deterministic drops the operations whose run depends on the order of a map.
func deterministic(ops []*op) []*op {
	var out []*op
	for _, o := range ops {
		if o.name != "Update(2 sets)" {
			out = append(out, o)
		}
	}
	return out
}

// pairOf chooses an unordered pair.
func pairOf(r *engine.Run, n int, label string) (int, int) {
	a := r.Choose(n, label)
	return a, a + r.Choose(n-a, label)
}

func builderPairs(name string, alpha []*op, containers bool, pre int) engine.Scenario {
	wraps := []*container{nil}
	if containers {
		wraps = append(wraps, txContainer(2), expectContainer(false))
	}
	return engine.Scenario{Name: name, DevMax: pre, Config: 3, Weight: 2 * pre,
		Bound: fmt.Sprintf("every pair of %d operations on separate builders (plain or nested in %d containers), sharing arguments and criteria; all interleavings with <= %d preemptions at any statement", len(alpha), len(wraps)-1, pre),
		Body: func(r *engine.Run) {
			a, b := pairOf(r, len(alpha), "operation")
			w := wraps[r.Choose(len(wraps), "nesting")]
			mk := func(k int) *job {
				prog := []node{{op: alpha[k]}}
				if w != nil {
					prog = []node{{cont: w, body: prog}}
				}
				return progJob(0, prog)
			}
			together(r, mk(a), mk(b))
		}}
}

func valuePairs(name string, cs []carrier, vs []val, pre int) engine.Scenario {
	return engine.Scenario{Name: name, DevMax: pre, Config: 3, Weight: 2 + 2*pre,
		Bound: fmt.Sprintf("every pair of %d values of every kind, sent in %d ways through separate builders; all interleavings with <= %d preemptions at any statement", len(vs), len(cs), pre),
		Body: func(r *engine.Run) {
			a, b := pairOf(r, len(vs), "value")
			c := cs[r.Choose(len(cs), "carrier")]
			mk := func(k int) *job {
				v := vs[k]
				return build(v.name+" through "+c.name, 0, func(x *xtorm.XPipe) { c.send(x, v.v) }, func() []exp { return c.want(v.s) })
			}
			together(r, mk(a), mk(b))
		}}
}

// sharedExprs: both threads use the same expression, or build their own with
// the same constructor from the same operands.
func sharedExprs(cs []ctor, places []int, pre int) engine.Scenario {
	leaves := []val{{"col", xtorm.Column("c1"), mCol("c1")}, vStr(pattern(130)), vInt(-70)}
	return engine.Scenario{Name: "shared expressions", DevMax: pre, Config: 4,
		Bound: fmt.Sprintf("%d expression constructors used by two threads at once in every pair of %d places, shared or built by each; all interleavings with <= %d preemptions at any statement", len(cs), len(places), pre),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "constructor")]
			shared := r.Bool("shared")
			p, q := pairOf(r, len(places), "place")
			var a []interface{}
			var s []string
			for i := 0; i < c.n; i++ {
				l := leaves[i%len(leaves)]
				a, s = append(a, l.v), append(s, l.s)
			}
			f := c.mk(a)
			mk := func(k int) *job {
				pl := exprPlaces[places[k]]
				return build(c.name+" as "+pl.name, 0, func(x *xtorm.XPipe) {
					if shared {
						pl.send(x, f)
					} else {
						pl.send(x, c.mk(a))
					}
				}, func() []exp { return pl.want(c.text(s)) })
			}
			together(r, mk(p), mk(q))
		}}
}

// failing builders next to valid ones.
func failurePairs(fs []fault, pre int) engine.Scenario {
	good := coreAlphabet()
	return engine.Scenario{Name: "failing and valid units of work", DevMax: pre, Config: 2,
		Bound: fmt.Sprintf("each of %d rejected operations next to each of %d valid ones on separate builders; all interleavings with <= %d preemptions at any statement", len(fs), len(good), pre),
		Body: func(r *engine.Run) {
			f := fs[r.Choose(len(fs), "fault")]
			g := good[r.Choose(len(good), "operation")]
			var c *capture
			var err error
			bad := &job{name: f.name, run: func() {
				x := xtorm.New(0)
				f.do(&x.Builder)
				c, err = send(x)
			}, check: func() ([]byte, error) {
				if err == nil || c.calls != 0 {
					return nil, fmt.Errorf("Send reported %v and sent %d times", err, c.calls)
				}
				return []byte(err.Error()), nil
			}}
			together(r, bad, progJob(0, []node{{op: g}}))
		}}
}

// schedConn is a connection with scheduling points at its operations.
type schedConn struct{ *memConn }

func (c schedConn) Read(p []byte) (int, error) {
	vsched.At("socket read")
	return c.memConn.Read(p)
}

func (c schedConn) Write(p []byte) (int, error) {
	vsched.At("socket write")
	return c.memConn.Write(p)
}

// authJob authenticates on a connection of its own.
func authJob(name string, s authentication.Starter, c cred, challenge string) *job {
	var verr, err error
	step := 0
	mc := &memConn{}
	mc.onWrite = func(m *memConn, p []byte) {
		typ, mech, data, _, e := authMessage(p)
		switch {
		case verr != nil:
		case e != nil:
			verr = e
		case step == 0 && (typ != cAuthStart || mech != name):
			verr = fmt.Errorf("first message of type %d naming %q", typ, mech)
		case step == 0 && name == "PLAIN":
			verr = verifyProof(name, c, nil, data)
			m.in = append(m.in, frame(sAuthOK, nil)...)
		case step == 0:
			m.in = append(m.in, authContinueFrame(challenge)...)
		case step == 1 && name != "PLAIN" && typ == cAuthContinue:
			verr = verifyProof(name, c, []byte(challenge), data)
			m.in = append(m.in, frame(sAuthOK, nil)...)
		default:
			verr = fmt.Errorf("message %d of type %d", step, typ)
		}
		step++
	}
	return &job{name: fmt.Sprintf("%s for %s", name, c.user),
		run: func() { err = newConn(schedConn{mc}).Authenticate(bg, c, s) },
		check: func() ([]byte, error) {
			if verr == nil && err != nil {
				verr = fmt.Errorf("Authenticate reported %v", err)
			}
			return bytes.Join(mc.writes, nil), verr
		}}
}

// exchangeJob exchanges units of work on a connection of its own.
func exchangeJob(name string, big int, code uint32, chunk func() func(int) int, units int) *job {
	msgs, rs := richReplies(big)
	e := srvErr{0, code, "HY000", name + " failed"}
	rs[1] = reply{b: append(noticeFrame(1), e.frame()...), err: &e}
	mc := &memConn{chunk: chunk()}
	mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, replyBytes(rs)...) }
	uow := joinMsgs(msgs)
	outs := make([][]netx.Response, units)
	errs := make([]error, units)
	return &job{name: name,
		run: func() {
			c := newConn(schedConn{mc})
			for i := range outs {
				outs[i], errs[i] = c.Send(bg, uow)
			}
		},
		check: func() ([]byte, error) {
			for i, out := range outs {
				if errs[i] != nil || mc.blocked {
					return nil, fmt.Errorf("Send failed: %v", errs[i])
				}
				if len(out) != len(rs) {
					return nil, fmt.Errorf("%d messages got %d responses", len(rs), len(out))
				}
				for k, x := range rs {
					if x.err == nil && out[k] != nil || x.err != nil && !x.err.matches(out[k]) {
						return nil, fmt.Errorf("message %d got the response %v, want %v", k, out[k], x.err)
					}
				}
			}
			w := bytes.Join(mc.writes, nil)
			if !bytes.Equal(w, bytes.Repeat(uow, units)) {
				return nil, errors.New("the units of work were not written as given")
			}
			return w, nil
		}}
}

func exchangePairs(name string, sizes []int, chunks []chunking, units, pre int) engine.Scenario {
	return engine.Scenario{Name: name, DevMax: pre, Config: 4, Weight: 2 * pre,
		Bound: fmt.Sprintf("two threads exchanging %d units of work each on separate connections, with rows of %v bytes (the read buffer has 4096), delivered at once or in pieces; all interleavings with <= %d preemptions at any statement", units, sizes, pre),
		Body: func(r *engine.Run) {
			a, b := sizes[r.Choose(len(sizes), "size")], sizes[r.Choose(len(sizes), "size")]
			k, l := r.Choose(len(chunks), "delivery"), r.Choose(len(chunks), "delivery")
			if a > 4096 && k == 1 || b > 4096 && l == 1 {
				r.Prune() // thousands of reads
			}
			together(r, exchangeJob("first", a, 1111, chunks[k].mk, units), exchangeJob("second", b, 2222, chunks[l].mk, units))
		}}
}

// echoReply answers every message of a unit of work with an error that
// carries the message's hash, so that a response can be matched to it.
func echoReply(f []byte) (b []byte, e srvErr) {
	e = srvErr{0, uint32(engine.Hash(f)), "HY000", fmt.Sprintf("echo of %d bytes", len(f))}
	return e.frame(), e
}

type memConnector struct{}

func (memConnector) New(ctx context.Context) (netx.Conn, error) {
	mc := &memConn{}
	mc.onWrite = func(m *memConn, p []byte) {
		fs, _ := xwire.Frames(p)
		for _, f := range fs {
			b, _ := echoReply(f.Payload)
			m.in = append(m.in, b...)
		}
	}
	return newConn(schedConn{mc}), nil
}

// poolJob builds a unit of work and sends it through a shared sender; every
// message must get its own echo.
func poolJob(s netx.Sender, prog []node) *job {
	var out []netx.Response
	var err error
	var sent []byte
	calls := 0
	return &job{name: fmt.Sprint(prog),
		run: func() {
			x := xtorm.New(0)
			runProg(&x.Builder, &env{}, prog)
			out, err = x.Send(bg, sendFunc(func(ctx context.Context, b []byte) ([]netx.Response, error) {
				calls++
				sent = bytes.Clone(b)
				return s.Send(ctx, b)
			}))
		},
		check: func() ([]byte, error) {
			if err != nil || calls != 1 {
				return nil, fmt.Errorf("Send reported %v and used the pool %d times", err, calls)
			}
			if err := checkStream(sent, modelProg(&env{}, prog)); err != nil {
				return nil, err
			}
			fs, _ := xwire.Frames(sent)
			if len(fs) != len(out) {
				return nil, fmt.Errorf("%d messages got %d responses", len(fs), len(out))
			}
			for i, f := range fs {
				if _, e := echoReply(f.Payload); !e.matches(out[i]) {
					return nil, fmt.Errorf("the response to message %d is %v, want %+v", i, out[i], e)
				}
			}
			return sent, nil
		}}
}

// Shared connector: a server outside the scheduler's control answers each
// connection by itself.
type authServer struct {
	mu     sync.Mutex
	ln     net.Listener
	tls    bool
	n      int
	deny   [8]bool // by connection: refuse everything but PLAIN
	mech   string
	c      cred
	errs   []string
	closed sync.WaitGroup
}

func (s *authServer) failf(f string, a ...interface{}) {
	s.mu.Lock()
	s.errs = append(s.errs, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *authServer) accept() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		k := s.n
		s.n++
		s.mu.Unlock()
		s.closed.Add(1)
		go func() {
			defer s.closed.Done()
			defer c.Close()
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.SetDeadline(time.Now().Add(20 * time.Second))
			s.serve(c, k)
		}()
	}
}

func (s *authServer) serve(c net.Conn, k int) {
	read := func() (typ byte, b []byte, err error) {
		var h [5]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return 0, nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		b = append(h[:], make([]byte, n-1)...)
		_, err = io.ReadFull(c, b[5:])
		return h[4], b, err
	}
	s.mu.Lock()
	mech, deny := s.mech, s.deny[k%8]
	s.mu.Unlock()
	challenge := fmt.Sprintf("challenge-%08d!!", k)
	for {
		typ, b, err := read()
		if err != nil {
			return // the client is done
		}
		switch typ {
		case 2: // CapabilitiesSet
			if !s.tls {
				s.failf("connection %d asks for capabilities", k)
				return
			}
			c.Write(frame(sOK, nil))
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{pki.certs[certGood]}})
			if err := t.Handshake(); err != nil {
				s.failf("connection %d: TLS handshake: %v", k, err)
				return
			}
			c = t
		case cAuthStart:
			_, m, data, _, err := authMessage(b)
			switch {
			case err != nil:
				s.failf("connection %d: %v", k, err)
				return
			case m == "PLAIN" && (mech == "PLAIN" || deny):
				if err := verifyProof(m, s.c, nil, data); err != nil {
					s.failf("connection %d: %v", k, err)
				}
				c.Write(frame(sAuthOK, nil))
			case m != mech:
				s.failf("connection %d authenticates with %q", k, m)
				return
			default:
				c.Write(authContinueFrame(challenge))
			}
		case cAuthContinue:
			_, _, data, _, err := authMessage(b)
			if err == nil {
				err = verifyProof(mech, s.c, []byte(challenge), data)
			}
			if err != nil {
				s.failf("connection %d: %v", k, err)
			}
			if deny {
				c.Write(srvErr{0, 1045, "HY000", "Invalid user or password"}.frame())
			} else {
				c.Write(frame(sAuthOK, nil))
			}
		default:
			out, _ := echoReply(b[5:])
			c.Write(out)
		}
	}
}

func sharedConnector(transport int, pre int) engine.Scenario {
	tr := []string{"unix", "tcp", "tcp+tls"}[transport]
	denials := 1
	if transport != 1 {
		denials = 4
	}
	return engine.Scenario{Name: "one connector, " + tr, DevMax: pre, Config: 2,
		Bound: fmt.Sprintf("two threads connect with one connector over %s sockets and exchange a message each; %d mechanisms, every connection with its own challenge, each accepted or (%d combinations) denied and retried in clear text; all interleavings with <= %d preemptions at any statement", tr, len(mechs), denials, pre),
		Body: func(r *engine.Run) {
			m := mechs[r.Choose(len(mechs), "mechanism")]
			deny := r.Choose(denials, "denied")
			setupPKI()
			s := &authServer{mech: m.name, c: stdCred, tls: transport == 2}
			s.deny[0], s.deny[1] = deny&1 != 0, deny&2 != 0
			network, addr := "tcp", "127.0.0.1:0"
			if transport == 0 {
				network, addr = "unix", filepath.Join(pki.dir, fmt.Sprintf("s%d-%d", os.Getpid(), pki.seq.Add(1)))
			}
			ln, err := listen(network, addr)
			if err != nil {
				r.HarnessFailf("%v", err)
			}
			s.ln = ln
			go s.accept()
			opts := []connector.Option{connector.WithUserPassword(stdCred.user, stdCred.pass), connector.WithDatabase(stdCred.db), connector.WithAuthentication(m.mk())}
			if transport == 2 {
				now := time.Now()
				opts = append(opts, connector.WithTLSConfig(&tls.Config{RootCAs: pki.roots, ServerName: tlsName, Time: func() time.Time { return now }}))
			}
			cn, err := connector.New(network, ln.Addr().String(), opts...)
			if err != nil {
				ln.Close()
				r.Failf("connector.New: %v", err)
			}
			defer func() {
				ln.Close()
				if transport == 0 {
					os.Remove(addr)
				}
			}()
			mk := func(k int) *job {
				var conn netx.Conn
				var err error
				var out []netx.Response
				body := bytes.Repeat([]byte{byte(7 + k)}, 3+k)
				uow := frame(12, body)
				return &job{name: fmt.Sprintf("connection %d", k),
					run: func() {
						if conn, err = cn.New(bg); err != nil {
							return
						}
						out, err = conn.Send(bg, uow)
						conn.Close()
					},
					check: func() ([]byte, error) {
						if err != nil {
							return nil, err
						}
						if len(out) != 1 {
							return nil, fmt.Errorf("%d responses", len(out))
						}
						if _, e := echoReply(body); !e.matches(out[0]) {
							return nil, fmt.Errorf("the response is %v, want %+v", out[0], e)
						}
						return nil, nil
					}}
			}
			together(r, mk(0), mk(1))
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(s.errs) > 0 {
				r.Failf("server: %v", s.errs)
			}
		}}
}

func init() {
	register(&Prop{ID: "C21", Sched: true, Assumptions: append([]string{
		"The statements of the standard library and of the protobuf runtime are not interleaved; the race detector covers them.",
	}, poolAssumptions...), Scenarios: func(t Tier) []engine.Scenario {
		pre := func(q, th, rq, rth int) int {
			if vsched.Race {
				return t.pick(rq, rth)
			}
			return t.pick(q, th)
		}
		chunks := chunkings[:2]
		vs := baseVals()
		if !t.Thorough {
			// one value of each kind
			vs = vs[:26]
			for _, k := range strKinds {
				vs = append(vs, k.mk(pattern(130)))
			}
		}
		second := cred{"second", "other+password", ""}
		creds := [][2]cred{{stdCred, second}, {stdCred, stdCred}, {second, {"", "", pattern(130)}}}[:t.pick(2, 3)]
		core := deterministic(coreAlphabet())
		six := []*op{core[0], core[2], core[4], core[8], core[9], core[5]}
		return []engine.Scenario{
			builderPairs("pairs of operations", six[:t.pick(5, 6)], false, pre(2, 3, 1, 2)),
			builderPairs("pairs of core operations", core, false, pre(1, 2, 1, 1)),
			builderPairs("pairs of nested operations", deterministic(coreAlphabet()), true, pre(1, 2, 0, 1)),
			builderPairs("pairs of all shapes", deterministic(fullAlphabet()), false, pre(1, 2, 0, 1)),
			valuePairs("pairs of arguments", argCarriers[:t.pick(1, 2)], vs, pre(1, 2, 0, 1)),
			valuePairs("pairs of literals", exprCarriers[:t.pick(1, 6)], vs, pre(1, 1, 0, 1)),
			sharedExprs(ctors(), []int{3, 0}[t.pick(1, 0):], pre(1, 1, 0, 1)),
			failurePairs(coreFaults(), pre(1, 2, 0, 1)),
			{Name: "two authentications", DevMax: pre(2, 4, 1, 2), Config: 3, Weight: 4,
				Bound: fmt.Sprintf("two threads authenticating on separate connections, 3x3 mechanisms (shared if the same), same or different credentials, different challenges; all interleavings with <= %d preemptions at any statement", pre(2, 4, 1, 2)),
				Body: func(r *engine.Run) {
					m, n := r.Choose(len(mechs), "mechanism"), r.Choose(len(mechs), "mechanism")
					k := r.Choose(len(creds), "credentials")
					s1, s2 := mechs[m].mk(), mechs[n].mk()
					if m == n {
						s2 = s1
					}
					together(r, authJob(mechs[m].name, s1, creds[k][0], "abcdefghijklmnopqrst"), authJob(mechs[n].name, s2, creds[k][1], "98765432109876543210"))
				}},
			exchangePairs("two exchanges", []int{3}, chunks, 1, pre(2, 3, 1, 2)),
			exchangePairs("two threads, two exchanges each", []int{3, 5000}, chunks, 2, pre(1, 2, 0, 1)),
			{Name: "through one pool", DevMax: pre(1, 2, 0, 1), Config: 3,
				Bound: fmt.Sprintf("two threads building different units of work and sending them through one pool, every pair of operations; pools of 0 and 1; all interleavings with <= %d preemptions at any statement", pre(1, 2, 0, 1)),
				Body: func(r *engine.Run) {
					alpha := deterministic(coreAlphabet())
					a, b := pairOf(r, len(alpha), "operation")
					size := r.Choose(2, "size")
					p := fifoch.New(memConnector{}, size)
					together(r, poolJob(p, []node{{op: alpha[a]}, {op: opDealloc(11)}}), poolJob(p, []node{{op: alpha[b]}}))
				}},
			sharedConnector(0, pre(1, 2, 0, 1)),
			sharedConnector(1, pre(1, 1, 0, 0)),
			sharedConnector(2, pre(1, 1, 0, 0)),
		}
	}})
}
