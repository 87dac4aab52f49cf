package props

import (
	"context"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// simServer is a model of a MySQL server's X Plugin: transactions, autocommit, implicit commit
// at START TRANSACTION, rollback on disconnect, and expectation blocks.
type simServer struct {
	r       *engine.Run
	durable map[string]int
	conns   []*simConn
	faults  bool
	uow     int
}

type simConn struct {
	s       *simServer
	mc      *memConn
	alive   bool
	inTx    bool
	pending []string
	stack   []block
}

type block struct {
	failOnError bool
	failed      bool
}

var marker = regexp.MustCompile(`W[0-9]+\.[0-9]+\.[0-9]+`)

var (
	eStmt     = srvErr{0, 1062, "23000", "Duplicate entry"}
	eDeadlock = srvErr{0, 1213, "40001", "Deadlock found when trying to get lock"}
	eExpect   = srvErr{0, 5159, "HY000", "Expectation failed: no_error"}
	eFatal    = srvErr{1, 1053, "08S01", "Server shutdown in progress"}
	eTxChar   = srvErr{0, 1568, "25001", "Transaction characteristics can't be changed while a transaction is in progress"}
	eNoBlock  = srvErr{0, 5158, "HY000", "Expect block currently not open"}
)

// New implements netx.Connector.
func (s *simServer) New(ctx context.Context) (netx.Conn, error) {
	c := &simConn{s: s, alive: true}
	c.mc = &memConn{}
	c.mc.onWrite = func(m *memConn, p []byte) { c.receive(p) }
	s.conns = append(s.conns, c)
	return &simNetConn{newConn(c.mc), c}, nil
}

// simNetConn tells the server when the client closes.
type simNetConn struct {
	netx.Conn
	c *simConn
}

func (n *simNetConn) Close() error {
	err := n.Conn.Close()
	n.c.drop()
	return err
}

// drop ends the session: an open transaction is rolled back.
func (c *simConn) drop() {
	c.alive = false
	c.inTx = false
	c.pending = nil
	c.mc.readErr = io.EOF
}

func (c *simConn) commit() {
	for _, w := range c.pending {
		c.s.durable[w]++
	}
	c.pending = nil
	c.inTx = false
}

func (c *simConn) write(ws []string) {
	if c.inTx {
		c.pending = append(c.pending, ws...)
		return
	}
	for _, w := range ws {
		c.s.durable[w]++
	}
}

// Faults a message can meet.
const (
	fNone = iota
	fStmtError
	fRollbackError
	fFatal
	fLostBefore
	fLostAfter
	fRepliesLost
	fWriteError
	nFaults
)

var faultNames = []string{"none", "statement error", "error that rolls the transaction back", "fatal error", "connection lost before", "connection lost after", "server goes on but its replies are lost", "write fails after this message is executed"}

// receive processes the unit of work p, message by message.
func (c *simConn) receive(p []byte) {
	fs, err := xwire.Frames(p)
	if err != nil {
		c.s.r.Failf("the unit of work is not a sequence of messages: %v", err)
	}
	silent, at := false, 0
	for i, f := range fs {
		if !c.alive {
			return
		}
		fault := fNone
		if c.s.faults {
			fault = c.s.r.Dev(nFaults, "fault")
		}
		if fault != fNone {
			c.s.r.Notef("unit of work %d, message %d (type %d): %s", c.s.uow, i, f.Type, faultNames[fault])
		}
		c.s.r.Step()
		switch fault {
		case fFatal:
			if !silent {
				c.mc.in = append(c.mc.in, eFatal.frame()...)
			}
			c.drop()
			return
		case fLostBefore:
			c.drop()
			return
		}
		e := c.handle(f, fault)
		at += 5 + len(f.Payload)
		switch fault {
		case fWriteError:
			c.mc.writeErr, c.mc.writeN = io.ErrClosedPipe, at
			c.drop()
			return
		case fLostAfter:
			c.drop()
			return
		}
		if fault == fRepliesLost {
			silent = true
			c.mc.readErr = io.EOF
		}
		if silent {
			continue
		}
		switch {
		case e != nil:
			c.mc.in = append(c.mc.in, e.frame()...)
		case f.Type == 24 || f.Type == 25 || f.Type == 40 || f.Type == 42:
			c.mc.in = append(c.mc.in, frame(sOK, nil)...)
		default:
			c.mc.in = append(c.mc.in, noticeFrame(4)...)
			c.mc.in = append(c.mc.in, frame(sStmtExecuteOK, nil)...)
		}
	}
}

// handle executes one message and returns the error to report.
func (c *simConn) handle(f xwire.Frame, fault int) *srvErr {
	n := len(c.stack)
	failedAlready := n > 0 && c.stack[n-1].failed
	switch f.Type {
	case 24:
		canon, err := f.Canon()
		if err != nil {
			c.s.r.Failf("%v", err)
		}
		b := block{}
		if n > 0 && canon != mOpen(true) {
			b.failOnError = c.stack[n-1].failOnError
		}
		if canon == mOpen(true) || canon == mOpen(false) {
			b.failOnError = true
		}
		b.failed = failedAlready
		c.stack = append(c.stack, b)
		if failedAlready {
			return &eExpect
		}
		if fault == fStmtError || fault == fRollbackError {
			c.stack = c.stack[:n]
			// the block is not opened, so its close will be unmatched; the parent fails
			c.fail()
			c.stack = append(c.stack, block{failOnError: true, failed: true})
			return &eStmt
		}
		return nil
	case 25:
		if n == 0 {
			return &eNoBlock
		}
		c.stack = c.stack[:n-1]
		if failedAlready || fault == fStmtError || fault == fRollbackError {
			c.fail()
			return &eExpect
		}
		return nil
	}
	if failedAlready {
		return &eExpect
	}
	switch fault {
	case fStmtError:
		c.fail()
		return &eStmt
	case fRollbackError:
		c.inTx, c.pending = false, nil
		c.fail()
		return &eDeadlock
	}
	switch f.Type {
	case 12:
		stmt := xwire.BytesFields(f.Payload)[1]
		switch {
		case strings.HasPrefix(stmt, "START TRANSACTION") || stmt == "BEGIN":
			c.commit() // implicit commit of an open transaction
			c.inTx = true
		case stmt == "COMMIT":
			c.commit()
		case stmt == "ROLLBACK":
			c.inTx, c.pending = false, nil
		case strings.HasPrefix(stmt, "SET TRANSACTION"):
			if c.inTx {
				c.fail()
				return &eTxChar
			}
		default:
			c.write(marker.FindAllString(string(f.Payload), -1))
		}
	case 18, 19, 20, 41:
		c.write(marker.FindAllString(string(f.Payload), -1))
	case 6: // session reset
		c.inTx, c.pending, c.stack = false, nil, nil
	}
	return nil
}

func (c *simConn) fail() {
	if n := len(c.stack); n > 0 && c.stack[n-1].failOnError {
		c.stack[n-1].failed = true
	}
}

// txUow is a unit of work; build returns nothing, its transactions are numbered in order.
type txUow struct {
	name  string
	txs   []int // writes per transaction
	build func(b *xtorm.Builder, w func(tx, k int) string)
}

func inBlock(b *xtorm.Builder, f func(b *xtorm.Builder)) {
	b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { f(b); return nil })
}

func txDo(b *xtorm.Builder, l xtorm.IsolationLevel, f func(b *xtorm.Builder)) {
	b.Tx(l, func(b *xtorm.Builder) error { f(b); return nil })
}

func txUows() []txUow {
	crit := func(id int) func(p []byte, tag uint8) ([]byte, error) {
		return xtorm.Eq(xtorm.Column("id"), id)
	}
	return []txUow{
		{"insert and update", []int{2}, func(b *xtorm.Builder, w func(tx, k int) string) {
			inBlock(b, func(b *xtorm.Builder) {
				txDo(b, xtorm.IsolationLevelDefault, func(b *xtorm.Builder) {
					b.Insert("t", []string{"a"}, [][]interface{}{{w(0, 0)}})
					b.Update("t", crit(1), map[string]interface{}{"a": w(0, 1)})
				})
			})
		}},
		{"prepared", []int{3}, func(b *xtorm.Builder, w func(tx, k int) string) {
			inBlock(b, func(b *xtorm.Builder) {
				b.Prepare(1, "INSERT INTO t(a) VALUES(?)")
				txDo(b, xtorm.IsolationLevelSerializable, func(b *xtorm.Builder) {
					b.Execute(1, w(0, 0))
					b.Execute(1, w(0, 1))
					b.StmtExecute("DELETE FROM t WHERE a=?", w(0, 2))
				})
				b.Deallocate(1)
			})
		}},
		{"two transactions", []int{2, 1}, func(b *xtorm.Builder, w func(tx, k int) string) {
			inBlock(b, func(b *xtorm.Builder) {
				txDo(b, xtorm.IsolationLevelSnapshot, func(b *xtorm.Builder) {
					b.InsertRow("t", []string{"a"}, []interface{}{w(0, 0)})
					b.StmtExecute("UPDATE t SET a=?", w(0, 1))
				})
				txDo(b, xtorm.IsolationLevelReadCommitted, func(b *xtorm.Builder) {
					b.Delete("t", xtorm.Eq(xtorm.Column("a"), w(1, 0)))
				})
			})
		}},
		{"nested blocks", []int{2}, func(b *xtorm.Builder, w func(tx, k int) string) {
			inBlock(b, func(b *xtorm.Builder) {
				txDo(b, xtorm.IsolationLevelDefault, func(b *xtorm.Builder) {
					b.StmtExecute("INSERT INTO t VALUES(?)", w(0, 0))
					b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, func(b *xtorm.Builder) error {
						b.StmtExecute("INSERT INTO t VALUES(?)", w(0, 1))
						return nil
					})
				})
			})
		}},
		{"two blocks", []int{1, 1}, func(b *xtorm.Builder, w func(tx, k int) string) {
			for i := 0; i < 2; i++ {
				inBlock(b, func(b *xtorm.Builder) {
					txDo(b, xtorm.IsolationLevelRepeatableRead, func(b *xtorm.Builder) {
						b.StmtExecute("INSERT INTO t VALUES(?)", w(i, 0))
					})
				})
			}
		}},
		// not transactional itself; a neighbour that could complete someone else's transaction
		{"autocommitted statement", nil, func(b *xtorm.Builder, w func(tx, k int) string) {
			b.StmtExecute("SELECT 1")
		}},
		{"bare START TRANSACTION and COMMIT", []int{1}, func(b *xtorm.Builder, w func(tx, k int) string) {
			inBlock(b, func(b *xtorm.Builder) {
				txDo(b, xtorm.IsolationLevelReadUncommitted, func(b *xtorm.Builder) {
					b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(w(0, 0)); return nil })
				})
				b.StmtExecute("COMMIT")
			})
		}},
	}
}

// longUows are transactions of every isolation level, of 1..max changes, in one
// block or with the block's other statements around.
func longUows(max int) []txUow {
	var out []txUow
	for _, l := range isoLevels {
		for n := 1; n <= max; n++ {
			for kind := 0; kind < 3; kind++ {
				l, n, kind := l, n, kind
				out = append(out, txUow{fmt.Sprintf("%s, %d changes, kind %d", l.name, n, kind), []int{n}, func(b *xtorm.Builder, w func(tx, k int) string) {
					inBlock(b, func(b *xtorm.Builder) {
						if kind == 1 {
							b.Prepare(1, "INSERT INTO t(a) VALUES(?)")
						}
						txDo(b, l.level, func(b *xtorm.Builder) {
							for k := 0; k < n; k++ {
								switch {
								case kind == 1:
									b.Execute(1, w(0, k))
								case kind == 2 && k%3 == 0:
									b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(w(0, k)); return nil })
								case kind == 2 && k%3 == 1:
									b.UpdateF("t", crit7, func(u *xtorm.Update) error { u.Set("a", w(0, k)); return nil })
								default:
									b.StmtExecute("INSERT INTO t VALUES(?)", w(0, k))
								}
							}
						})
						if kind == 1 {
							b.Deallocate(1)
						}
					})
				}})
			}
		}
	}
	return out
}

var crit7 = xtorm.Eq(xtorm.Column("id"), 7)

type txRecord struct {
	name      string
	writes    []string
	mustNot   bool
	committed bool
}

func poolScenario(name string, uows []txUow, nUow, faults int, sizes []int, firsts []txUow) engine.Scenario {
	if firsts == nil {
		firsts = uows
	}
	return engine.Scenario{
		Name:   name,
		DevMax: faults,
		Bound:  fmt.Sprintf("every sequence of %d units of work out of %d shapes (the first out of %d) through pools of %v connections, with <= %d faults (%d kinds) placed at any message", nUow, len(uows), len(firsts), sizes, faults, nFaults-1),
		Body: func(r *engine.Run) {
			s := &simServer{r: r, durable: map[string]int{}, faults: true}
			p := fifoch.New(s, sizes[r.Choose(len(sizes), "pool size")])
			var txs []*txRecord
			check := func(when string) {
				for _, t := range txs {
					n := 0
					for _, w := range t.writes {
						if s.durable[w] > 0 {
							n++
						}
						if s.durable[w] > 1 {
							r.Failf("%s: the changes of %s were made durable %d times", when, t.name, s.durable[w])
						}
					}
					if n != 0 && n != len(t.writes) {
						r.Failf("%s: %d of the %d changes of %s are durable", when, n, len(t.writes), t.name)
					}
					if t.mustNot && n > 0 {
						r.Failf("%s: the commit of %s was reported as failed or skipped, but its changes are durable", when, t.name)
					}
					if t.committed && n != len(t.writes) {
						r.Failf("%s: %s was reported as committed, but its changes are not durable", when, t.name)
					}
				}
			}
			for u := 0; u < nUow; u++ {
				s.uow = u
				shapes := uows
				if u == 0 {
					shapes = firsts
				}
				d := shapes[r.Choose(len(shapes), "unit of work")]
				x := xtorm.New(0)
				d.build(&x.Builder, func(tx, k int) string { return fmt.Sprintf("W%d.%d.%d", u, tx, k) })
				var own []*txRecord
				for t, n := range d.txs {
					rec := &txRecord{name: fmt.Sprintf("transaction %d of unit of work %d (%s)", t, u, d.name)}
					for k := 0; k < n; k++ {
						rec.writes = append(rec.writes, fmt.Sprintf("W%d.%d.%d", u, t, k))
					}
					own = append(own, rec)
				}
				txs = append(txs, own...)
				var sent []byte
				out, err := x.Send(bg, sendFunc(func(ctx context.Context, b []byte) ([]netx.Response, error) {
					sent = append([]byte(nil), b...)
					return p.Send(ctx, b)
				}))
				for _, c := range s.conns {
					if c.mc.blocked {
						r.Failf("unit of work %d: Send waits for replies that are not coming", u)
					}
				}
				anyErr := err != nil
				for _, o := range out {
					anyErr = anyErr || o != nil
				}
				if !anyErr {
					for _, t := range own {
						t.committed = true
					}
				}
				fs, ferr := xwire.Frames(sent)
				if ferr != nil {
					r.Failf("%v", ferr)
				}
				k := 0
				for i, f := range fs {
					if f.Type == 12 && xwire.BytesFields(f.Payload)[1] == "COMMIT" && k < len(own) {
						if i < len(out) && out[i] != nil && (err == nil || i < len(out)-1) {
							own[k].mustNot = true
						}
						k++
					}
				}
				check(fmt.Sprintf("after unit of work %d", u))
			}
			// everything ends: the pool is closed and what is left disconnects
			s.faults = false
			p.Close(bg)
			for _, c := range s.conns {
				if c.alive && c.mc.closed == 0 {
					c.drop()
				}
			}
			check("at the end")
			r.StateS(fmt.Sprint(len(s.conns), s.durable))
		},
	}
}

type sendFunc func(ctx context.Context, b []byte) ([]netx.Response, error)

func (f sendFunc) Send(ctx context.Context, b []byte) ([]netx.Response, error) { return f(ctx, b) }

func init() {
	register(&Prop{ID: "C10",
		Assumptions: []string{
			"the server follows the X Plugin's documented behaviour as modelled in mc/props/c10.go: START TRANSACTION implicitly commits, a disconnect rolls back, a failed fail-on-error block refuses every later message of the block, a failing close fails the parent block",
			"transactions are not nested in one another",
		},
		Scenarios: func(t Tier) []engine.Scenario {
			u := txUows()
			scs := []engine.Scenario{
				poolScenario("one fault", u, 3, 1, []int{1, 2}, nil),
				poolScenario("two faults", u, 2, 2, []int{0, 1, 2}, nil),
				poolScenario("long transactions", u, 2, 1, []int{1}, longUows(t.pick(20, 60))),
				poolScenario("two faults, three units of work", u, 3, 2, []int{1}, nil),
			}
			if t.Thorough {
				scs = append(scs,
					poolScenario("two faults, three units of work, two connections", u, 3, 2, []int{2}, nil),
					poolScenario("one fault, four units of work", u, 4, 1, []int{1, 2}, nil),
					poolScenario("three faults", u, 2, 3, []int{1}, nil),
				)
			}
			return scs
		}})
}
