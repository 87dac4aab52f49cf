package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// clientMsg is one message of a unit of work given to the connection.
type clientMsg struct {
	name string
	b    []byte
}

// clientMsgs builds one message of every type a unit of work can contain.
func clientMsgs() []clientMsg {
	mk := func(name string, typ byte, pad int) clientMsg {
		return clientMsg{name, frame(typ, bytes.Repeat([]byte{0x5A}, pad))}
	}
	return []clientMsg{
		mk("stmt execute", 12, 9), mk("insert", 18, 130), mk("update", 19, 30), mk("delete", 20, 3),
		mk("expect open", 24, 4), mk("expect close", 25, 0), mk("prepare", 40, 21), mk("execute", 41, 256),
		mk("deallocate", 42, 2),
	}
}

// reply is the server's answer to one message.
type reply struct {
	b     []byte
	err   *srvErr
	desc  string
	fatal bool
}

var terminals = []struct {
	name string
	b    []byte
	err  *srvErr
}{
	{"ok", frame(sOK, nil), nil},
	{"ok text", frame(sOK, pbBytes(nil, 1, "done")), nil},
	{"stmt ok", frame(sStmtExecuteOK, nil), nil},
	{"error", nil, &srvErr{0, 1062, "23000", "Duplicate entry"}},
	{"error default severity", nil, &srvErr{-1, 5159, "HY000", "Expectation failed: no_error"}},
}

func replyOf(pre [][]byte, t int) reply {
	var r reply
	for _, p := range pre {
		r.b = append(r.b, p...)
	}
	if e := terminals[t].err; e != nil {
		r.err = e
		r.b = append(r.b, e.frame()...)
	} else {
		r.b = append(r.b, terminals[t].b...)
	}
	return r
}

// preambles are the messages that may come before a terminal reply.
var preambles = []struct {
	name string
	mk   func(pad int) []byte
}{
	{"notice", noticeFrame},
	{"metadata", columnMeta},
	{"row", rowFrame},
	{"fetch done", func(pad int) []byte { return frame(sFetchDone, bytes.Repeat([]byte{8}, pad)) }},
	{"more resultsets", func(pad int) []byte { return frame(sMoreResult, nil) }},
	{"more out params", func(pad int) []byte { return frame(sMoreOutParams, nil) }},
	{"suspended", func(pad int) []byte { return frame(sSuspended, nil) }},
}

func joinMsgs(ms []clientMsg) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, m.b...)
	}
	return b
}

func replyBytes(rs []reply) []byte {
	var b []byte
	for _, x := range rs {
		b = append(b, x.b...)
	}
	return b
}

// heldResponses are responses the caller keeps; later exchanges must leave them alone.
type heldResponses struct {
	errs []*srvErr
	got  []netx.Response
}

// exchange sends one unit of work and checks its outcome against the replies.
func exchange(r *engine.Run, c netx.Conn, mc *memConn, ms []clientMsg, rs []reply, what string) {
	uow := joinMsgs(ms)
	keep := append([]byte(nil), uow...)
	mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, replyBytes(rs)...) }
	mc.inExch = false
	w0 := len(mc.writes)
	out, err := c.Send(bg, uow)
	r.Step()
	if mc.blocked {
		r.Failf("%s: Send waits for bytes that are not coming (responses so far %d, unread %d)", what, len(out), len(mc.in))
	}
	if err != nil {
		r.Failf("%s: Send failed: %v", what, err)
	}
	if len(out) != len(ms) {
		r.Failf("%s: %d messages got %d responses", what, len(ms), len(out))
	}
	for i, x := range rs {
		switch {
		case x.err == nil && !isNil(out[i]):
			r.Failf("%s: message %d succeeded but its response is %v", what, i, out[i])
		case x.err != nil && !x.err.matches(out[i]):
			r.Failf("%s: message %d failed with %+v but its response is %#v", what, i, *x.err, out[i])
		}
	}
	for _, h := range mc.held {
		for i, e := range h.errs {
			if e == nil && !isNil(h.got[i]) || e != nil && !e.matches(h.got[i]) {
				r.Failf("%s: response %d of an earlier unit of work was %+v and is now %#v", what, i, e, h.got[i])
			}
		}
	}
	if len(mc.held) < 32 && len(out) < 20 {
		h := heldResponses{got: out}
		for _, x := range rs {
			h.errs = append(h.errs, x.err)
		}
		mc.held = append(mc.held, h)
	}
	if !bytes.Equal(uow, keep) {
		r.Failf("%s: Send modified the unit of work", what)
	}
	if len(mc.writes) != w0+1 || !bytes.Equal(mc.writes[w0], keep) {
		r.Failf("%s: the unit of work was not written as given", what)
	}
}

func isNil(v interface{}) bool { return v == nil }

// drained fails unless everything the server sent was consumed: an exchange on the same
// connection must see only its own replies.
func drained(r *engine.Run, c netx.Conn, mc *memConn, what string) {
	e := &srvErr{0, 4242, "42S02", "probe"}
	exchange(r, c, mc, []clientMsg{{"probe", frame(12, []byte("probe"))}, {"probe2", frame(25, nil)}},
		[]reply{{b: e.frame(), err: e}, {b: frame(sOK, nil)}}, what+", next unit of work")
	if len(mc.in) != 0 {
		r.Failf("%s: %d reply bytes were left unread", what, len(mc.in))
	}
}

// chunkings are ways the network delivers bytes.
type chunking struct {
	name string
	mk   func() func(int) int
}

var chunkings = []chunking{
	{"all at once", func() func(int) int { return nil }},
	{"bytewise", func() func(int) int { return func(int) int { return 1 } }},
	{"growing", func() func(int) int {
		k := 0
		return func(n int) int {
			k = k%7 + 1
			if k < n {
				return k
			}
			return n
		}
	}},
	{"4096", func() func(int) int {
		return func(n int) int {
			if n > 4096 {
				return 4096
			}
			return n
		}
	}},
	{"with reads that deliver nothing", func() func(int) int {
		k := 0
		return func(n int) int {
			k++
			switch {
			case k%2 == 1:
				return 0
			case k%3 == 0 && n > 700:
				return 700
			case n > 3:
				return n - 1
			}
			return n
		}
	}},
}

// emptyReads lets two reads deliver nothing before each one that does.
func emptyReads(chunk func(int) int) func(int) int {
	k := 0
	return func(n int) int {
		if k++; k%3 != 0 {
			return 0
		}
		return chunk(n)
	}
}

// splitAt delivers the stream with boundaries at the given offsets.
func splitAt(at ...int) func(int) int {
	pos := 0
	return func(n int) int {
		for _, a := range at {
			if a > pos && a-pos < n {
				n = a - pos
			}
		}
		pos += n
		return n
	}
}

func pickReply(r *engine.Run, maxPre int, pads []int) reply {
	k := r.Choose(maxPre+1, "messages before")
	var pre [][]byte
	for i := 0; i < k; i++ {
		p := preambles[r.Choose(len(preambles), "message")]
		pre = append(pre, p.mk(pads[i%len(pads)]))
	}
	return replyOf(pre, r.Choose(len(terminals), "terminal"))
}

// sizesAround are payload sizes around the read buffer's size and its multiples.
func sizesAround(thorough bool) []int {
	var out []int
	add := func(lo, hi int) {
		for i := lo; i <= hi; i++ {
			out = append(out, i)
		}
	}
	add(0, 40)
	add(4070, 4110)
	add(8170, 8200)
	add(16370, 16390)
	add(65520, 65545)
	if thorough {
		out = out[:0]
		add(0, 9000)
		add(12270, 12300)
		add(16370, 16390)
		add(65520, 65545)
		add(1<<20-10, 1<<20+10)
	}
	return out
}

// manyScenario: very many messages, very many frames in a reply, very large
// frames.
func manyScenario(deep bool) engine.Scenario {
	msgs := clientMsgs()
	var counts []int
	for n := 256; n <= 1<<16; n *= 2 {
		counts = append(counts, n-1, n, n+1)
	}
	counts = append(counts, 1000, 1001, 10000)
	sizes := []int{1<<16 - 1, 1 << 16, 1<<18 + 1, 1 << 20, 1<<21 + 5, 1<<22 + 1, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	reqs := append([]int{1<<15 - 1, 1 << 15, 1<<17 + 1, 1<<19 + 1, 1<<23 + 1, 1<<26 + 1}, sizes...)
	if deep {
		reqs = append(reqs, 1<<25-1, 1<<25, 1<<27+1)
		counts = append(counts, 1<<17+1, 1<<20)
		sizes = append(sizes, 1<<25+1, 1<<26+1)
	}
	return engine.Scenario{Name: "many messages, many frames, large frames",
		Bound: fmt.Sprintf("units of work of up to %d messages, replies with as many rows, columns or notices, frames of up to %d bytes of every kind, messages of up to %d bytes", counts[len(counts)-1], sizes[len(sizes)-1], 1<<26+1),
		Body: func(r *engine.Run) {
			kind := r.Choose(8, "kind")
			var ms []clientMsg
			var rs []reply
			e := srvErr{0, 77, "HY000", "later"}
			switch kind {
			case 0: // messages, every third fails
				n := counts[r.Choose(len(counts), "count")]
				for i := 0; i < n; i++ {
					ms = append(ms, msgs[i%len(msgs)])
					if i%3 == 1 || i == n-1 {
						e := &srvErr{0, uint32(i), "HY000", "error"}
						rs = append(rs, reply{b: e.frame(), err: e})
					} else {
						rs = append(rs, replyOf(nil, 0))
					}
				}
			case 1, 2, 3: // frames in a reply
				n := counts[r.Choose(len(counts), "count")]
				f := [][]byte{noticeFrame(3), columnMeta(7), rowFrame(2)}[kind-1]
				ms = []clientMsg{msgs[0], msgs[1], msgs[2]}
				rs = []reply{{b: append(bytes.Repeat(f, n), frame(sStmtExecuteOK, nil)...)}, {b: append(bytes.Repeat(f, 3), e.frame()...), err: &e}, replyOf(nil, 0)}
			case 7: // large messages
				n := reqs[r.Choose(len(reqs), "size")]
				big := clientMsg{"large insert", frame(18, bytes.Repeat([]byte{0}, n))}
				ms = []clientMsg{msgs[0], big, msgs[1], msgs[2]}
				rs = []reply{replyOf(nil, 0), {b: append(rowFrame(3), e.frame()...), err: &e}, replyOf(nil, 0), {b: e.frame(), err: &e}}
			default: // large frames
				n := sizes[r.Choose(len(sizes), "size")]
				ms = []clientMsg{msgs[0], msgs[1], msgs[2]}
				var big []byte
				switch kind {
				case 4:
					big = noticeFrame(n)
				case 5:
					big = rowFrame(n)
				default:
					big = columnMeta(n)
				}
				rs = []reply{{b: append(append(big, rowFrame(9000)...), frame(sStmtExecuteOK, nil)...)}, {b: append(rowFrame(3), e.frame()...), err: &e}, replyOf(nil, 0)}
			}
			mc := &memConn{}
			c := newConn(mc)
			exchange(r, c, mc, ms, rs, "")
			drained(r, c, mc, "")
			r.StateH(uint64(kind)<<40 | uint64(len(replyBytes(rs))))
		}}
}

// columnKinds are column descriptions: every type, every field alone, left out, and with unusual values.
func columnKinds() [][]byte {
	var out [][]byte
	types := []uint64{1, 2, 5, 6, 7, 10, 12, 15, 16, 17, 18}
	field := func(b []byte, k int) []byte {
		switch k {
		case 2, 3, 4, 5, 6, 7:
			return pbBytes(b, k, "name"+pattern(k))
		case 8:
			return pbVarint(b, k, 255)
		case 9:
			return pbVarint(b, k, 1<<32-1)
		case 10:
			return pbVarint(b, k, 31)
		case 11:
			return pbVarint(b, k, 0xffff)
		}
		return pbVarint(b, k, 3)
	}
	for _, t := range types {
		out = append(out, frame(sColumnMeta, pbVarint(nil, 1, t)))
		all := pbVarint(nil, 1, t)
		for k := 2; k <= 12; k++ {
			all = field(all, k)
		}
		out = append(out, frame(sColumnMeta, all))
	}
	for k := 2; k <= 12; k++ {
		out = append(out, frame(sColumnMeta, field(pbVarint(nil, 1, 7), k)))
		b := pbVarint(nil, 1, 1)
		for j := 2; j <= 12; j++ {
			if j != k {
				b = field(b, j)
			}
		}
		out = append(out, frame(sColumnMeta, b))
	}
	for _, n := range []uint64{0, 1, 63, 64, 127, 128, 16383, 16384, 1 << 31, 1<<32 - 1} {
		out = append(out, frame(sColumnMeta, pbVarint(pbVarint(pbVarint(nil, 1, 7), 10, n), 11, n)))
	}
	return append(out, frame(sColumnMeta, pbBytes(pbVarint(nil, 1, 7), 2, "")))
}

// noticeKinds are notices: every type, scope and payload.
func noticeKinds() [][]byte {
	scalar := func(t, f int, v uint64) string { return string(pbVarint(pbVarint(nil, 1, uint64(t)), f, v)) }
	str := string(pbBytes(pbVarint(nil, 1, 8), 9, string(pbBytes(nil, 1, "message"))))
	payloads := map[uint64][]string{
		1: {string(pbBytes(pbVarint(pbVarint(nil, 1, 2), 2, 1287), 3, "deprecated")), string(pbBytes(pbVarint(pbVarint(nil, 1, 3), 2, 1064), 3, "")), string(pbBytes(pbVarint(nil, 2, 1), 3, pattern(300)))},
		2: {string(pbBytes(pbBytes(nil, 1, "autocommit"), 2, scalar(1, 2, 0)))},
		4: {string(pbBytes(pbVarint(nil, 1, 1), 2, "view"))},
		5: {""},
	}
	for param := uint64(1); param <= 12; param++ {
		for _, v := range []string{"", scalar(2, 3, 0), scalar(2, 3, 1<<64-1), str} {
			b := pbVarint(nil, 1, param)
			if v != "" {
				b = pbBytes(b, 2, v)
			}
			payloads[3] = append(payloads[3], string(b))
		}
	}
	var out [][]byte
	for typ := uint64(1); typ <= 5; typ++ {
		for _, p := range payloads[typ] {
			for scope := uint64(0); scope <= 2; scope++ {
				b := pbVarint(nil, 1, typ)
				if scope > 0 {
					b = pbVarint(b, 2, scope)
				}
				out = append(out, frame(sNotice, pbBytes(b, 3, p)))
				if p == "" {
					out = append(out, frame(sNotice, b))
				}
			}
		}
	}
	return out
}

// rowKinds are rows: every number of fields up to 20 and some sizes.
func rowKinds() [][]byte {
	var out [][]byte
	for n := 0; n <= 20; n++ {
		for _, size := range []int{0, 1, 9, 200} {
			var b []byte
			for i := 0; i < n; i++ {
				b = pbBytes(b, 1, pattern(size*(i%3)))
			}
			out = append(out, frame(sRow, b))
		}
	}
	return out
}

// preludes: what precedes a reply has every content.
func preludes() engine.Scenario {
	msgs := clientMsgs()
	cols, notes, rows := columnKinds(), noticeKinds(), rowKinds()
	all := append(append(append([][]byte{}, cols...), notes...), rows...)
	return engine.Scenario{Name: "contents before a reply", Weight: 2,
		Bound: fmt.Sprintf("every pair out of %d column descriptions, %d notices and %d rows before an error, an OK of each kind, to a statement or an insert", len(cols), len(notes), len(rows)),
		Body: func(r *engine.Run) {
			a := all[r.Choose(len(all), "first")]
			term := r.Choose(len(terminals), "terminal")
			m := []clientMsg{msgs[0], msgs[1]}[r.Choose(2, "message")]
			for _, b := range all {
				mc := &memConn{}
				c := newConn(mc)
				rs := []reply{replyOf([][]byte{a, b}, term), replyOf([][]byte{b}, 3)}
				exchange(r, c, mc, []clientMsg{m, msgs[2]}, rs, "")
				drained(r, c, mc, "")
			}
			r.Cases(len(all))
			r.State(a)
		}}
}

// everyError: errors of every content in reply to every kind of message.
func everyError(deep bool) engine.Scenario {
	msgs := clientMsgs()
	codes := uints32(false)
	if !deep {
		var c []uint32
		for i, x := range codes {
			if x < 70000 || i%7 == 0 {
				c = append(c, x)
			}
		}
		codes = c
	}
	for _, x := range []uint32{1040, 1044, 1045, 1046, 1049, 1053, 1062, 1064, 1146, 1205, 1213, 1406, 1452, 3024, 5000, 5011, 5012, 5100, 5150, 5159, 5160, 5162} {
		codes = append(codes, x)
	}
	states := []string{"", "00000", "HY000", "23000", "40001"}
	few := append([]uint32{1, 5, 1040, 1045, 1053}, stateCodes...)
	states = append(states, mysqlStates...) // with the few codes only
	known := append([]uint32(nil), codes...)
	for _, e := range errorNumbers {
		known = append(known, uint32(e.want))
	}
	for c := uint32(5000); c < 5300; c++ {
		known = append(known, c)
	}
	texts := []string{"", "x", "Expectation failed: no_error", pattern(200)}
	return engine.Scenario{Name: "every error to every message", Weight: 2,
		Bound: fmt.Sprintf("%d message types x %d codes x 5 SQL states (%d codes, every known number, with HY000; %d codes x %d SQL states) x %d texts x severity unset or ERROR, first or last of 3 messages", len(msgs), len(codes), len(known), len(few), len(mysqlStates), len(texts)),
		Body: func(r *engine.Run) {
			m := msgs[r.Choose(len(msgs), "message")]
			si := r.Choose(len(states), "state")
			state, text := states[si], texts[r.Choose(len(texts), "text")]
			codes := codes
			if si >= 5 {
				codes = few
			} else if si == 2 {
				codes = known
			}
			sev := -r.Choose(2, "severity")
			last := r.Bool("last")
			for _, code := range codes {
				e := srvErr{sev, code, state, text}
				ms, rs := []clientMsg{m, msgs[0], msgs[5]}, []reply{{b: e.frame(), err: &e}, replyOf(nil, 2), replyOf(nil, 0)}
				if last {
					ms[0], ms[2], rs[0], rs[2] = ms[2], ms[0], rs[2], rs[0]
				}
				mc := &memConn{}
				exchange(r, newConn(mc), mc, ms, rs, "")
			}
			r.Cases(len(codes))
			r.StateS(fmt.Sprint(m.name, state, text, sev, last))
		}}
}

func init() {
	msgs := clientMsgs()
	register(&Prop{ID: "C11", Assumptions: []string{"a server answers each message with any number of notices, metadata, rows or fetch markers followed by one terminal reply (Ok, StmtExecuteOk or Error)"},
		Scenarios: func(t Tier) []engine.Scenario {
			sizes := sizesAround(t.Thorough)
			return []engine.Scenario{
				{Name: "connections after closed ones", Bound: "1 or 2 connections, each unused, used or failed half way, closed 1..3 times and perhaps used once more; then every order of opening 3 connections and 4 exchanges among them",
					Body: func(r *engine.Run) {
						e := &srvErr{0, 9, "HY000", "other"}
						for k := 1 + r.Choose(2, "closed"); k > 0; k-- {
							mc := &memConn{}
							c := newConn(mc)
							switch r.Choose(3, "use") {
							case 1:
								exchange(r, c, mc, msgs[:1], []reply{{b: append(rowFrame(5000), e.frame()...), err: e}}, "before")
							case 2:
								mc.readErr = io.ErrUnexpectedEOF
								mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, e.frame()[:7]...) }
								if _, err := c.Send(bg, joinMsgs(msgs[:1])); err == nil {
									r.Failf("a reply cut short was not reported")
								}
							}
							for n := 1 + r.Choose(3, "times"); n > 0; n-- {
								c.Close()
							}
							if r.Bool("used again") {
								mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, replyOf(nil, 0).b...) }
								if _, err := c.Send(bg, joinMsgs(msgs[:1])); err == nil {
									r.Failf("a closed connection exchanged a message")
								}
							}
						}
						var mcs []*memConn
						var cs []netx.Conn
						for left := 4; left > 0; {
							k := 0
							if len(cs) > 0 {
								k = r.Choose(len(cs)+1, "connection")
							}
							if k == len(cs) {
								if len(cs) == 3 {
									r.Prune()
								}
								mcs = append(mcs, &memConn{})
								cs = append(cs, newConn(mcs[k]))
								continue
							}
							left--
							e := &srvErr{0, uint32(100*k + left), "HY000", "later"}
							exchange(r, cs[k], mcs[k], msgs[:2], []reply{{b: append(rowFrame(700*left), e.frame()...), err: e}, replyOf(nil, 0)}, "after")
						}
						r.StateH(uint64(len(cs)))
					}},
				{Name: "long series", Bound: fmt.Sprintf("%d units of work of 1 or 3 messages one after another on one connection: all succeeding, all failing, mixed, with rows and notices; 3 deliveries", t.pick(70000, 300000)),
					Body: func(r *engine.Run) {
						kind := r.Choose(4, "kind")
						n := []int{1, 3}[r.Choose(2, "messages")]
						mc := &memConn{chunk: chunkings[[]int{0, 2, 3}[r.Choose(3, "delivery")]].mk()}
						c := newConn(mc)
						for i := 0; i < t.pick(70000, 300000); i++ {
							var ms []clientMsg
							var rs []reply
							for k := 0; k < n; k++ {
								ms = append(ms, msgs[(i+k)%len(msgs)])
								e := &srvErr{0, uint32(i*n + k), "HY000", "error"}
								switch {
								case kind == 0, kind == 2 && (i+k)%3 != 0:
									rs = append(rs, replyOf(nil, 0))
								case kind == 3 && i%2 == 0:
									rs = append(rs, reply{b: append(append(noticeFrame(i%300), rowFrame(i%500)...), frame(sStmtExecuteOK, nil)...)})
								case kind == 3:
									rs = append(rs, reply{b: append(rowFrame(i%500), e.frame()...), err: e})
								default:
									rs = append(rs, reply{b: e.frame(), err: e})
								}
							}
							exchange(r, c, mc, ms, rs, "long series")
							if len(mc.writes) > 8 {
								mc.writes, mc.wroteDL, mc.readDL = nil, nil, nil
							}
						}
						drained(r, c, mc, "long series")
						r.StateH(uint64(kind)<<8 | uint64(n))
					}},
				{Name: "reply sequences", Bound: fmt.Sprintf("units of work of 1..%d messages x every combination of <= %d preceding messages (7 kinds) and 5 terminal replies x 3 deliveries", t.pick(2, 3), t.pick(2, 2)),
					Weight: 2,
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(t.pick(2, 3), "messages")
						maxPre := 2
						if n == 3 {
							maxPre = 1
						}
						ms := make([]clientMsg, n)
						rs := make([]reply, n)
						for i := range ms {
							ms[i] = msgs[(i*4+n)%len(msgs)]
							rs[i] = pickReply(r, maxPre, []int{3, 11})
						}
						for k := 0; k < 3; k++ {
							mc := &memConn{chunk: chunkings[k].mk()}
							c := newConn(mc)
							exchange(r, c, mc, ms, rs, chunkings[k].name)
							drained(r, c, mc, chunkings[k].name)
						}
						r.Cases(3)
						r.State(replyBytes(rs))
					}},
				{Name: "message types", Bound: "every pair of client message types x every pair of terminal replies, with and without a notice",
					Body: func(r *engine.Run) {
						a, b := msgs[r.Choose(len(msgs), "message")], msgs[r.Choose(len(msgs), "message")]
						var pre [][]byte
						if r.Bool("notice") {
							pre = [][]byte{noticeFrame(5)}
						}
						rs := []reply{replyOf(pre, r.Choose(len(terminals), "terminal")), replyOf(pre, r.Choose(len(terminals), "terminal"))}
						mc := &memConn{}
						c := newConn(mc)
						exchange(r, c, mc, []clientMsg{a, b}, rs, "")
						drained(r, c, mc, "")
						r.State(replyBytes(rs))
					}},
				{Name: "long units of work", Bound: "1..300 messages with errors at every third, everything delivered at once or bytewise",
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(300, "messages")
						k := r.Choose(2, "delivery")
						var ms []clientMsg
						var rs []reply
						for i := 0; i < n; i++ {
							ms = append(ms, msgs[i%len(msgs)])
							if i%3 == 1 {
								e := &srvErr{0, uint32(i), "HY000", fmt.Sprint("error ", i)}
								rs = append(rs, reply{b: e.frame(), err: e})
							} else {
								rs = append(rs, replyOf(nil, 0))
							}
						}
						mc := &memConn{chunk: chunkings[k].mk()}
						c := newConn(mc)
						exchange(r, c, mc, ms, rs, chunkings[k].name)
						drained(r, c, mc, chunkings[k].name)
						r.State(replyBytes(rs))
					}},
				manyScenario(t.Thorough),
				preludes(),
				everyError(t.Thorough),
				{Name: "sizes", Bound: fmt.Sprintf("%d sizes of {notice, metadata, row, row then a second row of 5 / 4090 / 9000 bytes, error text, OK text} x 5 deliveries x terminal error or OK", len(sizes)),
					Weight: 2,
					Body: func(r *engine.Run) {
						kind := r.Choose(7, "kind")
						n := sizes[r.Choose(len(sizes), "size")]
						var pre [][]byte
						e := &srvErr{0, 1, "S", "m"}
						ok := frame(sOK, nil)
						switch kind {
						case 0, 1, 2:
							pre = [][]byte{preambles[kind].mk(n)}
						case 3:
							pre = [][]byte{rowFrame(n), rowFrame(5), noticeFrame(2)}
						case 4:
							pre = [][]byte{rowFrame(n), rowFrame(4090), rowFrame(9000), columnMeta(7)}
						case 5:
							pre = [][]byte{noticeFrame(3)}
							e.msg = pattern(n)
						case 6:
							ok = frame(sOK, pbBytes(nil, 1, pattern(n)))
						}
						e1, e2 := *e, srvErr{0, 77, "HY000", "later"}
						rs := []reply{{b: append(bytes.Join(pre, nil), e1.frame()...), err: &e1}, {b: append(bytes.Join(pre, nil), ok...)}, {b: e2.frame(), err: &e2}}
						ms := []clientMsg{msgs[0], msgs[1], msgs[5]}
						for _, ch := range chunkings {
							mc := &memConn{chunk: ch.mk()}
							c := newConn(mc)
							exchange(r, c, mc, ms, rs, ch.name)
							drained(r, c, mc, ch.name)
						}
						r.Cases(len(chunkings))
						r.State(replyBytes(rs))
					}},
				{Name: "splits", Bound: "a reply stream of 13 frames of every kind: delivered with every one or two split points; the same with reads that deliver nothing; the same with the stream ending after (or together with) the last byte",
					Body: func(r *engine.Run) {
						e := srvErr{0, 1205, "HY000", "Lock wait timeout exceeded"}
						rs := []reply{
							{b: bytes.Join([][]byte{noticeFrame(4), columnMeta(2), columnMeta(3), rowFrame(3), rowFrame(0), frame(sFetchDone, nil), noticeFrame(0), frame(sStmtExecuteOK, nil)}, nil)},
							{b: append(noticeFrame(1), e.frame()...), err: &e},
							{b: frame(sOK, pbBytes(nil, 1, "ok"))},
							{b: append(noticeFrame(9), frame(sOK, nil)...)},
						}
						ms := []clientMsg{msgs[0], msgs[1], msgs[2], msgs[5]}
						n := len(replyBytes(rs))
						a := r.Choose(n, "first split")
						b := a + r.Choose(n-a, "second split")
						for _, ch := range []func(int) int{splitAt(a, b), emptyReads(splitAt(a, b))} {
							mc := &memConn{chunk: ch}
							c := newConn(mc)
							exchange(r, c, mc, ms, rs, fmt.Sprintf("split at %d and %d", a, b))
							drained(r, c, mc, "")
						}
						// The server closes its side with the last byte.
						for _, with := range []bool{true, false} {
							mc := &memConn{chunk: splitAt(a, b), readErr: io.EOF, errWithData: with}
							exchange(r, newConn(mc), mc, ms, rs, fmt.Sprintf("split at %d and %d, end of stream after the last byte", a, b))
						}
						r.Cases(4)
						r.StateH(uint64(a)<<32 | uint64(b))
					}},
				{Name: "buffer alignment", Bound: "a notice of every size 3900..4400 (and 7990..8300) followed by metadata, an error, OK and large rows, so that every frame meets every offset of the read buffer; 3 deliveries",
					Body: func(r *engine.Run) {
						n := r.Choose(501+311, "size")
						if n <= 500 {
							n += 3900
						} else {
							n = n - 501 + 7990
						}
						tail := r.Choose(4, "tail")
						e := srvErr{0, 9, "HY000", pattern([]int{3, 60, 300, 5000}[tail])}
						rs := []reply{
							{b: bytes.Join([][]byte{noticeFrame(n), columnMeta(12), e.frame()}, nil), err: &e},
							{b: bytes.Join([][]byte{rowFrame(4200), rowFrame([]int{1, 100, 4087, 12000}[tail]), frame(sOK, nil)}, nil)},
							{b: e.frame(), err: &e},
						}
						ms := []clientMsg{msgs[1], msgs[0], msgs[2]}
						for _, k := range []int{0, 2, 3} {
							mc := &memConn{chunk: chunkings[k].mk()}
							c := newConn(mc)
							exchange(r, c, mc, ms, rs, chunkings[k].name)
							drained(r, c, mc, chunkings[k].name)
						}
						r.Cases(3)
						r.State(replyBytes(rs))
					}},
				{Name: "error fields", Bound: "severity {unset, ERROR} x all structured 32-bit codes x sql states and texts of lengths 0,1,5,300,5000",
					Body: func(r *engine.Run) {
						codes := uints32(false)
						ls := []int{0, 1, 5, 300, 5000}
						e := srvErr{-r.Choose(2, "severity"), 0, pattern(ls[r.Choose(5, "state")]), pattern(ls[r.Choose(5, "text")])}
						b := r.Choose((len(codes)+63)/64, "codes")
						for i := b * 64; i < len(codes) && i < b*64+64; i++ {
							e.code = codes[i]
							mc := &memConn{}
							c := newConn(mc)
							exchange(r, c, mc, []clientMsg{msgs[3]}, []reply{{b: e.frame(), err: &e}}, "")
							r.Cases(1)
						}
						r.State(e.frame())
					}},
				{Name: "successive units of work", Bound: fmt.Sprintf("%d units of work of 1..2 messages on one connection, every combination of terminal replies and a preceding notice or large row", t.pick(3, 4)),
					Body: func(r *engine.Run) {
						mc := &memConn{chunk: chunkings[r.Choose(3, "delivery")].mk()}
						c := newConn(mc)
						for k := 0; k < t.pick(3, 4); k++ {
							n := 1 + r.Choose(2, "messages")
							var ms []clientMsg
							var rs []reply
							for i := 0; i < n; i++ {
								ms = append(ms, msgs[(k*2+i)%len(msgs)])
								var pre [][]byte
								switch r.Choose(3, "before") {
								case 1:
									pre = [][]byte{noticeFrame(3)}
								case 2:
									pre = [][]byte{rowFrame(4095)}
								}
								rs = append(rs, replyOf(pre, []int{0, 3}[r.Choose(2, "terminal")]))
							}
							exchange(r, c, mc, ms, rs, fmt.Sprint("unit of work ", k))
						}
						drained(r, c, mc, "")
					}},
			}
		}})

	register(&Prop{ID: "C12", Scenarios: c12})
	register(&Prop{ID: "C13", Scenarios: c13})
}

var errNet = errors.New("verification harness: network failure")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// netErrs are the ways the transport can fail.
var netErrs = []struct {
	name string
	err  error
	is   func(error) bool
}{
	{"EOF", io.EOF, isEOF},
	{"reset", &net.OpError{Op: "read", Net: "tcp", Err: errNet}, func(e error) bool { return errors.Is(e, errNet) }},
	{"timeout", os.ErrDeadlineExceeded, func(e error) bool { return errors.Is(e, os.ErrDeadlineExceeded) }},
}

// richReplies is a fixed reply stream with every kind of frame.
func richReplies(big int) ([]clientMsg, []reply) {
	msgs := clientMsgs()
	e := srvErr{0, 1213, "40001", "Deadlock found"}
	rs := []reply{
		{b: bytes.Join([][]byte{noticeFrame(2), columnMeta(1), rowFrame(big), frame(sFetchDone, nil), frame(sStmtExecuteOK, nil)}, nil)},
		{b: append(noticeFrame(1), e.frame()...), err: &e},
		{b: append(rowFrame(2), frame(sOK, pbBytes(nil, 1, "x"))...)},
	}
	return []clientMsg{msgs[0], msgs[1], msgs[5]}, rs
}

// mustFail sends and checks that the failure is reported.
func mustFail(r *engine.Run, c netx.Conn, uow []byte, complete int, is func(error) bool, what string) {
	mustFailCtx(r, bg, c, uow, complete, is, what)
}

func mustFailCtx(r *engine.Run, ctx context.Context, c netx.Conn, uow []byte, complete int, is func(error) bool, what string) {
	out, err := c.Send(ctx, uow)
	r.Step()
	if err == nil {
		r.Failf("%s: Send reported no error and %d responses", what, len(out))
	}
	if is != nil && !is(err) {
		r.Failf("%s: Send reported %v (%T), which is not the transport's error", what, err, err)
	}
	if len(out) > complete+1 {
		r.Failf("%s: Send returned %d responses after %d complete replies", what, len(out), complete)
	}
}

// fatals are fatal errors of every flavour: fatal is the severity, not the number or state.
var fatals = []srvErr{
	{1, 1053, "08S01", "Server shutdown in progress"},
	{1, 0, "00000", ""},
	{1, 1045, "28000", "Access denied"},
	{1, 1062, "23000", "Duplicate entry"},
	{1, 1213, "40001", "Deadlock found"},
	{1, 1927, "70100", "Connection was killed"},
	{1, 3169, "HY000", "Session was killed"},
	{1, 4031, "HY000", "The client was disconnected by the server because of inactivity"},
	{1, 5000, "HY000", "Invalid message"},
	{1, 5015, "HY000", "Invalid operation"},
	{1, 5159, "HY000", "Expectation failed: no_error"},
	{1, 10053, "HY000", "Server is shutting down"},
}

// completeReplies counts the replies that are entirely in the first n bytes.
func completeReplies(rs []reply, n int) int {
	k := 0
	for _, x := range rs {
		if n -= len(x.b); n < 0 {
			break
		}
		k++
	}
	return k
}

func c12(t Tier) []engine.Scenario {
	msgs := clientMsgs()
	return []engine.Scenario{
		{Name: "failure at every byte", Bound: fmt.Sprintf("the reply stream (3 messages, 11 frames, a row of {5, 4090, 9000}%s bytes) fails after every byte, with {EOF, reset, timeout}, alone or together with the last bytes, x 3 deliveries", ""),
			Body: func(r *engine.Run) {
				bi := r.Choose(3, "row size")
				ms, rs := richReplies([]int{5, 4090, 9000}[bi])
				all := replyBytes(rs)
				at := r.Choose(len(all), "fails after")
				ne := netErrs[r.Choose(len(netErrs), "error")]
				with := r.Bool("with the last bytes")
				for k := 0; k < 3; k++ {
					mc := &memConn{chunk: chunkings[k].mk(), readErr: ne.err, errWithData: with}
					mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, all[:at]...) }
					mustFail(r, newConn(mc), joinMsgs(ms), completeReplies(rs, at), ne.is, fmt.Sprintf("%s after byte %d of %d, %s", ne.name, at, len(all), chunkings[k].name))
				}
				r.Cases(3)
				r.StateH(uint64(bi)<<40 | uint64(at)<<8 | uint64(len(ne.name)))
			}},
		{Name: "failure between units of work", Bound: "1..3 good units of work, then a failure at every byte of the next",
			Body: func(r *engine.Run) {
				ms, rs := richReplies(300)
				all := replyBytes(rs)
				mc := &memConn{chunk: chunkings[r.Choose(3, "delivery")].mk()}
				c := newConn(mc)
				for k := r.Choose(3, "good") + 1; k > 0; k-- {
					exchange(r, c, mc, ms, rs, "")
				}
				at := r.Choose(len(all), "fails after")
				ne := netErrs[r.Choose(len(netErrs), "error")]
				mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, all[:at]...) }
				mc.readErr = ne.err
				mustFail(r, c, joinMsgs(ms), completeReplies(rs, at), ne.is, fmt.Sprintf("%s after byte %d", ne.name, at))
				r.StateH(uint64(at))
			}},
		{Name: "deadline and write failures", Bound: "SetDeadline fails; Write fails after 0..n bytes; with and without replies already available, after 0..2 good units of work, each with and without a deadline",
			Body: func(r *engine.Run) {
				ms, rs := richReplies(10)
				uow := joinMsgs(ms)
				mc := &memConn{}
				c := newConn(mc)
				far := time.Now().Add(time.Hour)
				for k := r.Choose(3, "good"); k > 0; k-- {
					if r.Bool("with a deadline") {
						sendWithDeadline(r, c, mc, far.Add(time.Duration(k)*time.Minute), uow, rs)
					} else {
						exchange(r, c, mc, ms, rs, "")
					}
				}
				ne := netErrs[1+r.Choose(2, "error")]
				w := r.Choose(len(uow)+2, "written")
				mc.onWrite = nil
				if r.Bool("replies available") {
					mc.in = append(mc.in, replyBytes(rs)...)
				} else {
					mc.readErr = io.EOF
				}
				ctx, is := bg, ne.is
				if r.Bool("deadline") {
					var cancel func()
					ctx, cancel = context.WithDeadline(bg, far)
					defer cancel()
				}
				n := len(mc.writes)
				if w == 0 {
					mc.deadlineErr = ne.err
					if ctx == bg && mc.rd.IsZero() && mc.wd.IsZero() {
						// There is no deadline to clear: not attempting to is fine.
						out, err := c.Send(ctx, uow)
						r.Step()
						if mc.deadlineFailed && (err == nil || !is(err)) {
							r.Failf("%s: the deadline could not be set and Send reported %v and %d responses", ne.name, err, len(out))
						}
						if mc.deadlineFailed && len(mc.writes) != n {
							r.Failf("the unit of work was written although the deadline could not be set")
						}
						return
					}
				} else {
					mc.writeErr, mc.writeN = ne.err, w-1
				}
				mustFailCtx(r, ctx, c, uow, len(rs), is, fmt.Sprintf("%s, step %d", ne.name, w))
				if w == 0 && len(mc.writes) != n {
					r.Failf("the unit of work was written although the deadline could not be set")
				}
				r.StateH(uint64(w))
			}},
		{Name: "fatal errors", Bound: "a fatal error as the reply to every message of units of work of 1..4 messages, after every combination of OK/error replies, with and without a notice, x later replies present, absent or the stream closed; every client message type",
			Body: func(r *engine.Run) {
				n := 1 + r.Choose(4, "messages")
				at := r.Choose(n, "fatal at")
				var ms []clientMsg
				var all []byte
				first := r.Choose(len(msgs), "type")
				for i := 0; i < n; i++ {
					ms = append(ms, msgs[(first+i)%len(msgs)])
				}
				for i := 0; i < at; i++ {
					all = append(all, replyOf(nil, []int{0, 3}[r.Choose(2, "reply")]).b...)
				}
				if r.Bool("notice") {
					all = append(all, noticeFrame(3)...)
				}
				fe := fatals[r.Choose(len(fatals), "error")]
				all = append(all, fe.frame()...)
				after := r.Choose(3, "then")
				mc := &memConn{}
				switch after {
				case 1:
					for i := at + 1; i < n; i++ {
						all = append(all, frame(sOK, nil)...)
					}
				case 2:
					mc.readErr = io.EOF
				}
				mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, all...) }
				out, err := newConn(mc).Send(bg, joinMsgs(ms))
				r.Step()
				what := fmt.Sprintf("fatal error to message %d of %d", at, n)
				if mc.blocked {
					r.Failf("%s: Send goes on reading", what)
				}
				if err == nil {
					r.Failf("%s: Send reported no error", what)
				}
				if !fe.matches(err) {
					r.Failf("%s: Send reported %v", what, err)
				}
				if len(out) > at+1 {
					r.Failf("%s: %d responses", what, len(out))
				}
				r.State(all)
			}},
		{Name: "malformed frames", Bound: "in front of every frame of the reply stream: a frame of length 0, an Error or ColumnMetaData that does not decode (truncated field, bad varint, missing required field, length beyond the end), an unexpected AuthenticateContinue; x 3 deliveries, stream ending or staying open",
			Body: func(r *engine.Run) {
				ms, rs := richReplies(6)
				bad := malformed()
				b := bad[r.Choose(len(bad), "frame")]
				var frames [][]byte
				all := replyBytes(rs)
				fs, err := xwire.Frames(all)
				if err != nil {
					r.HarnessFailf("%v", err)
				}
				for _, f := range fs {
					frames = append(frames, frame(f.Type, f.Payload))
				}
				at := r.Choose(len(frames), "before frame")
				var s []byte
				for i, f := range frames {
					if i == at {
						s = append(s, b.b...)
					}
					s = append(s, f...)
				}
				k := r.Choose(3, "delivery")
				mc := &memConn{chunk: chunkings[k].mk(), readErr: io.EOF}
				mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, s...) }
				pos := 0
				for _, f := range frames[:at] {
					pos += len(f)
				}
				mustFail(r, newConn(mc), joinMsgs(ms), completeReplies(rs, pos), nil, fmt.Sprintf("%s before frame %d", b.name, at))
				r.State(s)
			}},
		{Name: "truncated large frames", Bound: "a frame announcing 4080..4110, 8180..8200 or 70000 bytes of {row, error, metadata, OK} of which 0..n (sampled at every boundary +-3 of 4096) arrive",
			Body: func(r *engine.Run) {
				var ns []int
				for i := 4080; i <= 4110; i++ {
					ns = append(ns, i)
				}
				ns = append(ns, 8180, 8186, 8187, 8188, 8192, 8200, 70000)
				n := ns[r.Choose(len(ns), "size")]
				typ := []byte{sRow, sError, sColumnMeta, sOK}[r.Choose(4, "type")]
				var cut []int
				for base := 0; base <= n+5; base += 4096 {
					for d := -3; d <= 8; d++ {
						if x := base + d; x >= 0 && x < n+5 {
							cut = append(cut, x)
						}
					}
				}
				for d := 1; d <= 8; d++ {
					cut = append(cut, n+5-d)
				}
				at := cut[r.Choose(len(cut), "arrived")]
				body := pbBytes(nil, 3, pattern(n))
				f := frame(typ, body[:n])
				ne := netErrs[r.Choose(len(netErrs), "error")]
				for k := range chunkings {
					if k == 1 && n > 9000 {
						continue
					}
					mc := &memConn{chunk: chunkings[k].mk(), readErr: ne.err, errWithData: k == 2}
					mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, f[:at]...) }
					mustFail(r, newConn(mc), msgs[0].b, 0, ne.is, fmt.Sprintf("%s after %d of %d bytes", ne.name, at, len(f)))
				}
				r.Cases(len(chunkings))
				r.StateH(uint64(n)<<24 | uint64(at))
			}},
		{Name: "reset is refused", Bound: "an error in reply to a session reset is reported as an error",
			Body: func(r *engine.Run) {
				e := srvErr{-r.Choose(2, "severity"), 1047, "08S01", "no"}
				mc := &memConn{}
				mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, e.frame()...) }
				out, err := newConn(mc).Send(bg, frame(6, nil))
				r.Step()
				if err == nil && (len(out) != 1 || !e.matches(out[0])) {
					r.Failf("the refusal of a session reset was lost: %v, %v", out, err)
				}
				if err != nil && !e.matches(err) {
					r.Failf("the refusal of a session reset was reported as %v", err)
				}
			}},
	}
}

type badFrame struct {
	name string
	b    []byte
}

func malformed() []badFrame {
	zero := []byte{0, 0, 0, 0, 0}
	out := []badFrame{{"a frame of length 0", zero}, {"a frame of length 0 typed as an error", []byte{0, 0, 0, 0, 1}}, {"a frame of length 0 typed as a notice", []byte{0, 0, 0, 0, 11}}}
	payloads := []badFrame{
		{"a truncated field", []byte{0x08}},
		{"an endless varint", bytes.Repeat([]byte{0xff}, 11)},
		{"a length beyond the end", []byte{0x1a, 0x40, 'x'}},
		{"an invalid wire type", []byte{0x0f, 0x01}},
		{"field number zero", []byte{0x00, 0x01}},
		{"no required field", []byte{}},
		{"no required field but others", pbBytes(nil, 3, "text")},
	}
	for _, p := range payloads {
		out = append(out, badFrame{"an Error with " + p.name, frame(sError, p.b)})
		out = append(out, badFrame{"a ColumnMetaData with " + p.name, frame(sColumnMeta, p.b)})
	}
	out = append(out, badFrame{"an AuthenticateContinue", authContinueFrame("12345678901234567890")})
	return out
}

func c13(t Tier) []engine.Scenario {
	deadlines := []time.Time{{}, time.Now().Add(time.Hour), time.Now().Add(90 * time.Minute), time.Unix(1, 0)}
	sizes := append(append([]int{}, 0, 1, 100, 4091, 4092, 8192, 65536, 1<<20), 5<<20, 1<<24-5, 1<<24+1, 1<<26+1)
	return []engine.Scenario{
		{Name: "deadline sequences", Bound: fmt.Sprintf("every sequence of %d sends with contexts without a deadline, with one of two future deadlines, or a past one; units of work of 1..3 messages; replies OK or error, 3 deliveries", t.pick(4, 6)),
			Body: func(r *engine.Run) {
				mc := &memConn{chunk: chunkings[r.Choose(3, "delivery")].mk()}
				c := newConn(mc)
				kind := r.Choose(3, "messages") + 1
				ms, rs := richReplies(5)
				ms, rs = ms[:kind], rs[:kind]
				for k := 0; k < t.pick(4, 6); k++ {
					d := deadlines[r.Choose(len(deadlines), "deadline")]
					sendWithDeadline(r, c, mc, d, joinMsgs(ms), rs)
				}
			}},
		{Name: "sizes", Bound: fmt.Sprintf("units of work with a message of %v bytes, alone or between others, with and without a deadline", sizes),
			Body: func(r *engine.Run) {
				n := sizes[r.Choose(len(sizes), "size")]
				pos := r.Choose(3, "position")
				d := deadlines[r.Choose(2, "deadline")]
				var uow []byte
				var rs []reply
				for i := 0; i < 3; i++ {
					if i == pos {
						uow = append(uow, frame(18, bytes.Repeat([]byte{7}, n))...)
					} else {
						uow = append(uow, frame(12, []byte("s"))...)
					}
					rs = append(rs, replyOf(nil, i))
				}
				mc := &memConn{}
				c := newConn(mc)
				sendWithDeadline(r, c, mc, d, uow, rs)
				sendWithDeadline(r, c, mc, time.Time{}, uow, rs)
			}},
		{Name: "message counts", Bound: "units of work of every number of messages 1..600, 5000, 65535, 65536 and 65537",
			Body: func(r *engine.Run) {
				n := r.Choose(604, "messages") + 1
				if n > 600 {
					n = []int{5000, 65535, 65536, 65537}[n-601]
				}
				var uow []byte
				var rs []reply
				for i := 0; i < n; i++ {
					uow = append(uow, frame(25, nil)...)
					rs = append(rs, replyOf(nil, 0))
				}
				mc := &memConn{}
				c := newConn(mc)
				sendWithDeadline(r, c, mc, deadlines[1], uow, rs)
				sendWithDeadline(r, c, mc, deadlines[0], uow, rs)
			}},
		{Name: "long series", Bound: fmt.Sprintf("%d sends on one connection: none with a deadline, all with one, alternating, one with a deadline among many without, the reverse; units of work of 1 or 2 messages", t.pick(70000, 300000)),
			Body: func(r *engine.Run) {
				mc := &memConn{}
				c := newConn(mc)
				kind := r.Choose(5, "deadlines")
				two := r.Bool("two messages")
				uow, rs := frame(25, nil), []reply{replyOf(nil, 0)}
				if two {
					uow, rs = append(uow, uow...), append(rs, rs...)
				}
				for i := 0; i < t.pick(70000, 300000); i++ {
					var d time.Time
					switch kind {
					case 1:
						d = deadlines[1+i%2]
					case 2:
						d = deadlines[i%3]
					case 3:
						if i%1000 == 999 {
							d = deadlines[1]
						}
					case 4:
						if i%1000 != 999 {
							d = deadlines[1]
						}
					}
					sendWithDeadline(r, c, mc, d, uow, rs)
					if len(mc.writes) > 4 {
						mc.writes, mc.wroteDL, mc.readDL = nil, nil, nil
					}
				}
			}},
		{Name: "through the builder", Bound: "programs of <= 2 operations over the whole operation alphabet, sent through a connection with and without a deadline",
			Body: func(r *engine.Run) {
				n := 2
				prog := genProg(r, fullAlphabet(), allContainers(), &n, 2)
				d := deadlines[r.Choose(2, "deadline")]
				if countOps(prog) == 0 {
					r.Prune()
				}
				x := xtorm.New(0)
				runProg(&x.Builder, &env{}, prog)
				mc := &memConn{}
				mc.onWrite = func(m *memConn, p []byte) {
					for off := 0; off+4 <= len(p); off += 4 + int(binary.LittleEndian.Uint32(p[off:])) {
						m.in = append(m.in, frame(sOK, nil)...)
					}
				}
				ctx := context.Background()
				if !d.IsZero() {
					var cancel func()
					ctx, cancel = context.WithDeadline(ctx, d)
					defer cancel()
				}
				_, err := x.Send(ctx, newConn(mc))
				r.Step()
				if err != nil {
					r.Failf("Send failed: %v", err)
				}
				checkOneWrite(r, mc, d, 0)
				if len(mc.writes) == 1 {
					r.State(mc.writes[0])
				}
			}},
	}
}

func sendWithDeadline(r *engine.Run, c netx.Conn, mc *memConn, d time.Time, uow []byte, rs []reply) {
	ctx := context.Background()
	if !d.IsZero() {
		var cancel func()
		ctx, cancel = context.WithDeadline(ctx, d)
		defer cancel()
	}
	mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, replyBytes(rs)...) }
	mc.inExch, mc.readFirst = false, false
	w := len(mc.writes)
	out, err := c.Send(ctx, uow)
	r.Step()
	if !d.IsZero() && time.Until(d) < 0 {
		// A send that gives up because its time has passed is fine, as is one that lets the transport decide.
		if err != nil && len(mc.writes) == w {
			mc.in = nil
			return
		}
	}
	if err != nil || len(out) != len(rs) {
		r.Failf("Send failed: %v (%d responses)", err, len(out))
	}
	checkOneWrite(r, mc, d, w)
	if !bytes.Equal(mc.writes[w], uow) {
		r.Failf("the write does not carry the unit of work: %d bytes of %d", len(mc.writes[w]), len(uow))
	}
	r.StateS(d.String() + fmt.Sprint(len(uow), w))
}

// checkOneWrite checks the writes since w.
func checkOneWrite(r *engine.Run, mc *memConn, d time.Time, w int) {
	if len(mc.writes) != w+1 {
		r.Failf("Send performed %d writes", len(mc.writes)-w)
	}
	if mc.readFirst {
		r.Failf("Send read before writing")
	}
	if !mc.wroteDL[w].Equal(d) {
		r.Failf("the write happened under the deadline %v, the context's is %v", mc.wroteDL[w], d)
	}
	for _, x := range mc.readDL[w] {
		if !x.Equal(d) {
			r.Failf("the replies were read under the deadline %v, the context's is %v", x, d)
		}
	}
}
