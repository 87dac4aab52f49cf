package props

import (
	"bytes"
	"fmt"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
)

// deterministic operations: at most one key per map, so that the bytes are a
// function of the program.
func bufAlphabet() []*op {
	cols2 := []string{"a", "bb"}
	big := []val{vStr(pattern(120)), vInt(-3)}
	return []*op{
		opStmt("s", vInt(300), val{"t", true, sBool(true)}, val{"f", 2.5, f64(2.5)}, val{"n", nil, sNull}),
		opStmt(pattern(130), vStr(pattern(127)), val{"b", []byte(pattern(200)), sOctets(pattern(200), 0)}),
		opPrepare(1<<32-1, pattern(128)),
		opExecute(128, vInt(-1), vStr("two")),
		opDealloc(200),
		opInsert(pattern(127), cols2, []val{vInt(1), vStr("")}, big, []val{{"nil", nil, sNull}, vInt(0)}),
		opInsert("t", []string{"a"}, []val{vStr(pattern(16380))}, []val{vInt(1)}),
		opInsertRow("t", cols2, big...),
		opInsertF("t", cols2, []val{vInt(1), vInt(2)}, big),
		opUpdate("t", critBig, []string{"a"}, []val{vStr(pattern(126))}),
		opUpdateF("t", critEq, []string{"a", "c"}, []val{{"e", xtorm.Concat(xtorm.Column("x"), 1), mFunc("CONCAT", mCol("x"), sSint(1))}, vStr(pattern(130))}),
		opDelete("t", critBig),
		opUseID(0),
	}
}

var junk = func() string {
	b := bytes.Repeat([]byte{0xff}, 40000)
	return string(b)
}()

// priors are uses of the builder before a Reset.
var priors = []struct {
	name string
	do   func(x *xtorm.XPipe)
}{
	{"unused", func(x *xtorm.XPipe) {}},
	{"long unit of work, Reset", func(x *xtorm.XPipe) { x.StmtExecute(junk); x.Reset() }},
	{"short unit of work, Reset", func(x *xtorm.XPipe) { x.StmtExecute(junk[:9]); x.Reset() }},
	{"sent, Reset", func(x *xtorm.XPipe) {
		x.Insert("t", []string{"a"}, [][]interface{}{{junk[:700]}})
		send(x)
		x.Reset()
	}},
	{"failed in an argument, Reset", func(x *xtorm.XPipe) { x.StmtExecute(junk[:600], struct{}{}); x.Reset() }},
	{"failed in a row, Reset", func(x *xtorm.XPipe) {
		x.Insert("t", []string{"a", "b"}, [][]interface{}{{junk[:600], struct{}{}}})
		x.Reset()
	}},
	{"failed inside nested callbacks, Reset", func(x *xtorm.XPipe) {
		x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
			b.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
				b.StmtExecute(junk[:300])
				b.UpdateF("t", nil, func(u *xtorm.Update) error { u.Set("a", complex(1, 2)); return nil })
				return nil
			})
			return nil
		})
		x.Reset()
	}},
	{"rejected isolation level, Reset", func(x *xtorm.XPipe) {
		x.StmtExecute(junk[:100])
		x.Tx(77, func(b *xtorm.Builder) error { return nil })
		x.Reset()
	}},
	{"two resets", func(x *xtorm.XPipe) { x.StmtExecute(junk[:5000]); x.Reset(); x.Deallocate(1<<32 - 1); x.Reset() }},
}

func hasCapture(prog []node) bool {
	for _, n := range prog {
		if n.op != nil && len(n.op.name) >= 9 && n.op.name[:9] == "InsertRow" || hasCapture(n.body) {
			return true
		}
	}
	return false
}

// sameBytes compares a run with the reference run. The name of a capture
// variable is the implementation's choice, so programs with one are compared
// through the decoder.
func sameBytes(r *engine.Run, what string, prog []node, got, ref []byte) {
	if bytes.Equal(got, ref) {
		return
	}
	if hasCapture(prog) {
		if err := checkStream(got, modelProg(&env{}, prog)); err == nil {
			return
		}
	}
	i := 0
	for i < len(got) && i < len(ref) && got[i] == ref[i] {
		i++
	}
	r.Failf("%s: program %v sent %d bytes, %d expected, first difference at byte %d", what, prog, len(got), len(ref), i)
}

// capSweep builds prog at every initial capacity and compares the bytes.
func capScenario(name string, alpha []*op, conts []*container, maxOps, depth int, stride int) engine.Scenario {
	return engine.Scenario{Name: name, Weight: 2,
		Bound: fmt.Sprintf("all programs of <= %d operations over %d operations and %d containers x every initial capacity 0..length+40 (beyond 3000 bytes: every %dth) x %d previous uses", maxOps, len(alpha), len(conts), stride, len(priors)),
		Body: func(r *engine.Run) {
			budget := maxOps
			prog := genProg(r, alpha, conts, &budget, depth)
			if len(prog) == 0 {
				return
			}
			r.Notef("program: %v", prog)
			ref := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			if err := checkStream(ref, modelProg(&env{}, prog)); err != nil {
				r.Failf("program %v: %v", prog, err)
			}
			n := 0
			for c := 0; c <= len(ref)+40; c++ {
				if c > 3000 && c < len(ref)-200 && c%stride != 0 {
					continue
				}
				got := buildBytes(r, c, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				sameBytes(r, fmt.Sprintf("initial capacity %d", c), prog, got, ref)
				n++
			}
			for _, p := range priors {
				for _, c := range []int{0, 1, 100, len(ref) - 1, len(ref), len(ref) + 7, 2*len(ref) + 1000} {
					got := buildBytes(r, c, func(x *xtorm.XPipe) { p.do(x); runProg(&x.Builder, &env{}, prog) })
					sameBytes(r, fmt.Sprintf("initial capacity %d, %s", c, p.name), prog, got, ref)
					n++
				}
			}
			r.Cases(n)
			r.StepN(n * countOps(prog))
			r.State(ref)
		}}
}

// prefixScenario sends after every operation: what was built before must stay.
func prefixScenario(alpha []*op, maxOps int) engine.Scenario {
	caps := []int{0, 1, 16, 64, 256, 1000, 4096, 40000}
	return engine.Scenario{Name: "earlier messages stay",
		Bound: fmt.Sprintf("all sequences of <= %d of %d operations x %d capacities x %d previous uses, snapshot after every operation, every snapshot sent twice", maxOps, len(alpha), len(caps), len(priors)),
		Body: func(r *engine.Run) {
			c := caps[r.Choose(len(caps), "capacity")]
			p := priors[r.Choose(len(priors), "previous use")]
			x := xtorm.New(c)
			p.do(x)
			e := &env{}
			var snap []byte
			for i := 0; i < maxOps; i++ {
				k := r.Choose(len(alpha)+1, "op")
				if k == 0 {
					break
				}
				alpha[k-1].apply(&x.Builder, e)
				r.Step()
				s1, err := send(x)
				if err != nil {
					r.Failf("%s: Send failed: %v", alpha[k-1].name, err)
				}
				s2, err := send(x)
				if err != nil || !bytes.Equal(s1.buf, s2.buf) {
					r.Failf("sending twice gave different bytes after %s", alpha[k-1].name)
				}
				if !bytes.HasPrefix(s1.buf, snap) {
					r.Failf("%s (capacity %d, %s) changed the messages built before it", alpha[k-1].name, c, p.name)
				}
				if len(s1.buf) == len(snap) {
					r.Failf("%s added nothing", alpha[k-1].name)
				}
				snap = s1.buf
			}
			r.State(snap)
		}}
}

// appender is an exported low-level encoder that appends to a slice.
type appender struct {
	name string
	hole bool // the first four bytes are filled in by the caller later
	f    func(p []byte) ([]byte, error)
}

func appenders() []appender {
	nf := func(f func(p []byte) []byte) func(p []byte) ([]byte, error) {
		return func(p []byte) ([]byte, error) { return f(p), nil }
	}
	var as []appender
	for _, n := range []int{0, 1, 5, 100, 118, 127, 128, 140, 300} {
		n := n
		s := pattern(n)
		add := func(name string, hole bool, f func(p []byte) ([]byte, error)) {
			as = append(as, appender{fmt.Sprintf("%s/%d", name, n), hole, f})
		}
		add("StmtExecute", false, func(p []byte) ([]byte, error) {
			return xproto.StmtExecute(p, s, []interface{}{1, s, nil, true, 1.5})
		})
		add("Prepare", false, nf(func(p []byte) []byte { return xproto.Prepare(p, uint32(n)*77777777, s) }))
		add("Execute", false, func(p []byte) ([]byte, error) {
			return xproto.Execute(p, uint32(n)*77777777, []interface{}{s, int8(-5), uint16(3)})
		})
		add("Deallocate", false, nf(func(p []byte) []byte { return xproto.Deallocate(p, uint32(n)*77777777) }))
		add("Insert", true, nf(func(p []byte) []byte { return xproto.Insert(p, s, []string{"a", s}) }))
		add("AppendInsertRow", false, func(p []byte) ([]byte, error) { return xproto.AppendInsertRow(p, []interface{}{s, 1}) })
		add("Update", true, func(p []byte) ([]byte, error) { return xproto.Update(p, s, xtorm.Eq(xtorm.Column(s), 1)) })
		add("Update/nil", true, func(p []byte) ([]byte, error) { return xproto.Update(p, s, nil) })
		add("AppendUpdateSet", false, func(p []byte) ([]byte, error) { return xproto.AppendUpdateSet(p, s, xtorm.Concat(s, 2)) })
		add("Delete", false, func(p []byte) ([]byte, error) { return xproto.Delete(p, s, xtorm.Eq(xtorm.Column(s), 1)) })
		add("ExpectOpen", false, nf(func(p []byte) []byte {
			return xproto.ExpectOpen(p, xproto.OpenExpectCtxEmpty, xproto.OpenConditionExpectNoError(false), xproto.OpenConditionExpectFieldExists(s))
		}))
		add("ExpectClose", false, nf(xproto.ExpectClose))
		add("Reset", false, nf(func(p []byte) []byte { return xproto.Reset(p, n%2 == 0) }))
		add("AppendAnyBytes", false, nf(func(p []byte) []byte { return xproto.AppendAnyBytes(p, 2, []byte(s), 2) }))
		add("AppendAnyBytesString", false, nf(func(p []byte) []byte { return xproto.AppendAnyBytesString(p, 2, s, 0) }))
		add("AppendAnyString", false, nf(func(p []byte) []byte { return xproto.AppendAnyString(p, 2, s, 255) }))
		add("AppendExprString", false, nf(func(p []byte) []byte { return xproto.AppendExprString(p, 2, s, 255) }))
		add("AppendExprBytes", false, nf(func(p []byte) []byte { return xproto.AppendExprBytes(p, 2, []byte(s), 3) }))
		add("AppendExprBytesString", false, nf(func(p []byte) []byte { return xproto.AppendExprBytesString(p, 2, s, 1) }))
		add("AppendExprOperator", false, func(p []byte) ([]byte, error) {
			return xproto.AppendExprOperatorV(p, 2, s, 1, xtorm.Not(s))
		})
		add("AppendExprFunctionCall", false, func(p []byte) ([]byte, error) { return xproto.AppendExprFunctionCallV(p, 2, s, s, nil) })
		add("AppendExprColumn", false, func(p []byte) ([]byte, error) { return xproto.AppendExprColumn(p, 2, s) })
		add("AppendExprPlaceholder", false, func(p []byte) ([]byte, error) {
			return xproto.AppendExprPlaceholder(p, 2, uint32(n)*77777777)
		})
		add("AppendExprVariable", false, func(p []byte) ([]byte, error) { return xproto.AppendExprVariable(p, 2, s) })
		in := xtorm.InV(s, 1, s)
		add("In", false, func(p []byte) ([]byte, error) { return in(p, 2) })
	}
	return as
}

func appenderScenario() engine.Scenario {
	as := appenders()
	prefixes := []int{0, 1, 3, 100, 4000}
	return engine.Scenario{Name: "append to any slice",
		Bound: fmt.Sprintf("%d low-level encoder calls x %d prefix lengths x every spare capacity 0..output+40, spare memory filled with 0x00, 0x7f and 0xff", len(as), len(prefixes)),
		Body: func(r *engine.Run) {
			a := as[r.Choose(len(as), "encoder")]
			np := prefixes[r.Choose(len(prefixes), "prefix")]
			ref, err := a.f(nil)
			if err != nil {
				r.Failf("%s failed: %v", a.name, err)
			}
			ref = append([]byte(nil), ref...)
			n := 0
			for spare := 0; spare <= len(ref)+40; spare++ {
				for _, fill := range []byte{0, 0x7f, 0xff} {
					buf := make([]byte, np+spare)
					for i := range buf {
						buf[i] = fill
					}
					pre := pattern(np)
					copy(buf, pre)
					in := buf[:np:len(buf)]
					out, err := a.f(in)
					if err != nil {
						r.Failf("%s failed with spare capacity %d: %v", a.name, spare, err)
					}
					if len(out) != np+len(ref) || string(out[:np]) != pre {
						r.Failf("%s with %d bytes before it and spare capacity %d: the bytes before it changed or its length did (%d, want %d)", a.name, np, spare, len(out), np+len(ref))
					}
					got := out[np:]
					k := 0
					if a.hole {
						k = 4
					}
					if !bytes.Equal(got[k:], ref[k:]) {
						r.Failf("%s with %d bytes before it, spare capacity %d filled with %#x: output differs", a.name, np, spare, fill)
					}
					if string(buf[:np]) != pre {
						r.Failf("%s with %d bytes before it and spare capacity %d wrote before its position", a.name, np, spare)
					}
					n++
				}
			}
			r.Cases(n)
			r.StepN(n)
			r.State(ref)
		}}
}

// largeBuffers: builders that start with, or grow and are reset to, buffers of
// many megabytes.
func largeBuffers(deep bool) engine.Scenario {
	alpha := append([]*op{nil}, bufAlphabet()...)
	sizes := []int{1 << 16, 1<<18 + 3, 1<<20 + 1, 1<<22 + 1, 1<<24 + 1}
	if deep {
		sizes = append(sizes, 1<<26+1)
	}
	const priors = 7
	return engine.Scenario{Name: "large buffers",
		Bound: fmt.Sprintf("each of %d operations alone or after another, x builders of initial capacity of %v bytes (and one more or less), or once filled with as much (and sent, rejected, or rejected in a callback) and reset; and the operation after a message of that size at capacities around it", len(alpha)-1, sizes),
		Body: func(r *engine.Run) {
			size := sizes[r.Choose(len(sizes), "size")]
			var prog []node
			if o := alpha[r.Choose(len(alpha), "first")]; o != nil {
				prog = append(prog, node{op: o})
			}
			o := alpha[1+r.Choose(len(alpha)-1, "operation")]
			around := len(prog) == 0 && r.Bool("after a message of that size")
			if around {
				prog = append(prog, node{op: opStmt(pattern(size))})
			}
			prog = append(prog, node{op: o})
			ref := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			if err := checkStream(ref, modelProg(&env{}, prog)); err != nil {
				r.Failf("program %s: %v", clip(fmt.Sprint(prog)), err)
			}
			n := 0
			caps := []int{size - 1, size, size + 1, 2 * size}
			if around {
				caps = append(caps, len(ref)-1, len(ref), len(ref)+1)
			}
			for _, c := range caps {
				got := buildBytes(r, c, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				sameBytes(r, fmt.Sprintf("initial capacity %d", c), prog, got, ref)
				n++
			}
			for k := 0; k < priors && !around; k++ {
				got := buildBytes(r, 0, func(x *xtorm.XPipe) {
					x.StmtExecute(pattern(size))
					switch k {
					case 1:
						send(x)
					case 2:
						x.StmtExecute("s", struct{}{})
					case 3:
						x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { b.StmtExecute("s", struct{}{}); return nil })
					case 4:
						x.Reset()
						x.Tx(77, func(b *xtorm.Builder) error { return nil })
					case 5:
						x.Insert("t", []string{"a"}, [][]interface{}{{1, 2}})
					case 6:
						x.Tx(77, func(b *xtorm.Builder) error { return nil })
					}
					x.Reset()
					runProg(&x.Builder, &env{}, prog)
				})
				sameBytes(r, fmt.Sprintf("reset after %d bytes, kind %d", size, k), prog, got, ref)
				n++
			}
			r.Cases(n)
			r.StepN(n * len(prog))
			r.State(ref)
		}}
}

func init() {
	register(&Prop{ID: "C06",
		Scenarios: func(t Tier) []engine.Scenario {
			return []engine.Scenario{
				capScenario("capacities", bufAlphabet(), nil, 3, 0, t.pick(501, 61)),
				capScenario("capacities, nested", []*op{bufAlphabet()[0], bufAlphabet()[5], bufAlphabet()[10]}, []*container{txContainer(2), expectContainer(true)}, t.pick(4, 5), 2, 501),
				prefixScenario(bufAlphabet(), t.pick(3, 4)),
				appenderScenario(),
				largeBuffers(t.Thorough),
			}
		}})
}
