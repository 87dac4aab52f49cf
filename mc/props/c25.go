package props

import (
	"fmt"
	"strconv"
	"unicode/utf8"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// opUseNth uses the k-th most recent captured id in one of several places.
func opUseNth(k, how int) *op {
	return &op{fmt.Sprintf("UseID(%d back,%d)", k, how),
		func(b *xtorm.Builder, e *env) {
			if len(e.ids) <= k {
				b.Deallocate(9)
				return
			}
			id := e.ids[len(e.ids)-1-k]
			switch how {
			case 0:
				b.Insert("c", []string{"p", "q"}, [][]interface{}{{id, 1}, {2, id}})
			case 1:
				b.UpdateF("c", xtorm.In(xtorm.Column("p"), []interface{}{id, 3}), func(u *xtorm.Update) error { u.Set("x", xtorm.Add(id, 1)); return nil })
			case 2:
				e.ids = append(e.ids, b.InsertRow("c", []string{"p"}, []interface{}{id}))
			}
		},
		func(e *env) []exp {
			if e.nVar <= k {
				return []exp{one(mDeallocate(9))}
			}
			id := varToken(e.nVar - k)
			switch how {
			case 0:
				return []exp{one(mInsert("c", []string{"p", "q"}, mRow(id, sSint(1)), mRow(sSint(2), id)))}
			case 1:
				return []exp{one(mUpdate("c", mOp("in", mCol("p"), id, sSint(3)), mSet("x", mOp("+", id, sSint(1)))))}
			default:
				e.nVar++
				return []exp{one(mInsert("c", []string{"p"}, mRow(id))), {capVar: e.nVar}}
			}
		}}
}

func captureAlphabet() []*op {
	return []*op{
		opInsertRow("t", []string{"a"}, vInt(5)),
		opInsertRow("t", []string{"a", "b"}, vStr(pattern(120)), vInt(1)),
		opInsertRow("", nil),
		opStmt(""), opStmt(pattern(90)),
		opDealloc(0),
		opUseNth(0, 0), opUseNth(1, 1), opUseNth(0, 2), opUseNth(2, 0),
	}
}

// manyCaptures checks long runs of captures.
func manyCaptures(counts []int) engine.Scenario {
	return engine.Scenario{Name: "many captures",
		Bound: fmt.Sprintf("%v captures in one unit of work x 4 row sizes x filler of 0..40 bytes between (0 or 3 between 2000 captures and more), every captured id used at the end, builder reset and reused", counts),
		Body: func(r *engine.Run) {
			n := counts[r.Choose(len(counts), "captures")]
			size := []int{0, 1, 130, 1000}[r.Choose(4, "row size")]
			fill, reuse := 0, false
			if n < 2000 {
				fill, reuse = r.Choose(41, "filler"), r.Bool("reused")
			} else {
				fill = 3 * r.Choose(2, "filler")
			}
			x := xtorm.New(0)
			if reuse {
				x.InsertRow("t", []string{"a"}, []interface{}{junk[:100]})
				x.Reset()
			}
			var want []exp
			var ids []xproto.AppendExprFunc
			for i := 0; i < n; i++ {
				ids = append(ids, x.InsertRow("t", []string{"a"}, []interface{}{pattern(size)}))
				want = append(want, one(mInsert("t", []string{"a"}, mRow(sString(pattern(size), 0)))), exp{capVar: i + 1})
				if fill > 0 {
					x.StmtExecute(pattern(fill))
					want = append(want, one(mStmt(pattern(fill))))
				}
			}
			var row []interface{}
			var texts []string
			for i, id := range ids {
				row = append(row, id)
				texts = append(texts, varToken(i+1))
			}
			for i := range ids {
				if i%7 == 0 || i == n-1 {
					x.Delete("t", ids[i])
					want = append(want, one(mDelete("t", texts[i])))
				}
			}
			r.StepN(2 * n)
			c, err := send(x)
			if err != nil {
				r.Failf("Send failed: %v", err)
			}
			if err := checkStream(c.buf, want); err != nil {
				r.Failf("%d captures: %v", n, err)
			}
			r.State(c.buf)
			_ = row
		}}
}

// captureSizes moves the position of a capture through every buffer offset.
func captureSizes(ls []int) engine.Scenario {
	return engine.Scenario{Name: "capture positions",
		Bound: fmt.Sprintf("capture after %d lengths of preceding message (0..17000, around the powers of two up to %d), then two more captures, all used", len(ls), ls[len(ls)-1]),
		Body: func(r *engine.Run) {
			n := ls[r.Choose(len(ls), "length")]
			prog := []node{{op: opStmt(pattern(n))}, {op: opInsertRow("t", []string{"a"}, vInt(1))}, {op: opInsertRow("", nil)}, {op: opUseNth(1, 0)}, {op: opInsertRow("", nil)}, {op: opUseNth(0, 1)}, {op: opUseNth(2, 1)}}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			expectStream(r, b, modelProg(&env{}, prog))
		}}
}

// captureDistances places two captures at every distance near a power of two or ten.
func captureDistances(maxBits int) engine.Scenario {
	var ds []int
	for k := 6; k <= maxBits; k++ {
		ds = append(ds, 1<<k)
	}
	for d := 100; d < 1<<maxBits; d *= 10 {
		ds = append(ds, d)
	}
	const span = 160
	return engine.Scenario{Name: "capture distances",
		Bound: fmt.Sprintf("two captures of rows alike, %d distances (powers of two and ten up to %d) less 0..%d bytes of another message apart, both used", len(ds), 1<<maxBits, span),
		Body: func(r *engine.Run) {
			n := ds[r.Choose(len(ds), "distance")] - r.Choose(span+1, "less")
			if n < 0 {
				r.Prune()
			}
			row := opInsertRow("t", []string{"a"}, vInt(1))
			prog := []node{{op: row}, {op: opStmt(pattern(n))}, {op: row}, {op: opUseNth(1, 0)}, {op: opUseNth(0, 1)}}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			expectStream(r, b, modelProg(&env{}, prog))
		}}
}

func init() {
	register(&Prop{ID: "C25",
		Scenarios: func(t Tier) []engine.Scenario {
			conts := []*container{txContainer(0), expectContainer(true)}
			return []engine.Scenario{
				progScenario("capture programs", captureAlphabet(), nil, t.pick(5, 6), 0),
				progScenario("nested capture programs", captureAlphabet(), conts, t.pick(4, 5), 2),
				captureSizes(append(lengths(true), bigLengths()...)),
				captureDistances(t.pick(22, 24)),
				manyCaptures([]int{2, 10, 100, t.pick(400, 1500), t.pick(5000, 20000)}),
			}
		}})
	register(&Prop{ID: "C26", Scenarios: c26})
	register(&Prop{ID: "C27", Scenarios: c27})
}

func c26(t Tier) []engine.Scenario {
	ids := uints32(t.Thorough)
	ls := lengths(true)
	bl := bigLengths()
	texts := []int{0, 1, 127, 128, 16383, 16384}
	argCounts := []int{0, 1, 2, 3, 10, 127, 128, 500}
	scs := []engine.Scenario{
		{Name: "ids", Bound: fmt.Sprintf("%d structured 32-bit ids x {Prepare with %d text lengths, Execute with %d argument counts, Deallocate}, between other messages", len(ids), len(texts), len(argCounts)), Weight: 2,
			Body: func(r *engine.Run) {
				id := ids[r.Choose(len(ids), "id")]
				tl := texts[int(id%7)%len(texts)]
				args := repeatVal(vInt(-3), argCounts[int(id%11)%len(argCounts)])
				prog := []node{{op: opDealloc(id)}, {op: opPrepare(id, pattern(tl))}, {op: opExecute(id, args...)}, {op: opDealloc(id)}, {op: opExecute(id)}, {op: opPrepare(^id, "")}}
				b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				r.StepN(len(prog))
				expectStream(r, b, modelProg(&env{}, prog))
			}},
		{Name: "text lengths", Bound: fmt.Sprintf("Prepare with %d lengths of text (0..17000 and around the powers of two up to 2^21) x 6 ids", len(ls)+len(bl)),
			Body: func(r *engine.Run) {
				all := len(ls) + len(bl)
				k := r.Choose(all, "length")
				n := 0
				if k < len(ls) {
					n = ls[k]
				} else {
					n = bl[k-len(ls)]
				}
				id := []uint32{0, 1, 127, 128, 16384, 1<<32 - 1}[r.Choose(6, "id")]
				prog := []node{{op: opPrepare(id, pattern(n))}, {op: opDealloc(7)}}
				b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				expectStream(r, b, modelProg(&env{}, prog))
			}},
		{Name: "arguments", Bound: "Execute with 0..300 arguments and up to 100003, values in order, and every ordered pair of values",
			Body: func(r *engine.Run) {
				var args []val
				if r.Bool("pairs") {
					vs := baseVals()
					args = []val{vs[r.Choose(len(vs), "first")], vs[r.Choose(len(vs), "second")]}
				} else {
					n := r.Choose(316, "count")
					if n > 300 {
						n = []int{500, 1000, 2000, 4000, 8000, 10000, 16383, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 100003}[n-301]
					}
					for i := 0; i < n; i++ {
						args = append(args, vInt(i*i-5))
					}
				}
				prog := []node{{op: opExecute(300, args...)}, {op: opDealloc(7)}}
				b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				expectStream(r, b, modelProg(&env{}, prog))
			}},
	}
	scs = append(scs, textScenario("text contents", textParams()[2:3], t.Thorough))
	span := 1 << 24
	if t.Thorough {
		span = 1 << 32
	}
	const chunk = 1 << 16
	scs = append(scs, engine.Scenario{Name: "all ids", Weight: 4, Bound: fmt.Sprintf("every id below %d (and the top 2^20 ids) through Prepare, Execute and Deallocate", span),
		Body: func(r *engine.Run) {
			hi := uint32(r.Choose(span/chunk+16, "high half"))
			base := hi * chunk
			if int(hi) >= span/chunk {
				base = -uint32(int(hi)-span/chunk+1) * chunk
			}
			var p, e, d []byte
			for lo := uint32(0); lo < chunk; lo++ {
				id := base + lo
				p = xproto.Prepare(p[:0], id, "q")
				var err error
				e, err = xproto.Execute(e[:0], id, nil)
				d = xproto.Deallocate(d[:0], id)
				if err != nil {
					r.Failf("Execute(%d): %v", id, err)
				}
				if !fastID(p, 40, id, true) {
					expectStream(r, p, []exp{one(mPrepare(id, "q"))})
				}
				if !fastID(e, 41, id, false) {
					expectStream(r, e, []exp{one(mExecute(id))})
				}
				if !fastID(d, 42, id, false) {
					expectStream(r, d, []exp{one(mDeallocate(id))})
				}
			}
			r.StepN(3 * chunk)
			r.Cases(3 * chunk)
			r.StateH(uint64(base))
		}})
	return scs
}

// fastID recognises the expected encoding of a message that starts with a
// statement id; anything else goes to the general decoder.
func fastID(b []byte, typ byte, id uint32, stmt bool) bool {
	if len(b) < 7 || int(b[0]) != len(b)-4 || b[1]|b[2]|b[3] != 0 || b[4] != typ || b[5] != 8 {
		return false
	}
	b = b[6:]
	var x uint64
	i := 0
	for ; ; i++ {
		if i >= len(b) || i > 4 {
			return false
		}
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			i++
			break
		}
	}
	if x != uint64(id) {
		return false
	}
	if stmt {
		return string(b[i:]) == "\x12\x07\x08\x05\x32\x03\x0a\x01q"
	}
	return i == len(b)
}

func c27(t Tier) []engine.Scenario {
	ls := lengths(true)
	bl := bigLengths()
	length := func(r *engine.Run) int {
		k := r.Choose(len(ls)+len(bl), "length")
		if k < len(ls) {
			return ls[k]
		}
		return bl[k-len(ls)]
	}
	framed := func(r *engine.Run, what string, b []byte, want string) {
		r.Step()
		got, err := xwire.Canon(b)
		if err != nil {
			r.Failf("%s: not well formed: %v", what, err)
		}
		if len(got) != 1 || got[0] != want {
			r.Failf("%s: got %s, expected %s", what, clip(fmt.Sprint(got)), clip(want))
		}
		r.State(b)
	}
	condText := func(key int, v string) string { return fmt.Sprintf("Condition{key=%d value=%s }", key, mStr(v)) }
	scs := []engine.Scenario{
		{Name: "reset", Bound: "both values, after prefixes of 0..40 bytes with every spare capacity 0..20",
			Body: func(r *engine.Run) {
				keep := r.Bool("keep open")
				n, spare := r.Choose(41, "prefix"), r.Choose(21, "spare")
				buf := make([]byte, n, n+spare)
				copy(buf, pattern(n))
				out := xproto.Reset(buf, keep)
				if string(out[:n]) != pattern(n) {
					r.Failf("the bytes before the message changed")
				}
				want := "Reset{}"
				if keep {
					want = "Reset{keep_open=true }"
				}
				framed(r, "Reset", out[n:], want)
			}},
		{Name: "capability", Bound: fmt.Sprintf("names of %d lengths (0..17000, around the powers of two up to 2^21) x both values", len(ls)+len(bl)), Weight: 2,
			Body: func(r *engine.Run) {
				n := length(r)
				on := r.Bool("enable")
				name := pattern(n)
				if isASCII := r.Bool("ascii"); isASCII {
					name = asciiPattern(n)
				}
				b, err := xproto.CapabilitySet(name, on)
				if err != nil {
					// proto2 strings must be UTF-8 in some protobuf runtimes: a
					// reported error is acceptable for a name that is not.
					if name == asciiPattern(n) {
						r.Failf("CapabilitySet(%d bytes) failed: %v", n, err)
					}
					return
				}
				framed(r, "CapabilitySet", b, "CapabilitiesSet{capabilities=Capabilities{capabilities[Capability{name="+mStr(name)+" value="+sBool(on)+" }] } }")
			}},
		{Name: "authentication", Bound: "start and continue messages with data of every length of the capability scenario x mechanism names of 0..300 bytes (data of 0/1/127/128 bytes), into buffers of capacity 0..40, 128 and 4096", Weight: 2,
			Body: func(r *engine.Run) {
				buf := []byte(nil)
				auth := func(typ byte, mech, data string, b []byte) {
					r.Step()
					gt, gm, gd, _, err := authMessage(b)
					if err != nil || gt != typ || gm != mech || gd != data {
						r.Failf("authentication message %d with mechanism %q and %d bytes: got %d %q %q (%v)", typ, clip(mech), len(data), gt, clip(gm), clip(gd), err)
					}
					r.State(b)
				}
				switch r.Choose(3, "what") {
				case 0:
					s := pattern(length(r))
					d := []byte(s)
					if r.Bool("continue") {
						auth(cAuthContinue, "", s, xproto.AuthenticateContinue(buf, d))
					} else {
						auth(cAuthStart, "MYSQL41", s, xproto.AuthenticateStart(buf, "MYSQL41", d))
					}
					if string(d) != s {
						r.Failf("the authentication data was changed")
					}
				case 1:
					m := asciiPattern(r.Choose(301, "mechanism length"))
					s := pattern([]int{0, 1, 127, 128}[r.Choose(4, "data")])
					auth(cAuthStart, m, s, xproto.AuthenticateStart(buf, m, []byte(s)))
				case 2:
					k := r.Choose(43, "capacity")
					buf = make([]byte, 0, append([]int{128, 4096}, upto(41)...)[k])
					for i := range buf[:cap(buf)] {
						buf[:cap(buf)][i] = 0xa5
					}
					s := pattern(r.Choose(200, "data length"))
					if r.Bool("continue") {
						auth(cAuthContinue, "", s, xproto.AuthenticateContinue(buf, []byte(s)))
					} else {
						auth(cAuthStart, "SHA256_MEMORY", s, xproto.AuthenticateStart(buf, "SHA256_MEMORY", []byte(s)))
					}
				}
			}},
		{Name: "expectation, one field", Bound: "both contexts x field names of every length", Weight: 2,
			Body: func(r *engine.Run) {
				n := length(r)
				op := []xproto.OpenCtxOperation{xproto.OpenExpectCtxCopyPrev, xproto.OpenExpectCtxEmpty}[r.Choose(2, "context")]
				want := "Open{"
				if op == xproto.OpenExpectCtxEmpty {
					want += "op=EMPTY "
				}
				want += "cond[" + condText(2, pattern(n)) + "] }"
				framed(r, "ExpectOpen", xproto.ExpectOpen(nil, op, xproto.OpenConditionExpectFieldExists(pattern(n))), want)
			}},
		{Name: "expectation, condition lists", Bound: "both contexts x all lists of <= 4 conditions over {no error, not no error, field of 0/1/122/123/124/125/126/127/128/300 bytes}",
			Body: func(r *engine.Run) {
				op := []xproto.OpenCtxOperation{xproto.OpenExpectCtxCopyPrev, xproto.OpenExpectCtxEmpty}[r.Choose(2, "context")]
				want := "Open{"
				if op == xproto.OpenExpectCtxEmpty {
					want += "op=EMPTY "
				}
				fields := []int{0, 1, 122, 123, 124, 125, 126, 127, 128, 300}
				var cs []xproto.OpenCondition
				var ts []string
				for len(cs) < 4 {
					k := r.Choose(3+len(fields), "condition")
					if k == 0 {
						break
					}
					switch {
					case k == 1:
						cs, ts = append(cs, xproto.OpenConditionExpectNoError(true)), append(ts, condText(1, "1"))
					case k == 2:
						cs, ts = append(cs, xproto.OpenConditionExpectNoError(false)), append(ts, condText(1, "0"))
					default:
						s := pattern(fields[k-3])
						cs, ts = append(cs, xproto.OpenConditionExpectFieldExists(s)), append(ts, condText(2, s))
					}
				}
				want += mRep("cond", ts) + "}"
				framed(r, "ExpectOpen", xproto.ExpectOpen(nil, op, cs...), want)
			}},
		{Name: "expectation close", Bound: "after prefixes of 0..40 bytes with every spare capacity 0..20",
			Body: func(r *engine.Run) {
				n, spare := r.Choose(41, "prefix"), r.Choose(21, "spare")
				buf := make([]byte, n, n+spare)
				copy(buf, pattern(n))
				out := xproto.ExpectClose(buf)
				if string(out[:n]) != pattern(n) {
					r.Failf("the bytes before the message changed")
				}
				framed(r, "ExpectClose", out[n:], mClose)
			}},
		{Name: "variables", Bound: "AppendExprVariable: names of every length x tags 1..15 for lengths <= 300",
			Body: func(r *engine.Run) {
				n := length(r)
				tag := uint8(2)
				if n <= 300 {
					tag = uint8(1 + r.Choose(15, "tag"))
				}
				b, err := xproto.AppendExprVariable(nil, tag, pattern(n))
				r.Step()
				if err != nil {
					r.Failf("failed: %v", err)
				}
				gt, got, err := xwire.CanonExpr(b)
				if err != nil || gt != int(tag) || got != mVar(pattern(n)) {
					r.Failf("variable name of %d bytes, tag %d: got tag %d %s (%v)", n, tag, gt, clip(got), err)
				}
				r.State(b)
			}},
		{Name: "variables in messages", Bound: "a variable of every length as criteria, value and operand of a builder's messages",
			Body: func(r *engine.Run) {
				n := ls[r.Choose(len(ls), "length")]
				f := xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, pattern(n)) })
				checkExpr(r, r.Choose(2, "place")*2, f, mVar(pattern(n)), "variable")
			}},
	}
	ts := texts(t.Thorough)
	scs = append(scs, engine.Scenario{Name: "text contents", Bound: fmt.Sprintf("variable, capability and field names of %d contents (every byte, short strings of significant bytes, words)", len(ts)),
		Body: func(r *engine.Run) {
			s := ts[r.Choose(len(ts), "text")]
			switch r.Choose(4, "where") {
			case 0:
				b, err := xproto.AppendExprVariable(nil, 3, s)
				if err != nil {
					r.Failf("variable %q: %v", s, err)
				}
				if gt, got, err := xwire.CanonExpr(b); err != nil || gt != 3 || got != mVar(s) {
					r.Failf("variable %q: got %s (%v)", s, clip(got), err)
				}
				r.State(b)
			case 1:
				b, err := xproto.CapabilitySet(s, true)
				if err != nil && !utf8.ValidString(s) {
					return
				}
				if err != nil {
					r.Failf("CapabilitySet(%q) failed: %v", s, err)
				}
				framed(r, "CapabilitySet", b, "CapabilitiesSet{capabilities=Capabilities{capabilities[Capability{name="+mStr(s)+" value="+sBool(true)+" }] } }")
			case 2:
				framed(r, "ExpectOpen", xproto.ExpectOpen(nil, xproto.OpenExpectCtxCopyPrev, xproto.OpenConditionExpectFieldExists(s), xproto.OpenConditionExpectFieldExists(s)), "Open{cond["+condText(2, s)+","+condText(2, s)+"] }")
			case 3:
				f := xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, s) })
				checkExpr(r, 3, f, mVar(s), "variable")
			}
		}},
		engine.Scenario{Name: "many conditions", Bound: "ExpectOpen with 0..300 conditions, alternating kinds and lengths",
			Body: func(r *engine.Run) {
				n := r.Choose(301, "conditions")
				var cs []xproto.OpenCondition
				var ts []string
				for i := 0; i < n; i++ {
					switch i % 3 {
					case 0:
						cs, ts = append(cs, xproto.OpenConditionExpectNoError(i%2 == 0)), append(ts, condText(1, strconv.Itoa(1-i%2)))
					default:
						s := pattern(i)
						cs, ts = append(cs, xproto.OpenConditionExpectFieldExists(s)), append(ts, condText(2, s))
					}
				}
				framed(r, "ExpectOpen", xproto.ExpectOpen(nil, xproto.OpenExpectCtxEmpty, cs...), "Open{op=EMPTY "+mRep("cond", ts)+"}")
			}})
	ids := uints32(t.Thorough)
	scs = append(scs, engine.Scenario{Name: "placeholders", Bound: fmt.Sprintf("%d structured positions, tags 1..15", len(ids)),
		Body: func(r *engine.Run) {
			id := ids[r.Choose(len(ids), "position")]
			tag := uint8(1 + r.Choose(15, "tag"))
			b, err := xproto.AppendExprPlaceholder(nil, tag, id)
			r.Step()
			if err != nil {
				r.Failf("failed: %v", err)
			}
			gt, got, err := xwire.CanonExpr(b)
			if err != nil || gt != int(tag) || got != "PLACEHOLDER("+strconv.FormatUint(uint64(id), 10)+")" {
				r.Failf("placeholder %d, tag %d: got tag %d %s (%v)", id, tag, gt, clip(got), err)
			}
			r.State(b)
		}})
	return scs
}

var asciiBuf = func() string {
	b := make([]byte, 1<<24+64)
	for i := range b {
		b[i] = 'a' + byte(i*7+i/251)%26
	}
	return string(b)
}()

func asciiPattern(n int) string { return asciiBuf[:n] }

// upto returns 0..n-1.
func upto(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}
