package props

import (
	"fmt"
	"math"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// carrier is a way of transmitting one value; it returns the expected stream.
type carrier struct {
	name string
	send func(x *xtorm.XPipe, v interface{})
	want func(s string) []exp
}

var argCarriers = []carrier{
	{"StmtExecute", func(x *xtorm.XPipe, v interface{}) { x.StmtExecute("s", 1, v, "z") },
		func(s string) []exp { return []exp{one(mStmt("s", sSint(1), s, sString("z", 0)))} }},
	{"Execute", func(x *xtorm.XPipe, v interface{}) { x.Execute(300, v, 2) },
		func(s string) []exp { return []exp{one(mExecute(300, s, sSint(2)))} }},
}

var exprCarriers = []carrier{
	{"Insert row", func(x *xtorm.XPipe, v interface{}) {
		x.Insert("t", []string{"a", "b"}, [][]interface{}{{v, 1}})
	}, func(s string) []exp { return []exp{one(mInsert("t", []string{"a", "b"}, mRow(s, sSint(1))))} }},
	{"InsertF row", func(x *xtorm.XPipe, v interface{}) {
		x.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(v); return nil })
	}, func(s string) []exp { return []exp{one(mInsert("t", []string{"a"}, mRow(s)))} }},
	{"Update set", func(x *xtorm.XPipe, v interface{}) { x.Update("t", nil, map[string]interface{}{"a": v}) },
		func(s string) []exp { return []exp{one(mUpdate("t", "", mSet("a", s)))} }},
	{"UpdateF set", func(x *xtorm.XPipe, v interface{}) {
		x.UpdateF("t", nil, func(u *xtorm.Update) error { u.Set("a", v); return nil })
	}, func(s string) []exp { return []exp{one(mUpdate("t", "", mSet("a", s)))} }},
	{"Delete criteria operand", func(x *xtorm.XPipe, v interface{}) { x.Delete("t", xtorm.Neq(xtorm.Column("c"), v)) },
		func(s string) []exp { return []exp{one(mDelete("t", mOp("!=", mCol("c"), s)))} }},
	{"function operand", func(x *xtorm.XPipe, v interface{}) {
		x.Update("t", xtorm.Concat(v, 1), map[string]interface{}{"b": v})
	}, func(s string) []exp { return []exp{one(mUpdate("t", mFunc("CONCAT", s, sSint(1)), mSet("b", s)))} }},
}

func checkVal(r *engine.Run, c carrier, v val) {
	b := buildBytes(r, 0, func(x *xtorm.XPipe) { c.send(x, v.v) })
	if err := checkStream(b, c.want(v.s)); err != nil {
		r.Failf("%s %s through %s: %v", v.name, str(v.v), c.name, err)
	}
	r.State(b)
}

// intTypes: every width as a function of a 64-bit pattern.
var intTypes = []struct {
	name string
	bits uint
	mk   func(x uint64) val
}{
	{"int", 64, func(x uint64) val { return val{"int", int(x), sSint(int64(x))} }},
	{"int64", 64, func(x uint64) val { return val{"int64", int64(x), sSint(int64(x))} }},
	{"uint", 64, func(x uint64) val { return val{"uint", uint(x), sUint(x)} }},
	{"uint64", 64, func(x uint64) val { return val{"uint64", x, sUint(x)} }},
	{"int32", 32, func(x uint64) val { return val{"int32", int32(x), sSint(int64(int32(x)))} }},
	{"uint32", 32, func(x uint64) val { return val{"uint32", uint32(x), sUint(uint64(uint32(x)))} }},
	{"int16", 16, func(x uint64) val { return val{"int16", int16(x), sSint(int64(int16(x)))} }},
	{"uint16", 16, func(x uint64) val { return val{"uint16", uint16(x), sUint(uint64(uint16(x)))} }},
	{"int8", 8, func(x uint64) val { return val{"int8", int8(x), sSint(int64(int8(x)))} }},
	{"uint8", 8, func(x uint64) val { return val{"uint8", uint8(x), sUint(uint64(uint8(x)))} }},
}

func intScenario(cs []carrier, thorough bool) engine.Scenario {
	u64 := uints64(thorough)
	var u32 []uint64
	for _, x := range uints32(thorough) {
		u32 = append(u32, uint64(x))
	}
	all16 := make([]uint64, 1<<16)
	for i := range all16 {
		all16[i] = uint64(i)
	}
	return engine.Scenario{Name: "integers", Weight: 2,
		Bound: fmt.Sprintf("all 8- and 16-bit values; %d structured 32-bit and %d structured 64-bit values; every integer type; %d ways of sending", len(u32), len(u64), len(cs)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			t := intTypes[r.Choose(len(intTypes), "type")]
			var x uint64
			switch t.bits {
			case 64:
				x = u64[r.Choose(len(u64), "value")]
			case 32:
				x = u32[r.Choose(len(u32), "value")]
			case 16:
				x = all16[r.Choose(1<<16, "value")]
			case 8:
				x = uint64(r.Choose(256, "value"))
			}
			checkVal(r, c, t.mk(x))
		}}
}

func floatScenario(cs []carrier) engine.Scenario {
	b64, b32 := floatBits64(), floatBits32()
	return engine.Scenario{Name: "floats",
		Bound: fmt.Sprintf("every exponent and sign x boundary mantissas: %d doubles, %d floats", len(b64), len(b32)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			if r.Bool("float32") {
				x := b32[r.Choose(len(b32), "bits")]
				checkVal(r, c, val{"float32", math.Float32frombits(x), sFloat(x)})
			} else {
				x := b64[r.Choose(len(b64), "bits")]
				checkVal(r, c, val{"float64", math.Float64frombits(x), sDouble(x)})
			}
		}}
}

func stringScenario(cs []carrier, ls, bl []int) engine.Scenario {
	return engine.Scenario{Name: "strings", Weight: 4,
		Bound: fmt.Sprintf("%d string/bytes/JSON/XML/geometry kinds x all lengths 0..17000, around the powers of two up to %d and %d around 2^21 x %d ways of sending", len(strKinds), ls[len(ls)-1], len(bl), len(cs)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			k := strKinds[r.Choose(len(strKinds), "kind")]
			i := r.Choose(len(ls)+len(bl), "length")
			n := 0
			if i < len(ls) {
				n = ls[i]
			} else {
				n = bl[i-len(ls)]
			}
			checkVal(r, c, k.mk(pattern(n)))
		}}
}

func contentScenario(cs []carrier) engine.Scenario {
	return engine.Scenario{Name: "bytes content",
		Bound: "every byte value at every position of 1..3-byte strings (single-byte alphabet), every kind",
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			k := strKinds[r.Choose(len(strKinds), "kind")]
			n := 1 + r.Choose(3, "len")
			pos := r.Choose(n, "pos")
			b := []byte("aaa")[:n]
			b[pos] = byte(r.Choose(256, "byte"))
			checkVal(r, c, k.mk(string(b)))
		}}
}

func collationScenario(cs []carrier, thorough bool) engine.Scenario {
	var ids []uint64
	for i := uint64(0); i < 1024; i++ {
		ids = append(ids, i)
	}
	for _, x := range uints64(false) {
		if x >= 1024 && (thorough || len(ids) < 6000) {
			ids = append(ids, x)
		}
	}
	lens := []int{0, 1, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128}
	return engine.Scenario{Name: "collations",
		Bound: fmt.Sprintf("%d collation ids (all below 1024, structured above) x %d text lengths", len(ids), len(lens)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			n := lens[r.Choose(len(lens), "length")]
			id := ids[r.Choose(len(ids), "collation")]
			checkVal(r, c, val{"String", xtorm.String{Value: pattern(n), Collation: collation.Collation(id)}, sString(pattern(n), id)})
		}}
}

func pairScenario(cs string) engine.Scenario {
	vs := baseVals()
	return engine.Scenario{Name: "value lists",
		Bound: fmt.Sprintf("all pairs of %d values of every supported type", len(vs)),
		Body: func(r *engine.Run) {
			a, b := vs[r.Choose(len(vs), "first")], vs[r.Choose(len(vs), "second")]
			var o *op
			if cs == "any" {
				if r.Bool("prepared") {
					o = opExecute(1, a, b)
				} else {
					o = opStmt("s", a, b)
				}
			} else {
				switch r.Choose(3, "how") {
				case 0:
					o = opInsert("t", []string{"a", "b"}, []val{a, b}, []val{b, a})
				case 1:
					o = opUpdateF("t", noCrit, []string{"a", "b"}, []val{a, b})
				default:
					o = opDelete("t", ex{xtorm.Or(a.v, b.v), mOp("||", a.s, b.s)})
				}
			}
			bb := buildBytes(r, 0, func(x *xtorm.XPipe) { o.apply(&x.Builder, &env{}) })
			if err := checkStream(bb, o.model(&env{})); err != nil {
				r.Failf("%s(%s, %s): %v", o.name, a.name, b.name, err)
			}
			r.State(bb)
		}}
}

func ptr[T any](v T) *T { return &v }

// pointerVals are pointers, accepted as statement arguments only.
func pointerVals() []val {
	now := time.Date(1999, 12, 31, 1, 2, 3, 4, time.UTC)
	var vs []val
	vs = append(vs,
		val{"*int", ptr(int(-5)), sSint(-5)}, val{"*int8", ptr(int8(-5)), sSint(-5)}, val{"*int16", ptr(int16(-500)), sSint(-500)},
		val{"*int32", ptr(int32(1 << 30)), sSint(1 << 30)}, val{"*int64", ptr(int64(-1 << 62)), sSint(-1 << 62)},
		val{"*uint", ptr(uint(5)), sUint(5)}, val{"*uint8", ptr(uint8(200)), sUint(200)}, val{"*uint16", ptr(uint16(50000)), sUint(50000)},
		val{"*uint32", ptr(uint32(1 << 31)), sUint(1 << 31)}, val{"*uint64", ptr(uint64(1) << 63), sUint(1 << 63)},
		val{"*bool", ptr(true), sBool(true)}, val{"*bool", ptr(false), sBool(false)},
		val{"*float32", ptr(float32(1.25)), f32(1.25)}, val{"*float64", ptr(float64(1.25)), f64(1.25)},
		val{"*string", ptr("hi"), sString("hi", 0)}, val{"*string empty", ptr(""), sString("", 0)},
		val{"*[]byte", ptr([]byte("hi")), sOctets("hi", 0)}, val{"*[]byte nil", ptr([]byte(nil)), sNull},
		val{"*time.Time", &now, sOctets("1999-12-31 01:02:03.000000004", 0)},
		val{"*time.Duration", ptr(90 * time.Minute), sOctets("1:30:00", 0)},
		val{"**int", ptr(ptr(7)), sSint(7)}, val{"***string", ptr(ptr(ptr("x"))), sString("x", 0)},
		val{"**int nil inside", ptr((*int)(nil)), sNull},
		val{"*String", &xtorm.String{Value: "q", Collation: 63}, sString("q", 63)},
		val{"**String", ptr(&xtorm.String{Value: "q"}), sString("q", 0)},
		val{"*JSON", ptr(xtorm.JSON([]byte("{}"))), sOctets("{}", ctJSON)},
		val{"*XMLString", ptr(xtorm.XMLString("<a/>")), sOctets("<a/>", ctXML)},
		val{"user", userVal{}, sNull}, val{"*user", &userVal{}, sNull}, val{"userPtr", &userPtrVal{}, sNull},
		val{"*interface nil", ptr(interface{}(nil)), sNull}, val{"*interface int", ptr(interface{}(3)), sSint(3)},
		val{"nil *int", (*int)(nil), sNull}, val{"nil *int8", (*int8)(nil), sNull}, val{"nil *uint64", (*uint64)(nil), sNull},
		val{"nil *string", (*string)(nil), sNull}, val{"nil *bool", (*bool)(nil), sNull}, val{"nil *float64", (*float64)(nil), sNull},
		val{"nil *[]byte", (*[]byte)(nil), sNull}, val{"nil *time.Time", (*time.Time)(nil), sNull}, val{"nil *Duration", (*time.Duration)(nil), sNull},
		val{"nil **int", (**int)(nil), sNull}, val{"nil *struct", (*structVal)(nil), sNull},
		val{"nil *String", (*xtorm.String)(nil), sNull}, val{"nil *user", (*userVal)(nil), sNull},
		val{"nil **String", ptr((*xtorm.String)(nil)), sNull},
	)
	return vs
}

func pointerScenario() engine.Scenario {
	vs := pointerVals()
	return engine.Scenario{Name: "pointers", Bound: fmt.Sprintf("%d pointer values (every pointee type, nil and non-nil, up to three levels), at each argument position", len(vs)),
		Body: func(r *engine.Run) {
			v := vs[r.Choose(len(vs), "value")]
			n := 1 + r.Choose(3, "args")
			pos := r.Choose(n, "pos")
			args := repeatVal(vStr("o"), n)
			args[pos] = v
			var o *op
			if r.Bool("prepared") {
				o = opExecute(4, args...)
			} else {
				o = opStmt("s", args...)
			}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { o.apply(&x.Builder, &env{}) })
			if err := checkStream(b, o.model(&env{})); err != nil {
				r.Failf("%s: %v", v.name, err)
			}
			r.State(b)
		}}
}

// lowLevelScalars: the exported byte-level encoders, any tag, content type and
// collation.
func lowLevelScalars(expr bool, thorough bool) engine.Scenario {
	cts := uints32(false)
	if !thorough {
		cts = cts[:3000]
	}
	lens := []int{0, 1, 100, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 300}
	return engine.Scenario{Name: "low-level encoders",
		Bound: fmt.Sprintf("tags 1..15, %d content types, %d lengths", len(cts), len(lens)),
		Body: func(r *engine.Run) {
			f := r.Choose(3, "function")
			ct := uint32(0)
			tag, n := uint8(2), 5
			switch r.Choose(3, "vary") {
			case 0:
				ct = cts[r.Choose(len(cts), "id")]
				n = lens[r.Choose(3, "length")]
			case 1:
				tag = uint8(1 + r.Choose(15, "tag"))
				ct = uint32(r.Choose(3, "id")) * 100
			default:
				n = lens[r.Choose(len(lens), "length")]
				ct = []uint32{0, 3, 127, 128, 16384, 1 << 31}[r.Choose(6, "id")]
			}
			s := pattern(n)
			var b []byte
			var want string
			switch {
			case f == 0 && expr:
				b, want = xproto.AppendExprBytes(nil, tag, []byte(s), xproto.ContentType(ct)), sOctets(s, ct)
			case f == 1 && expr:
				b, want = xproto.AppendExprBytesString(nil, tag, s, xproto.ContentType(ct)), sOctets(s, ct)
			case f == 2 && expr:
				b, want = xproto.AppendExprString(nil, tag, s, collation.Collation(ct)), sString(s, uint64(ct))
			case f == 0:
				b, want = xproto.AppendAnyBytes(nil, tag, []byte(s), xproto.ContentType(ct)), sOctets(s, ct)
			case f == 1:
				b, want = xproto.AppendAnyBytesString(nil, tag, s, xproto.ContentType(ct)), sOctets(s, ct)
			default:
				b, want = xproto.AppendAnyString(nil, tag, s, collation.Collation(ct)), sString(s, uint64(ct))
			}
			r.Step()
			var gt int
			var got string
			var err error
			if expr {
				gt, got, err = xwire.CanonExpr(b)
			} else {
				gt, got, err = xwire.CanonAny(b)
			}
			if err != nil || gt != int(tag) || got != want {
				r.Failf("function %d, %d bytes, id %d, tag %d: got tag %d %s (%v), expected %s", f, n, ct, tag, gt, clip(got), err, clip(want))
			}
			r.State(b)
		}}
}

// exhaustive32 runs every 32-bit pattern of one type through the encoder.
func exhaustive32(expr bool) engine.Scenario {
	const chunk = 1 << 16
	return engine.Scenario{Name: "all 32-bit patterns", Weight: 20,
		Bound: "all 2^32 values of int32, uint32 and float32",
		Body: func(r *engine.Run) {
			t := r.Choose(3, "type")
			hi := uint32(r.Choose(1<<16, "high half")) << 16
			var buf []byte
			row := make([]interface{}, 1)
			for lo := uint32(0); lo < chunk; lo++ {
				x := hi | lo
				var kind byte
				var want uint64
				switch t {
				case 0:
					row[0] = int32(x)
					kind, want = 1, uint64(int64(int32(x)))
				case 1:
					row[0] = x
					kind, want = 2, uint64(x)
				default:
					row[0] = math.Float32frombits(x)
					kind, want = 6, uint64(x)
					if f := row[0].(float32); f != f && math.Float32bits(f) != x {
						continue // not representable in a Go float32 on this machine
					}
				}
				var err error
				if expr {
					buf, err = xproto.AppendInsertRow(buf[:0], row)
				} else {
					buf, err = xproto.Execute(buf[:0], 1, row)
				}
				if err != nil {
					r.Failf("%v: %v", row[0], err)
				}
				k, v, ok := fastScalar(buf, expr)
				if !ok || k != kind || v != want {
					// not in the usual layout: decide with the general decoder
					vv := val{"value", row[0], ""}
					switch kind {
					case 1:
						vv.s = sSint(int64(want))
					case 2:
						vv.s = sUint(want)
					default:
						vv.s = sFloat(uint32(want))
					}
					if expr {
						checkVal(r, exprCarriers[0], vv)
					} else {
						checkVal(r, argCarriers[1], vv)
					}
				}
			}
			r.StepN(chunk)
			r.Cases(chunk)
			r.StateH(uint64(t)<<32 | uint64(hi))
		}}
}

// fastScalar strictly decodes one numeric scalar in its fixed envelope.
func fastScalar(b []byte, expr bool) (kind byte, v uint64, ok bool) {
	if expr { // row{ field{ type=2 literal{...} } }
		if len(b) < 10 || b[0] != 4<<3|2 || int(b[1]) != len(b)-2 || b[2] != 1<<3|2 || int(b[3]) != len(b)-4 || b[4] != 8 || b[5] != 2 || b[6] != 4<<3|2 || int(b[7]) != len(b)-8 {
			return
		}
		b = b[8:]
	} else { // frame, stmt_id=1, args{ type=1 scalar{...} }
		if len(b) < 15 || int(b[0]) != len(b)-4 || b[1]|b[2]|b[3] != 0 || b[4] != 41 || b[5] != 8 || b[6] != 1 || b[7] != 2<<3|2 || int(b[8]) != len(b)-9 || b[9] != 8 || b[10] != 1 || b[11] != 2<<3|2 || int(b[12]) != len(b)-13 {
			return
		}
		b = b[13:]
	}
	if len(b) < 4 || b[0] != 8 {
		return
	}
	kind = b[1]
	key := b[2]
	b = b[3:]
	switch kind {
	case 1, 2:
		if key != (kind+1)<<3 {
			return
		}
		var x uint64
		for i, c := range b {
			if i > 9 {
				return
			}
			x |= uint64(c&0x7f) << (7 * uint(i))
			if c < 0x80 {
				if i != len(b)-1 {
					return
				}
				if kind == 1 {
					x = uint64(int64(x>>1) ^ -int64(x&1))
				}
				return kind, x, true
			}
		}
		return
	case 6:
		if key != 7<<3|5 || len(b) != 4 {
			return
		}
		return kind, uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24, true
	}
	return
}

func init() {
	asm := []string{"the independent decoder in /verif/mc/xwire implements the published X Protocol messages", "64-bit platform (int and uint are 64 bits wide)"}
	register(&Prop{ID: "C02", Assumptions: asm,
		Scenarios: func(t Tier) []engine.Scenario {
			scs := []engine.Scenario{pairScenario("any"), pointerScenario(), intScenario(argCarriers, t.Thorough), floatScenario(argCarriers),
				contentScenario(argCarriers), valueTexts(argCarriers, t.Thorough), collationScenario(argCarriers, t.Thorough), lowLevelScalars(false, t.Thorough), stringScenario(argCarriers, lengths(true), bigLengths())}
			if t.Thorough {
				scs = append(scs, exhaustive32(false))
			}
			return scs
		}})
	register(&Prop{ID: "C03", Assumptions: asm,
		Scenarios: func(t Tier) []engine.Scenario {
			strC, ls, cs := exprCarriers[:4], lengths(true), exprCarriers[:3]
			if t.Thorough {
				strC, cs = exprCarriers, exprCarriers
			}
			scs := []engine.Scenario{pairScenario("expr"), exprValScenario(), intScenario(cs, t.Thorough), floatScenario(cs),
				contentScenario(exprCarriers), valueTexts(exprCarriers, t.Thorough), collationScenario(cs, t.Thorough), lowLevelScalars(true, t.Thorough), stringScenario(strC, ls, bigLengths())}
			if t.Thorough {
				scs = append(scs, exhaustive32(true))
			}
			return scs
		}})
}

// exprValScenario: every value of every type through every way of sending a
// literal, including user types and nil wrappers.
func exprValScenario() engine.Scenario {
	vs := append(baseVals(),
		val{"user", userVal{}, sNull}, val{"*user", &userVal{}, sNull}, val{"userPtr", &userPtrVal{}, sNull},
		val{"*String", &xtorm.String{Value: "q", Collation: 8}, sString("q", 8)},
		val{"nil *String", (*xtorm.String)(nil), sNull}, val{"nil *user", (*userVal)(nil), sNull},
	)
	return engine.Scenario{Name: "values x carriers", Bound: fmt.Sprintf("%d values x %d ways of sending a literal", len(vs), len(exprCarriers)),
		Body: func(r *engine.Run) {
			checkVal(r, exprCarriers[r.Choose(len(exprCarriers), "carrier")], vs[r.Choose(len(vs), "value")])
		}}
}
