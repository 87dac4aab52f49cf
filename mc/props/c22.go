package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
)

// owned is the caller's mutable data of one operation.
type owned struct {
	bytes [][]byte
	ifs   [][]interface{}
	rows  [][][]interface{}
	strs  [][]string
	maps  []map[string]interface{}
}

func (o *owned) newBytes(s string) []byte {
	// spare capacity, so that an append into the caller's memory shows
	b := make([]byte, len(s), len(s)+16)
	copy(b, s)
	full := b[:cap(b)]
	for i := len(s); i < cap(b); i++ {
		full[i] = 0xA5
	}
	o.bytes = append(o.bytes, b)
	return b
}

func (o *owned) list(vs ...interface{}) []interface{} {
	l := make([]interface{}, len(vs), len(vs)+2)
	copy(l, vs)
	l[:cap(l)][len(vs)] = "spare"
	o.ifs = append(o.ifs, l)
	return l
}

func (o *owned) names(vs ...string) []string {
	l := make([]string, len(vs), len(vs)+2)
	copy(l, vs)
	l[:cap(l)][len(vs)] = "spare"
	o.strs = append(o.strs, l)
	return l
}

func (o *owned) table(rs ...[]interface{}) [][]interface{} {
	l := make([][]interface{}, len(rs), len(rs)+1)
	copy(l, rs)
	o.rows = append(o.rows, l)
	return l
}

func (o *owned) set(kv ...interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	o.maps = append(o.maps, m)
	return m
}

// snapshot renders everything, including spare capacity. Expressions are
// functions and are compared by identity.
func (o *owned) snapshot() []interface{} {
	var out []interface{}
	cp := func(v interface{}) interface{} {
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Func {
			return rv.Pointer()
		}
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%T:%p:%d:%x", v, v, rv.Len(), rv.Bytes())
		}
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && !rv.IsNil() {
			return fmt.Sprintf("%T:%p:%#v", v, v, rv.Elem().Interface())
		}
		return fmt.Sprintf("%T:%#v", v, v)
	}
	for _, b := range o.bytes {
		out = append(out, string(b[:cap(b)]))
	}
	for _, l := range o.ifs {
		for _, v := range l[:cap(l)] {
			out = append(out, cp(v))
		}
	}
	for _, t := range o.rows {
		for _, l := range t[:cap(t)] {
			out = append(out, fmt.Sprintf("%p:%d:%d", l, len(l), cap(l)))
		}
	}
	for _, l := range o.strs {
		for _, v := range l[:cap(l)] {
			out = append(out, v)
		}
	}
	for _, m := range o.maps {
		mm := map[string]interface{}{}
		for k, v := range m {
			mm[k] = cp(v)
		}
		out = append(out, mm)
	}
	return out
}

// scribble overwrites everything the caller owns.
func (o *owned) scribble() {
	for _, b := range o.bytes {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xff
		}
	}
	for _, t := range o.rows {
		for i := range t {
			t[i] = []interface{}{"scribbled"}
		}
	}
	for _, l := range o.ifs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = "scribbled"
		}
	}
	for _, l := range o.strs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = "scribbled"
		}
	}
	for _, m := range o.maps {
		for k := range m {
			m[k] = "scribbled"
		}
		m["new"] = 1
	}
}

// hooks are called around every call that takes caller data.
type hooks struct {
	pre, post func(o *owned)
}

// ownedOp is an operation given caller-owned data.
type ownedOp struct {
	name string
	do   func(b *xtorm.Builder, n int, h hooks)
	want func(n int) []exp
}

func ownedOps() []ownedOp {
	P := pattern
	return []ownedOp{
		{"StmtExecute", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			a := o.list(o.newBytes(P(n)), xtorm.JSON(o.newBytes(P(n))), 1, xtorm.XML(o.newBytes("x")))
			h.pre(o)
			b.StmtExecute("s", a...)
			h.post(o)
		}, func(n int) []exp {
			return []exp{one(mStmt("s", sOctets(P(n), 0), sOctets(P(n), ctJSON), sSint(1), sOctets("x", ctXML)))}
		}},
		{"StmtExecute pointers", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			bs := o.newBytes(P(n))
			i := 5
			s := P(n)
			a := o.list(&bs, &i, &s)
			h.pre(o)
			b.StmtExecute("s", a...)
			if i != 5 || s != P(n) || len(bs) != n {
				panic("a pointed-to value was modified")
			}
			h.post(o)
			i, s = 6, "changed"
		}, func(n int) []exp {
			return []exp{one(mStmt("s", sOctets(P(n), 0), sSint(5), sString(P(n), 0)))}
		}},
		{"Execute", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			a := o.list(o.newBytes(P(n)), nil, xtorm.Geometry(o.newBytes(P(n))))
			h.pre(o)
			b.Execute(3, a...)
			h.post(o)
		}, func(n int) []exp {
			return []exp{one(mExecute(3, sOctets(P(n), 0), sNull, sOctets(P(n), ctGeometry)))}
		}},
		{"Insert", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			cols := o.names("a", "b")
			rows := o.table(o.list(o.newBytes(P(n)), 1), o.list(xtorm.JSON(o.newBytes(P(n))), xtorm.Concat(o.list(o.newBytes("q"), 2)...)))
			h.pre(o)
			b.Insert("t", cols, rows)
			h.post(o)
		}, func(n int) []exp {
			return []exp{one(mInsert("t", []string{"a", "b"}, mRow(sOctets(P(n), 0), sSint(1)), mRow(sOctets(P(n), ctJSON), mFunc("CONCAT", sOctets("q", 0), sSint(2)))))}
		}},
		{"InsertRow", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			cols, row := o.names("a", "b"), o.list(o.newBytes(P(n)), 1)
			h.pre(o)
			id := b.InsertRow("t", cols, row)
			h.post(o)
			b.Delete("c", xtorm.Eq(1, id))
		}, func(n int) []exp {
			return []exp{one(mInsert("t", []string{"a", "b"}, mRow(sOctets(P(n), 0), sSint(1)))), {capVar: 1}, one(mDelete("c", mOp("==", sSint(1), varToken(1))))}
		}},
		{"InsertF", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			cols := o.names("a", "b")
			h.pre(o)
			b.InsertF("t", cols, func(i *xtorm.Insert) error {
				h.post(o)
				for k := 0; k < 3; k++ {
					o := &owned{}
					r := o.list(o.newBytes(P(n+k)), k)
					h.pre(o)
					if k%2 == 0 {
						i.Row(r)
					} else {
						i.RowV(r...)
					}
					h.post(o)
				}
				return nil
			})
		}, func(n int) []exp {
			return []exp{one(mInsert("t", []string{"a", "b"}, mRow(sOctets(P(n), 0), sSint(0)), mRow(sOctets(P(n+1), 0), sSint(1)), mRow(sOctets(P(n+2), 0), sSint(2))))}
		}},
		{"Update", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			e := xtorm.In(o.newBytes("k"), o.list(1, o.newBytes(P(n))))
			m := o.set("a", xtorm.XML(o.newBytes(P(n))))
			h.pre(o)
			b.Update("t", e, m)
			h.post(o)
		}, func(n int) []exp {
			return []exp{one(mUpdate("t", mOp("in", sOctets("k", 0), sSint(1), sOctets(P(n), 0)), mSet("a", sOctets(P(n), ctXML))))}
		}},
		{"Update no criteria, two keys", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			m := o.set("a", o.newBytes(P(n)), "b", 2)
			h.pre(o)
			b.Update("t", nil, m)
			h.post(o)
		}, func(n int) []exp {
			x, y := mSet("a", sOctets(P(n), 0)), mSet("b", sSint(2))
			return []exp{{alts: []string{mUpdate("t", "", x, y), mUpdate("t", "", y, x)}}}
		}},
		{"UpdateF", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			e := xtorm.NotIn(3, o.list(o.newBytes(P(n))))
			h.pre(o)
			b.UpdateF("t", e, func(u *xtorm.Update) error {
				h.post(o)
				for k := 0; k < 3; k++ {
					o := &owned{}
					v := o.newBytes(P(n + k))
					h.pre(o)
					u.Set("c", v)
					h.post(o)
				}
				return nil
			})
		}, func(n int) []exp {
			return []exp{one(mUpdate("t", mOp("not_in", sSint(3), sOctets(P(n), 0)), mSet("c", sOctets(P(n), 0)), mSet("c", sOctets(P(n+1), 0)), mSet("c", sOctets(P(n+2), 0))))}
		}},
		{"Delete", func(b *xtorm.Builder, n int, h hooks) {
			o := &owned{}
			e := xtorm.And(xtorm.InV(xtorm.Column("c"), o.list(o.newBytes(P(n)), 2)...), xtorm.Eq(o.newBytes(P(n)), 1))
			h.pre(o)
			b.Delete("t", e)
			h.post(o)
		}, func(n int) []exp {
			return []exp{one(mDelete("t", mOp("&&", mOp("in", mCol("c"), sOctets(P(n), 0), sSint(2)), mOp("==", sOctets(P(n), 0), sSint(1)))))}
		}},
	}
}

func ownershipScenario(lens, caps []int, seq int) engine.Scenario {
	ops := ownedOps()
	whens := []string{"never", "at once", "after the next operation", "before sending"}
	return engine.Scenario{Name: "operations",
		Bound: fmt.Sprintf("all sequences of %d of %d operations taking caller data x %d data sizes x %d builder capacities x data overwritten {never, at once, after the next operation, before sending}", seq, len(ops), len(lens), len(caps)),
		Body: func(r *engine.Run) {
			x := xtorm.New(caps[r.Choose(len(caps), "capacity")])
			n := lens[r.Choose(len(lens), "size")]
			when := r.Choose(len(whens), "overwritten")
			var want []exp
			var pending, atEnd []*owned
			nv := 0
			for i := 0; i < seq; i++ {
				o := ops[r.Choose(len(ops), "op")]
				r.Step()
				var fresh []*owned
				var snap []interface{}
				o.do(&x.Builder, n, hooks{
					pre: func(d *owned) { snap = d.snapshot() },
					post: func(d *owned) {
						if !reflect.DeepEqual(snap, d.snapshot()) {
							r.Failf("%s modified the caller's data", o.name)
						}
						if when == 1 {
							d.scribble()
						}
						fresh = append(fresh, d)
					}})
				for _, p := range pending {
					p.scribble()
				}
				pending = nil
				switch when {
				case 2:
					pending = fresh
				case 3:
					atEnd = append(atEnd, fresh...)
				}
				es := o.want(n)
				for _, e := range es {
					if e.capVar > 0 {
						nv++
						e.capVar = nv
					}
					for j := range e.alts {
						e.alts[j] = strings.ReplaceAll(e.alts[j], varToken(1), varToken(nv))
					}
					want = append(want, e)
				}
			}
			for _, p := range append(pending, atEnd...) {
				p.scribble()
			}
			c, err := send(x)
			if err != nil {
				r.Failf("Send failed: %v", err)
			}
			if err := checkStream(c.buf, want); err != nil {
				r.Failf("caller's data overwritten %s: %v", whens[when], err)
			}
			r.State(c.buf)
		}}
}

// valueOwnership: values of every kind, accepted or not, at every position of
// every list, row and map an operation takes.
func valueOwnership(deep bool) engine.Scenario {
	vs := append(exprKinds(), pointerVals()...)
	vs = append(vs, badVals()...)
	names := []string{"StmtExecute", "Execute", "Insert", "InsertRow", "InsertF", "Update", "Update with criteria", "UpdateF", "In", "NotIn", "InV", "NotInV", "Concat", "rejected Insert"}
	return engine.Scenario{Name: "values of every kind",
		Bound: fmt.Sprintf("%d operations and constructors taking lists, rows or maps x lists of 1..%d values x %d values (of every kind, pointers, rejected ones) at every position, the others small, x the builder is new, has failed, or is used twice", len(names), 3, len(vs)),
		Body: func(r *engine.Run) {
			k := r.Choose(len(names), "operation")
			n := 1 + r.Choose(3, "values")
			at := r.Choose(n, "position")
			v := vs[r.Choose(len(vs), "value")]
			state := r.Choose(3, "builder")
			x := xtorm.New(0)
			if state == 1 {
				x.StmtExecute("bad", struct{}{})
			}
			o := &owned{}
			mk := func() []interface{} {
				l := make([]interface{}, n)
				for i := range l {
					l[i] = []interface{}{7, nil, "q"}[(i+n)%3]
				}
				l[at] = v.v
				return o.list(l...)
			}
			list, other := mk(), mk()
			cols := o.names("z", "a", "m")[:n]
			rows := o.table(list, other, list)
			m := o.set()
			for i := range list {
				m[cols[i]] = list[i]
			}
			snap := o.snapshot()
			do := func() {
				switch k {
				case 0:
					x.StmtExecute("s", list...)
				case 1:
					x.Execute(1, list...)
				case 2:
					x.Insert("t", cols, rows)
				case 3:
					x.InsertRow("t", cols, list)
				case 4:
					x.InsertF("t", cols, func(i *xtorm.Insert) error { i.Row(list); i.RowV(other...); return nil })
				case 5:
					x.Update("t", nil, m)
				case 6:
					x.Update("t", xtorm.In(1, list), m)
				case 7:
					x.UpdateF("t", xtorm.Concat(list...), func(u *xtorm.Update) error {
						for i := range list {
							u.Set(cols[i], list[i])
						}
						return nil
					})
				case 8:
					x.Delete("t", xtorm.In(list[0], list[1:]))
				case 9:
					x.Delete("t", xtorm.NotIn(list[0], list))
				case 10:
					x.Delete("t", xtorm.InV(list[0], list[1:]...))
				case 11:
					x.Delete("t", xtorm.NotInV(list[0], list...))
				case 12:
					x.Delete("t", xtorm.Concat(list...))
				default:
					rows[1] = rows[1][:n-1]
					snap = o.snapshot()
					x.Insert("t", cols, rows)
				}
			}
			do()
			if state == 2 {
				do()
			}
			r.Step()
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("%s with %s at %d of %d modified the caller's data", names[k], v.name, at, n)
			}
			c, err := send(x)
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("%s with %s at %d of %d: Send modified the caller's data", names[k], v.name, at, n)
			}
			o.scribble()
			d, err2 := send(x)
			if !bytes.Equal(c.buf, d.buf) || (err == nil) != (err2 == nil) {
				r.Failf("%s with %s at %d of %d: changing the data afterwards changes what is sent", names[k], v.name, at, n)
			}
			snap = o.snapshot()
			x.Reset()
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("%s with %s at %d of %d: Reset modified the caller's data", names[k], v.name, at, n)
			}
			r.StateS(fmt.Sprint(k, n, at, v.name))
		}}
}

type cred struct{ user, pass, db string }

func (c cred) UserName() string { return c.user }
func (c cred) Password() string { return c.pass }
func (c cred) Database() string { return c.db }

var mechs = []struct {
	name string
	mk   func() authentication.Starter
}{
	{"MYSQL41", func() authentication.Starter { return mysql41.New() }},
	{"SHA256_MEMORY", func() authentication.Starter { return sha256.New() }},
	{"PLAIN", func() authentication.Starter { return plain.New() }},
}

// authOwnership: the challenge and the message buffers.
func authOwnership() engine.Scenario {
	return engine.Scenario{Name: "authentication data",
		Bound: "3 mechanisms x challenge lengths 0..64 x password lengths {0,1,8,40,200} x message buffers of capacity {0,16,128,1024}",
		Body: func(r *engine.Run) {
			m := mechs[r.Choose(len(mechs), "mechanism")]
			n := r.Choose(65, "challenge length")
			c := cred{"user", pattern([]int{0, 1, 8, 40, 200}[r.Choose(5, "password length")]), "db"}
			bc := []int{0, 16, 128, 1024}[r.Choose(4, "buffer")]
			var o owned
			ch := o.newBytes(pattern(n))
			snap := o.snapshot()
			s := m.mk()
			msg := s.Start(make([]byte, 0, bc), c)
			if cc, ok := s.(authentication.StartContinuer); ok {
				msg = cc.Continue(make([]byte, 0, bc), c, ch)
				if !reflect.DeepEqual(snap, o.snapshot()) {
					r.Failf("%s modified the challenge", m.name)
				}
			}
			r.Step()
			before := append([]byte(nil), msg...)
			o.scribble()
			if !bytes.Equal(before, msg) {
				r.Failf("%s's message changes when the challenge is overwritten", m.name)
			}
			r.State(msg)
		}}
}

// lowLevelOwnership: the exported encoders given byte slices.
func lowLevelOwnership() engine.Scenario {
	return engine.Scenario{Name: "low-level encoders",
		Bound: "AppendAnyBytes, AppendExprBytes, Insert, AppendInsertRow, StmtExecute, Execute, AppendExprOperator, AppendExprFunctionCall x data sizes 0..300 x output capacity {0, 64, 4096}",
		Body: func(r *engine.Run) {
			f := r.Choose(8, "function")
			n := r.Choose(301, "size")
			out := make([]byte, 0, []int{0, 64, 4096}[r.Choose(3, "capacity")])
			o := &owned{}
			b := o.newBytes(pattern(n))
			l := o.list(b, 1, b)
			names := o.names("a", "b")
			snap := o.snapshot()
			var err error
			switch f {
			case 0:
				out = xproto.AppendAnyBytes(out, 2, b, 0)
			case 1:
				out = xproto.AppendExprBytes(out, 2, b, 1)
			case 2:
				out = xproto.Insert(out, "t", names)
			case 3:
				out, err = xproto.AppendInsertRow(out, l)
			case 4:
				out, err = xproto.StmtExecute(out, "s", l)
			case 5:
				out, err = xproto.Execute(out, 1, l)
			case 6:
				out, err = xproto.AppendExprOperator(out, 2, "o", l)
			case 7:
				out, err = xproto.AppendExprFunctionCall(out, 2, "f", l)
			}
			r.Step()
			if err != nil {
				r.Failf("failed: %v", err)
			}
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("function %d modified its arguments", f)
			}
			before := append([]byte(nil), out...)
			o.scribble()
			if !bytes.Equal(before, out) {
				r.Failf("function %d's output changes when its arguments are overwritten", f)
			}
			r.State(out)
		}}
}

// constructing: making and using values and expressions out of the caller's data.
func constructing() engine.Scenario {
	wraps := []struct {
		name string
		f    func(b []byte) interface{}
	}{
		{"[]byte", func(b []byte) interface{} { return b }},
		{"XML", func(b []byte) interface{} { return xtorm.XML(b) }},
		{"JSON", func(b []byte) interface{} { return xtorm.JSON(b) }},
		{"Geometry", func(b []byte) interface{} { return xtorm.Geometry(b) }},
	}
	cs := append(ctors(),
		ctor{"In of 4", 4, func(a []interface{}) xproto.AppendExprFunc { return xtorm.In(a[0], a[1:]) }, nil},
		ctor{"NotIn of 4", 4, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotIn(a[0], a[1:]) }, nil},
		ctor{"InV of 4", 4, func(a []interface{}) xproto.AppendExprFunc { return xtorm.InV(a[0], a[1:]...) }, nil},
		ctor{"NotInV of 4", 4, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotInV(a[0], a[1:]...) }, nil},
		ctor{"Concat of 4", 4, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat(a...) }, nil})
	sizes := []int{0, 1, 20, 127, 128, 300}
	return engine.Scenario{Name: "constructing",
		Bound: fmt.Sprintf("every constructor (%d) over lists of byte strings, wrapped or not (%d), of %v bytes, all with spare capacity; used twice", len(cs), len(wraps), sizes),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "constructor")]
			w := wraps[r.Choose(len(wraps), "wrapper")]
			n := sizes[r.Choose(len(sizes), "size")]
			o := &owned{}
			raw := make([][]byte, c.n+1)
			for i := range raw {
				raw[i] = o.newBytes(pattern(n))
			}
			snap := o.snapshot()
			vs := make([]interface{}, c.n)
			for i := range vs {
				vs[i] = w.f(raw[i])
			}
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("%s modified the bytes it wraps", w.name)
			}
			list := o.list(vs...)
			snap = o.snapshot()
			e := c.mk(list)
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("%s modified its operands", c.name)
			}
			x := xtorm.New(0)
			x.Delete("t", e)
			x.StmtExecute("s", list...)
			x.Update("t", e, map[string]interface{}{"a": e})
			r.Step()
			if !reflect.DeepEqual(snap, o.snapshot()) {
				r.Failf("using %s modified its operands", c.name)
			}
			s, err := send(x)
			if err != nil {
				r.Failf("%s: %v", c.name, err)
			}
			o.scribble()
			if t, _ := send(x); !bytes.Equal(s.buf, t.buf) {
				r.Failf("%s: changing the operands afterwards changes what is sent", c.name)
			}
			r.State(s.buf)
		}}
}

// exported returns the exported fields of a TLS configuration.
func exported(c *tls.Config) []interface{} {
	var out []interface{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); v.Type().Field(i).IsExported() {
			if f.Kind() == reflect.Func {
				out = append(out, f.IsNil())
			} else {
				out = append(out, f.Interface())
			}
		}
	}
	return out
}

// connectOwnership: the TLS configuration a connector was given.
func connectOwnership() engine.Scenario {
	return engine.Scenario{Name: "connecting", Confirm: 2,
		Bound: "4 transports x 4 mechanisms x TLS configurations (named server, no server name, no verification, protocols and minimum version set) x the server accepting, refusing, challenging, refusing TLS, closing, presenting a bad certificate",
		Body: func(r *engine.Run) {
			setupPKI()
			tr := r.Choose(len(trNames), "transport")
			mech := r.Choose(len(mechs)+1, "mechanism") - 1
			conf := &tls.Config{RootCAs: pki.roots, ServerName: tlsName}
			if tr == trTLS || tr == trUnixTLS {
				switch r.Choose(4, "configuration") {
				case 1:
					conf.ServerName = ""
				case 2:
					conf = &tls.Config{InsecureSkipVerify: true}
				case 3:
					conf.NextProtos = []string{"x", "y"}
					conf.MinVersion = tls.VersionTLS12
					conf.CurvePreferences = []tls.CurveID{tls.X25519, tls.CurveP256}
				}
			}
			keep := conf.Clone()
			keep.NextProtos = append([]string(nil), conf.NextProtos...)
			keep.CurvePreferences = append([]tls.CurveID(nil), conf.CurvePreferences...)
			given := conf
			if tr == trTCP || tr == trUnix {
				given = nil
			}
			m := menu{auth: []int{rAuthOK, rContinue, rDenied, rClose}, caps: []int{kOK, kError}, handshake: []int{hGood, hUntrusted}}
			connectWith(r, tr, mech, stdCred, m, 8*time.Second, given)
			if !reflect.DeepEqual(exported(keep), exported(conf)) {
				r.Failf("%s: the caller's TLS configuration was modified", trNames[tr])
			}
		}}
}

// optionOwnership: making a connector, with its options in every order.
func optionOwnership() engine.Scenario {
	return engine.Scenario{Name: "making a connector",
		Bound: "every ordered selection of the 4 options x 4 TLS configurations x tcp, unix",
		Body: func(r *engine.Run) {
			setupPKI()
			var conf *tls.Config
			switch r.Choose(4, "configuration") {
			case 0:
				conf = &tls.Config{RootCAs: pki.roots, ServerName: tlsName}
			case 1:
				conf = &tls.Config{}
			case 2:
				conf = &tls.Config{InsecureSkipVerify: true}
			case 3:
				conf = &tls.Config{NextProtos: []string{"x", "y"}, MinVersion: tls.VersionTLS12, CurvePreferences: []tls.CurveID{tls.X25519, tls.CurveP256}}
			}
			keep := conf.Clone()
			keep.NextProtos = append([]string(nil), conf.NextProtos...)
			keep.CurvePreferences = append([]tls.CurveID(nil), conf.CurvePreferences...)
			left := []connector.Option{connector.WithTLSConfig(conf), connector.WithUserPassword("u", "p"), connector.WithDatabase("d"), connector.WithAuthentication(mechs[0].mk())}
			var opts []connector.Option
			for len(left) > 0 {
				k := r.Choose(len(left)+1, "option")
				if k == 0 {
					break
				}
				opts = append(opts, left[k-1])
				left = append(append([]connector.Option(nil), left[:k-1]...), left[k:]...)
			}
			network, addr := "tcp", "127.0.0.1:33060"
			if r.Bool("unix") {
				network, addr = "unix", "/nowhere/mysqlx.sock"
			}
			if _, err := connector.New(network, addr, opts...); err != nil {
				r.Failf("connector.New: %v", err)
			}
			r.Step()
			if !reflect.DeepEqual(exported(keep), exported(conf)) {
				r.Failf("making a connector modified the caller's TLS configuration")
			}
			r.StateH(uint64(len(opts)))
		}}
}

// sendOwnership: the bytes given to a connection or pool.
func sendOwnership() engine.Scenario {
	sizes := []int{0, 1, 2, 100, 4080, 4090, 4096, 9000, 70000}
	return engine.Scenario{Name: "sending bytes",
		Bound: fmt.Sprintf("1..3 messages of payload sizes %v with spare capacity, through a connection or a pool x ok, error, fatal error, end of stream, write error", sizes),
		Body: func(r *engine.Run) {
			pooled := r.Bool("pool")
			n := 1 + r.Choose(3, "messages")
			var msgs []byte
			for i := 0; i < n; i++ {
				msgs = append(msgs, frame([]byte{12, 18, 41}[i], []byte(pattern(sizes[r.Choose(len(sizes), "size")])))...)
			}
			o := &owned{}
			b := o.newBytes(string(msgs))
			snap := o.snapshot()
			spare := append([]byte(nil), b[len(b):cap(b)]...)
			end := r.Choose(5, "outcome")
			mc := &memConn{}
			var wrote []byte
			mc.onWrite = func(c *memConn, p []byte) {
				wrote = append(wrote, p...)
				for i := 0; i < n; i++ {
					switch end {
					case 0:
						c.in = append(c.in, frame(sStmtExecuteOK, nil)...)
					case 1:
						c.in = append(c.in, srvErr{0, 1062, "23000", "Duplicate"}.frame()...)
					case 2:
						c.in = append(c.in, srvErr{1, 1053, "08S01", "Shutdown"}.frame()...)
					case 3:
						c.readErr = io.EOF
					}
				}
			}
			if end == 4 {
				mc.writeErr = io.ErrClosedPipe
			}
			var c interface {
				Send(context.Context, []byte) ([]netx.Response, error)
			} = newConn(mc)
			if pooled {
				c = fifoch.New(oneConn{newConn(mc)}, 1)
			}
			out, err := c.Send(context.Background(), b)
			r.Step()
			if !reflect.DeepEqual(snap, o.snapshot()) || !bytes.Equal(spare, b[len(b):cap(b)]) {
				r.Failf("Send modified the bytes it was given")
			}
			seen := fmt.Sprint(out, err)
			o.scribble()
			if now := fmt.Sprint(out, err); now != seen {
				r.Failf("the outcome of Send was %s, and is %s once the bytes sent are overwritten", seen, now)
			}
			r.StateS(fmt.Sprint(n, len(msgs), end, pooled))
		}}
}

type oneConn struct{ c netx.Conn }

func (o oneConn) New(context.Context) (netx.Conn, error) { return o.c, nil }

func init() {
	register(&Prop{ID: "C22",
		Scenarios: func(t Tier) []engine.Scenario {
			return []engine.Scenario{
				ownershipScenario([]int{0, 1, 30, 120, 127, 128, 300, 5000}, []int{0, 64, 1024, 65536}, t.pick(3, 4)),
				valueOwnership(t.Thorough),
				authOwnership(),
				lowLevelOwnership(),
				constructing(),
				connectOwnership(), optionOwnership(),
				sendOwnership(),
			}
		}})
}
