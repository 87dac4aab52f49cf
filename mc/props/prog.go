package props

import (
	"context"
	"fmt"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"
)

// capture is a netx.Sender that records what it is given.
type capture struct {
	calls int
	buf   []byte
	ctx   context.Context
	ret   []netx.Response
	err   error
}

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.calls++
	c.buf = append([]byte(nil), b...)
	c.ctx = ctx
	return c.ret, c.err
}

// env carries the captured insert ids of a run.
type env struct {
	ids  []xproto.AppendExprFunc // implementation side
	nVar int                     // model side
}

// op is one operation of the alphabet: applied to a builder and, in parallel,
// interpreted by the model.
type op struct {
	name  string
	apply func(b *xtorm.Builder, e *env)
	model func(e *env) []exp
}

// node is a program: an operation or a container with a body.
type node struct {
	op   *op
	cont *container
	body []node
}

type container struct {
	name  string
	apply func(b *xtorm.Builder, f func(b *xtorm.Builder) error)
	open  []exp
	close []exp
}

func (n node) String() string {
	if n.op != nil {
		return n.op.name
	}
	return fmt.Sprintf("%s%v", n.cont.name, n.body)
}

func runProg(b *xtorm.Builder, e *env, prog []node) {
	for _, n := range prog {
		if n.op != nil {
			n.op.apply(b, e)
			continue
		}
		n.cont.apply(b, func(c *xtorm.Builder) error { runProg(c, e, n.body); return nil })
	}
}

func modelProg(e *env, prog []node) []exp {
	var out []exp
	for _, n := range prog {
		if n.op != nil {
			out = append(out, n.op.model(e)...)
			continue
		}
		out = append(out, n.cont.open...)
		out = append(out, modelProg(e, n.body)...)
		out = append(out, n.cont.close...)
	}
	return out
}

func countOps(prog []node) int {
	n := 0
	for _, x := range prog {
		n += 1 + countOps(x.body)
	}
	return n
}

var isoLevels = []struct {
	name  string
	level xtorm.IsolationLevel
	set   string
	start string
}{
	{"Default", xtorm.IsolationLevelDefault, "", "START TRANSACTION"},
	{"ReadUncommitted", xtorm.IsolationLevelReadUncommitted, "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED", "START TRANSACTION"},
	{"ReadCommitted", xtorm.IsolationLevelReadCommitted, "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "START TRANSACTION"},
	{"RepeatableRead", xtorm.IsolationLevelRepeatableRead, "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", "START TRANSACTION"},
	{"Serializable", xtorm.IsolationLevelSerializable, "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "START TRANSACTION"},
	{"Snapshot", xtorm.IsolationLevelSnapshot, "", "START TRANSACTION WITH CONSISTENT SNAPSHOT"},
}

func txContainer(i int) *container {
	l := isoLevels[i]
	var open []exp
	if l.set != "" {
		open = append(open, one(mStmt(l.set)))
	}
	open = append(open, one(mStmt(l.start)))
	return &container{name: "Tx" + l.name, open: open, close: []exp{one(mStmt("COMMIT"))},
		apply: func(b *xtorm.Builder, f func(b *xtorm.Builder) error) { b.Tx(l.level, f) }}
}

func expectContainer(empty bool) *container {
	ctx, name := xtorm.OpenExpectCtxCopyPrev, "ExpectCopyPrev"
	if empty {
		ctx, name = xtorm.OpenExpectCtxEmpty, "ExpectEmpty"
	}
	return &container{name: name, open: []exp{one(mOpen(empty))}, close: []exp{one(mClose)},
		apply: func(b *xtorm.Builder, f func(b *xtorm.Builder) error) { b.ExpectFailOnError(ctx, f) }}
}

func vals(vs ...val) ([]interface{}, []string) {
	a := make([]interface{}, len(vs))
	s := make([]string, len(vs))
	for i, v := range vs {
		a[i], s[i] = v.v, v.s
	}
	return a, s
}

func vInt(i int) val    { return val{"int", i, sSint(int64(i))} }
func vStr(s string) val { return val{"string", s, sString(s, 0)} }

// operations

func opStmt(stmt string, args ...val) *op {
	a, s := vals(args...)
	return &op{fmt.Sprintf("StmtExecute(%d bytes,%d args)", len(stmt), len(args)),
		func(b *xtorm.Builder, e *env) { b.StmtExecute(stmt, a...) },
		func(e *env) []exp { return []exp{one(mStmt(stmt, s...))} }}
}

func opPrepare(id uint32, stmt string) *op {
	return &op{fmt.Sprintf("Prepare(%d,%d bytes)", id, len(stmt)),
		func(b *xtorm.Builder, e *env) { b.Prepare(id, stmt) },
		func(e *env) []exp { return []exp{one(mPrepare(id, stmt))} }}
}

func opExecute(id uint32, args ...val) *op {
	a, s := vals(args...)
	return &op{fmt.Sprintf("Execute(%d,%d args)", id, len(args)),
		func(b *xtorm.Builder, e *env) { b.Execute(id, a...) },
		func(e *env) []exp { return []exp{one(mExecute(id, s...))} }}
}

func opDealloc(id uint32) *op {
	return &op{fmt.Sprintf("Deallocate(%d)", id),
		func(b *xtorm.Builder, e *env) { b.Deallocate(id) },
		func(e *env) []exp { return []exp{one(mDeallocate(id))} }}
}

func rowsOf(rows [][]val) ([][]interface{}, []string) {
	a := make([][]interface{}, len(rows))
	s := make([]string, len(rows))
	for i, r := range rows {
		var ss []string
		a[i], ss = vals(r...)
		s[i] = mRow(ss...)
	}
	return a, s
}

func opInsert(table string, cols []string, rows ...[]val) *op {
	a, s := rowsOf(rows)
	return &op{fmt.Sprintf("Insert(%d cols,%d rows)", len(cols), len(rows)),
		func(b *xtorm.Builder, e *env) { b.Insert(table, cols, a) },
		func(e *env) []exp { return []exp{one(mInsert(table, cols, s...))} }}
}

func opInsertRow(table string, cols []string, row ...val) *op {
	a, s := vals(row...)
	return &op{fmt.Sprintf("InsertRow(%d cols)", len(cols)),
		func(b *xtorm.Builder, e *env) { e.ids = append(e.ids, b.InsertRow(table, cols, a)) },
		func(e *env) []exp {
			e.nVar++
			return []exp{one(mInsert(table, cols, mRow(s...))), {capVar: e.nVar}}
		}}
}

func opInsertF(table string, cols []string, rows ...[]val) *op {
	a, s := rowsOf(rows)
	return &op{fmt.Sprintf("InsertF(%d cols,%d rows)", len(cols), len(rows)),
		func(b *xtorm.Builder, e *env) {
			b.InsertF(table, cols, func(i *xtorm.Insert) error {
				for k, r := range a {
					if k%2 == 0 {
						i.Row(r)
					} else {
						i.RowV(r...)
					}
				}
				return nil
			})
		},
		func(e *env) []exp { return []exp{one(mInsert(table, cols, s...))} }}
}

type ex struct {
	f xproto.AppendExprFunc
	s string
}

var noCrit = ex{}

func opUpdate(table string, crit ex, cols []string, vs []val) *op {
	set := map[string]interface{}{}
	ops := make([]string, len(cols))
	for i, c := range cols {
		set[c] = vs[i].v
		ops[i] = mSet(c, vs[i].s)
	}
	return &op{fmt.Sprintf("Update(%d sets)", len(cols)),
		func(b *xtorm.Builder, e *env) { b.Update(table, crit.f, set) },
		func(e *env) []exp {
			var alts []string
			permute(ops, func(p []string) { alts = append(alts, mUpdate(table, crit.s, p...)) })
			return []exp{{alts: alts}}
		}}
}

func opUpdateF(table string, crit ex, cols []string, vs []val) *op {
	ops := make([]string, len(cols))
	for i, c := range cols {
		ops[i] = mSet(c, vs[i].s)
	}
	return &op{fmt.Sprintf("UpdateF(%d sets)", len(cols)),
		func(b *xtorm.Builder, e *env) {
			b.UpdateF(table, crit.f, func(u *xtorm.Update) error {
				for i, c := range cols {
					u.Set(c, vs[i].v)
				}
				return nil
			})
		},
		func(e *env) []exp { return []exp{one(mUpdate(table, crit.s, ops...))} }}
}

func opDelete(table string, crit ex) *op {
	return &op{"Delete",
		func(b *xtorm.Builder, e *env) { b.Delete(table, crit.f) },
		func(e *env) []exp { return []exp{one(mDelete(table, crit.s))} }}
}

// opUseID inserts/updates/deletes using the most recent captured id.
func opUseID(how int) *op {
	return &op{fmt.Sprintf("UseCapturedID/%d", how),
		func(b *xtorm.Builder, e *env) {
			if len(e.ids) == 0 {
				b.Deallocate(9)
				return
			}
			id := e.ids[len(e.ids)-1]
			switch how {
			case 0:
				b.Insert("c", []string{"pid"}, [][]interface{}{{id}})
			case 1:
				b.Update("c", xtorm.Eq(xtorm.Column("pid"), id), map[string]interface{}{"x": e.ids[0]})
			default:
				b.Delete("c", xtorm.Eq(xtorm.Column("pid"), e.ids[0]))
			}
		},
		func(e *env) []exp {
			if e.nVar == 0 {
				return []exp{one(mDeallocate(9))}
			}
			id, first := varToken(e.nVar), varToken(1)
			switch how {
			case 0:
				return []exp{one(mInsert("c", []string{"pid"}, mRow(id)))}
			case 1:
				return []exp{one(mUpdate("c", mOp("==", mCol("pid"), id), mSet("x", first)))}
			default:
				return []exp{one(mDelete("c", mOp("==", mCol("pid"), first)))}
			}
		}}
}

func permute(in []string, f func([]string)) {
	var rec func(k int)
	a := append([]string(nil), in...)
	rec = func(k int) {
		if k == len(a) {
			f(append([]string(nil), a...))
			return
		}
		for i := k; i < len(a); i++ {
			a[k], a[i] = a[i], a[k]
			rec(k + 1)
			a[k], a[i] = a[i], a[k]
		}
	}
	rec(0)
}

var critEq = ex{xtorm.Eq(xtorm.Column("id"), 7), mOp("==", mCol("id"), sSint(7))}
var critBig = ex{xtorm.And(xtorm.Eq(xtorm.Column("name"), pattern(120)), xtorm.Not(nil)),
	mOp("&&", mOp("==", mCol("name"), sString(pattern(120), 0)), mOp("!", sNull))}

// alphabet: every operation, several shapes each.
func fullAlphabet() []*op {
	bigRow := []val{vStr(pattern(120)), vInt(-3)}
	hugeRow := []val{vStr(pattern(16380)), vInt(1)}
	cols2 := []string{"a", "bb"}
	return []*op{
		opStmt("SELECT 1"),
		opStmt("", val{"nil", nil, sNull}),
		opStmt(pattern(130), vInt(1<<40), vStr("x"), val{"b", []byte(pattern(200)), sOctets(pattern(200), 0)}),
		opPrepare(1, "INSERT INTO foo VALUES(?)"),
		opPrepare(1<<32-1, pattern(128)),
		opPrepare(0, ""),
		opExecute(0),
		opExecute(128, vInt(1), vStr("two"), val{"f", 2.5, f64(2.5)}),
		opExecute(1<<32-1, val{"t", true, sBool(true)}),
		opDealloc(0), opDealloc(127), opDealloc(128), opDealloc(1<<32 - 1),
		opInsert("t", nil),
		opInsert("t", []string{"a"}, []val{vInt(1)}),
		opInsert(pattern(127), cols2, []val{vInt(1), vStr("")}, bigRow, []val{{"nil", nil, sNull}, vInt(0)}),
		opInsert("t", cols2, hugeRow, bigRow),
		opInsertRow("t", []string{"a"}, vInt(5)),
		opInsertRow("t", cols2, bigRow...),
		opInsertF("t", cols2),
		opInsertF("t", cols2, []val{vInt(1), vInt(2)}, bigRow, hugeRow),
		opUpdate("t", noCrit, nil, nil),
		opUpdate("t", critEq, []string{"a"}, []val{vStr("v")}),
		opUpdate("t", critBig, cols2, bigRow),
		opUpdateF("t", noCrit, cols2, bigRow),
		opUpdateF("t", critEq, []string{"a", "a", "c"}, []val{vInt(1), vInt(2), vStr(pattern(16384))}),
		opUpdateF(pattern(200), critBig, nil, nil),
		opDelete("t", noCrit), opDelete("t", critEq), opDelete(pattern(128), critBig),
		opUseID(0), opUseID(1), opUseID(2),
	}
}

// coreAlphabet: one shape of every operation.
func coreAlphabet() []*op {
	return []*op{
		opStmt("s", vInt(300)),
		opPrepare(1, "p"),
		opExecute(1, vStr("v")),
		opDealloc(1),
		opInsert("t", []string{"a"}, []val{vStr(pattern(126))}),
		opInsertRow("t", []string{"a"}, vInt(5)),
		opInsertF("t", []string{"a"}, []val{vInt(1)}, []val{vInt(2)}),
		opUpdate("t", critEq, []string{"a"}, []val{vStr("v")}),
		opUpdateF("t", critEq, []string{"a"}, []val{vStr(pattern(126))}),
		opDelete("t", critEq),
		opUseID(0),
	}
}

// send returns what the builder gives to its connection.
func send(x *xtorm.XPipe) (*capture, error) {
	c := &capture{}
	_, err := x.Send(context.Background(), c)
	return c, err
}
