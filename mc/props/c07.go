package props

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"github.com/renthraysk/xtorm/netx/connection"
	"io"
	"io/fs"
	"net/http"
	"os"
	"strconv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
)

// fault is an operation that must make the whole unit of work fail.
type fault struct {
	name string
	user bool // the failure is errUser
	do   func(b *xtorm.Builder)
}

var errCallback = errors.New("verif: callback error")

// badExprs are expressions and values that cannot be encoded as an expression.
func badExprs() []val {
	vs := badVals()
	for mode := 0; mode < 4; mode++ {
		f := failVal{mode}
		vs = append(vs, val{fmt.Sprintf("func/%d", mode), xproto.AppendExprFunc(f.fail), "user"})
	}
	vs = append(vs, val{"nil AppendExprFunc", xproto.AppendExprFunc(nil), ""})
	return vs
}

// nestExpr puts v inside an expression.
var exprNests = []struct {
	name string
	f    func(v interface{}) xproto.AppendExprFunc
}{
	{"Eq right", func(v interface{}) xproto.AppendExprFunc { return xtorm.Eq(xtorm.Column("c"), v) }},
	{"Eq left", func(v interface{}) xproto.AppendExprFunc { return xtorm.Eq(v, 1) }},
	{"Not", func(v interface{}) xproto.AppendExprFunc { return xtorm.Not(v) }},
	{"Between last", func(v interface{}) xproto.AppendExprFunc { return xtorm.Between(1, 2, v) }},
	{"In last", func(v interface{}) xproto.AppendExprFunc { return xtorm.In(1, []interface{}{2, 3, v}) }},
	{"NotIn first", func(v interface{}) xproto.AppendExprFunc { return xtorm.NotInV(v, 2, 3) }},
	{"Concat middle", func(v interface{}) xproto.AppendExprFunc { return xtorm.Concat("a", v, "b") }},
	{"DateAdd", func(v interface{}) xproto.AppendExprFunc { return xtorm.DateAdd(v, 1, xtorm.UnitDay) }},
	{"DateSub", func(v interface{}) xproto.AppendExprFunc { return xtorm.DateSub(1, v, xtorm.UnitDay) }},
	{"And(Not(Concat))", func(v interface{}) xproto.AppendExprFunc {
		return xtorm.And(xtorm.Column("x"), xtorm.Not(xtorm.Concat(1, v)))
	}},
	{"Or(Eq,deep)", func(v interface{}) xproto.AppendExprFunc {
		return xtorm.Or(xtorm.Eq(1, 1), xtorm.Or(xtorm.Eq(2, 2), xtorm.Or(xtorm.Eq(3, 3), v)))
	}},
}

// faults returns every way of making an operation fail.
func faults() []fault {
	var fs []fault
	add := func(name string, user bool, do func(b *xtorm.Builder)) { fs = append(fs, fault{name, user, do}) }
	ok := []interface{}{1, "x", nil, 2.5}
	// positions of a bad element among good ones
	with := func(v interface{}, n, at int) []interface{} {
		a := append([]interface{}(nil), ok[:n]...)
		a[at] = v
		return a
	}
	args := badVals()
	args = append(args, val{"AppendExprFunc as argument", xtorm.Column("c"), ""}, val{"nil func argument", xproto.AppendExprFunc(nil), ""})
	for _, v := range args {
		v := v
		for _, p := range [][2]int{{1, 0}, {3, 0}, {3, 1}, {3, 2}} {
			p := p
			add(fmt.Sprintf("StmtExecute(%s at %d of %d)", v.name, p[1], p[0]), v.s == "user", func(b *xtorm.Builder) { b.StmtExecute("s", with(v.v, p[0], p[1])...) })
			add(fmt.Sprintf("Execute(%s at %d of %d)", v.name, p[1], p[0]), v.s == "user", func(b *xtorm.Builder) { b.Execute(7, with(v.v, p[0], p[1])...) })
		}
	}
	cols := []string{"a", "b", "c"}
	for _, v := range badExprs() {
		v := v
		u := v.s == "user"
		for at := 0; at < 3; at++ {
			at := at
			for row := 0; row < 2; row++ {
				row := row
				add(fmt.Sprintf("Insert(%s at row %d col %d)", v.name, row, at), u, func(b *xtorm.Builder) {
					rows := [][]interface{}{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}
					rows[row] = with(v.v, 3, at)
					b.Insert("t", cols, rows)
				})
				add(fmt.Sprintf("InsertF(%s at row %d col %d)", v.name, row, at), u, func(b *xtorm.Builder) {
					b.InsertF("t", cols, func(i *xtorm.Insert) error {
						for k := 0; k < 3; k++ {
							if k == row {
								i.Row(with(v.v, 3, at))
							} else {
								i.RowV(1, 2, 3)
							}
						}
						return nil
					})
				})
				add(fmt.Sprintf("UpdateF(%s at %d/%d)", v.name, at, row), u, func(b *xtorm.Builder) {
					b.UpdateF("t", critEq.f, func(up *xtorm.Update) error {
						for k := 0; k < 3; k++ {
							if k == at {
								up.Set("a", v.v)
							} else if row == 0 {
								up.Set("b", k)
							}
						}
						return nil
					})
				})
			}
			add(fmt.Sprintf("InsertRow(%s at %d)", v.name, at), u, func(b *xtorm.Builder) { b.InsertRow("t", cols, with(v.v, 3, at)) })
		}
		add(fmt.Sprintf("Update(set %s)", v.name), u, func(b *xtorm.Builder) { b.Update("t", nil, map[string]interface{}{"a": v.v}) })
		add(fmt.Sprintf("Update(set %s of 3)", v.name), u, func(b *xtorm.Builder) {
			b.Update("t", critEq.f, map[string]interface{}{"z": 1, "a": v.v, "b": 3})
		})
		for _, ne := range exprNests {
			e := ne.f(v.v)
			add(fmt.Sprintf("Delete(%s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) { b.Delete("t", e) })
			add(fmt.Sprintf("Update(criteria %s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) { b.Update("t", e, map[string]interface{}{"a": 1}) })
			add(fmt.Sprintf("Update(set %s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) { b.Update("t", nil, map[string]interface{}{"a": e}) })
			add(fmt.Sprintf("UpdateF(criteria %s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) {
				b.UpdateF("t", e, func(up *xtorm.Update) error { up.Set("a", 1); return nil })
			})
			add(fmt.Sprintf("Insert(%s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) { b.Insert("t", []string{"a"}, [][]interface{}{{e}}) })
			add(fmt.Sprintf("InsertRow(%s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) { b.InsertRow("t", []string{"a"}, []interface{}{e}) })
			add(fmt.Sprintf("InsertF(%s of %s)", ne.name, v.name), u, func(b *xtorm.Builder) {
				b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(e); i.RowV(1); return nil })
			})
		}
	}
	// criteria that fail themselves
	for mode := 0; mode < 4; mode++ {
		f := xproto.AppendExprFunc(failVal{mode}.fail)
		n := fmt.Sprintf("failing criteria/%d", mode)
		add("Delete("+n+")", true, func(b *xtorm.Builder) { b.Delete("t", f) })
		add("Update("+n+")", true, func(b *xtorm.Builder) { b.Update("t", f, map[string]interface{}{"a": 1}) })
		add("Update("+n+",no set)", true, func(b *xtorm.Builder) { b.Update("t", f, nil) })
		add("UpdateF("+n+")", true, func(b *xtorm.Builder) {
			b.UpdateF("t", f, func(up *xtorm.Update) error { up.Set("a", 1); up.Set("b", 1); return nil })
		})
		add("UpdateF("+n+",no set)", true, func(b *xtorm.Builder) { b.UpdateF("t", f, func(up *xtorm.Update) error { return nil }) })
	}
	// wrong number of values in a bulk insert
	for nc := 0; nc <= 3; nc++ {
		for nv := 0; nv <= 4; nv++ {
			if nv == nc {
				continue
			}
			for at := 0; at < 3; at++ {
				nc, nv, at := nc, nv, at
				add(fmt.Sprintf("Insert(%d columns, row %d has %d values)", nc, at, nv), false, func(b *xtorm.Builder) {
					rows := make([][]interface{}, 3)
					for i := range rows {
						rows[i] = ok[:nc]
					}
					rows[at] = ok[:nv]
					if nv == 0 && at == 1 {
						rows[at] = nil
					}
					b.Insert("t", cols[:nc], rows)
				})
			}
		}
	}
	// unknown isolation levels
	for _, l := range []xtorm.IsolationLevel{6, 7, 8, 100, 255, 256, 1 << 31, 1<<32 + 2, ^xtorm.IsolationLevel(0)} {
		l := l
		add(fmt.Sprintf("Tx(level %d)", uint(l)), false, func(b *xtorm.Builder) {
			b.Tx(l, func(b *xtorm.Builder) error { b.StmtExecute("INSERT"); return nil })
		})
	}
	for _, c := range []xtorm.OpenContext{2, 3, 127, 128, 129, 200, 255} {
		c := c
		add(fmt.Sprintf("ExpectFailOnError(context %d)", c), false, func(b *xtorm.Builder) {
			b.ExpectFailOnError(c, func(b *xtorm.Builder) error { b.StmtExecute("INSERT"); return nil })
		})
	}
	// callbacks returning an error, before or after doing something
	for k := 0; k < 3; k++ {
		k := k
		body := func(b *xtorm.Builder) error {
			if k > 0 {
				b.StmtExecute("x", 1)
			}
			if k > 1 {
				b.Delete("t", critEq.f)
			}
			return errUser
		}
		for i := range isoLevels {
			l := isoLevels[i]
			add(fmt.Sprintf("Tx%s(callback error after %d)", l.name, k), true, func(b *xtorm.Builder) { b.Tx(l.level, body) })
		}
		add(fmt.Sprintf("ExpectCopyPrev(callback error after %d)", k), true, func(b *xtorm.Builder) { b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, body) })
		add(fmt.Sprintf("ExpectEmpty(callback error after %d)", k), true, func(b *xtorm.Builder) { b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, body) })
		add(fmt.Sprintf("InsertF(callback error after %d)", k), true, func(b *xtorm.Builder) {
			b.InsertF("t", cols, func(i *xtorm.Insert) error {
				for j := 0; j < k; j++ {
					i.RowV(1, 2, 3)
				}
				return errUser
			})
		})
		add(fmt.Sprintf("UpdateF(callback error after %d)", k), true, func(b *xtorm.Builder) {
			b.UpdateF("t", critEq.f, func(u *xtorm.Update) error {
				for j := 0; j < k; j++ {
					u.Set("a", j)
				}
				return errUser
			})
		})
	}
	return fs
}

// coreFaults picks one fault of each kind.
func coreFaults() []fault {
	want := []string{"StmtExecute(struct at 1 of 3)", "Execute(fail/garbage at 2 of 3)", "Insert(fail/p at row 1 col 1)", "Insert(2 columns, row 1 has 3 values)",
		"InsertF(struct at row 0 col 2)", "InsertRow(struct at 1)", "Update(set fail/nil)", "UpdateF(failing criteria/1)", "Delete(failing criteria/0)", "Delete(Or(Eq,deep) of map)",
		"Tx(level 6)", "TxReadCommitted(callback error after 1)", "ExpectEmpty(callback error after 1)", "InsertF(callback error after 1)", "UpdateF(callback error after 1)"}
	var out []fault
	for _, w := range want {
		n := len(out)
		for _, f := range faults() {
			if f.name == w {
				out = append(out, f)
				break
			}
		}
		if len(out) == n {
			panic("no fault " + w)
		}
	}
	return out
}

// checkFailed sends x: it must fail without using the connection.
func checkFailed(r *engine.Run, x *xtorm.XPipe, user bool, alsoCallback bool, what string) {
	for i := 0; i < 2; i++ {
		c, err := send(x)
		if c.calls != 0 {
			r.Failf("%s: %d bytes were sent", what, len(c.buf))
		}
		if err == nil {
			r.Failf("%s: Send reported no error (and sent nothing)", what)
		}
		if user && !errors.Is(err, errUser) && !(alsoCallback && errors.Is(err, errCallback)) {
			r.Failf("%s: Send reported %q, not the user's error", what, err)
		}
	}
}

// checkRecovered resets x: it must behave like a new builder.
func checkRecovered(r *engine.Run, x *xtorm.XPipe, what string) {
	x.Reset()
	prog := []node{{op: opStmt("again", vInt(1))}, {cont: txContainer(2), body: []node{{op: opInsert("t", []string{"a"}, []val{vStr(pattern(130))})}}}, {op: opDealloc(5)}}
	runProg(&x.Builder, &env{}, prog)
	c, err := send(x)
	if err != nil || c.calls != 1 {
		r.Failf("%s: after Reset, Send reported %v (%d calls)", what, err, c.calls)
	}
	if err := checkStream(c.buf, modelProg(&env{}, prog)); err != nil {
		r.Failf("%s: after Reset: %v", what, err)
	}
	x.Reset()
	c, err = send(x)
	if err != nil || len(c.buf) != 0 {
		r.Failf("%s: after a second Reset %d bytes were sent, error %v", what, len(c.buf), err)
	}
}

func everyFault() engine.Scenario {
	fs := faults()
	around := coreAlphabet()
	return engine.Scenario{Name: "every failing element",
		Bound: fmt.Sprintf("%d failing elements x capacity {0, 8192} x one operation before (%d or none) x one after", len(fs), len(around)),
		Body: func(r *engine.Run) {
			f := fs[r.Choose(len(fs), "fault")]
			x := xtorm.New(8192 * r.Choose(2, "capacity"))
			e := &env{}
			if k := r.Choose(len(around)+1, "before"); k > 0 {
				around[k-1].apply(&x.Builder, e)
			}
			f.do(&x.Builder)
			if k := r.Choose(len(around)+1, "after"); k > 0 {
				around[k-1].apply(&x.Builder, e)
			}
			r.StepN(3)
			checkFailed(r, x, f.user, false, f.name)
			checkRecovered(r, x, f.name)
			r.StateS(f.name)
		}}
}

// nestedFault places a failing element at any point of nested containers.
func nestedFault(depth int, withCallbackErr bool) engine.Scenario {
	fs := coreFaults()
	conts := []*container{txContainer(0), txContainer(4), expectContainer(false), expectContainer(true)}
	acts := coreAlphabet()[3:9] // includes InsertF, UpdateF, InsertRow
	return engine.Scenario{Name: fmt.Sprintf("failing element nested %d deep", depth),
		Bound: fmt.Sprintf("%d failing elements x all stacks of %d containers (of %d) x operation before/after at each level (0 or 1 of %d at the innermost, fixed elsewhere) x enclosing callbacks returning nil or an error", len(fs), depth, len(conts), len(acts)),
		Body: func(r *engine.Run) {
			f := fs[r.Choose(len(fs), "fault")]
			x := xtorm.New(4096 * r.Choose(2, "capacity"))
			path := ""
			anyCb := false
			var rec func(b *xtorm.Builder, d int)
			rec = func(b *xtorm.Builder, d int) {
				if d == 0 {
					if k := r.Choose(len(acts)+1, "before"); k > 0 {
						acts[k-1].apply(b, &env{})
					}
					f.do(b)
					if k := r.Choose(len(acts)+1, "after"); k > 0 {
						acts[k-1].apply(b, &env{})
					}
					return
				}
				ci := r.Choose(len(conts), "container")
				cb := r.Choose(2, "callback returns")
				path += conts[ci].name + "/"
				anyCb = anyCb || cb == 1
				b.StmtExecute("pre")
				conts[ci].apply(b, func(b *xtorm.Builder) error {
					b.Deallocate(1)
					rec(b, d-1)
					b.Deallocate(2)
					if cb == 1 {
						return errCallback
					}
					return nil
				})
				b.StmtExecute("post")
			}
			rec(&x.Builder, depth)
			// a further container after the failure
			x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { b.Deallocate(3); return nil })
			what := f.name + " in " + path
			r.StepN(2 * depth)
			checkFailed(r, x, f.user, anyCb, what)
			checkRecovered(r, x, what)
			r.StateS(what)
		}}
}

// onlyCallbackErr: all operations are fine, only callbacks report errors.
func onlyCallbackErr(depth int) engine.Scenario {
	return engine.Scenario{Name: "callback errors only",
		Bound: fmt.Sprintf("container trees of depth %d, every non-empty subset of callbacks failing", depth),
		Body: func(r *engine.Run) {
			x := xtorm.New(0)
			conts := []*container{txContainer(1), expectContainer(true)}
			failed := 0
			var rec func(b *xtorm.Builder, d int) error
			rec = func(b *xtorm.Builder, d int) error {
				b.Deallocate(uint32(d))
				if d > 0 {
					n := 1 + r.Choose(2, "children")
					for i := 0; i < n; i++ {
						switch k := r.Choose(4, "kind"); k {
						case 0, 1:
							conts[k].apply(b, func(b *xtorm.Builder) error { return rec(b, d-1) })
						case 2:
							b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error {
								i.RowV(1)
								if r.Bool("fails") {
									failed++
									return errUser
								}
								return nil
							})
						case 3:
							b.UpdateF("t", nil, func(i *xtorm.Update) error {
								i.Set("a", 1)
								if r.Bool("fails") {
									failed++
									return errUser
								}
								return nil
							})
						}
					}
				}
				if d < depth && r.Bool("fails") {
					failed++
					return errUser
				}
				return nil
			}
			rec(&x.Builder, depth)
			r.Step()
			if failed > 0 {
				checkFailed(r, x, true, false, "callback error")
				checkRecovered(r, x, "callback error")
			} else if c, err := send(x); err != nil || c.calls != 1 {
				r.Failf("no failure, but Send reported %v", err)
			}
		}}
}

// longLists puts one bad element anywhere in long argument, row, assignment
// and operand lists.
func longLists(deep bool) engine.Scenario {
	bad := []val{{"struct", structVal{1}, ""}, {"fail/nil", failVal{1}, "user"}, {"fail/garbage", failVal{2}, "user"}}
	var ns []int
	for n := 1; n <= 20; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300)
	if deep {
		ns = append(ns, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	ns = append(ns, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537)
	kinds := []string{"StmtExecute", "Execute", "InsertRow", "Insert cell", "Insert row", "InsertF row", "InsertF cell", "Update", "UpdateF", "In", "Concat", "row length", "InsertF callback", "UpdateF callback", "one row short", "one row long"}
	return engine.Scenario{Name: "long lists", Bound: fmt.Sprintf("%d kinds of list x %d lengths up to %d x every position (of 4095 and more: first, middle, last) x %d bad elements; rows short or long by 1, by all, by 128 and by 256; callbacks failing after every number of rows", len(kinds), len(ns), ns[len(ns)-1], len(bad)),
		Body: func(r *engine.Run) {
			k := r.Choose(len(kinds), "kind")
			n := ns[r.Choose(len(ns), "length")]
			at := 0
			if n < 4000 {
				at = r.Choose(n, "position")
			} else {
				at = []int{0, n / 2, n - 1}[r.Choose(3, "position")]
			}
			user := true
			var v val
			if k < 11 {
				v = bad[r.Choose(len(bad), "element")]
				user = v.s == "user"
			}
			list := make([]interface{}, n)
			cols := make([]string, n)
			for i := range list {
				list[i], cols[i] = i, "c"
			}
			good := append([]interface{}(nil), list...)
			list[at] = v.v
			x := xtorm.New(0)
			x.Deallocate(1)
			switch k {
			case 0:
				x.StmtExecute("s", list...)
			case 1:
				x.Execute(9, list...)
			case 2:
				x.InsertRow("t", cols, list)
			case 3:
				x.Insert("t", cols, [][]interface{}{good, list, good})
			case 4:
				rows := make([][]interface{}, n)
				for i := range rows {
					rows[i] = list[i : i+1]
				}
				x.Insert("t", []string{"a"}, rows)
			case 5:
				x.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error {
					for k := range list {
						i.Row(list[k : k+1])
					}
					return nil
				})
			case 6:
				x.InsertF("t", cols, func(i *xtorm.Insert) error { i.Row(good); i.Row(list); i.Row(good); return nil })
			case 7:
				m := map[string]interface{}{}
				for i := range list {
					m[fmt.Sprint("c", i)] = list[i]
				}
				x.Update("t", critEq.f, m)
			case 8:
				x.UpdateF("t", nil, func(u *xtorm.Update) error {
					for i := range list {
						u.Set("a", list[i])
					}
					return nil
				})
			case 9:
				x.Delete("t", xtorm.In(1, list))
			case 10:
				x.Update("t", xtorm.Concat(list...), map[string]interface{}{"a": 1})
			case 11:
				user = false
				d := []int{-n, -1, 1, 128, 256, 65536}[r.Choose(6, "difference")]
				if n+d < 0 || n+d > 65540 && n > 4 {
					return
				}
				row := make([]interface{}, n+d)
				x.Insert("t", cols, [][]interface{}{good, row, good}[at%2:])
			case 12:
				x.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error {
					for k := 0; k < at; k++ {
						i.RowV(k)
					}
					return errUser
				})
			case 13:
				x.UpdateF("t", critEq.f, func(u *xtorm.Update) error {
					for k := 0; k < at; k++ {
						u.Set("a", k)
					}
					return errUser
				})
			}
			if k >= 14 {
				user = false
				row := []interface{}{1, 2}
				bad := []interface{}{1}
				if k == 15 {
					bad = []interface{}{1, 2, 3}
				}
				rows := make([][]interface{}, n)
				for i := range rows {
					rows[i] = row
				}
				rows[at] = bad
				x.Insert("t", []string{"a", "b"}, rows)
			}
			x.Deallocate(2)
			r.StepN(3)
			what := fmt.Sprintf("%s of %d, %s at %d", kinds[k], n, v.name, at)
			checkFailed(r, x, user, false, what)
			checkRecovered(r, x, what)
			r.StateS(what)
		}}
}

// largeUnits puts a failure into units of work of many sizes.
func largeUnits(deep bool) engine.Scenario {
	fs := coreFaults()
	var ns []int
	for n := 64; n <= 1<<21; n *= 2 {
		ns = append(ns, n-33, n, n+40)
	}
	if !deep {
		ns = ns[:len(ns)-6]
	}
	ns = append(ns, 1<<21+40, 1<<22+1, 1<<24+1)
	return engine.Scenario{Name: "failures in units of work of many sizes", Bound: fmt.Sprintf("%d failing elements x %d sizes of what precedes, up to %d bytes x operations of size 0 or as large after it x nothing, large or small initial capacity x at the top or in a transaction", len(fs), len(ns), ns[len(ns)-1]),
		Body: func(r *engine.Run) {
			f := fs[r.Choose(len(fs), "fault")]
			n := ns[r.Choose(len(ns), "size")]
			x := xtorm.New([]int{0, 2 * n, 100}[r.Choose(3, "capacity")])
			after := r.Bool("large operation after")
			body := func(b *xtorm.Builder) error {
				b.StmtExecute(pattern(n))
				f.do(b)
				if after {
					b.StmtExecute(pattern(n))
				}
				return nil
			}
			switch r.Choose(3, "place") {
			case 0:
				body(&x.Builder)
			case 1:
				x.Tx(xtorm.IsolationLevelDefault, body)
			default:
				x.StmtExecute(pattern(n))
				x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, body)
			}
			r.StepN(2)
			what := fmt.Sprintf("%s after %d bytes", f.name, n)
			checkFailed(r, x, f.user, false, what)
			checkRecovered(r, x, what)
			r.StateS(what)
		}}
}

func init() {
	register(&Prop{ID: "C07",
		Scenarios: func(t Tier) []engine.Scenario {
			scs := []engine.Scenario{everyFault(), nestedFault(1, true), nestedFault(2, true), nestedFault(3, true), onlyCallbackErr(2), longLists(t.Thorough), largeUnits(t.Thorough), errorKinds()}
			if t.Thorough {
				scs = append(scs, nestedFault(4, true), onlyCallbackErr(3))
			}
			return scs
		}})
}

// errVal fails with a given error.
type errVal struct{ err error }

func (e errVal) AppendAny(p []byte, tag uint8) ([]byte, error)  { return p, e.err }
func (e errVal) AppendExpr(p []byte, tag uint8) ([]byte, error) { return p, e.err }

// sliceErr is an error that cannot be compared.
type sliceErr []string

func (s sliceErr) Error() string { return "slice" }

// errorKinds: whatever error it is that a callback or value reports, it counts.
func errorKinds() engine.Scenario {
	es := append(exchangeErrors(), sliceErr{"a"}, sliceErr(nil), &tagError{"x"}, fmt.Errorf("a: %w", context.Canceled), errors.Join(io.EOF, errUser), os.ErrNotExist, sql.ErrNoRows, sql.ErrTxDone, driver.ErrBadConn, driver.ErrSkip, http.ErrServerClosed, errCallback,
		fs.SkipAll, fs.SkipDir, strconv.ErrRange, &connection.MySqlXError{Code: 1062})
	cols := []string{"a", "b"}
	sources := []func(b *xtorm.Builder, e error){
		func(b *xtorm.Builder, e error) { b.StmtExecute("s", 1, errVal{e}) },
		func(b *xtorm.Builder, e error) { b.Execute(1, errVal{e}, 2) },
		func(b *xtorm.Builder, e error) { b.InsertRow("t", cols, []interface{}{1, errVal{e}}) },
		func(b *xtorm.Builder, e error) { b.Insert("t", cols, [][]interface{}{{1, 2}, {errVal{e}, 2}}) },
		func(b *xtorm.Builder, e error) {
			b.InsertF("t", cols, func(i *xtorm.Insert) error { i.RowV(1, errVal{e}); i.RowV(1, 2); return nil })
		},
		func(b *xtorm.Builder, e error) {
			b.InsertF("t", cols, func(i *xtorm.Insert) error { i.RowV(1, 2); return e })
		},
		func(b *xtorm.Builder, e error) {
			b.InsertF("t", cols, func(i *xtorm.Insert) error { return e })
		},
		func(b *xtorm.Builder, e error) { b.Update("t", critEq.f, map[string]interface{}{"a": errVal{e}}) },
		func(b *xtorm.Builder, e error) {
			b.UpdateF("t", critEq.f, func(u *xtorm.Update) error { u.Set("a", errVal{e}); u.Set("b", 1); return nil })
		},
		func(b *xtorm.Builder, e error) {
			b.UpdateF("t", critEq.f, func(u *xtorm.Update) error { u.Set("a", 1); return e })
		},
		func(b *xtorm.Builder, e error) { b.UpdateF("t", nil, func(u *xtorm.Update) error { return e }) },
		func(b *xtorm.Builder, e error) { b.Delete("t", xtorm.Eq(xtorm.Column("a"), errVal{e})) },
		func(b *xtorm.Builder, e error) {
			b.Delete("t", func(p []byte, tag uint8) ([]byte, error) { return p, e })
		},
	}
	for _, c := range allBrackets() {
		c := c
		sources = append(sources, func(b *xtorm.Builder, e error) {
			c.apply(b, func(b *xtorm.Builder) error { b.Deallocate(1); return e })
		},
			func(b *xtorm.Builder, e error) { c.apply(b, func(b *xtorm.Builder) error { return e }) })
	}
	conts := allBrackets()
	return engine.Scenario{Name: "every kind of error",
		Bound: fmt.Sprintf("%d errors (end of file, cancelled, timeouts, closed, server errors, not comparable, empty text, wrapped, ...) x %d places that can report one x alone or in each bracket", len(es), len(sources)),
		Body: func(r *engine.Run) {
			k := r.Choose(len(es), "error")
			e := es[k]
			src := r.Choose(len(sources), "source")
			x := xtorm.New(0)
			x.Deallocate(9)
			in := r.Choose(1+len(conts), "in")
			if in == 0 {
				sources[src](&x.Builder, e)
			} else {
				conts[in-1].apply(&x.Builder, func(b *xtorm.Builder) error { sources[src](b, e); b.Deallocate(2); return nil })
			}
			x.Deallocate(10)
			r.Step()
			what := fmt.Sprintf("error %d (%T) from source %d in %d", k, e, src, in)
			c, err := send(x)
			if c.calls != 0 || err == nil {
				r.Failf("%s: Send reported %v and sent %d bytes", what, err, len(c.buf))
			}
			if _, ok := e.(sliceErr); ok {
				var s sliceErr
				if !errors.As(err, &s) {
					r.Failf("%s: Send reported %q, not the error", what, err)
				}
			} else if !errors.Is(err, e) {
				r.Failf("%s: Send reported %q, not the error", what, err)
			}
			checkRecovered(r, x, what)
			r.StateS(what)
		}}
}
