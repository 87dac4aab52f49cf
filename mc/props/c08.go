package props

import (
	"fmt"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
)

// builderUses are all ways of using a Builder.
type use struct {
	name string
	do   func(b *xtorm.Builder)
}

var builderUses = []use{
	{"StmtExecute", func(b *xtorm.Builder) { b.StmtExecute("rogue", 1) }},
	{"Prepare", func(b *xtorm.Builder) { b.Prepare(66, "rogue") }},
	{"Execute", func(b *xtorm.Builder) { b.Execute(66, "rogue") }},
	{"Deallocate", func(b *xtorm.Builder) { b.Deallocate(66) }},
	{"Insert", func(b *xtorm.Builder) { b.Insert("rogue", []string{"a"}, [][]interface{}{{1}}) }},
	{"InsertRow", func(b *xtorm.Builder) { b.InsertRow("rogue", []string{"a"}, []interface{}{1}) }},
	{"InsertF", func(b *xtorm.Builder) {
		b.InsertF("rogue", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(1); return nil })
	}},
	{"Update", func(b *xtorm.Builder) { b.Update("rogue", nil, map[string]interface{}{"a": 1}) }},
	{"UpdateF", func(b *xtorm.Builder) {
		b.UpdateF("rogue", nil, func(u *xtorm.Update) error { u.Set("a", 1); return nil })
	}},
	{"Delete", func(b *xtorm.Builder) { b.Delete("rogue", nil) }},
	{"Tx", func(b *xtorm.Builder) {
		b.Tx(xtorm.IsolationLevelSerializable, func(b *xtorm.Builder) error { b.Deallocate(66); return nil })
	}},
	{"Tx/unknown level", func(b *xtorm.Builder) { b.Tx(99, func(b *xtorm.Builder) error { return nil }) }},
	{"ExpectFailOnError", func(b *xtorm.Builder) {
		b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { b.Deallocate(66); return nil })
	}},
	{"StmtExecute/bad value", func(b *xtorm.Builder) { b.StmtExecute("rogue", struct{}{}) }},
	{"Insert/wrong count", func(b *xtorm.Builder) { b.Insert("rogue", []string{"a", "b"}, [][]interface{}{{1}}) }},
}

// panics runs f and returns whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if v := recover(); v != nil {
			p = true
		}
	}()
	f()
	return false
}

// kinds of nested callbacks
const (
	inTx = iota
	inExpect
	inInsertF
	inUpdateF
)

var kindNames = []string{"Tx", "ExpectFailOnError", "InsertF", "UpdateF"}

// enclosing: every use of every enclosing builder, inside every stack of
// callbacks, at three moments relative to the innermost body's own work.
func enclosing(depth, uses int, caps []int) engine.Scenario {
	return engine.Scenario{Name: fmt.Sprintf("enclosing builder, %d deep", depth),
		Bound: fmt.Sprintf("all stacks of %d callbacks (4 kinds) x each enclosing builder x %d uses (and Send, Reset of the pipe) x 3 moments x %d uses in a row x %d capacities x healthy or already failed", depth, len(builderUses), uses, len(caps)),
		Body: func(r *engine.Run) {
			x := xtorm.New(caps[r.Choose(len(caps), "capacity")])
			failed := r.Bool("inner already failed")
			moment := r.Choose(3, "moment")
			var want []exp
			chain := []*xtorm.Builder{&x.Builder}
			path := ""
			done := false
			attackOnce := func() {
				t := r.Choose(len(chain), "which builder")
				n := len(builderUses)
				if t == 0 {
					n += 2
				}
				u := r.Choose(n, "use")
				c := &capture{}
				name := ""
				p := panics(func() {
					switch {
					case u < len(builderUses):
						name = builderUses[u].name
						builderUses[u].do(chain[t])
					case u == len(builderUses):
						name = "Send"
						x.Send(bg, c)
					default:
						name = "Reset"
						x.Reset()
					}
				})
				r.Step()
				r.Notef("%s on level %d inside %s panicked: %v", name, t, path, p)
				if c.calls > 0 {
					r.Failf("Send inside %s reached the connection", path)
				}
				if !p {
					r.Failf("%s on the builder %d levels out, inside %s, did not panic", name, len(chain)-t, path)
				}
			}
			attack := func(m int) {
				if m != moment {
					return
				}
				done = true
				for k := 0; k < uses; k++ {
					attackOnce()
				}
			}
			var rec func(d int)
			rec = func(d int) {
				b := chain[len(chain)-1]
				if d < depth {
					b.Deallocate(uint32(100 + d))
					want = append(want, one(mDeallocate(uint32(100+d))))
				}
				if d == 0 {
					return
				}
				n := 2
				if d == 1 {
					n = 4
				}
				k := r.Choose(n, "callback kind")
				path += kindNames[k] + "/"
				switch k {
				case inTx, inExpect:
					c := []*container{txContainer(2), expectContainer(true)}[k]
					want = append(want, c.open...)
					c.apply(b, func(child *xtorm.Builder) error {
						if d == 1 {
							attack(0)
						}
						chain2 := chain
						chain = append(chain[:len(chain):len(chain)], child)
						if d == 1 {
							chain = chain2
							if failed {
								child.StmtExecute("x", struct{}{})
							}
							child.StmtExecute("inner", pattern(120))
							want = append(want, one(mStmt("inner", sString(pattern(120), 0))))
							attack(1)
							child.Deallocate(5)
							want = append(want, one(mDeallocate(5)))
							attack(2)
						} else {
							rec(d - 1)
						}
						chain = chain2
						return nil
					})
					want = append(want, c.close...)
				case inInsertF:
					b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error {
						attack(0)
						if failed {
							i.RowV(struct{}{})
						}
						i.RowV(1)
						attack(1)
						i.Row([]interface{}{pattern(120)})
						attack(2)
						return nil
					})
					want = append(want, one(mInsert("t", []string{"a"}, mRow(sSint(1)), mRow(sString(pattern(120), 0)))))
				case inUpdateF:
					b.UpdateF("t", critEq.f, func(i *xtorm.Update) error {
						attack(0)
						if failed {
							i.Set("z", struct{}{})
						}
						i.Set("a", 1)
						attack(1)
						i.Set("b", pattern(120))
						attack(2)
						return nil
					})
					want = append(want, one(mUpdate("t", critEq.s, mSet("a", sSint(1)), mSet("b", sString(pattern(120), 0)))))
				}
				// the enclosing builder works again
				b.Delete("after", nil)
				want = append(want, one(mDelete("after", "")))
			}
			rec(depth)
			if !done {
				r.HarnessFailf("no use was made")
			}
			if failed {
				checkFailed(r, x, false, false, "failure inside "+path)
				return
			}
			c, err := send(x)
			if err != nil {
				r.Failf("the refused use made the unit of work fail: %v", err)
			}
			if err := checkStream(c.buf, want); err != nil {
				r.Failf("the refused use changed the unit of work (%s): %v", path, err)
			}
			r.StateS(path)
		}}
}

// stale: handles kept from inside a callback, used after it has returned.
func stale(depth int, caps []int) engine.Scenario {
	moments := []string{"right after the callback", "after the enclosing builder was extended", "inside a later callback", "between two sends", "after Reset", "after Reset and further building"}
	handles := []string{"Builder of Tx", "Builder of ExpectFailOnError", "Insert", "Update", "Builder two levels in"}
	return engine.Scenario{Name: "handles kept after their callback",
		Bound: fmt.Sprintf("%d kinds of handle x every use (%d of a builder; Row, RowV, Set; good and bad values) x %d moments x up to %d uses x %d capacities", len(handles), len(builderUses), len(moments), depth, len(caps)),
		Body: func(r *engine.Run) {
			cp := caps[r.Choose(len(caps), "capacity")]
			x := xtorm.New(cp)
			h := r.Choose(len(handles), "handle")
			moment := r.Choose(len(moments), "moment")
			var kb *xtorm.Builder
			var ki *xtorm.Insert
			var ku *xtorm.Update
			var want []exp
			W := func(e ...exp) { want = append(want, e...) }
			x.Deallocate(1)
			W(one(mDeallocate(1)))
			switch h {
			case 0:
				x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { kb = b; b.Deallocate(2); return nil })
				W(one(mStmt("START TRANSACTION")), one(mDeallocate(2)), one(mStmt("COMMIT")))
			case 1:
				x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { kb = b; b.Deallocate(2); return nil })
				W(one(mOpen(true)), one(mDeallocate(2)), one(mClose))
			case 2:
				x.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { ki = i; i.RowV(1); return nil })
				W(one(mInsert("t", []string{"a"}, mRow(sSint(1)))))
			case 3:
				x.UpdateF("t", nil, func(u *xtorm.Update) error { ku = u; u.Set("a", 1); return nil })
				W(one(mUpdate("t", "", mSet("a", sSint(1)))))
			case 4:
				x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
					b.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { kb = b; b.Deallocate(2); return nil })
					return nil
				})
				W(one(mOpen(true)), one(mStmt("START TRANSACTION")), one(mDeallocate(2)), one(mStmt("COMMIT")), one(mClose))
			}
			use := func() {
				for i := 0; i < depth; i++ {
					n := len(builderUses)
					if kb == nil {
						n = 4
					}
					u := r.Choose(n+1, "use") // 0: no (further) use
					if u == 0 {
						break
					}
					u--
					panics(func() {
						bad := interface{}(struct{}{})
						switch {
						case kb != nil:
							builderUses[u].do(kb)
						case ki != nil:
							switch u {
							case 0:
								ki.RowV("rogue")
							case 1:
								ki.Row([]interface{}{pattern(150), 1})
							case 2:
								ki.RowV(bad)
							case 3:
								ki.Row(nil)
							}
						default:
							switch u {
							case 0:
								ku.Set("rogue", 1)
							case 1:
								ku.Set("rogue", pattern(150))
							case 2:
								ku.Set("rogue", bad)
							case 3:
								ku.Set("", nil)
							}
						}
					})
					r.Step()
				}
			}
			ext := func() {
				x.StmtExecute("more", pattern(100))
				x.Insert("t", []string{"b"}, [][]interface{}{{pattern(200)}})
				W(one(mStmt("more", sString(pattern(100), 0))), one(mInsert("t", []string{"b"}, mRow(sString(pattern(200), 0)))))
			}
			check := func(when string) {
				c, err := send(x)
				if err != nil {
					r.Failf("a kept %s used %s: Send reported %v", handles[h], moments[moment], err)
				}
				if err := checkStream(c.buf, want); err != nil {
					r.Failf("a kept %s used %s changed what is sent %s: %v", handles[h], moments[moment], when, err)
				}
				r.State(c.buf)
			}
			switch moment {
			case 0:
				use()
				check("at once")
				ext()
			case 1:
				ext()
				use()
			case 2:
				ext()
				x.Tx(xtorm.IsolationLevelReadCommitted, func(b *xtorm.Builder) error {
					b.StmtExecute("in", 1)
					use()
					b.Deallocate(3)
					return nil
				})
				W(one(mStmt("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")), one(mStmt("START TRANSACTION")), one(mStmt("in", sSint(1))), one(mDeallocate(3)), one(mStmt("COMMIT")))
			case 3:
				ext()
				check("before")
				use()
				check("after")
			case 4:
				ext()
				x.Reset()
				want = nil
				use()
				check("at once")
				ext()
			case 5:
				ext()
				x.Reset()
				want = nil
				ext()
				use()
				check("at once")
				ext()
			}
			check("finally")
			x.Delete("end", nil)
			W(one(mDelete("end", "")))
			check("later")
		}}
}

// moreUses are the variants of every use of a Builder: empty and nil arguments,
// every level and context.
func moreUses() []use {
	us := append([]use(nil), builderUses...)
	add := func(name string, f func(b *xtorm.Builder)) { us = append(us, use{name, f}) }
	add("StmtExecute/empty", func(b *xtorm.Builder) { b.StmtExecute("") })
	add("StmtExecute/large", func(b *xtorm.Builder) { b.StmtExecute(pattern(9000), pattern(9000)) })
	add("Prepare/empty", func(b *xtorm.Builder) { b.Prepare(0, "") })
	add("Execute/no arguments", func(b *xtorm.Builder) { b.Execute(0) })
	add("Execute/bad value", func(b *xtorm.Builder) { b.Execute(1, struct{}{}) })
	add("Deallocate/0", func(b *xtorm.Builder) { b.Deallocate(0) })
	add("Insert/no rows", func(b *xtorm.Builder) { b.Insert("", nil, nil) })
	add("Insert/no rows but columns", func(b *xtorm.Builder) { b.Insert("t", []string{"a"}, nil) })
	add("Insert/many rows", func(b *xtorm.Builder) {
		b.Insert("t", []string{"a"}, [][]interface{}{{1}, {pattern(300)}, {nil}, {3}})
	})
	add("Insert/bad value", func(b *xtorm.Builder) { b.Insert("t", []string{"a"}, [][]interface{}{{struct{}{}}}) })
	add("InsertRow/empty", func(b *xtorm.Builder) { b.InsertRow("t", nil, nil) })
	add("InsertRow/bad value", func(b *xtorm.Builder) { b.InsertRow("t", []string{"a"}, []interface{}{struct{}{}}) })
	add("InsertF/no rows", func(b *xtorm.Builder) {
		b.InsertF("t", nil, func(i *xtorm.Insert) error { return nil })
	})
	add("InsertF/error", func(b *xtorm.Builder) {
		b.InsertF("t", nil, func(i *xtorm.Insert) error { return errUser })
	})
	add("Update/nothing", func(b *xtorm.Builder) { b.Update("t", nil, nil) })
	add("Update/criteria", func(b *xtorm.Builder) { b.Update("t", critEq.f, map[string]interface{}{"a": 1, "b": 2}) })
	add("Update/bad value", func(b *xtorm.Builder) { b.Update("t", nil, map[string]interface{}{"a": struct{}{}}) })
	add("UpdateF/no assignments", func(b *xtorm.Builder) { b.UpdateF("t", nil, func(u *xtorm.Update) error { return nil }) })
	add("UpdateF/criteria", func(b *xtorm.Builder) {
		b.UpdateF("t", critEq.f, func(u *xtorm.Update) error { u.Set("a", 1); return nil })
	})
	add("Delete/criteria", func(b *xtorm.Builder) { b.Delete("t", critEq.f) })
	add("Delete/bad criteria", func(b *xtorm.Builder) { b.Delete("t", failVal{1}.fail) })
	for _, l := range isoLevels {
		l := l
		add("Tx/"+l.name+"/empty", func(b *xtorm.Builder) { b.Tx(l.level, func(b *xtorm.Builder) error { return nil }) })
	}
	add("Tx/error", func(b *xtorm.Builder) {
		b.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { return errUser })
	})
	for _, empty := range []bool{false, true} {
		c := expectContainer(empty)
		add(c.name+"/empty", func(b *xtorm.Builder) { c.apply(b, func(b *xtorm.Builder) error { return nil }) })
	}
	return us
}

// nest is a kind of nested callback: run opens it, and gives the callback a
// function that does some work through the inner handle.
type nest struct {
	name string
	run  func(b *xtorm.Builder, f func(work func(n int)) error)
	// want returns the messages for a body that did work of the given sizes
	want func(sizes []int) []exp
	// keep runs a callback that keeps its handle and does work of size 1, and
	// returns the uses of the handle
	keep func(b *xtorm.Builder, f func()) []use
}

func nests() []nest {
	var ns []nest
	brackets := allBrackets()
	for _, c := range brackets {
		c := c
		ns = append(ns, nest{name: c.name,
			run: func(b *xtorm.Builder, f func(work func(n int)) error) {
				c.apply(b, func(child *xtorm.Builder) error { return f(func(n int) { child.StmtExecute("w", pattern(n)) }) })
			},
			want: func(sizes []int) []exp {
				out := append([]exp(nil), c.open...)
				for _, n := range sizes {
					out = append(out, one(mStmt("w", sString(pattern(n), 0))))
				}
				return append(out, c.close...)
			},
			keep: func(b *xtorm.Builder, f func()) []use {
				var k *xtorm.Builder
				c.apply(b, func(child *xtorm.Builder) error { k = child; child.StmtExecute("w", pattern(1)); f(); return nil })
				var us []use
				for _, u := range moreUses() {
					u := u
					us = append(us, use{u.name, func(*xtorm.Builder) { u.do(k) }})
				}
				return us
			}})
	}
	for _, nc := range []int{0, 1, 2} {
		cols := []string{"a", "b"}[:nc]
		ns = append(ns, nest{name: fmt.Sprintf("InsertF of %d columns", nc),
			run: func(b *xtorm.Builder, f func(work func(n int)) error) {
				b.InsertF("t", cols, func(i *xtorm.Insert) error { return f(func(n int) { i.RowV(pattern(n)) }) })
			},
			want: func(sizes []int) []exp {
				var rows []string
				for _, n := range sizes {
					rows = append(rows, mRow(sString(pattern(n), 0)))
				}
				return []exp{one(mInsert("t", cols, rows...))}
			},
			keep: func(b *xtorm.Builder, f func()) []use {
				var k *xtorm.Insert
				b.InsertF("t", cols, func(i *xtorm.Insert) error { k = i; i.RowV(pattern(1)); f(); return nil })
				return []use{
					{"RowV", func(*xtorm.Builder) { k.RowV("rogue") }}, {"RowV/none", func(*xtorm.Builder) { k.RowV() }},
					{"Row/nil", func(*xtorm.Builder) { k.Row(nil) }}, {"Row/large", func(*xtorm.Builder) { k.Row([]interface{}{pattern(9000)}) }},
					{"Row/bad value", func(*xtorm.Builder) { k.RowV(1, struct{}{}) }},
				}
			}})
	}
	for _, crit := range []ex{noCrit, critEq, critBig} {
		crit := crit
		ns = append(ns, nest{name: "UpdateF with criteria " + clip(crit.s),
			run: func(b *xtorm.Builder, f func(work func(n int)) error) {
				b.UpdateF("t", crit.f, func(i *xtorm.Update) error { return f(func(n int) { i.Set("a", pattern(n)) }) })
			},
			want: func(sizes []int) []exp {
				var set []string
				for _, n := range sizes {
					set = append(set, mSet("a", sString(pattern(n), 0)))
				}
				return []exp{one(mUpdate("t", crit.s, set...))}
			},
			keep: func(b *xtorm.Builder, f func()) []use {
				var k *xtorm.Update
				b.UpdateF("t", crit.f, func(u *xtorm.Update) error { k = u; u.Set("a", pattern(1)); f(); return nil })
				return []use{
					{"Set", func(*xtorm.Builder) { k.Set("rogue", 1) }}, {"Set/empty", func(*xtorm.Builder) { k.Set("", nil) }},
					{"Set/large", func(*xtorm.Builder) { k.Set("rogue", pattern(9000)) }}, {"Set/bad value", func(*xtorm.Builder) { k.Set("rogue", struct{}{}) }},
				}
			}})
	}
	return ns
}

var priorSizes = []int{0, 1, 60, 200, 1000, 5000, 70000}

// everyUse: every variant of every use of the enclosing builder in every kind
// of callback.
func everyUse() engine.Scenario {
	us, ns := moreUses(), nests()
	return engine.Scenario{Name: "every use in every kind of callback",
		Bound: fmt.Sprintf("%d kinds of callback x inside another bracket or not x %d sizes of what was built before x 0, 1 or 2 pieces of work (small, large) before and 0 or 1 after x %d uses (and Send, Reset), twice", len(ns), len(priorSizes), len(us)),
		Body: func(r *engine.Run) {
			n := ns[r.Choose(len(ns), "callback")]
			prior := priorSizes[r.Choose(len(priorSizes), "prior")]
			x := xtorm.New(0)
			var want []exp
			if prior > 0 {
				x.StmtExecute(pattern(prior))
				want = append(want, one(mStmt(pattern(prior))))
			}
			sizes := [][]int{{}, {3}, {6000}, {3, 200}}[r.Choose(4, "work before")]
			after := r.Bool("work after")
			outer := r.Choose(3, "inside")
			u := r.Choose(len(us)+2, "use")
			name := ""
			body := func(b *xtorm.Builder) error {
				n.run(b, func(work func(n int)) error {
					for _, s := range sizes {
						work(s)
					}
					for k := 0; k < 2; k++ {
						c := &capture{}
						if !panics(func() {
							switch {
							case u < len(us):
								name = us[u].name
								us[u].do(b)
							case u == len(us):
								name = "Send"
								x.Send(bg, c)
							default:
								name = "Reset"
								x.Reset()
							}
						}) {
							r.Failf("%s on the builder enclosing %s did not panic", name, n.name)
						}
						if c.calls > 0 {
							r.Failf("Send inside %s reached the connection", n.name)
						}
						r.Step()
					}
					if after {
						work(10)
						sizes = append(sizes[:len(sizes):len(sizes)], 10)
					}
					return nil
				})
				return nil
			}
			switch outer {
			case 0:
				body(&x.Builder)
				want = append(want, n.want(sizes)...)
			default:
				c := []*container{txContainer(0), expectContainer(false)}[outer-1]
				want = append(want, c.open...)
				c.apply(&x.Builder, body)
				want = append(want, n.want(sizes)...)
				want = append(want, c.close...)
			}
			x.Deallocate(7)
			want = append(want, one(mDeallocate(7)))
			c, err := send(x)
			if err != nil {
				r.Failf("%s refused inside %s: Send reported %v", name, n.name, err)
			}
			if err := checkStream(c.buf, want); err != nil {
				r.Failf("%s refused inside %s changed the unit of work: %v", name, n.name, err)
			}
			r.State(c.buf)
		}}
}

// everyKept: a handle of every kind of callback, kept and used later.
func everyKept() engine.Scenario {
	ns := nests()
	// as many uses as the kind has
	moments := []string{"at once", "after more was built", "inside a later callback", "after Reset", "after Reset and a rebuild", "while another handle of its kind is open"}
	return engine.Scenario{Name: "every use of every kind of kept handle",
		Bound: fmt.Sprintf("%d kinds of callback x %d sizes of what was built before x %d moments x every use of the handle, twice", len(ns), len(priorSizes), len(moments)),
		Body: func(r *engine.Run) {
			n := ns[r.Choose(len(ns), "callback")]
			prior := priorSizes[r.Choose(len(priorSizes), "prior")]
			m := r.Choose(len(moments), "moment")
			x := xtorm.New(0)
			var want []exp
			stmt := func(b *xtorm.Builder, s int) {
				b.StmtExecute(pattern(s))
				want = append(want, one(mStmt(pattern(s))))
			}
			if prior > 0 {
				stmt(&x.Builder, prior)
			}
			us := n.keep(&x.Builder, func() {})
			u := us[r.Choose(len(us), "use")]
			misuse := func() {
				for k := 0; k < 2; k++ {
					panics(func() { u.do(nil) })
					r.Step()
				}
			}
			want = append(want, n.want([]int{1})...)
			switch m {
			case 0:
				misuse()
			case 1:
				stmt(&x.Builder, 300)
				misuse()
			case 2:
				x.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
					want = append(want, one(mOpen(true)))
					stmt(b, 10)
					misuse()
					stmt(b, 20)
					want = append(want, one(mClose))
					return nil
				})
			case 3:
				x.Reset()
				want = nil
				misuse()
			case 4:
				x.Reset()
				want = nil
				stmt(&x.Builder, prior+50)
				misuse()
			case 5:
				n.keep(&x.Builder, misuse)
				want = append(want, n.want([]int{1})...)
			}
			x.Deallocate(7)
			want = append(want, one(mDeallocate(7)))
			c, err := send(x)
			if err != nil {
				r.Failf("%s of a kept handle of %s, %s: Send reported %v", u.name, n.name, moments[m], err)
			}
			if err := checkStream(c.buf, want); err != nil {
				r.Failf("%s of a kept handle of %s, %s, changed what is sent: %v", u.name, n.name, moments[m], err)
			}
			r.State(c.buf)
		}}
}

func init() {
	register(&Prop{ID: "C08",
		Scenarios: func(t Tier) []engine.Scenario {
			caps := []int{0, 1, 64, 200, 512, 1024, 4096, 65536}
			scs := []engine.Scenario{
				enclosing(1, 2, caps), enclosing(2, 2, caps), enclosing(3, t.pick(1, 2), []int{0, 300, 4096}),
				stale(3, caps), everyUse(), everyKept(),
			}
			if t.Thorough {
				scs = append(scs, enclosing(4, 2, []int{0, 300, 4096}), enclosing(5, 1, []int{0, 4096}))
			}
			return scs
		}})
}
