package props

import (
	"fmt"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// ctor is an exported expression constructor of fixed arity.
type ctor struct {
	name string
	n    int
	mk   func(a []interface{}) xproto.AppendExprFunc
	text func(s []string) string
}

func un(name, opName string, f func(a interface{}) xproto.AppendExprFunc) ctor {
	return ctor{name, 1, func(a []interface{}) xproto.AppendExprFunc { return f(a[0]) }, func(s []string) string { return mOp(opName, s...) }}
}

func bin(name, opName string, f func(a, b interface{}) xproto.AppendExprFunc) ctor {
	return ctor{name, 2, func(a []interface{}) xproto.AppendExprFunc { return f(a[0], a[1]) }, func(s []string) string { return mOp(opName, s...) }}
}

func tern(name, opName string, f func(a, b, c interface{}) xproto.AppendExprFunc) ctor {
	return ctor{name, 3, func(a []interface{}) xproto.AppendExprFunc { return f(a[0], a[1], a[2]) }, func(s []string) string { return mOp(opName, s...) }}
}

// units are all exported date units with the text MySQL expects.
var units = []struct {
	u xtorm.DateUnit
	s string
}{
	{xtorm.UnitMicroSecond, "MICROSECOND"}, {xtorm.UnitSecond, "SECOND"}, {xtorm.UnitMinute, "MINUTE"}, {xtorm.UnitHour, "HOUR"},
	{xtorm.UnitDay, "DAY"}, {xtorm.UnitWeek, "WEEK"}, {xtorm.UnitMonth, "MONTH"}, {xtorm.UnitQuarter, "QUARTER"}, {xtorm.UnitYear, "YEAR"},
	{xtorm.UnitSecondMicrosecond, "SECOND_MICROSECOND"}, {xtorm.UnitMinuteMicrosecond, "MINUTE_MICROSECOND"}, {xtorm.UnitMinuteSecond, "MINUTE_SECOND"},
	{xtorm.UnitHourMicrosecond, "HOUR_MICROSECOND"}, {xtorm.UnitHourSecond, "HOUR_SECOND"}, {xtorm.UnitHourMinute, "HOUR_MINUTE"},
	{xtorm.UnitDayMicrosecond, "DAY_MICROSECOND"}, {xtorm.UnitDaySecond, "DAY_SECOND"}, {xtorm.UnitDayMinute, "DAY_MINUTE"}, {xtorm.UnitDayHour, "DAY_HOUR"},
}

func ctors() []ctor {
	cs := []ctor{
		{"Default", 0, func([]interface{}) xproto.AppendExprFunc { return xtorm.Default() }, func(s []string) string { return mOp("default") }},
		{"RowCount", 0, func([]interface{}) xproto.AppendExprFunc { return xtorm.RowCount() }, func(s []string) string { return mFunc("ROW_COUNT") }},
		{"LastInsertID", 0, func([]interface{}) xproto.AppendExprFunc { return xtorm.LastInsertID() }, func(s []string) string { return mFunc("LAST_INSERT_ID") }},
		{"Concat0", 0, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat() }, func(s []string) string { return mFunc("CONCAT") }},
		un("Not", "!", xtorm.Not), un("Plus", "sign_plus", xtorm.Plus), un("Minus", "sign_minus", xtorm.Minus),
		{"In1", 1, func(a []interface{}) xproto.AppendExprFunc { return xtorm.In(a[0], nil) }, func(s []string) string { return mOp("in", s...) }},
		{"Concat1", 1, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat(a...) }, func(s []string) string { return mFunc("CONCAT", s...) }},
		bin("And", "&&", xtorm.And), bin("Or", "||", xtorm.Or), bin("Xor", "xor", xtorm.Xor),
		bin("Eq", "==", xtorm.Eq), bin("Neq", "!=", xtorm.Neq), bin("Lte", "<=", xtorm.Lte), bin("Lt", "<", xtorm.Lt), bin("Gt", ">", xtorm.Gt), bin("Gte", ">=", xtorm.Gte),
		bin("BitAnd", "&", xtorm.BitAnd), bin("BitOr", "|", xtorm.BitOr), bin("BitXor", "^", xtorm.BitXor), bin("LeftShift", "<<", xtorm.LeftShift), bin("RightShift", ">>", xtorm.RightShift),
		bin("Add", "+", xtorm.Add), bin("Sub", "-", xtorm.Sub), bin("Mul", "*", xtorm.Mul), bin("Div", "/", xtorm.Div), bin("IntDiv", "div", xtorm.IntDiv), bin("Mod", "%", xtorm.Mod),
		bin("Is", "is", xtorm.Is), bin("IsNot", "is_not", xtorm.IsNot), bin("Regexp", "regexp", xtorm.Regexp), bin("NotRegexp", "not_regexp", xtorm.NotRegexp),
		bin("Like", "like", xtorm.Like), bin("NotLike", "not_like", xtorm.NotLike), bin("ContIn", "cont_in", xtorm.ContIn), bin("NotContIn", "not_cont_in", xtorm.NotContIn),
		bin("Overlaps", "overlaps", xtorm.Overlaps), bin("NotOverlaps", "not_overlaps", xtorm.NotOverlaps),
		{"In2", 2, func(a []interface{}) xproto.AppendExprFunc { return xtorm.In(a[0], a[1:]) }, func(s []string) string { return mOp("in", s...) }},
		{"NotIn2", 2, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotIn(a[0], a[1:]) }, func(s []string) string { return mOp("not_in", s...) }},
		{"Concat2", 2, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat(a...) }, func(s []string) string { return mFunc("CONCAT", s...) }},
		tern("Between", "between", xtorm.Between), tern("NotBetween", "not_between", xtorm.NotBetween),
		{"InV3", 3, func(a []interface{}) xproto.AppendExprFunc { return xtorm.InV(a[0], a[1], a[2]) }, func(s []string) string { return mOp("in", s...) }},
		{"NotInV3", 3, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotInV(a[0], a[1], a[2]) }, func(s []string) string { return mOp("not_in", s...) }},
		{"Concat3", 3, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat(a...) }, func(s []string) string { return mFunc("CONCAT", s...) }},
	}
	for _, u := range units {
		u := u
		cs = append(cs,
			ctor{"DateAdd/" + u.s, 2, func(a []interface{}) xproto.AppendExprFunc { return xtorm.DateAdd(a[0], a[1], u.u) },
				func(s []string) string { return mOp("date_add", s[0], s[1], sOctets(u.s, 0)) }},
			ctor{"DateSub/" + u.s, 2, func(a []interface{}) xproto.AppendExprFunc { return xtorm.DateSub(a[0], a[1], u.u) },
				func(s []string) string { return mOp("date_sub", s[0], s[1], sOctets(u.s, 0)) }})
	}
	return cs
}

func ctorNamed(cs []ctor, names ...string) []ctor {
	var out []ctor
	for _, n := range names {
		for _, c := range cs {
			if c.name == n {
				out = append(out, c)
			}
		}
	}
	return out
}

func exprLeaves() []val {
	return []val{
		{"col", xtorm.Column("c1"), mCol("c1")},
		vInt(-70),
		vStr("txt"),
		{"nil", nil, sNull},
		{"bytes", []byte("bb"), sOctets("bb", 0)},
		{"json", xtorm.JSON([]byte("[]")), sOctets("[]", ctJSON)},
	}
}

// exprPlaces are the positions an expression can be used in.
var exprPlaces = []struct {
	name string
	send func(x *xtorm.XPipe, f xproto.AppendExprFunc)
	want func(s string) []exp
}{
	{"delete criteria", func(x *xtorm.XPipe, f xproto.AppendExprFunc) { x.Delete("t", f) }, func(s string) []exp { return []exp{one(mDelete("t", s))} }},
	{"update criteria", func(x *xtorm.XPipe, f xproto.AppendExprFunc) { x.Update("t", f, map[string]interface{}{"a": 1}) },
		func(s string) []exp { return []exp{one(mUpdate("t", s, mSet("a", sSint(1))))} }},
	{"updateF criteria and value", func(x *xtorm.XPipe, f xproto.AppendExprFunc) {
		x.UpdateF("t", f, func(u *xtorm.Update) error { u.Set("a", f); u.Set("b", 2); return nil })
	}, func(s string) []exp { return []exp{one(mUpdate("t", s, mSet("a", s), mSet("b", sSint(2))))} }},
	{"insert values", func(x *xtorm.XPipe, f xproto.AppendExprFunc) {
		x.Insert("t", []string{"a", "b", "c"}, [][]interface{}{{f, 1, f}, {2, f, 3}})
	}, func(s string) []exp {
		return []exp{one(mInsert("t", []string{"a", "b", "c"}, mRow(s, sSint(1), s), mRow(sSint(2), s, sSint(3))))}
	}},
}

func checkExpr(r *engine.Run, place int, f xproto.AppendExprFunc, s, what string) {
	p := exprPlaces[place]
	// between two other messages; used twice: an expression is reusable
	b := buildBytes(r, 0, func(x *xtorm.XPipe) { x.Deallocate(1); p.send(x, f); p.send(x, f); x.Deallocate(2) })
	want := append([]exp{one(mDeallocate(1))}, p.want(s)...)
	want = append(want, p.want(s)...)
	want = append(want, one(mDeallocate(2)))
	if err := checkStream(b, want); err != nil {
		r.Failf("%s as %s: %v", what, p.name, err)
	}
	r.State(b)
}

func genTree(r *engine.Run, cs []ctor, leaves []val, depth int) val {
	n := len(leaves)
	if depth > 0 {
		n += len(cs)
	}
	k := r.Choose(n, "node")
	if k < len(leaves) {
		return leaves[k]
	}
	c := cs[k-len(leaves)]
	return applyCtor(r, c, func() val { return genTree(r, cs, leaves, depth-1) })
}

func applyCtor(r *engine.Run, c ctor, child func() val) val {
	a := make([]interface{}, c.n)
	s := make([]string, c.n)
	name := c.name + "("
	for i := 0; i < c.n; i++ {
		v := child()
		a[i], s[i] = v.v, v.s
		name += v.name + ","
	}
	return val{name + ")", c.mk(a), c.text(s)}
}

// exprKinds are operands of every kind, several of each.
func exprKinds() []val {
	return append(baseVals(),
		val{"user", userVal{}, sNull}, val{"*user", &userVal{}, sNull}, val{"userPtr", &userPtrVal{}, sNull},
		val{"*String", &xtorm.String{Value: "q", Collation: 8}, sString("q", 8)},
		val{"nil *String", (*xtorm.String)(nil), sNull},
		vInt(1), vInt(2), vInt(-70), val{"uint(0)", uint(0), sUint(0)}, val{"uint8(1)", uint8(1), sUint(1)},
		val{"float 0", 0.0, f64(0)}, val{"float 1", 1.0, f64(1)}, val{"float32 0", float32(0), f32(0)},
		vStr("%"), vStr("0"), vStr("a%_\\"), vStr("NULL"), vStr(" "), vStr("\x00"),
		val{"column", xtorm.Column("c"), mCol("c")}, val{"column \"\"", xtorm.Column(""), mCol("")}, val{"column *", xtorm.Column("*"), mCol("*")},
		val{"default", xtorm.Default(), mOp("default")}, val{"rowcount", xtorm.RowCount(), mFunc("ROW_COUNT")},
		val{"not true", xtorm.Not(true), mOp("!", sBool(true))}, val{"minus", xtorm.Minus(5), mOp("sign_minus", sSint(5))},
		val{"eq", xtorm.Eq(xtorm.Column("k"), nil), mOp("==", mCol("k"), sNull)},
		val{"and", xtorm.And(true, false), mOp("&&", sBool(true), sBool(false))},
		val{"in", xtorm.In(1, nil), mOp("in", sSint(1))},
		val{"plain func", xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return userVal{}.AppendExpr(p, tag) }), sNull},
	)
}

// operandKinds puts every kind of operand at every argument of every
// constructor, and every pair of kinds in the binary ones.
func operandKinds(cs []ctor) engine.Scenario {
	ks := exprKinds()
	others := []val{{"col", xtorm.Column("c1"), mCol("c1")}, vInt(3), vStr("s"), {"nil", nil, sNull}, {"true", true, sBool(true)}}
	return engine.Scenario{Name: "operand kinds", Weight: 2, Bound: fmt.Sprintf("%d constructors x argument x %d operands of every kind x %d other operands, and both operands of every kind in the binary constructors", len(cs), len(ks), len(others)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "constructor")]
			if c.n == 0 {
				return
			}
			pairs := c.n == 2 && len(c.name) < 8 && r.Bool("pairs")
			at := 0
			if !pairs {
				at = r.Choose(c.n, "argument")
			}
			k := ks[r.Choose(len(ks), "kind")]
			var o val
			if pairs {
				o = ks[r.Choose(len(ks), "other kind")]
			} else if c.n > 1 {
				o = others[r.Choose(len(others), "other")]
			}
			i := -1
			v := applyCtor(r, c, func() val {
				i++
				if i == at {
					return k
				}
				return o
			})
			checkExpr(r, 0, v.v.(xproto.AppendExprFunc), v.s, v.name)
		}}
}

func init() {
	register(&Prop{ID: "C04",
		Assumptions: []string{"operator and function names are those of the X plugin's expression generator (regexp, date_add, ...); NOT BETWEEN is accepted as not_between or between_not, NOT as ! or not"},
		Scenarios: func(t Tier) []engine.Scenario {
			cs := ctors()
			leaves := exprLeaves()
			few := leaves[:2]
			rep := ctorNamed(cs, "Eq", "Not", "Between", "In2", "Concat2", "Default")
			small := ctorNamed(cs, "Eq", "Not", "Concat1", "RowCount")
			ls := lengths(true)
			var large []int
			for k := 8; k <= t.pick(17, 21); k++ {
				large = append(large, 1<<k-20, 1<<k+1)
			}
			return []engine.Scenario{
				textScenario("names and operands", textParams()[15:17], t.Thorough),
				{Name: "constructors", Bound: fmt.Sprintf("%d constructors (all exported, all %d date units) x all operand combinations from %d leaves x %d positions", len(cs), len(units), len(leaves), len(exprPlaces)),
					Body: func(r *engine.Run) {
						pl := r.Choose(len(exprPlaces), "position")
						c := cs[r.Choose(len(cs), "constructor")]
						v := applyCtor(r, c, func() val { return leaves[r.Choose(len(leaves), "leaf")] })
						checkExpr(r, pl, v.v.(xproto.AppendExprFunc), v.s, v.name)
					}},
				operandKinds(cs),
				{Name: "nested pairs", Bound: "every constructor inside every argument of every constructor, as criteria",
					Body: func(r *engine.Run) {
						c := cs[r.Choose(len(cs), "outer")]
						if c.n == 0 {
							return
						}
						at := r.Choose(c.n, "argument")
						in := cs[r.Choose(len(cs), "inner")]
						i := -1
						k := 0
						v := applyCtor(r, c, func() val {
							i++
							if i == at {
								return applyCtor(r, in, func() val { k++; return []val{{"colA", xtorm.Column("A"), mCol("A")}, vInt(k), vStr("q")}[(k-1)%3] })
							}
							return few[i%2]
						})
						checkExpr(r, 0, v.v.(xproto.AppendExprFunc), v.s, v.name)
					}},
				{Name: "trees", Weight: 3, Bound: fmt.Sprintf("all trees of depth <= %d over %d constructors and 2 leaves", t.pick(2, 3), len(rep)),
					Body: func(r *engine.Run) {
						d := t.pick(2, 3)
						var v val
						if d == 3 {
							v = genTree(r, ctorNamed(cs, "Eq", "Not", "In2"), few, 3)
						} else {
							v = genTree(r, rep, few, 2)
						}
						f, ok := v.v.(xproto.AppendExprFunc)
						if !ok {
							return
						}
						checkExpr(r, r.Choose(2, "position"), f, v.s, v.name)
					}},
				{Name: "chains", Bound: "chains of nested constructors, depth 0..200, every mix of 4 constructors repeated",
					Body: func(r *engine.Run) {
						a, b := small[r.Choose(3, "even")], small[r.Choose(3, "odd")]
						d := r.Choose(201, "depth")
						v := val{"col", xtorm.Column("c"), mCol("c")}
						for i := 0; i < d; i++ {
							c := a
							if i%2 == 1 {
								c = b
							}
							first := true
							prev := v
							v = applyCtor(r, c, func() val {
								if first {
									first = false
									return prev
								}
								return vInt(i)
							})
						}
						checkExpr(r, 1, v.v.(xproto.AppendExprFunc), v.s, "chain")
					}},
				{Name: "sizes", Weight: 4, Bound: fmt.Sprintf("column names and operands of all lengths 0..17000 and around the powers of two up to %d, at nesting 0..3, operand counts up to 16500", ls[len(ls)-1]),
					Body: func(r *engine.Run) {
						kind := r.Choose(6, "kind")
						var v val
						switch kind {
						case 0, 1, 2, 3: // operand under `kind` operators
							n := ls[r.Choose(len(ls), "length")]
							if r.Bool("column") {
								v = val{"col", xtorm.Column(pattern(n)), mCol(pattern(n))}
							} else {
								v = val{"fn", xtorm.Concat(1, pattern(n)), mFunc("CONCAT", sSint(1), sString(pattern(n), 0))}
							}
							for i := 0; i < kind; i++ {
								v = val{"or", xtorm.Or(i, v.v), mOp("||", sSint(int64(i)), v.s)}
							}
						case 4, 5:
							many := lengths(false)
							n := many[r.Choose(len(many), "count")]
							list := make([]interface{}, n)
							ss := make([]string, n)
							for i := range list {
								list[i], ss[i] = i%300, sSint(int64(i%300))
							}
							if kind == 4 {
								v = val{"in", xtorm.In(xtorm.Column("a"), list), mOp("in", append([]string{mCol("a")}, ss...)...)}
							} else {
								v = val{"concat", xtorm.Concat(list...), mFunc("CONCAT", ss...)}
							}
						}
						checkExpr(r, r.Choose(2, "position"), v.v.(xproto.AppendExprFunc), v.s, v.name)
					}},
				{Name: "large operands", Weight: 2, Bound: fmt.Sprintf("%d constructors x every argument x a text, bytes, column name or nested call of %d sizes up to %d bytes", len(cs), len(large), large[len(large)-1]),
					Body: func(r *engine.Run) {
						c := cs[r.Choose(len(cs), "constructor")]
						if c.n == 0 {
							return
						}
						at := r.Choose(c.n, "argument")
						n := large[r.Choose(len(large), "size")]
						p := pattern(n)
						big := []val{vStr(p), {"bytes", []byte(p), sOctets(p, 0)}, {"column", xtorm.Column(p), mCol(p)}, {"nested", xtorm.Concat(p, 1), mFunc("CONCAT", sString(p, 0), sSint(1))}}[r.Choose(4, "operand")]
						i := -1
						v := applyCtor(r, c, func() val {
							if i++; i == at {
								return big
							}
							return vInt(i)
						})
						f, ok := v.v.(xproto.AppendExprFunc)
						if !ok {
							return
						}
						checkExpr(r, at%2, f, v.s, c.name)
					}},
				{Name: "IN keeps its operands", Bound: "In/NotIn/InV/NotInV x list lengths 0..4 x every single later mutation of the caller's list (change, append, zero) before use",
					Body: func(r *engine.Run) {
						k := r.Choose(4, "constructor")
						n := r.Choose(5, "length")
						list := make([]interface{}, n, n+r.Choose(3, "spare capacity"))
						s := []string{mCol("a")}
						for i := range list {
							list[i] = i
							s = append(s, sSint(int64(i)))
						}
						col := xtorm.Column("a")
						var f xproto.AppendExprFunc
						name := "in"
						switch k {
						case 0:
							f = xtorm.In(col, list)
						case 1:
							f, name = xtorm.NotIn(col, list), "not_in"
						case 2:
							f = xtorm.InV(col, list...)
						default:
							f, name = xtorm.NotInV(col, list...), "not_in"
						}
						m := r.Choose(n+2, "mutation")
						switch {
						case m < n:
							list[m] = "changed"
						case m == n:
							_ = append(list, "added")
							for i := range list[:cap(list)] {
								list[:cap(list)][i] = 99
							}
						}
						checkExpr(r, 0, f, mOp(name, s...), "IN after the caller changed its list")
					}},
				{Name: "low-level operator and function encoders", Bound: "AppendExprOperator(V)/AppendExprFunctionCall(V)/AppendExprColumn: all name lengths 0..17000 and around the powers of two up to 2^20, tags 1..15, 0..3 operands",
					Body: func(r *engine.Run) {
						k := r.Choose(5, "function")
						n, tag, np := 5, uint8(3), 1
						switch r.Choose(2, "vary") {
						case 0:
							n = ls[r.Choose(len(ls), "length")]
						default:
							tag = uint8(1 + r.Choose(15, "tag"))
							np = r.Choose(4, "operands")
							n = r.Choose(3, "length") * 120
						}
						name := pattern(n)
						args, ss := vals([]val{vInt(1), vStr("b"), {"nil", nil, sNull}}[:np]...)
						var b []byte
						var err error
						var want string
						switch k {
						case 0:
							b, err = xproto.AppendExprOperator(nil, tag, name, args)
							want = mOp(name, ss...)
						case 1:
							b, err = xproto.AppendExprOperatorV(nil, tag, name, args...)
							want = mOp(name, ss...)
						case 2:
							b, err = xproto.AppendExprFunctionCall(nil, tag, name, args)
							want = mFunc(name, ss...)
						case 3:
							b, err = xproto.AppendExprFunctionCallV(nil, tag, name, args...)
							want = mFunc(name, ss...)
						default:
							b, err = xproto.AppendExprColumn(nil, tag, name)
							want = mCol(name)
						}
						r.Step()
						if err != nil {
							r.Failf("%v", err)
						}
						gt, got, err := xwire.CanonExpr(b)
						if err != nil || gt != int(tag) || got != want {
							r.Failf("encoder %d, name of %d bytes, tag %d: got tag %d %s (%v), expected %s", k, n, tag, gt, clip(got), err, clip(want))
						}
						r.State(b)
					}},
			}
		}})
}
