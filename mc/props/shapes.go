package props

import (
	"fmt"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
)

// shapeScenario: every operation in every combination of the shapes its parameters can take.
func shapeScenario(deep bool) engine.Scenario {
	tables := []string{"", "t", "db.tbl", "`q`", pattern(131)}
	colSets := [][]string{nil, {}, {"a"}, {""}, {"a", "a"}, {"b", "a"}, {"a", "", "b"}, {"a", "b", "c", "d", "e"}}
	vs := []val{
		{"nil", nil, sNull}, vInt(0), vInt(-1), vInt(1 << 40), vStr(""), vStr("x"), vStr(pattern(140)),
		{"empty bytes", []byte{}, sOctets("", 0)}, {"nil bytes", []byte(nil), sNull}, {"bytes", []byte("\x00\xff"), sOctets("\x00\xff", 0)},
		{"true", true, sBool(true)}, {"false", false, sBool(false)}, {"float64", 2.5, f64(2.5)}, {"float32", float32(2.5), f32(2.5)},
		{"json", xtorm.JSON([]byte(`{"a":1}`)), sOctets(`{"a":1}`, 2)}, {"string", xtorm.String{Value: "c", Collation: 45}, sString("c", 45)},
	}
	// values only expressions can hold
	es := append(vs[:len(vs):len(vs)], val{"column", xtorm.Column("k"), mCol("k")}, val{"call", xtorm.Concat(xtorm.Column("k"), "s"), mFunc("CONCAT", mCol("k"), sString("s", 0))}, val{"default", xtorm.Default(), mOp("default")})
	crits := []ex{noCrit, critEq, {xtorm.Column("flag"), mCol("flag")}, {xtorm.RowCount(), mFunc("ROW_COUNT")}, {xtorm.Not(nil), mOp("!", sNull)},
		{xtorm.In(xtorm.Column("c"), nil), mOp("in", mCol("c"))}, critBig}
	stmts := []string{"", "S", "SELECT 1;", pattern(129)}
	row := func(r *engine.Run, n, k int) []val {
		out := make([]val, n)
		for i := range out {
			out[i] = es[(k+3*i)%len(es)]
		}
		return out
	}
	mk := func(r *engine.Run) *op {
		t := tables[r.Choose(len(tables), "table")]
		switch r.Choose(9, "operation") {
		case 0, 1, 2:
			cols := colSets[r.Choose(len(colSets), "columns")]
			k := r.Choose(len(es), "first value")
			n := r.Choose(4, "rows")
			var rows [][]val
			for i := 0; i < n; i++ {
				rows = append(rows, row(r, len(cols), k+i))
			}
			if r.Bool("callback") {
				return opInsertF(t, cols, rows...)
			}
			return opInsert(t, cols, rows...)
		case 3:
			cols := colSets[r.Choose(len(colSets), "columns")]
			return opInsertRow(t, cols, row(r, len(cols), r.Choose(len(es), "first value"))...)
		case 4, 5:
			c := crits[r.Choose(len(crits), "criteria")]
			cols := [][]string{nil, {"a"}, {""}, {"b", "a"}, {"a", "", "b"}}[r.Choose(5, "columns")]
			k := r.Choose(len(es), "first value")
			if r.Bool("callback") {
				return opUpdateF(t, c, cols, row(r, len(cols), k))
			}
			return opUpdate(t, c, cols, row(r, len(cols), k))
		case 6:
			return opDelete(t, crits[r.Choose(len(crits), "criteria")])
		case 7:
			n := r.Choose(4, "arguments")
			k := r.Choose(len(vs), "first value")
			var as []val
			for i := 0; i < n; i++ {
				as = append(as, vs[(k+5*i)%len(vs)])
			}
			if r.Bool("prepared") {
				return opExecute([]uint32{0, 1, 127, 128, 1<<32 - 1}[r.Choose(5, "id")], as...)
			}
			return opStmt(stmts[r.Choose(len(stmts), "statement")], as...)
		}
		if r.Bool("prepare") {
			return opPrepare([]uint32{0, 1, 127, 128, 1<<32 - 1}[r.Choose(5, "id")], stmts[r.Choose(len(stmts), "statement")])
		}
		return opDealloc([]uint32{0, 1, 127, 128, 1<<32 - 1}[r.Choose(5, "id")])
	}
	places := 4
	return engine.Scenario{Name: "shapes", Bound: fmt.Sprintf("every operation x %d tables x %d column lists x 0..3 rows or arguments x %d values x %d criteria, alone, between two operations, in a transaction, in an expectation block", len(tables), len(colSets), len(es), len(crits)),
		Weight: 2,
		Body: func(r *engine.Run) {
			o := mk(r)
			place := r.Choose(places, "place")
			var prog []node
			switch place {
			case 0:
				prog = []node{{op: o}}
			case 1:
				prog = []node{{op: opDealloc(3)}, {op: o}, {op: opDelete("t", critEq)}}
			case 2:
				prog = []node{{cont: txContainer(2), body: []node{{op: o}}}}
			case 3:
				prog = []node{{cont: expectContainer(true), body: []node{{cont: txContainer(0), body: []node{{op: o}, {op: o}}}}}, {op: o}}
			}
			r.Notef("program: %v", prog)
			b := buildBytes(r, []int{0, 64}[place%2], func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(countOps(prog))
			expectStream(r, b, modelProg(&env{}, prog))
		}}
}
