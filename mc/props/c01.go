package props

import (
	"fmt"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
)

// genProg chooses a program with at most budget operations.
func genProg(r *engine.Run, alpha []*op, conts []*container, budget *int, depth int) []node {
	var prog []node
	for *budget > 0 {
		n := 1 + len(alpha)
		if depth > 0 {
			n += len(conts)
		}
		k := r.Choose(n, "op")
		if k == 0 {
			break
		}
		*budget--
		if k <= len(alpha) {
			prog = append(prog, node{op: alpha[k-1]})
			continue
		}
		c := conts[k-1-len(alpha)]
		prog = append(prog, node{cont: c, body: genProg(r, alpha, conts, budget, depth-1)})
	}
	return prog
}

func progScenario(name string, alpha []*op, conts []*container, maxOps, depth int) engine.Scenario {
	return engine.Scenario{
		Name:  name,
		Bound: fmt.Sprintf("all programs of <= %d operations, nesting <= %d, over %d operations and %d containers", maxOps, depth, len(alpha), len(conts)),
		Body: func(r *engine.Run) {
			budget := maxOps
			prog := genProg(r, alpha, conts, &budget, depth)
			r.Notef("program: %v", prog)
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(countOps(prog))
			expectStream(r, b, modelProg(&env{}, prog))
		},
	}
}

// sizeParam is a builder operation with one size-valued parameter.
type sizeParam struct {
	name string
	mk   func(n int) *op
	big  bool // also around 2^21
	many bool // the size is a number of elements
}

func repeatVal(v val, n int) []val {
	out := make([]val, n)
	for i := range out {
		out[i] = v
	}
	return out
}

func names(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = "c"
	}
	return out
}

func sizeParams() []sizeParam {
	str := func(n int) val { return vStr(pattern(n)) }
	ps := []sizeParam{
		{"StmtExecute statement", func(n int) *op { return opStmt(pattern(n), vInt(1)) }, true, false},
		{"StmtExecute string argument", func(n int) *op { return opStmt("s", str(n), vInt(1)) }, true, false},
		{"StmtExecute arguments", func(n int) *op { return opStmt("s", repeatVal(vInt(-2), n)...) }, false, true},
		{"Prepare statement", func(n int) *op { return opPrepare(128, pattern(n)) }, true, false},
		{"Execute string argument", func(n int) *op { return opExecute(128, str(n), vInt(1)) }, true, false},
		{"Execute arguments", func(n int) *op { return opExecute(1<<32-1, repeatVal(vInt(-2), n)...) }, false, true},
		{"Insert table name", func(n int) *op { return opInsert(pattern(n), []string{"c"}, []val{vInt(1)}) }, true, false},
		{"Insert column name", func(n int) *op { return opInsert("t", []string{"a", pattern(n)}, []val{vInt(1), vInt(2)}) }, true, false},
		{"Insert row size", func(n int) *op {
			return opInsert("t", []string{"a", "b"}, []val{str(n), vInt(2)}, []val{vInt(3), vInt(4)})
		}, true, false},
		{"Insert columns", func(n int) *op { return opInsert("t", names(n), repeatVal(vInt(1), n)) }, false, true},
		{"Insert rows", func(n int) *op {
			rows := make([][]val, n)
			for i := range rows {
				rows[i] = []val{vInt(i)}
			}
			return opInsert("t", []string{"a"}, rows...)
		}, false, true},
		{"InsertRow table name", func(n int) *op { return opInsertRow(pattern(n), []string{"a"}, vInt(3)) }, true, false},
		{"InsertRow row size", func(n int) *op { return opInsertRow("t", []string{"a"}, str(n)) }, true, false},
		{"InsertF table name", func(n int) *op { return opInsertF(pattern(n), []string{"a"}, []val{vInt(1)}) }, true, false},
		{"InsertF row size", func(n int) *op { return opInsertF("t", []string{"a"}, []val{vInt(1)}, []val{str(n)}, []val{vInt(3)}) }, true, false},
		{"Update table name", func(n int) *op { return opUpdate(pattern(n), critEq, []string{"a"}, []val{vInt(1)}) }, true, false},
		{"Update column name", func(n int) *op { return opUpdate("t", critEq, []string{pattern(n)}, []val{vInt(1)}) }, true, false},
		{"Update value size", func(n int) *op { return opUpdate("t", noCrit, []string{"a"}, []val{str(n)}) }, true, false},
		{"Update criteria size", func(n int) *op {
			return opUpdate("t", ex{xtorm.Eq(xtorm.Column("c"), pattern(n)), mOp("==", mCol("c"), sString(pattern(n), 0))}, []string{"a"}, []val{vInt(1)})
		}, true, false},
		{"UpdateF table name", func(n int) *op { return opUpdateF(pattern(n), critEq, []string{"a"}, []val{vInt(1)}) }, true, false},
		{"UpdateF column name", func(n int) *op {
			return opUpdateF("t", critEq, []string{"z", pattern(n), "y"}, []val{vInt(0), vInt(1), vInt(2)})
		}, true, false},
		{"UpdateF assignments", func(n int) *op {
			cols, vs := make([]string, n), make([]val, n)
			for i := range cols {
				cols[i], vs[i] = fmt.Sprint("c", i), vInt(i)
			}
			return opUpdateF("t", critEq, cols, vs)
		}, false, true},
		{"InsertF rows", func(n int) *op {
			rows := make([][]val, n)
			for i := range rows {
				rows[i] = []val{vInt(i), vStr("v")}
			}
			return opInsertF("t", []string{"b", "a"}, rows...)
		}, false, true},
		{"UpdateF value size", func(n int) *op { return opUpdateF("t", noCrit, []string{"a", "b"}, []val{str(n), vInt(1)}) }, true, false},
		{"Delete table name", func(n int) *op { return opDelete(pattern(n), critEq) }, true, false},
		{"Delete criteria size", func(n int) *op {
			return opDelete("t", ex{xtorm.Eq(xtorm.Column(pattern(n)), 1), mOp("==", mCol(pattern(n)), sSint(1))})
		}, true, false},
	}
	return ps
}

// sizeSweep explores every size parameter at every length, between two other
// messages so that an error in one message would shift the next.
func sizeSweep(name string, ps []sizeParam, ls []int, bl []int) engine.Scenario {
	pre, post := opStmt("before", vInt(1)), opDelete("after", critEq)
	many := lengths(false)
	return engine.Scenario{
		Name:   name,
		Bound:  fmt.Sprintf("%d size parameters x %d lengths (0..17000, around the powers of two up to %d) and %d lengths around 2^21; element counts: %d values", len(ps), len(ls), ls[len(ls)-1], len(bl), len(many)),
		Weight: 3,
		Body: func(r *engine.Run) {
			p := ps[r.Choose(len(ps), "parameter")]
			var n int
			switch {
			case p.many:
				n = many[r.Choose(len(many), "count")]
			case p.big && len(bl) > 0:
				k := r.Choose(len(ls)+len(bl), "length")
				if k < len(ls) {
					n = ls[k]
				} else {
					n = bl[k-len(ls)]
				}
			default:
				n = ls[r.Choose(len(ls), "length")]
			}
			o := p.mk(n)
			r.Notef("%s = %d", p.name, n)
			prog := []node{{op: pre}, {op: o}, {op: post}}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(3)
			if err := checkStream(b, modelProg(&env{}, prog)); err != nil {
				r.Failf("%s of size %d: %v", p.name, n, err)
			}
			r.State(b)
		},
	}
}

func allContainers() []*container {
	return []*container{txContainer(0), txContainer(2), txContainer(5), expectContainer(false), expectContainer(true)}
}

func init() {
	register(&Prop{ID: "C01",
		Assumptions: []string{"the independent decoder in /verif/mc/xwire implements the published X Protocol messages"},
		Scenarios: func(t Tier) []engine.Scenario {
			return []engine.Scenario{
				progScenario("sequences", fullAlphabet(), nil, t.pick(2, 3), 0),
				progScenario("nested programs", coreAlphabet(), allContainers(), t.pick(3, 4), 3),
				shapeScenario(t.Thorough),
				textScenario("text contents", textParams(), t.Thorough),
				longScenario(t.pick(130, 600), t.pick(60, 300)),
				mapScenario(),
				hugeScenario(t.Thorough),
				sizeSweep("sizes", sizeParams(), lengths(true), bigLengths()),
			}
		}})
}
