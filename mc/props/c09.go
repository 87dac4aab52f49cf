package props

import (
	"fmt"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
)

func allBrackets() []*container {
	var cs []*container
	for i := range isoLevels {
		cs = append(cs, txContainer(i))
	}
	return append(cs, expectContainer(false), expectContainer(true))
}

// bracketProg is a program of containers with small bodies.
func bracketProgs(name string, conts []*container, maxNodes, depth int) engine.Scenario {
	ops := []*op{opStmt("body", vInt(1)), opInsertF("t", []string{"a"}, []val{vInt(1)})}
	return engine.Scenario{Name: name,
		Bound: fmt.Sprintf("all programs of <= %d operations and containers, nesting <= %d, over all %d transaction and expectation kinds, at capacity 0 and 8192", maxNodes, depth, len(conts)),
		Body: func(r *engine.Run) {
			budget := maxNodes
			prog := genProg(r, ops, conts, &budget, depth)
			want := modelProg(&env{}, prog)
			for _, c := range []int{0, 8192} {
				b := buildBytes(r, c, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				r.StepN(countOps(prog))
				if err := checkStream(b, want); err != nil {
					r.Failf("program %v: %v", prog, err)
				}
				r.State(b)
			}
		}}
}

// bracketSizes: every kind of bracket after, around and between contents of
// many sizes and numbers.
func bracketSizes(deep bool) engine.Scenario {
	conts := allBrackets()
	sizes := []int{-1, 0, 1, 100, 230}
	for n := 256; n <= 1<<20; n *= 2 {
		sizes = append(sizes, n-40, n+1)
	}
	counts := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 65535, 65537}
	huge := []int{-1, 1 << 21, 1<<22 + 1, 1<<24 - 30, 1<<24 + 1}
	if deep {
		counts = append(counts, 1023, 4095, 16385, 100003)
		huge = append(huge, 1<<26+1)
	}
	text := func(n int) []node {
		if n < 0 {
			return nil
		}
		return []node{{op: opStmt(pattern(n))}}
	}
	return engine.Scenario{Name: "brackets at every size", Weight: 2,
		Bound: fmt.Sprintf("every of %d brackets, alone or with any other inside, after and around contents of %d sizes up to 1 MiB and of %v bytes; with 0..%d operations before, inside, and brackets in a row or nested", len(conts), len(sizes), huge[1:], counts[len(counts)-1]),
		Body: func(r *engine.Run) {
			c := conts[r.Choose(len(conts), "bracket")]
			var prog []node
			switch r.Choose(6, "vary") {
			case 0: // sizes before and inside
				prog = append(text(sizes[r.Choose(len(sizes), "before")]), node{cont: c, body: text(sizes[r.Choose(len(sizes), "inside")])})
			case 1: // another bracket inside, then contents
				n := sizes[r.Choose(len(sizes), "size")]
				in := node{cont: conts[r.Choose(len(conts), "inner")], body: text(5)}
				at := r.Choose(3, "place")
				b := text(n)
				switch at {
				case 0:
					prog = []node{{cont: c, body: append(b, in)}}
				case 1:
					prog = []node{{cont: c, body: append([]node{in}, b...)}}
				default:
					in.body = b
					prog = append(text(n), node{cont: c, body: []node{in}})
				}
			case 2: // many operations
				k := counts[r.Choose(len(counts), "count")]
				ops := make([]node, k)
				for i := range ops {
					ops[i] = node{op: opDealloc(uint32(i))}
				}
				if r.Bool("inside") {
					prog = []node{{cont: c, body: ops}}
				} else {
					prog = append(ops, node{cont: c, body: text(3)})
				}
			case 3: // many brackets in a row
				k := counts[r.Choose(len(counts), "count")]
				for i := 0; i < k; i++ {
					prog = append(prog, node{cont: c, body: text(i%3 - 1)})
				}
			case 4: // very large before, inside, after
				prog = append(text(huge[r.Choose(len(huge), "before")]), node{cont: c, body: text(huge[r.Choose(len(huge), "inside")])})
				prog = append(prog, text(huge[r.Choose(2, "after")])...)
			default: // nested
				k := counts[r.Choose(len(counts), "count")]
				if k > 1100 {
					return
				}
				o := conts[r.Choose(len(conts), "inner")]
				prog = text(1)
				for i := 0; i < k; i++ {
					x := c
					if i%2 == 1 {
						x = o
					}
					prog = append([]node{{cont: x, body: prog}}, text(2)...)
				}
			}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(countOps(prog))
			if err := checkStream(b, modelProg(&env{}, prog)); err != nil {
				r.Failf("program %s: %v", clip(fmt.Sprint(prog)), err)
			}
			r.State(b)
		}}
}

// bracketTexts: bodies and surroundings made of statements that mean
// something to transactions themselves.
func bracketTexts() engine.Scenario {
	var sts []node
	for _, t := range []string{"COMMIT", "commit", "COMMIT;", " COMMIT", "COMMIT AND CHAIN", "ROLLBACK", "ROLLBACK TO s", "BEGIN", "START TRANSACTION", "START TRANSACTION READ ONLY", "START TRANSACTION WITH CONSISTENT SNAPSHOT",
		"SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "SET autocommit=0", "SAVEPOINT s", "RELEASE SAVEPOINT s", "XA START 'x'", "LOCK TABLES t READ", "", ";", "SELECT 1", "SELECT SLEEP(1)", "CREATE TABLE t (a INT)"} {
		sts = append(sts, node{op: opStmt(t)})
	}
	sts = append(sts, node{op: opStmt("SELECT ?", vStr("COMMIT"))}, node{op: opInsert("t", []string{"a"}, []val{vStr("COMMIT")})}, node{op: opInsert("COMMIT", []string{"ROLLBACK"}, []val{vStr("START TRANSACTION")})}, node{op: opDealloc(1)})
	conts := allBrackets()
	return engine.Scenario{Name: "bodies that are transaction statements",
		Bound: fmt.Sprintf("every bracket, alone, inside any other or between two of any kind x every pair of %d statements (COMMIT, ROLLBACK, BEGIN, SET TRANSACTION, ...), both in the body or one before and one after", len(sts)),
		Body: func(r *engine.Run) {
			c := conts[r.Choose(len(conts), "bracket")]
			a, b := sts[r.Choose(len(sts), "first")], sts[r.Choose(len(sts), "second")]
			var prog []node
			k := r.Choose(3+len(conts)*2, "arrangement")
			switch {
			case k == 0:
				prog = []node{{cont: c, body: []node{a, b}}}
			case k == 1:
				prog = []node{a, {cont: c}, b}
			case k == 2:
				prog = []node{{cont: c, body: []node{a}}, {cont: c, body: []node{b}}}
			case k < 3+len(conts):
				prog = []node{{cont: conts[k-3], body: []node{a, {cont: c, body: []node{b}}}}}
			default:
				prog = []node{{cont: conts[k-3-len(conts)], body: []node{a}}, {cont: c, body: []node{b}}}
			}
			got := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(countOps(prog))
			if err := checkStream(got, modelProg(&env{}, prog)); err != nil {
				r.Failf("program %s: %v", clip(fmt.Sprint(prog)), err)
			}
			r.State(got)
		}}
}

func unknownLevels() engine.Scenario {
	var ls []xtorm.IsolationLevel
	for l := xtorm.IsolationLevel(6); l <= 70000; l++ {
		ls = append(ls, l)
	}
	for k := uint(16); k < 64; k++ {
		for d := uint64(0); d < 7; d++ {
			ls = append(ls, xtorm.IsolationLevel(uint64(1)<<k+d), xtorm.IsolationLevel(-(uint64(1)<<k)+d))
		}
	}
	return engine.Scenario{Name: "unknown isolation levels",
		Bound: fmt.Sprintf("%d unknown levels (6..70000 and around every power of two)", len(ls)),
		Body: func(r *engine.Run) {
			l := ls[r.Choose(len(ls), "level")]
			x := xtorm.New(0)
			x.Deallocate(1)
			x.Tx(l, func(b *xtorm.Builder) error { b.StmtExecute("INSERT"); return nil })
			x.Deallocate(2)
			r.Step()
			checkFailed(r, x, false, false, fmt.Sprintf("Tx(level %d)", uint(l)))
			r.StateH(uint64(l))
		}}
}

func unknownContexts() engine.Scenario {
	return engine.Scenario{Name: "unknown expectation contexts",
		Bound: "all 254 values that are not a context, alone and inside each bracket",
		Body: func(r *engine.Run) {
			var cs []xtorm.OpenContext
			for c := 0; c < 256; c++ {
				if c := xtorm.OpenContext(c); c != xtorm.OpenExpectCtxCopyPrev && c != xtorm.OpenExpectCtxEmpty {
					cs = append(cs, c)
				}
			}
			c := cs[r.Choose(len(cs), "context")]
			f := func(b *xtorm.Builder) {
				b.ExpectFailOnError(c, func(b *xtorm.Builder) error { b.StmtExecute("INSERT"); return nil })
			}
			x := xtorm.New(0)
			x.Deallocate(1)
			conts := allBrackets()
			if k := r.Choose(1+len(conts), "inside"); k == 0 {
				f(&x.Builder)
			} else {
				conts[k-1].apply(&x.Builder, func(b *xtorm.Builder) error { f(b); return nil })
			}
			x.Deallocate(2)
			r.Step()
			checkFailed(r, x, false, false, fmt.Sprintf("ExpectFailOnError(context %d)", c))
			r.StateH(uint64(c))
		}}
}

// failedBodies: a failing element at every position of every program.
func failedBodies(maxNodes, depth int) engine.Scenario {
	fs := coreFaults()
	conts := allBrackets()
	ops := []*op{opStmt("body", vInt(1))}
	return engine.Scenario{Name: "failed bodies",
		Bound: fmt.Sprintf("all programs of <= %d operations and containers, nesting <= %d, with one of %d failing elements at every position", maxNodes, depth, len(fs)),
		Body: func(r *engine.Run) {
			f := fs[r.Choose(len(fs), "fault")]
			placed := false
			x := xtorm.New(0)
			path := ""
			var rec func(b *xtorm.Builder, budget *int, d int)
			rec = func(b *xtorm.Builder, budget *int, d int) {
				for *budget > 0 {
					n := 1 + len(ops) + 1
					if d > 0 {
						n += len(conts)
					}
					k := r.Choose(n, "op")
					if k == 0 {
						return
					}
					*budget--
					switch {
					case k <= len(ops):
						ops[k-1].apply(b, &env{})
						path += "op "
					case k == len(ops)+1:
						if placed {
							r.Prune()
						}
						placed = true
						f.do(b)
						path += "fault "
					default:
						c := conts[k-2-len(ops)]
						path += c.name + "{"
						c.apply(b, func(b *xtorm.Builder) error { rec(b, budget, d-1); return nil })
						path += "}"
					}
				}
			}
			budget := maxNodes
			rec(&x.Builder, &budget, depth)
			if !placed {
				return
			}
			r.StepN(maxNodes)
			checkFailed(r, x, f.user, false, path+f.name)
			r.StateS(path)
		}}
}

func init() {
	register(&Prop{ID: "C09",
		Scenarios: func(t Tier) []engine.Scenario {
			return []engine.Scenario{
				bracketProgs("brackets", allBrackets(), t.pick(4, 5), 3),
				bracketProgs("deep brackets", []*container{txContainer(0), txContainer(3), expectContainer(false)}, t.pick(6, 7), 6),
				bracketSizes(t.Thorough),
				bracketTexts(),
				unknownLevels(), unknownContexts(),
				failedBodies(4, 3),
			}
		}})
}
