package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/renthraysk/xtorm"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

// wordList are texts that something between the caller and the wire might
// take a special view of: quoting, separators, wildcards, placeholders,
// keywords, white space, case, encodings.
var wordList = []string{
	"", " ", " x", "x ", " x y ", "\tx", "x\n", "\r\n", "X", "xX", "ÅÄÖ", "é", "e\u0301", "日本語", "😀", "\ufeffx",
	"\xff", "\xc3", "\xc3x", "\x80\x81", "\x00", "a\x00b", "\x00a", "a\x00",
	"db.t", ".t", "t.", "a.b.c", "`t`", "`a`.`b`", "``", "\"t\"", "'t'", "'", "''", "\\", "\\'", "\\0", "a\\", "[t]",
	"%", "%s", "%d", "_", "*", "?", "??", ":name", "$1", "$.a", "@id$0", "@id$77", "@", "@@x", "#", "--", "-- x", "/*x*/", ";", "x;", ";;", "a,b", "(a)", "a=b",
	"NULL", "null", "nil", "<nil>", "DEFAULT", "default", "true", "false", "0", "1", "-1", "007", "1e3", "0x41", "NaN",
	"COMMIT", "ROLLBACK", "START TRANSACTION", "BEGIN", "SET autocommit=1", "SELECT 1", "SELECT 1;", "select ?", "DROP TABLE t",
	"mysqlx", "sql", "tls", "information_schema.tables", "0000-00-00", "2024-02-29 23:59:58", "12:00:00", "{}", "[]", "<a/>", "{\"a\": 1}",
}

// texts are the contents explored wherever the caller gives a text: every
// single byte, all short strings over the bytes that mean something in SQL,
// and the word list, alone and at either end of a long text.
func texts(deep bool) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, w := range wordList {
		add(w)
	}
	for i := 0; i < 256; i++ {
		add(string([]byte{byte(i)}))
	}
	a := "aA. `'\"\\%_?;@$\x00\xff\n-0"
	for _, x := range []byte(a) {
		for _, y := range []byte(a) {
			add(string([]byte{x, y}))
			if deep {
				for _, z := range []byte(a) {
					add(string([]byte{x, y, z}))
				}
			} else if x == y {
				add(string([]byte{x, y, x}))
				add(string([]byte{'a', x, 'a'}))
			}
		}
	}
	for _, w := range wordList {
		add(strings.Repeat("m", 130) + w)
		add(w + strings.Repeat("m", 130))
		add("m" + w + "m" + w)
	}
	return out
}

// textParam is an operation with one text-valued parameter.
type textParam struct {
	name string
	mk   func(s string) *op
}

func textParams() []textParam {
	one1 := []val{vInt(1)}
	return []textParam{
		{"StmtExecute statement", func(s string) *op { return opStmt(s, vInt(1)) }},
		{"StmtExecute statement without arguments", func(s string) *op { return opStmt(s) }},
		{"Prepare statement", func(s string) *op { return opPrepare(3, s) }},
		{"Insert table", func(s string) *op { return opInsert(s, []string{"a"}, one1) }},
		{"Insert columns", func(s string) *op {
			return opInsert("t", []string{s, "b", s}, []val{vInt(1), vInt(2), vInt(3)})
		}},
		{"InsertRow table", func(s string) *op { return opInsertRow(s, []string{"a"}, one1...) }},
		{"InsertRow columns", func(s string) *op { return opInsertRow("t", []string{"b", s}, vInt(1), vInt(2)) }},
		{"InsertF table", func(s string) *op { return opInsertF(s, []string{"a"}, one1, one1) }},
		{"InsertF columns", func(s string) *op { return opInsertF("t", []string{s, "a"}, []val{vInt(1), vInt(2)}) }},
		{"Update table", func(s string) *op { return opUpdate(s, critEq, []string{"a"}, one1) }},
		{"Update column", func(s string) *op { return opUpdate("t", critEq, []string{s}, one1) }},
		{"UpdateF table", func(s string) *op { return opUpdateF(s, critEq, []string{"a"}, one1) }},
		{"UpdateF columns", func(s string) *op {
			return opUpdateF("t", noCrit, []string{s, "a", s}, []val{vInt(1), vInt(2), vInt(3)})
		}},
		{"Delete table", func(s string) *op { return opDelete(s, critEq) }},
		{"Delete all of a table", func(s string) *op { return opDelete(s, noCrit) }},
		{"criteria column", func(s string) *op {
			return opDelete("t", ex{xtorm.Eq(xtorm.Column(s), 1), mOp("==", mCol(s), sSint(1))})
		}},
		{"criteria operand", func(s string) *op {
			return opUpdate("t", ex{xtorm.Eq(xtorm.Column("c"), s), mOp("==", mCol("c"), sString(s, 0))}, []string{"a"}, one1)
		}},
	}
}

// textScenario explores all contents of every text parameter.
func textScenario(name string, ps []textParam, deep bool) engine.Scenario {
	ts := texts(deep)
	return engine.Scenario{Name: name,
		Bound: fmt.Sprintf("%d text parameters x %d contents (every byte, all strings of <= %d of 19 significant bytes, words, long texts beginning and ending with them), twice in a unit of work", len(ps), len(ts), map[bool]int{false: 2, true: 3}[deep]),
		Body: func(r *engine.Run) {
			p := ps[r.Choose(len(ps), "parameter")]
			s := ts[r.Choose(len(ts), "text")]
			o := p.mk(s)
			r.Notef("%s = %q", p.name, s)
			prog := []node{{op: o}, {op: opDealloc(1)}, {op: o}}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(3)
			if err := checkStream(b, modelProg(&env{}, prog)); err != nil {
				r.Failf("%s %q: %v", p.name, s, err)
			}
			r.State(b)
		}}
}

// valueTexts sends every content as a value of every kind.
func valueTexts(cs []carrier, deep bool) engine.Scenario {
	ts := texts(deep)
	return engine.Scenario{Name: "text contents",
		Bound: fmt.Sprintf("%d contents (every byte, short strings of significant bytes, words) x %d string, bytes, JSON, XML and geometry kinds x %d ways of sending", len(ts), len(strKinds), len(cs)),
		Body: func(r *engine.Run) {
			c := cs[r.Choose(len(cs), "carrier")]
			k := strKinds[r.Choose(len(strKinds), "kind")]
			checkVal(r, c, k.mk(ts[r.Choose(len(ts), "text")]))
		}}
}

// longScenario explores units of work of many operations and deep nestings.
func longScenario(maxRun, maxDepth int) engine.Scenario {
	alpha := coreAlphabet()
	conts := allContainers()
	counts := []int{}
	for i := 0; i <= maxRun; i++ {
		counts = append(counts, i)
	}
	for _, k := range []int{1023, 1024, 1025, 4095, 4096, 4097} {
		counts = append(counts, k)
	}
	return engine.Scenario{Name: "long and deep", Weight: 2,
		Bound: fmt.Sprintf("each pair of %d operations alternated 0..%d and around 1024 and 4096 times; each pair of %d containers nested alternately to every depth 0..%d, with an operation before and after at each level", len(alpha), maxRun, len(conts), maxDepth),
		Body: func(r *engine.Run) {
			if r.Bool("deep") {
				a, b := conts[r.Choose(len(conts), "even")], conts[r.Choose(len(conts), "odd")]
				d := r.Choose(maxDepth+1, "depth")
				prog := []node{{op: opStmt("core")}}
				for i := 0; i < d; i++ {
					c := a
					if i%2 == 1 {
						c = b
					}
					prog = []node{{op: opDealloc(uint32(i))}, {cont: c, body: prog}, {op: opDealloc(uint32(1000 + i))}}
				}
				bb := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
				r.StepN(3 * d)
				expectStream(r, bb, modelProg(&env{}, prog))
				return
			}
			a, b := alpha[r.Choose(len(alpha), "even")], alpha[r.Choose(len(alpha), "odd")]
			n := counts[r.Choose(len(counts), "count")]
			var prog []node
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					prog = append(prog, node{op: a})
				} else {
					prog = append(prog, node{op: b})
				}
			}
			bb := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(n)
			expectStream(r, bb, modelProg(&env{}, prog))
		}}
}

// hugeScenario: every operation after a message of many megabytes, and messages
// of very many elements.
func hugeScenario(thorough bool) engine.Scenario {
	var ps []sizeParam
	for _, p := range sizeParams() {
		if p.many {
			ps = append(ps, p)
		}
	}
	alpha := fullAlphabet()
	conts := append([]*container{nil}, allContainers()...)
	pre := []int{1 << 16, 1<<20 + 1, 1<<22 + 1, 1<<24 - 9, 1<<24 + 1}
	counts := []int{20000, 32767, 32768, 32769, 65535, 65536, 65537, 100003}
	if thorough {
		pre = append(pre, 1<<25+1, 1<<26+1)
		counts = append(counts, 1<<17+1, 1<<18+1)
	}
	return engine.Scenario{Name: "very large",
		Bound: fmt.Sprintf("each of %d operations, plain or within one of %d containers, after a message of %v bytes; %d element counts of up to %v", len(alpha), len(conts)-1, pre, len(ps), counts),
		Body: func(r *engine.Run) {
			var prog []node
			if r.Bool("elements") {
				p := ps[r.Choose(len(ps), "parameter")]
				n := counts[r.Choose(len(counts), "count")]
				r.Notef("%s = %d", p.name, n)
				prog = []node{{op: p.mk(n)}, {op: opDealloc(7)}}
			} else {
				big := node{op: opStmt(pattern(pre[r.Choose(len(pre), "bytes")]))}
				ci := r.Choose(len(conts), "within")
				o := node{op: alpha[r.Choose(len(alpha), "operation")]}
				if ci == 0 {
					prog = []node{big, o, {op: opDealloc(7)}}
				} else {
					prog = []node{{cont: conts[ci], body: []node{big, o}}, {op: opDealloc(7)}}
				}
			}
			bb := buildBytes(r, 0, func(x *xtorm.XPipe) { runProg(&x.Builder, &env{}, prog) })
			r.StepN(3)
			expectStream(r, bb, modelProg(&env{}, prog))
		}}
}

// mapScenario explores assignments given as maps of many keys: the message
// holds each exactly once, in any order.
func mapScenario() engine.Scenario {
	return engine.Scenario{Name: "assignment maps",
		Bound: "Update with maps of 0..40, 127, 128, 129, 300 and 5000 keys x keys of 1..3 kinds x with and without criteria",
		Body: func(r *engine.Run) {
			ns := []int{127, 128, 129, 300, 5000}
			n := r.Choose(41+len(ns), "keys")
			if n > 40 {
				n = ns[n-41]
			}
			kind := r.Choose(3, "kind")
			crit := critEq
			if r.Bool("no criteria") {
				crit = noCrit
			}
			set := map[string]interface{}{}
			var want []string
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i)
				switch kind {
				case 1:
					k = strings.Repeat("k", i)
				case 2:
					k = fmt.Sprintf("%d.%s", i, pattern(120+i%20))
				}
				set[k] = i
				want = append(want, mSet(k, sSint(int64(i))))
			}
			b := buildBytes(r, 0, func(x *xtorm.XPipe) { x.Deallocate(1); x.Update("t", crit.f, set); x.Deallocate(2) })
			msgs, err := xwire.Canon(b)
			if err != nil || len(msgs) != 3 {
				r.Failf("%d keys: %d messages, %v", n, len(msgs), err)
			}
			head := strings.TrimSuffix(mUpdate("t", crit.s), "}")
			if !strings.HasPrefix(msgs[1], head) {
				r.Failf("%d keys: got %s", n, clip(msgs[1]))
			}
			var got []string
			if body := strings.TrimPrefix(msgs[1], head); n > 0 {
				body = strings.TrimSuffix(strings.TrimPrefix(body, "operation["), "] }")
				got = strings.Split(body, ",Op{source=")
				for i := 1; i < len(got); i++ {
					got[i] = "Op{source=" + got[i]
				}
			} else if body != "}" {
				r.Failf("no keys: got %s", clip(msgs[1]))
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				r.Failf("a map of %d keys is not transmitted as its assignments: %s", n, clip(strings.Join(got, "|")))
			}
			r.Step()
			r.StateH(uint64(n)<<8 | uint64(kind))
		}}
}
