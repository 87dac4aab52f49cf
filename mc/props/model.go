package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"verif.local/mc/xwire"
)

// Canonical texts of the reference model. They are produced from the Go
// values given to the API, never from the implementation's output.

func mStr(s string) string    { return strconv.Itoa(len(s)) + ":" + s }
func sSint(v int64) string    { return "SINT(" + strconv.FormatInt(v, 10) + ")" }
func sUint(v uint64) string   { return "UINT(" + strconv.FormatUint(v, 10) + ")" }
func sBool(v bool) string     { return "BOOL(" + strconv.FormatBool(v) + ")" }
func sDouble(v uint64) string { return "DOUBLE(" + strconv.FormatUint(v, 16) + ")" }
func sFloat(v uint32) string  { return "FLOAT(" + strconv.FormatUint(uint64(v), 16) + ")" }

const sNull = "NULL"

func f64(f float64) string { return sDouble(math.Float64bits(f)) }
func f32(f float32) string { return sFloat(math.Float32bits(f)) }

func sOctets(b string, contentType uint32) string {
	s := "OCTETS(Octets{value=" + mStr(b) + " "
	if contentType != 0 {
		s += "content_type=" + strconv.FormatUint(uint64(contentType), 10) + " "
	}
	return s + "})"
}

func sString(b string, collation uint64) string {
	s := "STRING(String{value=" + mStr(b) + " "
	if collation != 0 {
		s += "collation=" + strconv.FormatUint(collation, 10) + " "
	}
	return s + "})"
}

func mRep(name string, vs []string) string {
	if len(vs) == 0 {
		return ""
	}
	return name + "[" + strings.Join(vs, ",") + "] "
}

func mStmt(stmt string, args ...string) string {
	return "StmtExecute{stmt=" + mStr(stmt) + " " + mRep("args", args) + "}"
}

func mPrepare(id uint32, stmt string) string {
	return "Prepare{stmt_id=" + strconv.FormatUint(uint64(id), 10) + " stmt=OneOf{type=STMT stmt_execute=" + mStmt(stmt) + " } }"
}

func mExecute(id uint32, args ...string) string {
	return "Execute{stmt_id=" + strconv.FormatUint(uint64(id), 10) + " " + mRep("args", args) + "}"
}

func mDeallocate(id uint32) string {
	return "Deallocate{stmt_id=" + strconv.FormatUint(uint64(id), 10) + " }"
}

func mRow(fields ...string) string { return "Row{" + mRep("field", fields) + "}" }

func mInsert(table string, cols []string, rows ...string) string {
	cc := make([]string, len(cols))
	for i, c := range cols {
		cc[i] = "Column{name=" + mStr(c) + " }"
	}
	return "Insert{collection=Collection{name=" + mStr(table) + " } data_model=TABLE " + mRep("projection", cc) + mRep("row", rows) + "}"
}

func mSet(col, val string) string {
	return "Op{source=ColumnIdentifier{name=" + mStr(col) + " } operation=SET value=" + val + " }"
}

func mUpdate(table, criteria string, ops ...string) string {
	if criteria != "" {
		criteria = "criteria=" + criteria + " "
	}
	return "Update{collection=Collection{name=" + mStr(table) + " } data_model=TABLE " + criteria + mRep("operation", ops) + "}"
}

func mDelete(table, criteria string) string {
	if criteria != "" {
		criteria = "criteria=" + criteria + " "
	}
	return "Delete{collection=Collection{name=" + mStr(table) + " } data_model=TABLE " + criteria + "}"
}

func mOpen(empty bool) string {
	op := ""
	if empty {
		op = "op=EMPTY "
	}
	return "Open{" + op + "cond[Condition{key=1 value=1:1 }] }"
}

const mClose = "Close{}"

func mCol(name string) string { return "IDENT(ColumnIdentifier{name=" + mStr(name) + " })" }
func mVar(name string) string { return "VARIABLE(" + mStr(name) + ")" }
func mOp(name string, params ...string) string {
	return "OP[" + mStr(name) + "](" + strings.Join(params, ",") + ")"
}
func mFunc(name string, params ...string) string {
	return "FUNC[Identifier{name=" + mStr(name) + " }](" + strings.Join(params, ",") + ")"
}

// exp is the expectation for one message.
type exp struct {
	alts   []string // any of these texts
	capVar int      // >0: "SET @v = LAST_INSERT_ID()", binds variable number capVar
}

func one(s string) exp { return exp{alts: []string{s}} }

func varToken(k int) string { return "\x00VAR" + strconv.Itoa(k) + "\x00" }

var setVarRE = regexp.MustCompile(`^(?i:SET) +(@[A-Za-z0-9._$]+) *:?= *(?i:LAST_INSERT_ID)\( *\) *;?$`)

// match compares a decoded stream with the expectations.
func match(got []string, want []exp) error {
	vars := map[int]string{}
	for i, w := range want {
		if i >= len(got) {
			return fmt.Errorf("message %d (%s) is missing: %d messages, expected %d", i, clip(w.text()), len(got), len(want))
		}
		g := got[i]
		if w.capVar > 0 {
			s := strings.TrimSuffix(strings.TrimPrefix(g, "StmtExecute{stmt="), " }")
			j := strings.IndexByte(s, ':')
			if j < 0 || s == g {
				return fmt.Errorf("message %d: expected the statement storing the last insert id, got %s", i, clip(g))
			}
			m := setVarRE.FindStringSubmatch(s[j+1:])
			if m == nil {
				return fmt.Errorf("message %d: expected the statement storing the last insert id, got %s", i, clip(g))
			}
			for k, v := range vars {
				if strings.EqualFold(v, m[1]) {
					return fmt.Errorf("message %d: captures %d and %d share the variable %s", i, k, w.capVar, v)
				}
			}
			vars[w.capVar] = m[1]
			continue
		}
		ok := false
		for _, a := range w.alts {
			if strings.IndexByte(a, 0) >= 0 {
				for k, v := range vars {
					a = strings.ReplaceAll(a, varToken(k), mVar(v))
				}
			}
			if a == g {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("message %d: expected %s, got %s", i, clip(w.text()), clip(g))
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("%d messages, expected %d; first extra: %s", len(got), len(want), clip(got[len(want)]))
	}
	return nil
}

func (e exp) text() string {
	if e.capVar > 0 {
		return "SET @<var> = LAST_INSERT_ID()"
	}
	return e.alts[0]
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:200] + "...(" + strconv.Itoa(len(s)) + " bytes)..." + s[len(s)-60:]
	}
	return s
}

// checkStream decodes b and compares it with the expectations.
func checkStream(b []byte, want []exp) error {
	got, err := xwire.Canon(b)
	if err != nil {
		return fmt.Errorf("not well formed: %w", err)
	}
	return match(got, want)
}
