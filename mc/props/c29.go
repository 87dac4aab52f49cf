package props

import (
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"

	"verif.local/mc/engine"
)

// checkReported sends a unit of work to which the server replies with e and
// checks that the caller can identify e.
func checkReported(r *engine.Run, e srvErr, carrier int) {
	mc := &memConn{}
	mc.onWrite = func(m *memConn, p []byte) { m.in = append(m.in, e.frame()...) }
	c := newConn(mc)
	var out []netx.Response
	var err error
	if carrier == 0 {
		out, err = c.Send(bg, frame(12, []byte("x")))
	} else {
		x := xtorm.New(0)
		x.StmtExecute("SELECT 1")
		out, err = x.Send(bg, c)
	}
	r.Step()
	found := err
	if found == nil && len(out) == 1 {
		found, _ = out[0].(error)
	}
	var m *connection.MySqlXError
	if found == nil || !errors.As(found, &m) {
		r.Failf("the server's error %+v is reported as %v, %v: no MySqlXError", e, out, err)
	}
	if m.Code != e.code || m.IsFatal() != (e.severity == 1) || m.SqlState != e.state || m.Msg != e.msg {
		r.Failf("the server's error %+v is reported as %+v, fatal %v", e, *m, m.IsFatal())
	}
	if (e.severity == 1) != (err != nil) {
		r.Failf("the server's error %+v: Send returns the error %v", e, err)
	}
}

// stateCodes are numbers combined with every state: what the repository or a
// server treats specially, and ordinary ones.
var stateCodes = []uint32{0, 1045, 1053, 1062, 1152, 1159, 1205, 1213, 1927, 3169, 5000, 5015}

// oddStates are states that are not two characters of class and three of subclass
// in upper case.
var oddStates = []string{"", "0", "08", "08S", "08S0", "08s01", "hy000", "08S01 ", " 08S01", "HY0000", "28000\x00", "-----", "?????"}

// mysqlStates are the states MySQL's errors have.
var mysqlStates = []string{"00000", "01000", "02000", "08001", "08003", "08004", "08007", "08S01", "0A000", "0K000", "0Z002", "20000", "21000", "21S01", "22000", "22001", "22003", "22004", "22007", "22008", "2200H", "22012", "22018", "22032", "22S02", "23000", "24000", "25000", "25001", "25006", "28000", "2D000", "2F003", "34000", "35000", "3D000", "40000", "40001", "40002", "40003", "42000", "42S01", "42S02", "42S12", "42S21", "42S22", "44000", "45000", "70100", "HY000", "HY001", "HY010", "HYT00", "S1000", "S1002", "S1009", "XA100", "XA102", "XA106", "XAE03", "XAE04", "XAE05", "XAE07", "XAE08", "XAE09"}

func init() {
	register(&Prop{ID: "C29",
		Assumptions: []string{"the reference numbers are those of MySQL's server error reference and of the X Plugin, as written down in mc/props/errcodes.go"},
		Scenarios: func(t Tier) []engine.Scenario {
			return []engine.Scenario{
				{Name: "constants", Bound: fmt.Sprintf("every one of the %d exported constants", len(errorNumbers)), Body: func(r *engine.Run) {
					e := errorNumbers[r.Choose(len(errorNumbers), "constant")]
					if e.got != e.want {
						r.Failf("%s is %d, MySQL's number is %d", e.name, e.got, e.want)
					}
					r.Step()
					r.StateS(e.name)
				}},
				{Name: "reported errors", Bound: fmt.Sprintf("an error with every number 0..%d x severity {unset, ERROR, FATAL} x {connection, builder}", t.pick(1<<16, 1<<20)-1), Body: func(r *engine.Run) {
					sev := r.Choose(3, "severity") - 1
					carrier := r.Choose(2, "carrier")
					hi := r.Choose(t.pick(1<<16, 1<<20)>>8, "number / 256")
					for lo := 0; lo < 256; lo++ {
						checkReported(r, srvErr{sev, uint32(hi<<8 + lo), "HY000", "text"}, carrier)
					}
					r.Cases(256)
					r.StateS(fmt.Sprint(sev, carrier, hi))
				}},
				{Name: "states", Bound: fmt.Sprintf("an error with every class of state (two of 0-9A-Z) x 7 subclasses, or one of %d irregular states, x severity {unset, ERROR, FATAL} x {connection, builder} x %d numbers", len(oddStates), len(stateCodes)), Body: func(r *engine.Run) {
					const an = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
					sev := r.Choose(3, "severity") - 1
					carrier := r.Choose(2, "carrier")
					k := r.Choose(37, "class")
					var ss []string
					if k == 36 {
						ss = oddStates
					} else {
						for i := range an {
							for _, sub := range []string{"000", "001", "002", "S01", "S02", "006", "ZZZ"} {
								ss = append(ss, an[k:k+1]+an[i:i+1]+sub)
							}
						}
					}
					for _, st := range ss {
						for _, c := range stateCodes {
							checkReported(r, srvErr{sev, c, st, "text"}, carrier)
							r.Cases(1)
						}
					}
					r.StateS(fmt.Sprint(sev, carrier, k))
				}},
				{Name: "known errors with their states", Bound: fmt.Sprintf("every one of the %d known numbers x %d states MySQL uses x severity {unset, ERROR, FATAL}", len(errorNumbers), len(mysqlStates)), Body: func(r *engine.Run) {
					sev := r.Choose(3, "severity") - 1
					e := errorNumbers[r.Choose(len(errorNumbers), "number")]
					for _, st := range mysqlStates {
						checkReported(r, srvErr{sev, uint32(e.want), st, "text"}, 0)
						r.Cases(1)
					}
					r.StateS(fmt.Sprint(sev, e.want))
				}},
				{Name: "messages", Bound: "an error with every text of the text contents x severity {unset, ERROR, FATAL} x {connection, builder} x 3 numbers", Body: func(r *engine.Run) {
					ts := texts(t.Thorough)
					sev := r.Choose(3, "severity") - 1
					carrier := r.Choose(2, "carrier")
					c := []uint32{1045, 1053, 5015}[r.Choose(3, "number")]
					b := r.Choose((len(ts)+63)/64, "texts")
					for i := b * 64; i < len(ts) && i < b*64+64; i++ {
						if !utf8.ValidString(ts[i]) {
							continue // not a message a server may send
						}
						checkReported(r, srvErr{sev, c, "HY000", ts[i]}, carrier)
						r.Cases(1)
					}
					r.StateS(fmt.Sprint(sev, carrier, c, b))
				}},
				{Name: "large numbers", Bound: "an error with structured 32-bit numbers x severity {unset, ERROR, FATAL} x {connection, builder}", Body: func(r *engine.Run) {
					codes := uints32(t.Thorough)
					sev := r.Choose(3, "severity") - 1
					carrier := r.Choose(2, "carrier")
					b := r.Choose((len(codes)+255)/256, "numbers")
					for i := b * 256; i < len(codes) && i < b*256+256; i++ {
						checkReported(r, srvErr{sev, codes[i], "HY000", "text"}, carrier)
						r.Cases(1)
					}
					r.StateS(fmt.Sprint(sev, carrier, b))
				}},
			}
		}})
}
