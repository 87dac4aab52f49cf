package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif.local/mc/engine"
)

// refDuration formats |d| with arbitrary precision arithmetic.
func refDuration(d time.Duration) string {
	x := big.NewInt(int64(d))
	sign := ""
	if x.Sign() < 0 {
		sign = "-"
		x.Neg(x)
	}
	sec := new(big.Int).Div(x, big.NewInt(1e9))
	h, rem := new(big.Int).DivMod(sec, big.NewInt(3600), new(big.Int))
	m := rem.Int64()
	return fmt.Sprintf("%s%s:%02d:%02d", sign, h.String(), m/60, m%60)
}

// acceptDuration: the text must denote the truncated magnitude; a magnitude of
// less than one second may carry a sign.
func refTime(t time.Time) string {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	sign := ""
	if y < 0 {
		sign, y = "-", -y
	}
	return fmt.Sprintf("%s%04d-%02d-%02d %02d:%02d:%02d.%09d", sign, y, int(mo), d, h, mi, s, t.Nanosecond())
}

func durations(thorough bool) []time.Duration {
	var out []time.Duration
	add := func(d time.Duration) {
		out = append(out, d, -d)
	}
	step := 1
	for s := 0; s <= 86400+3700; s += step {
		add(time.Duration(s) * time.Second)
		add(time.Duration(s)*time.Second + 999999999)
	}
	for h := 0; h <= 1000; h++ {
		for _, m := range []int{0, 1, 9, 10, 58, 59} {
			for _, s := range []int{0, 1, 9, 10, 59} {
				add(time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second + 1)
			}
		}
	}
	for k := uint(0); k < 63; k++ {
		for e := int64(-2); e <= 2; e++ {
			add(time.Duration(int64(1)<<k + e))
		}
	}
	for p := int64(1); p > 0 && p <= 1<<62; p *= 10 {
		add(time.Duration(p))
		add(time.Duration(p) - 1)
		if p > 1e18/10 {
			break
		}
	}
	// every multiple boundary of an hour close to the extremes
	const max = time.Duration(1<<63 - 1)
	for i := time.Duration(0); i < 5000; i++ {
		add(max - i*time.Second)
		add(max - i*time.Minute - 7)
	}
	out = append(out, -max-1)
	return out
}

func times() []time.Time {
	var out []time.Time
	zones := []*time.Location{time.UTC, time.FixedZone("a", 14*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 5*3600+1800+7), time.FixedZone("d", -1)}
	ns := []int{0, 1, 9, 10, 999, 1000, 999999, 1000000, 123456789, 500000000, 999999999}
	for _, y := range []int{-1000000, -9999, -1, 0, 1, 9, 99, 999, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 9999, 10000, 99999, 292277026, 1 << 31, 292277022399} {
		for mo := 1; mo <= 12; mo++ {
			for _, d := range []int{1, 9, 10, 28, 29, 30, 31} {
				for zi, z := range zones {
					out = append(out, time.Date(y, time.Month(mo), d, (zi*7)%24, (mo*13)%60, (d*29)%60, ns[(mo+d+zi)%len(ns)], z))
				}
			}
		}
	}
	for s := 0; s < 86400; s += 1 {
		out = append(out, time.Date(2021, 3, 4, 0, 0, s, s*11574, zones[s%len(zones)]))
	}
	for _, n := range ns {
		for i := 0; i < 10; i++ {
			out = append(out, time.Date(2021, 12, 31, 23, 59, 50+i, n, time.UTC))
		}
	}
	for k := 0; k < 30; k++ {
		out = append(out, time.Date(2021, 12, 31, 23, 59, 59, 1<<k, time.UTC))
	}
	// sequence of days over leap years and centuries
	for d := 0; d < 366*9; d++ {
		out = append(out, time.Date(1896, 1, 1+d, 12, 0, 0, d, time.UTC))
	}
	out = append(out, time.Time{}, time.Unix(0, 0), time.Unix(1<<62, 0), time.Unix(-1<<62, 999999999), time.Unix(1<<40, 5).UTC())
	return out
}

func init() {
	register(&Prop{ID: "C05",
		Scenarios: func(t Tier) []engine.Scenario {
			ds, ts := durations(t.Thorough), times()
			cs := append(append([]carrier{}, argCarriers...), exprCarriers...)
			const chunk = 1 << 16
			scs := []engine.Scenario{
				{Name: "durations", Weight: 2, Bound: fmt.Sprintf("%d durations: every second of 25 hours, carries up to 1000 hours, powers of two, both signs, the extremes x %d ways of sending", len(ds), len(cs)),
					Body: func(r *engine.Run) {
						c := cs[r.Choose(len(cs), "carrier")]
						d := ds[r.Choose(len(ds), "duration")]
						b := buildBytes(r, 0, func(x *xtorm.XPipe) { c.send(x, d) })
						if err := checkStream(b, c.want(sOctets(refDuration(d), 0))); err != nil {
							r.Failf("duration %d (%v) through %s: %v", int64(d), d, c.name, err)
						}
						r.State(b)
					}},
				{Name: "times", Weight: 2, Bound: fmt.Sprintf("%d times: every second of a day, every day over 9 years, boundary days of 23 years from -1000000 to 292277022399, 5 zones, all fraction widths x %d ways of sending", len(ts), len(cs)),
					Body: func(r *engine.Run) {
						c := cs[r.Choose(len(cs), "carrier")]
						v := ts[r.Choose(len(ts), "time")]
						b := buildBytes(r, 0, func(x *xtorm.XPipe) { c.send(x, v) })
						if err := checkStream(b, c.want(sOctets(refTime(v), 0))); err != nil {
							r.Failf("time %v through %s: %v", v, c.name, err)
						}
						r.State(b)
					}},
				{Name: "duration text after a prefix", Bound: "AppendDuration onto prefixes of 0..3 bytes with and without spare capacity",
					Body: func(r *engine.Run) {
						pre := "abc"[:r.Choose(4, "prefix")]
						p := append(make([]byte, 0, len(pre)+r.Choose(2, "spare")*64), pre...)
						d := ds[r.Choose(len(ds)/50, "duration")*50]
						got := string(xproto.AppendDuration(p, d))
						r.Step()
						if got != pre+refDuration(d) {
							r.Failf("AppendDuration(%q, %d) = %q, expected %q", pre, int64(d), got, pre+refDuration(d))
						}
						r.StateS(got)
					}},
			}
			secs := t.pick(4_000_000, 1<<32)
			scs = append(scs, engine.Scenario{Name: "every whole second", Weight: 6, Bound: fmt.Sprintf("all whole-second durations below %d s, both signs", secs),
				Body: func(r *engine.Run) {
					hi := r.Choose((secs+chunk-1)/chunk, "high part") * chunk
					neg := r.Bool("negative")
					var buf, want [40]byte
					for lo := 0; lo < chunk; lo++ {
						s := int64(hi + lo)
						d := time.Duration(s) * time.Second
						w := want[:0]
						if neg {
							d = -d - 500
							w = append(w, '-')
						}
						h, m, sec := s/3600, s/60%60, s%60
						w = appendInt(w, h)
						w = append(w, ':', byte('0'+m/10), byte('0'+m%10), ':', byte('0'+sec/10), byte('0'+sec%10))
						got := xproto.AppendDuration(buf[:0], d)
						if string(got) != string(w) {
							r.Failf("duration %d: got %q, expected %q", int64(d), got, w)
						}
					}
					r.StepN(chunk)
					r.Cases(chunk)
					r.StateH(uint64(hi)<<1 | uint64(b2i(neg)))
				}})
			return scs
		}})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func appendInt(b []byte, x int64) []byte {
	if x >= 10 {
		b = appendInt(b, x/10)
	}
	return append(b, byte('0'+x%10))
}
