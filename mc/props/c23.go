package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/renthraysk/xtorm/types"

	"verif.local/mc/engine"
)

// packDecimal is the X Protocol's packed decimal: scale, BCD digits, sign nibble, and a
// zero nibble if needed to fill the last byte.
func packDecimal(scale int, digits string, sign byte) []byte {
	b := []byte{byte(scale)}
	nib := make([]byte, 0, len(digits)+2)
	for i := 0; i < len(digits); i++ {
		nib = append(nib, digits[i]-'0')
	}
	nib = append(nib, sign)
	if len(nib)%2 == 1 {
		nib = append(nib, 0)
	}
	for i := 0; i < len(nib); i += 2 {
		b = append(b, nib[i]<<4|nib[i+1])
	}
	return b
}

// parseDecimalText reads [-]digits[.digits] exactly; frac is the number of digits after the point.
func parseDecimalText(s string) (unscaled *big.Int, neg bool, frac int, err error) {
	t := s
	if strings.HasPrefix(t, "-") {
		neg, t = true, t[1:]
	}
	whole, fr, point := strings.Cut(t, ".")
	if point && fr == "" || whole == "" && fr == "" {
		return nil, false, 0, fmt.Errorf("%q is not a decimal number", s)
	}
	for _, c := range whole + fr {
		if c < '0' || c > '9' {
			return nil, false, 0, fmt.Errorf("%q is not a decimal number", s)
		}
	}
	u, _ := new(big.Int).SetString(whole+fr, 10)
	return u, neg, len(fr), nil
}

func checkDecimal(r *engine.Run, scale int, digits string, sign byte, pre int) {
	enc := packDecimal(scale, digits, sign)
	keep := append([]byte(nil), enc...)
	d := types.Decimal(enc)
	want := new(big.Int)
	if digits != "" {
		want.SetString(digits, 10)
	}
	neg := sign == 0xd || sign == 0xb
	what := func() string {
		return fmt.Sprintf("digits %q scale %d sign %x (bytes % x)", digits, scale, sign, keep)
	}

	s := d.String()
	u, n, frac, err := parseDecimalText(s)
	if err != nil {
		r.Failf("%s: %v", what(), err)
	}
	// s denotes u / 10^frac, the number is want / 10^scale
	a := new(big.Int).Mul(u, pow10(scale))
	b := new(big.Int).Mul(want, pow10(frac))
	if a.Cmp(b) != 0 || n != neg && want.Sign() != 0 {
		r.Failf("%s: String gives %q", what(), s)
	}

	buf := make([]byte, pre, pre+r0(pre))
	for i := range buf {
		buf[i] = 0xEE
	}
	form, dn, coef, exp := d.Decompose(buf)
	if form != 0 {
		r.Failf("%s: Decompose gives form %d", what(), form)
	}
	if dn != neg && want.Sign() != 0 {
		r.Failf("%s: Decompose gives negative=%v", what(), dn)
	}
	if new(big.Int).SetBytes(coef).Cmp(want) != 0 {
		r.Failf("%s: Decompose gives coefficient %x, want %x", what(), coef, want.Bytes())
	}
	if exp != -int32(scale) {
		r.Failf("%s: Decompose gives exponent %d", what(), exp)
	}
	if !bytes.Equal(enc, keep) {
		r.Failf("%s: the encoded value was modified", what())
	}
	if d.String() != s {
		r.Failf("%s: String gives %q and then %q", what(), s, d.String())
	}
	r.Step()
	r.StateS(s)
}

func r0(pre int) int { return pre * 7 % 64 }

var pows = func() []*big.Int {
	p := make([]*big.Int, 400)
	p[0] = big.NewInt(1)
	for i := 1; i < len(p); i++ {
		p[i] = new(big.Int).Mul(p[i-1], big.NewInt(10))
	}
	return p
}()

func pow10(n int) *big.Int { return pows[n] }

// limbs are the structured 64-bit words of the wide-integer scenarios.
var limbs = []uint64{0, 1, 2, 9, 10, 0xff, 0x100, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), ^uint64(0) / 10, ^uint64(0)/10 + 1, 0x0123456789abcdef}

func bigOf(x *types.Uint256) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(x[i]))
	}
	return v
}

// digitPatterns are digit strings of length n: every one-digit deviation from 000..., 999...,
// and a cyclic pattern, plus the neighbours of powers of two with that many digits.
func digitPatterns(n int) []string {
	if n == 0 {
		return []string{""}
	}
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if len(s) == n && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, base := range []string{strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat("1234567890", n/10+1)[:n]} {
		add(base)
		for i := 0; i < n; i++ {
			for _, c := range []byte("0159") {
				b := []byte(base)
				b[i] = c
				add(string(b))
			}
		}
	}
	for k := 0; k < 256; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for _, dlt := range []int64{-1, 0, 1} {
			s := new(big.Int).Add(p, big.NewInt(dlt)).String()
			if len(s) <= n {
				add(strings.Repeat("0", n-len(s)) + s)
			}
		}
	}
	return out
}

func init() {
	signs := []byte{0xc, 0xd, 0xa, 0xb, 0xe, 0xf}
	pat := make([][]string, 66)
	for n := range pat {
		pat[n] = digitPatterns(n)
	}
	register(&Prop{ID: "C23",
		Assumptions: []string{"input is a well-formed packed decimal (scale byte, BCD digits, one sign nibble, zero padding), as the server sends it"},
		Scenarios: func(t Tier) []engine.Scenario {
			short := t.pick(5, 7)
			scs := []engine.Scenario{
				{Name: "all short decimals", Bound: fmt.Sprintf("every string of 1..%d digits x every scale 0..%d x signs c,d,a,b,e,f", short, short+3),
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(short, "digits")
						scale := r.Choose(short+4, "scale")
						sign := signs[r.Choose(len(signs), "sign")]
						top := 1
						for i := 0; i < n; i++ {
							top *= 10
						}
						step := 10000
						lo := 0
						if top > step {
							lo = r.Choose(top/step, "block") * step
						} else {
							step = top
						}
						for v := lo; v < lo+step; v++ {
							s := strconv.Itoa(v)
							checkDecimal(r, scale, strings.Repeat("0", n-len(s))+s, sign, 0)
						}
						r.Cases(step)
					}},
				{Name: "long decimals", Bound: "1..65 digits x every scale 0..digits+2 (at most 65) x both signs (all six sign nibbles at scales 0 and 30) x digit patterns (one-digit deviations from 0..0, 9..9 and 1234567890.., neighbours of every power of two)",
					Weight: 3,
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(65, "digits")
						max := n + 2
						if max > 65 {
							max = 65
						}
						scale := r.Choose(max+1, "scale")
						ns := 2
						if scale == 0 || scale == 30 {
							ns = len(signs)
						}
						sign := signs[r.Choose(ns, "sign")]
						pre := []int{0, 40}[scale%2]
						for _, p := range pat[n] {
							checkDecimal(r, scale, p, sign, pre)
						}
						r.Cases(len(pat[n]))
					}},
				{Name: "runs of digits", Bound: "1..65 digits: every string made of three runs of 0s, 1s or 9s x scales 0, a third, all digits x a sign",
					Weight: 2,
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(65, "digits")
						a := r.Choose(n+1, "first run")
						b := a + r.Choose(n-a+1, "second run")
						scale := []int{0, n / 3, n}[r.Choose(3, "scale")]
						k := 0
						for _, x := range "019" {
							for _, y := range "019" {
								for _, z := range "019" {
									if x == y || y == z {
										continue
									}
									checkDecimal(r, scale, strings.Repeat(string(x), a)+strings.Repeat(string(y), b-a)+strings.Repeat(string(z), n-b), signs[(a+b)%2], 0)
									k++
								}
							}
						}
						r.Cases(k)
					}},
				{Name: "wide scales", Bound: "1..65 digits x every scale 0..255 x both signs x {0..0, 9..9, 1234..}",
					Body: func(r *engine.Run) {
						n := 1 + r.Choose(65, "digits")
						scale := r.Choose(256, "scale")
						sign := signs[r.Choose(2, "sign")]
						for _, p := range []string{strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat("1234567890", 7)[:n]} {
							checkDecimal(r, scale, p, sign, 32)
						}
						r.Cases(3)
					}},
				{Name: "wide integer bytes", Bound: fmt.Sprintf("Uint256.AppendBytes: every combination of %d structured limbs x prefixes of 0,1,8 bytes", len(limbs)),
					Body: func(r *engine.Run) {
						var x types.Uint256
						for i := range x {
							x[i] = limbs[r.Choose(len(limbs), "limb")]
						}
						keep := x
						v := bigOf(&x)
						for _, pre := range []int{0, 1, 8} {
							p := bytes.Repeat([]byte{0xEE}, pre)
							out := x.AppendBytes(append(make([]byte, 0, 20), p...))
							if len(out) < pre || !bytes.Equal(out[:pre], p) {
								r.Failf("AppendBytes(%x) changed the bytes it appends to", v)
							}
							if new(big.Int).SetBytes(out[pre:]).Cmp(v) != 0 {
								r.Failf("AppendBytes gives %x for %x", out[pre:], v)
							}
							if x != keep {
								r.Failf("AppendBytes modified the number %x", v)
							}
							r.Step()
						}
						r.State(x.AppendBytes(nil))
					}},
				{Name: "wide integer arithmetic", Bound: fmt.Sprintf("Uint256.MulAdd: every combination of %d structured limbs x multiplier and addend out of the same %d", len(limbs), len(limbs)),
					Body: func(r *engine.Run) {
						var x types.Uint256
						for i := range x {
							x[i] = limbs[r.Choose(len(limbs), "limb")]
						}
						v := bigOf(&x)
						for _, y := range limbs {
							for _, z := range limbs {
								w := x
								c := w.MulAdd(y, z)
								want := new(big.Int).Mul(v, new(big.Int).SetUint64(y))
								want.Add(want, new(big.Int).SetUint64(z))
								got := bigOf(&w)
								got.Or(got, new(big.Int).Lsh(new(big.Int).SetUint64(c), 256))
								if got.Cmp(want) != 0 {
									r.Failf("%x * %x + %x gives %x, want %x", v, y, z, got, want)
								}
							}
						}
						r.StepN(len(limbs) * len(limbs))
						r.Cases(len(limbs) * len(limbs))
						r.StateS(v.Text(62))
					}},
			}
			return scs
		}})
}
