package props

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
)

// val is a Go value together with the scalar it must be transmitted as.
type val struct {
	name string
	v    interface{}
	s    string
}

const (
	ctGeometry = 1
	ctJSON     = 2
	ctXML      = 3
)

// uints64 returns the structured 64-bit patterns: neighbourhoods of powers of
// two, up to three bits set, up to two non-zero bytes, and their complements.
func uints64(thorough bool) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for x := uint64(0); x < 1024; x++ {
		add(x)
		add(-x)
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			add(uint64(1)<<k + uint64(d))
			add(^(uint64(1)<<k + uint64(d)))
		}
	}
	for i := uint(0); i < 64; i++ {
		for j := uint(0); j < i; j++ {
			x := uint64(1)<<i | uint64(1)<<j
			add(x)
			add(^x)
			for k := uint(0); k < j; k++ {
				add(x | uint64(1)<<k)
			}
		}
	}
	for i := uint(0); i < 8; i++ {
		for v := uint64(0); v < 256; v++ {
			add(v << (8 * i))
			add(v<<(8*i) | 1)
			if thorough {
				for j := uint(0); j < i; j++ {
					for w := uint64(0); w < 256; w++ {
						add(v<<(8*i) | w<<(8*j))
					}
				}
			}
		}
	}
	// 7-bit groups, the unit of a varint
	for i := uint(0); i < 10; i++ {
		for v := uint64(0); v < 128; v++ {
			add(v << (7 * i))
			add(v<<(7*i) | (uint64(1)<<(7*i) - 1))
		}
	}
	return out
}

func uints32(thorough bool) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for _, x := range uints64(thorough) {
		for _, y := range []uint32{uint32(x), uint32(x >> 32)} {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	return out
}

// floatBits are the structured 64-bit float patterns.
func floatBits64() []uint64 {
	var out []uint64
	for _, sign := range []uint64{0, 1 << 63} {
		for e := uint64(0); e < 2048; e++ {
			for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x5555555555555, 0xAAAAAAAAAAAAA} {
				out = append(out, sign|e<<52|m)
			}
		}
	}
	return out
}

func floatBits32() []uint32 {
	var out []uint32
	for _, sign := range []uint32{0, 1 << 31} {
		for e := uint32(0); e < 256; e++ {
			for _, m := range []uint32{0, 1, 2, 1 << 22, 1<<23 - 1, 0x555555, 0x2AAAAA, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF} {
				out = append(out, sign|e<<23|m)
			}
		}
	}
	return out
}

// pattern returns n bytes that differ at every offset modulo 251.
func pattern(n int) string {
	if n <= len(patternBuf) {
		return patternBuf[:n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i/251) ^ 0x5a
	}
	return string(b)
}

var patternBuf = func() string {
	b := make([]byte, 1<<24+8192)
	for i := range b {
		b[i] = byte(i*7+i/251) ^ 0x5a
	}
	return string(b)
}()

// lengths are the sizes at which some length prefix may change its own size:
// all of 0..17000 (step) and the neighbourhood of 2^21.
func lengths(all bool) []int {
	var out []int
	if all {
		for i := 0; i <= 17000; i++ {
			out = append(out, i)
		}
		for _, n := range []int{1 << 15, 1 << 16} {
			for i := n - 24; i <= n+8; i++ {
				out = append(out, i)
			}
		}
		for k := 17; k <= 20; k++ {
			out = append(out, 1<<k-9, 1<<k-1, 1<<k, 1<<k+1)
		}
	} else {
		for i := 0; i <= 520; i++ {
			out = append(out, i)
		}
		for i := 521; i < 16300; i += 997 {
			out = append(out, i)
		}
		for i := 16300; i <= 16500; i++ {
			out = append(out, i)
		}
	}
	return out
}

func bigLengths() []int {
	var out []int
	for i := 1<<21 - 48; i <= 1<<21+8; i++ {
		out = append(out, i)
	}
	return append(out, 1<<22+1, 1<<23+1, 1<<24-1, 1<<24+1)
}

// strKinds are the byte-string carrying kinds, as functions of the content.
type strKind struct {
	name string
	mk   func(s string) val
}

var strKinds = []strKind{
	{"string", func(s string) val { return val{"string", s, sString(s, 0)} }},
	{"bytes", func(s string) val { return val{"[]byte", []byte(s), sOctets(s, 0)} }},
	{"String/0", func(s string) val { return val{"xtorm.String/0", xtorm.String{Value: s}, sString(s, 0)} }},
	{"String/63", func(s string) val {
		return val{"xtorm.String/binary", xtorm.String{Value: s, Collation: collation.Binary}, sString(s, 63)}
	}},
	{"String/307", func(s string) val {
		return val{"xtorm.String/307", xtorm.String{Value: s, Collation: collation.UTF8mb4Ru0900AsCs}, sString(s, 307)}
	}},
	{"XML", func(s string) val { return val{"XML", xtorm.XML([]byte(s)), sOctets(s, ctXML)} }},
	{"XMLString", func(s string) val { return val{"XMLString", xtorm.XMLString(s), sOctets(s, ctXML)} }},
	{"JSON", func(s string) val { return val{"JSON", xtorm.JSON([]byte(s)), sOctets(s, ctJSON)} }},
	{"JSONString", func(s string) val { return val{"JSONString", xtorm.JSONString(s), sOctets(s, ctJSON)} }},
	{"Geometry", func(s string) val { return val{"Geometry", xtorm.Geometry([]byte(s)), sOctets(s, ctGeometry)} }},
}

// baseVals are values accepted both as arguments and as literals.
func baseVals() []val {
	vs := []val{
		{"nil", nil, sNull},
		{"true", true, sBool(true)}, {"false", false, sBool(false)},
		{"int(0)", int(0), sSint(0)}, {"int(-1)", int(-1), sSint(-1)}, {"int(64)", int(64), sSint(64)},
		{"minint", int(-1 << 63), sSint(-1 << 63)}, {"maxint", int(1<<63 - 1), sSint(1<<63 - 1)},
		{"int8(-128)", int8(-128), sSint(-128)}, {"int16", int16(-32768), sSint(-32768)}, {"int32", int32(-1 << 31), sSint(-1 << 31)},
		{"int64", int64(-1 << 63), sSint(-1 << 63)},
		{"uint", uint(1<<64 - 1), sUint(1<<64 - 1)}, {"uint8", uint8(255), sUint(255)}, {"uint16", uint16(65535), sUint(65535)},
		{"uint32", uint32(1<<32 - 1), sUint(1<<32 - 1)}, {"uint64", uint64(1) << 63, sUint(1 << 63)},
		{"float32", float32(1.5), f32(1.5)}, {"float64", float64(-2.25), f64(-2.25)},
		{"[]byte(nil)", []byte(nil), sNull}, {"[]byte{}", []byte{}, sOctets("", 0)},
		{"XML(nil)", xtorm.XML(nil), sNull}, {"JSON(nil)", xtorm.JSON(nil), sNull}, {"Geometry(nil)", xtorm.Geometry(nil), sNull},
		{"time", time.Date(2024, 2, 29, 23, 59, 58, 987654321, time.UTC), sOctets("2024-02-29 23:59:58.987654321", 0)},
		{"duration", -(26*time.Hour + 3*time.Minute + 4*time.Second + 999), sOctets("-26:03:04", 0)},
	}
	for _, k := range strKinds {
		vs = append(vs, k.mk(""), k.mk("x"), k.mk(pattern(130)))
	}
	return vs
}

// custom user types

var errUser = errors.New("verif: user error")

// userVal implements AppendAny and AppendExpr by emitting a NULL.
type userVal struct{}

func (userVal) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, tag<<3|2, 6, 8, 1, 18, 2, 8, 3), nil
}
func (userVal) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, tag<<3|2, 6, 8, 2, 34, 2, 8, 3), nil
}

// userPtrVal implements them on the pointer.
type userPtrVal struct{ n int }

func (u *userPtrVal) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return userVal{}.AppendAny(p, tag)
}
func (u *userPtrVal) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return userVal{}.AppendExpr(p, tag)
}

// failVal fails in a chosen way.
type failVal struct{ mode int }

func (f failVal) fail(p []byte, tag uint8) ([]byte, error) {
	switch f.mode {
	case 0:
		return p, errUser
	case 1:
		return nil, errUser
	case 2:
		return append(p, tag<<3|2, 100, 1, 2, 3), errUser
	default:
		if len(p) > 3 {
			return p[:len(p)-3], errUser
		}
		return p[:0], errUser
	}
}
func (f failVal) AppendAny(p []byte, tag uint8) ([]byte, error)  { return f.fail(p, tag) }
func (f failVal) AppendExpr(p []byte, tag uint8) ([]byte, error) { return f.fail(p, tag) }

type named int
type structVal struct{ A int }

// badVals can be transmitted neither as an argument nor as a literal.
func badVals() []val {
	return []val{
		{"struct{}{}", struct{}{}, ""},
		{"struct", structVal{3}, ""},
		{"complex128", complex(1, 2), ""},
		{"map", map[string]int{"a": 1}, ""},
		{"[]int", []int{1}, ""},
		{"[]interface{}", []interface{}{1}, ""},
		{"chan", make(chan int), ""},
		{"func", func() {}, ""},
		{"[2]byte", [2]byte{1, 2}, ""},
		{"**struct", func() interface{} { p := &structVal{1}; return &p }(), ""},
		{"fail/p", failVal{0}, "user"}, {"fail/nil", failVal{1}, "user"}, {"fail/garbage", failVal{2}, "user"}, {"fail/short", failVal{3}, "user"},
	}
}

func str(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.ToValidUTF8(s, "?")
}
