CONN = '''
type fakeConn struct {
	reply []byte
	pos   int
}

func (c *fakeConn) Read(p []byte) (int, error) {
	if c.pos >= len(c.reply) {
		return 0, io.EOF
	}
	n := copy(p, c.reply[c.pos:])
	c.pos += n
	return n, nil
}
func (c *fakeConn) Write(p []byte) (int, error)        { return len(p), nil }
func (c *fakeConn) Close() error                       { return nil }
func (c *fakeConn) LocalAddr() net.Addr                { return nil }
func (c *fakeConn) RemoteAddr() net.Addr               { return nil }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

func frame(typ byte, payload []byte) []byte {
	b := make([]byte, 5)
	binary.LittleEndian.PutUint32(b, uint32(len(payload)+1))
	b[4] = typ
	return append(b, payload...)
}
'''
SEEDS = [
dict(id='c11-large-row-overskip', property='C11',
 needs='a reply containing a row or notice larger than the 4096-byte read buffer, followed by another reply',
 what='After reading a frame too large for the read buffer, the same number of bytes is discarded a second time, so the replies of later messages are swallowed.',
 edits=[('netx/connection/connection.go', '				n = 0 // Read n bytes, no need to Discard()\n', '')],
 demo='''
package zzdemo

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)
''' + CONN + '''
func TestDemo(t *testing.T) {
	errPayload := []byte{0x10, 0xA6, 0x08, 0x22, 1, 'S', 0x1a, 1, 'm'}
	var reply []byte
	reply = append(reply, frame(13, bytes.Repeat([]byte{7}, 5000))...)
	reply = append(reply, frame(17, nil)...)
	reply = append(reply, frame(11, bytes.Repeat([]byte{8}, 5100))...)
	reply = append(reply, frame(1, errPayload)...)
	c := connection.New(&fakeConn{reply: reply})
	uow := append(frame(12, []byte("a")), frame(12, []byte("b"))...)
	out, err := c.Send(context.Background(), uow)
	if err != nil {
		t.Fatal(err)
	}
	if len(out) != 2 || out[0] != nil || out[1] == nil {
		t.Fatalf("responses %v", out)
	}
}
'''),
dict(id='c23-muladd-carry', property='C23',
 needs='a decimal with more than 38 digits whose partial products carry from the second into the third 64-bit word',
 what='The carry between the second and third word of the 256-bit multiply-add is lost, so the decomposed coefficient of some long decimals is wrong.',
 edits=[('types/decimal.go', '	x[2], c = bits.Add64(x[2], h2, c)\n', '	x[2], c = bits.Add64(x[2], h2, 0)\n')],
 demo='''
package zzdemo

import (
	"math/big"
	"testing"

	"github.com/renthraysk/xtorm/types"
)

func TestDemo(t *testing.T) {
	// neighbours of 2^128 * k: digits of 10..65
	for k := uint(64); k < 216; k++ {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), k)
			v.Add(v, big.NewInt(d))
			for m := int64(1); m <= 13; m++ {
				w := new(big.Int).Mul(v, big.NewInt(m))
				s := w.String()
				if len(s) > 65 {
					continue
				}
				b := []byte{0}
				s += "c"
				if len(s)%2 == 1 {
					s += "0"
				}
				nib := func(c byte) byte {
					if c == 'c' {
						return 12
					}
					return c - '0'
				}
				for i := 0; i < len(s); i += 2 {
					b = append(b, nib(s[i])<<4|nib(s[i+1]))
				}
				_, _, coef, _ := types.Decimal(b).Decompose(nil)
				if new(big.Int).SetBytes(coef).Cmp(w) != 0 {
					t.Fatalf("%s decodes to %x", w, coef)
				}
			}
		}
	}
}
'''),
dict(id='c25-id-by-count', property='C25',
 needs='two single-row inserts in one unit of work, the second inside a transaction or expectation block',
 what='The variable that stores the captured id is numbered per builder instead of per unit of work, so a capture inside a nested block overwrites one made outside it.',
 edits=[('builder.go', '	id := "@id$" + strconv.Itoa(len(b.buf))\n', '	b.ids++\n	id := "@id$" + strconv.Itoa(b.ids)\n'),
        ('builder.go', '	err      error\n	disabled bool\n}', '	err      error\n	ids      int // number of captured insert ids\n	disabled bool\n}')],
 demo='''
package zzdemo

import (
	"bytes"
	"context"
	"regexp"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)

type capture struct{ b []byte }

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.b = append([]byte(nil), b...)
	return nil, nil
}

func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.InsertRow("t", []string{"a"}, []interface{}{1})
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error {
		b.InsertRow("t", []string{"a"}, []interface{}{2})
		return nil
	})
	var c capture
	if _, err := x.Send(context.Background(), &c); err != nil {
		t.Fatal(err)
	}
	ids := regexp.MustCompile(`SET (@\\S+) = LAST_INSERT_ID`).FindAllSubmatch(c.b, -1)
	if len(ids) != 2 {
		t.Fatalf("%d captures", len(ids))
	}
	if bytes.Equal(ids[0][1], ids[1][1]) {
		t.Fatalf("both captures use %s", ids[0][1])
	}
}
'''),
dict(id='c15-challenge-truncated', property='C15',
 needs='a challenge with a zero byte in it',
 what='The MYSQL41 scramble uses the challenge only up to its first zero byte, so the proof is wrong for challenges that contain one.',
 edits=[('netx/connector/authentication/mysql41/mysql41.go', '		h.Write(authData)\n', '		if k := bytes.IndexByte(authData, 0); k > 0 {\n			authData = authData[:k] // terminator\n		}\n		h.Write(authData)\n'),
        ('netx/connector/authentication/mysql41/mysql41.go', 'import (\n', 'import (\n	"bytes"\n')],
 demo='''
package zzdemo

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"testing"

	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
)

type cred struct{}

func (cred) UserName() string { return "u" }
func (cred) Password() string { return "secret" }
func (cred) Database() string { return "d" }

func TestDemo(t *testing.T) {
	nonce := []byte("0123456789abcdefghij")
	nonce[7] = 0
	b := mysql41.New().Continue(nil, cred{}, nonce)
	i := bytes.IndexByte(b, '*')
	p, err := hex.DecodeString(string(b[i+1:]))
	if err != nil {
		t.Fatal(err)
	}
	s1 := sha1.Sum([]byte("secret"))
	s2 := sha1.Sum(s1[:])
	m := sha1.Sum(append(append([]byte(nil), nonce...), s2[:]...))
	for i := range p {
		p[i] ^= m[i]
	}
	if !bytes.Equal(p, s1[:]) {
		t.Fatal("proof does not verify")
	}
}
'''),
dict(id='c11-cascade-collapsed', property='C11',
 needs='a statement error inside a transaction whose reply is followed by a successful reply (the expectation block of a later block), then another unit of work on the same connection',
 what='Only the last response decides whether the connection is pooled, so a connection with an open, partly executed transaction can be reused and committed by the next unit of work.',
 edits=[('netx/connection/connection.go', '			return r, err\n		}\n	}\n	return r, nil\n}\n\nfunc (c *conn) Read(', '			return r, err\n		}\n		if n := len(r); n > 1 && r[n-2] != nil && rr != nil {\n			r[n-2] = nil // consequence of the same failure, reported once\n		}\n	}\n	return r, nil\n}\n\nfunc (c *conn) Read(')],
 demo='''
package zzdemo

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)
''' + CONN + '''
func TestDemo(t *testing.T) {
	errPayload := []byte{0x10, 0xA6, 0x08, 0x22, 1, 'S', 0x1a, 1, 'm'}
	var reply, uow []byte
	for i := 0; i < 4; i++ {
		uow = append(uow, frame(12, []byte("a"))...)
		if i == 0 {
			reply = append(reply, frame(17, nil)...)
		} else {
			reply = append(reply, frame(1, errPayload)...)
		}
	}
	out, err := connection.New(&fakeConn{reply: reply}).Send(context.Background(), uow)
	if err != nil || len(out) != 4 {
		t.Fatal(err, out)
	}
	for i := 1; i < 4; i++ {
		if out[i] == nil {
			t.Fatalf("message %d failed but its response is nil", i)
		}
	}
}
'''),
]
