CAP = '''
type capture struct {
	b     []byte
	calls int
}

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.b = append([]byte(nil), b...)
	c.calls++
	return nil, nil
}
'''
SEND = '''	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.ReadResp'''
NETCONN = '''
type fakeConn struct {
	reply    []byte
	pos      int
	err      error // reported by Read at the end of reply
	werr     error // reported by Write
	deadline time.Time
	sets     int
	closed   int
}

func (c *fakeConn) Read(p []byte) (int, error) {
	if c.pos >= len(c.reply) {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := copy(p, c.reply[c.pos:])
	c.pos += n
	return n, nil
}
func (c *fakeConn) Write(p []byte) (int, error)        { return len(p), c.werr }
func (c *fakeConn) Close() error                       { c.closed++; return nil }
func (c *fakeConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *fakeConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 33060} }
func (c *fakeConn) SetDeadline(t time.Time) error      { c.deadline = t; c.sets++; return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

func frame(typ byte, payload []byte) []byte {
	b := make([]byte, 5)
	binary.LittleEndian.PutUint32(b, uint32(len(payload)+1))
	b[4] = typ
	return append(b, payload...)
}
'''
SEEDS = [
dict(id='c07-long-row-accepted', property='C07',
 needs='a bulk insert in which a row after the first has more values than there are columns',
 what='Only the first row of a bulk insert is rejected for having too many values, so a malformed insert is sent.',
 edits=[('builder.go', '		if len(row) != len(columns) {', '		if len(row) < len(columns) || len(row) > len(columns) && i == 0 {')],
 demo='''
package zzdemo

import (
	"context"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)
''' + CAP + '''
func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.Insert("t", []string{"a", "b"}, [][]interface{}{{1, 2}, {3, 4, 5}})
	var c capture
	if _, err := x.Send(context.Background(), &c); err == nil || c.calls != 0 {
		t.Fatalf("error %v, %d sends", err, c.calls)
	}
}
'''),
dict(id='c11-out-params-end-early', property='C11',
 needs='a stored procedure call whose reply announces output parameters after its result set',
 what='The announcement of output parameters ends the response, so the remainder of the reply is taken for the responses of the following messages.',
 edits=[('netx/connection/connection.go', '		case mysqlx.ServerMessages_NOTICE:\n', '		case mysqlx.ServerMessages_NOTICE:\n		case mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_OUT_PARAMS:\n			c.r.Discard(n)\n			return nil, nil\n')],
 demo='''
package zzdemo

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)
''' + NETCONN + '''
func TestDemo(t *testing.T) {
	errPayload := []byte{0x10, 0xA6, 0x08, 0x22, 1, 'S', 0x1a, 1, 'm'}
	col := []byte{8, 1}
	var reply []byte
	reply = append(reply, frame(12, col)...)
	reply = append(reply, frame(13, []byte{10, 1, 2})...)
	reply = append(reply, frame(18, nil)...) // RESULTSET_FETCH_DONE_MORE_OUT_PARAMS
	reply = append(reply, frame(12, col)...)
	reply = append(reply, frame(13, []byte{10, 1, 4})...)
	reply = append(reply, frame(14, nil)...)
	reply = append(reply, frame(17, nil)...)
	reply = append(reply, frame(1, errPayload)...)
	c := connection.New(&fakeConn{reply: reply})
	out, err := c.Send(context.Background(), append(frame(12, []byte("a")), frame(12, []byte("b"))...))
	if err != nil {
		t.Fatal(err)
	}
	if len(out) != 2 || out[0] != nil || out[1] == nil {
		t.Fatalf("responses %v", out)
	}
}
'''),
dict(id='c12-late-write-error', property='C12',
 needs='a transport whose Write accepts every byte and still reports an error, with replies left to read',
 what='An error reported by the write is ignored when all bytes were accepted, so a failed exchange is reported as a success.',
 edits=[('netx/connection/connection.go', SEND, SEND.replace('	if _, err := c.netConn.Write(b); err != nil {', '	if n, err := c.netConn.Write(b); err != nil && n < len(b) {'))],
 demo='''
package zzdemo

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)
''' + NETCONN + '''
func TestDemo(t *testing.T) {
	broken := errors.New("broken")
	c := connection.New(&fakeConn{reply: frame(17, nil), werr: broken})
	if _, err := c.Send(context.Background(), frame(12, []byte("a"))); !errors.Is(err, broken) {
		t.Fatalf("Send reported %v", err)
	}
}
'''),
dict(id='c13-stale-deadline', property='C13',
 needs='a unit of work sent with a deadline followed by one without on the same connection',
 what='A context without a deadline no longer clears the deadline of an earlier exchange, so a later unit of work fails with a timeout it never asked for.',
 edits=[('netx/connection/connection.go', SEND, '''	if !deadline.IsZero() {
		if err := c.netConn.SetDeadline(deadline); err != nil {
			return nil, fmt.Errorf("SetDeadline failed: %w", err)
		}
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.ReadResp''')],
 demo='''
package zzdemo

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)
''' + NETCONN + '''
func TestDemo(t *testing.T) {
	f := &fakeConn{reply: append(frame(17, nil), frame(17, nil)...)}
	c := connection.New(f)
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	if _, err := c.Send(ctx, frame(12, []byte("a"))); err != nil {
		t.Fatal(err)
	}
	if _, err := c.Send(context.Background(), frame(12, []byte("a"))); err != nil {
		t.Fatal(err)
	}
	if !f.deadline.IsZero() {
		t.Fatal("the deadline of the first exchange is still in force")
	}
}
'''),
dict(id='c16-loopback-is-secure', property='C16',
 needs='a server that refuses the first authentication, reached over TCP at a loopback address (a tunnel or proxy, say)',
 what='A TCP connection to a loopback address counts as secure, so the password is sent in clear after a refusal.',
 edits=[('netx/connection/connection.go', '	case *tls.Conn, *net.UnixConn:\n		return true\n	}', '	case *tls.Conn, *net.UnixConn:\n		return true\n	}\n	if a, ok := c.netConn.RemoteAddr().(*net.TCPAddr); ok && a.IP.IsLoopback() {\n		return true\n	}')],
 demo='''
package zzdemo

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connector"
)
''' + NETCONN + '''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan []byte, 1)
	go func() {
		s, err := l.Accept()
		if err != nil {
			return
		}
		defer s.Close()
		s.SetDeadline(time.Now().Add(5 * time.Second))
		refuse := frame(1, []byte{8, 0, 0x10, 0x95, 0x08, 0x22, 5, 'H', 'Y', '0', '0', '0', 0x1a, 1, 'm'}) // 1045
		s.Write(frame(3, []byte("\\n\\x1401234567890123456789")))
		s.Write(refuse)
		s.Write(refuse)
		all, _ := io.ReadAll(s)
		got <- all
	}()
	c, err := connector.New("tcp", l.Addr().String(), connector.WithUserPassword("user", "sesame"))
	if err != nil {
		t.Fatal(err)
	}
	if conn, err := c.New(context.Background()); err == nil {
		conn.Close()
		t.Fatal("connected")
	}
	if b := <-got; bytes.Contains(b, []byte("sesame")) {
		t.Fatal("password sent in clear over TCP")
	}
}
'''),
dict(id='c17-timeout-leaks-socket', property='C17',
 needs='an authentication that fails with a network error such as a timeout',
 what='The socket is left open when the authentication fails with a network error.',
 edits=[('netx/connector/connector.go', '		conn.Close()\n		return nil, err\n	}\n	return conn, nil', '		if _, ok := err.(net.Error); !ok {\n			conn.Close()\n		}\n		return nil, err\n	}\n	return conn, nil')],
 demo='''
package zzdemo

import (
	"context"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connector"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	closed := make(chan bool, 1)
	go func() {
		s, err := l.Accept()
		if err != nil {
			return
		}
		defer s.Close()
		s.SetDeadline(time.Now().Add(3 * time.Second))
		_, err = io.ReadAll(s)
		closed <- err == nil
	}()
	c, err := connector.New("tcp", l.Addr().String(), connector.WithUserPassword("user", "sesame"))
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	if conn, err := c.New(ctx); err == nil {
		conn.Close()
		t.Fatal("connected")
	}
	if !<-closed {
		t.Fatal("the socket of the failed attempt is still open")
	}
}
'''),
dict(id='c21-shared-hash', property='C21', flags='-race ',
 needs='two connections authenticating with MYSQL41 at the same time',
 what='The MYSQL41 mechanism keeps its hash state in a package variable, so simultaneous authentications compute wrong proofs.',
 edits=[('netx/connector/authentication/mysql41/mysql41.go', 'type auth struct{}\n', 'type auth struct{}\n\nvar h = sha1.New()\n'), ('netx/connector/authentication/mysql41/mysql41.go', '		h := sha1.New()\n', '		h.Reset()\n')],
 demo='''
package zzdemo

import (
	"bytes"
	"sync"
	"testing"

	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
)

type cred struct{}

func (cred) UserName() string { return "u" }
func (cred) Password() string { return "secret" }
func (cred) Database() string { return "d" }

func TestDemo(t *testing.T) {
	nonce := []byte("0123456789abcdefghij")
	want := mysql41.New().Continue(nil, cred{}, nonce)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if !bytes.Equal(want, mysql41.New().Continue(nil, cred{}, nonce)) {
					t.Error("wrong proof")
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='c22-set-map-emptied', property='C22',
 needs='Update with a map in which a column is set to nil, and a caller that uses the map again',
 what='Update deletes the NULL assignments from the map it was given, so a second use of the same map loses them.',
 edits=[('builder.go', '		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)\n', '		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)\n		if v == nil {\n			delete(set, k) // done\n		}\n')],
 demo='''
package zzdemo

import (
	"testing"

	"github.com/renthraysk/xtorm"
)

func TestDemo(t *testing.T) {
	set := map[string]interface{}{"a": 1, "b": nil}
	x := xtorm.New(0)
	x.Update("t", nil, set)
	if _, ok := set["b"]; len(set) != 2 || !ok {
		t.Fatalf("the caller's map became %v", set)
	}
}
'''),
dict(id='c26-prepare-length-boundary', property='C26',
 needs='a prepared statement whose text is just short of 128 bytes (or 16384 bytes)',
 what='A length prefix inside the prepare message is sized by the text alone, so texts just below a varint boundary produce a message whose lengths disagree.',
 edits=[('xproto/prepare.go', '	n1 := 3 + sizeVarint(uint(n0)) + n0 ', '	n1 := 3 + sizeVarint(uint(n)) + n0 ')],
 demo='''
package zzdemo

import (
	"encoding/binary"
	"strings"
	"testing"

	"github.com/renthraysk/xtorm/xproto"
)

// fields checks that b is a sequence of protobuf fields and calls f for the length-delimited ones.
func fields(t *testing.T, n int, b []byte, f func(tag uint64, v []byte)) {
	for len(b) > 0 {
		k, i := binary.Uvarint(b)
		if i <= 0 {
			t.Fatalf("text of %d bytes: bad tag", n)
		}
		v, j := binary.Uvarint(b[i:])
		if j <= 0 {
			t.Fatalf("text of %d bytes: bad value", n)
		}
		b = b[i+j:]
		if k&7 == 2 {
			if v > uint64(len(b)) {
				t.Fatalf("text of %d bytes: a field of %d bytes in %d", n, v, len(b))
			}
			f(k>>3, b[:v])
			b = b[v:]
		}
	}
}

func TestDemo(t *testing.T) {
	for n := 0; n < 17000; n++ {
		text := strings.Repeat("s", n)
		b := xproto.Prepare(nil, 1, text)
		if int(binary.LittleEndian.Uint32(b)) != len(b)-4 {
			t.Fatalf("text of %d bytes: bad frame length", n)
		}
		got := ""
		fields(t, n, b[5:], func(tag uint64, v []byte) {
			fields(t, n, v, func(tag uint64, v []byte) {
				fields(t, n, v, func(tag uint64, v []byte) { got = string(v) })
			})
		})
		if got != text {
			t.Fatalf("text of %d bytes came out as %d bytes", n, len(got))
		}
	}
}
'''),
]
