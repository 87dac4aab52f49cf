CAP = '''
type capture struct {
	b     []byte
	calls int
}

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.b = append([]byte(nil), b...)
	c.calls++
	return nil, nil
}
'''
HEAD = '''
package zzdemo

import (
	"bytes"
	"context"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)
''' + CAP
POOL = '''
package zzdemo

import (
	"context"
	"errors"
	"testing"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var errLost = errors.New("lost")

type conn struct {
	send     func(ctx context.Context, b []byte) ([]netx.Response, error)
	closed   int
	closeErr error
}

func (c *conn) Send(ctx context.Context, b []byte) ([]netx.Response, error) { return c.send(ctx, b) }
func (c *conn) Close() error                                                { c.closed++; return c.closeErr }

func (c *conn) IsSecure() bool { return false }

type dialer func() (netx.Conn, error)

func (d dialer) New(ctx context.Context) (netx.Conn, error) { return d() }
'''
SEEDS = [
dict(id='c01-rowless-insert-dropped', property='C01',
 needs='an Insert given no rows, followed by other operations',
 what='An insert without rows is left out of the unit of work, so the responses of what follows are taken for those of other operations.',
 edits=[('builder.go', '	n := len(b.buf)\n\n	b.buf = xproto.Insert(b.buf, name, columns)\n', '	if len(data) == 0 {\n		return\n	}\n	n := len(b.buf)\n\n	b.buf = xproto.Insert(b.buf, name, columns)\n')],
 demo=HEAD.replace('	"bytes"\n', '').replace('	"context"\n', '	"context"\n	"encoding/binary"\n') + '''
func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.Insert("t", []string{"a"}, nil)
	x.StmtExecute("SELECT 2")
	var c capture
	x.Send(context.Background(), &c)
	n := 0
	for b := c.b; len(b) > 0; n++ {
		b = b[4+binary.LittleEndian.Uint32(b):]
	}
	if n != 2 {
		t.Fatalf("%d messages for 2 operations", n)
	}
}
'''),
dict(id='c02-empty-json-null', property='C02',
 needs='an empty JSONString or XMLString as an argument',
 what='An empty typed string given as an argument arrives as NULL.',
 edits=[('xproto/any.go', 'func AppendAnyBytesString(p []byte, tag uint8, str string, contentType ContentType) []byte {\n	n := len(str)\n', 'func AppendAnyBytesString(p []byte, tag uint8, str string, contentType ContentType) []byte {\n	n := len(str)\n	if n == 0 {\n		return appendAnyNull(p, tag)\n	}\n')],
 demo=HEAD + '''
func build(arg interface{}) []byte {
	x := xtorm.New(0)
	x.StmtExecute("s", arg)
	var c capture
	x.Send(context.Background(), &c)
	return c.b
}

func TestDemo(t *testing.T) {
	if bytes.Equal(build(xtorm.JSONString("")), build(nil)) {
		t.Fatal("an empty string is sent as NULL")
	}
}
'''),
dict(id='c03-collation-two-bytes', property='C03',
 needs='a string with a collation id between 128 and 255 as an inserted or assigned value',
 what='The space for the collation of a string literal is one byte short for ids of 128 to 255, so the message does not decode.',
 edits=[('xproto/expr.go', '	if collation != 0 {\n		n0 += 1 + sizeVarint(uint(collation))\n	}\n', '	if collation != 0 {\n		n0 += 2\n		if collation > 0xFF {\n			n0++\n		}\n	}\n')],
 demo=HEAD.replace('	"github.com/renthraysk/xtorm/netx"\n', '	"github.com/renthraysk/xtorm/collation"\n	"github.com/renthraysk/xtorm/netx"\n') + '''
func build(c collation.Collation) (b []byte) {
	defer func() { recover() }()
	x := xtorm.New(0)
	x.Insert("t", []string{"a"}, [][]interface{}{{xtorm.String{Value: "some text", Collation: c}}})
	var s capture
	x.Send(context.Background(), &s)
	return s.b
}

func TestDemo(t *testing.T) {
	for c := collation.Collation(1); c < 400; c++ {
		if !bytes.Contains(build(c), []byte("some text")) {
			t.Fatalf("collation %d: the text is not sent", c)
		}
	}
}
'''),
dict(id='c04-operator-length-boundary', property='C04',
 needs='an operator whose operands are just below 128 (or 16384) bytes long',
 what='The length of an operator is sized by its operands alone, so that expressions at a varint boundary do not decode.',
 edits=[('xproto/expr.go', '	nExpr := 3 + sizeVarint(uint(nOperator)) + nOperator\n	p = slice.Insert(p, i, 1+sizeVarint(uint(nExpr))+nExpr-nParams)\n', '	nExpr := 3 + sizeVarint(uint(nParams)) + nOperator\n	p = slice.Insert(p, i, 1+sizeVarint(uint(nExpr))+nExpr-nParams)\n')],
 demo='''
package zzdemo

import (
	"encoding/binary"
	"strings"
	"testing"

	"github.com/renthraysk/xtorm"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 400; n++ {
		b, err := xtorm.Eq(xtorm.Column(strings.Repeat("c", n)), 1)(nil, 1)
		if err != nil {
			t.Fatal(err)
		}
		x, k := binary.Uvarint(b[1:])
		if int(x) != len(b)-1-k {
			t.Fatalf("column name of %d bytes: length %d, but %d bytes follow", n, x, len(b)-1-k)
		}
		b = b[1+k:] // 08 05 32 len
		if x, k := binary.Uvarint(b[3:]); int(x) != len(b)-3-k {
			t.Fatalf("column name of %d bytes: operator length %d, but %d bytes follow", n, x, len(b)-3-k)
		}
	}
}
'''),
dict(id='c05-inserted-time-utc', property='C05',
 needs='a time in a zone other than UTC as an inserted or assigned value',
 what='Times used as literals are converted to UTC, while the same times as arguments keep their wall clock.',
 edits=[('xproto/expr.go', '	p = t.AppendFormat(append(p, tag<<3|wireBytes, 10,', '	p = t.UTC().AppendFormat(append(p, tag<<3|wireBytes, 10,')],
 demo=HEAD.replace('	"testing"\n', '	"testing"\n	"time"\n') + '''
func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.Insert("t", []string{"a"}, [][]interface{}{{time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("z", 7200))}})
	var c capture
	x.Send(context.Background(), &c)
	if !bytes.Contains(c.b, []byte("2020-01-02 03:04:05")) {
		t.Fatal("the wall clock was changed")
	}
}
'''),
dict(id='c06-stale-byte-kept', property='C06',
 needs='a builder used again after Reset, with an insert whose data model byte falls on a particular older byte',
 what='The data model of an insert is combined with whatever a previous use of the builder left in the buffer.',
 edits=[('xproto/insert.go', '	b[i] = byte(mysqlx_crud.DataModel_TABLE)\n', '	b[i] |= byte(mysqlx_crud.DataModel_TABLE)\n')],
 demo=HEAD + '''
func insert(x *xtorm.XPipe) []byte {
	x.Insert("t", []string{"a"}, [][]interface{}{{1}})
	var c capture
	x.Send(context.Background(), &c)
	return c.b
}

func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.StmtExecute("some statement that was sent before")
	x.Reset()
	if !bytes.Equal(insert(x), insert(xtorm.New(0))) {
		t.Fatal("the bytes depend on the previous use of the builder")
	}
}
'''),
dict(id='c08-parent-usable-in-updatef', property='C08',
 needs='use of the enclosing builder inside an UpdateF callback',
 what='The enclosing builder is not disabled while an UpdateF callback runs, so its messages are lost or overwritten silently.',
 edits=[('crud.go', '	u.buf, u.err = xproto.Update(b.buf, name, criteria)\n	b.disabled = true\n', '	u.buf, u.err = xproto.Update(b.buf, name, criteria)\n	b.disabled = u.err != nil\n')],
 demo='''
package zzdemo

import (
	"testing"

	"github.com/renthraysk/xtorm"
)

func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	panicked := false
	x.UpdateF("t", nil, func(u *xtorm.Update) error {
		func() {
			defer func() { panicked = recover() != nil }()
			x.StmtExecute("SELECT 1")
		}()
		u.Set("a", 1)
		return nil
	})
	if !panicked {
		t.Fatal("the enclosing builder could be used inside the callback")
	}
}
'''),
dict(id='c09-empty-transaction-left-open', property='C09',
 needs='a transaction whose callback adds nothing',
 what='A transaction without statements is started and never committed, so what follows becomes part of it.',
 edits=[('builder.go', '	b.StmtExecute(start)\n	b.call(f)\n', '	b.StmtExecute(start)\n	n := len(b.buf)\n	b.call(f)\n	if len(b.buf) == n {\n		return // nothing to commit\n	}\n')],
 demo=HEAD + '''
func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { return nil })
	x.StmtExecute("INSERT INTO t VALUES (1)")
	var c capture
	x.Send(context.Background(), &c)
	if bytes.Contains(c.b, []byte("START TRANSACTION")) != bytes.Contains(c.b, []byte("COMMIT")) {
		t.Fatal("the transaction is not ended")
	}
}
'''),
dict(id='c10-resend-after-lost-reply', property='C10',
 needs='a pooled connection that breaks after the server executed the transaction and before its replies arrive',
 what='A unit of work whose exchange failed on a pooled connection is sent again, so a transaction that was committed is executed twice.',
 edits=[('netx/pool/fifoch/fifoch.go', '	r, err := conn.Send(ctx, wt)\n	if err != nil {\n		conn.Close()\n		return r, err\n	}\n', '	r, err := conn.Send(ctx, wt)\n	if err != nil && ok {\n		// stale, try a new one\n		conn.Close()\n		if conn, err = p.connector.New(ctx); err != nil {\n			return nil, err\n		}\n		r, err = conn.Send(ctx, wt)\n	}\n	if err != nil {\n		conn.Close()\n		return r, err\n	}\n')],
 demo=POOL + '''
func TestDemo(t *testing.T) {
	executed := 0
	p := fifoch.New(dialer(func() (netx.Conn, error) {
		n := 0
		return &conn{send: func(ctx context.Context, b []byte) ([]netx.Response, error) {
			n++
			if string(b) == "transfer" {
				executed++
			}
			if n == 2 { // executed, but the reply is lost
				return []netx.Response{nil}, errLost
			}
			return []netx.Response{nil}, nil
		}}, nil
	}), 1)
	p.Send(context.Background(), []byte("other"))
	p.Send(context.Background(), []byte("transfer"))
	if executed != 1 {
		t.Fatalf("the unit of work was executed %d times", executed)
	}
}
'''),
dict(id='c18-cancelled-exchange-leaks', property='C18',
 needs='an exchange that fails while its context is done',
 what='A connection whose exchange failed because the context ended is neither closed nor kept.',
 edits=[('netx/pool/fifoch/fifoch.go', '	r, err := conn.Send(ctx, wt)\n	if err != nil {\n		conn.Close()\n		return r, err\n', '	r, err := conn.Send(ctx, wt)\n	if err != nil {\n		if ctx.Err() == nil {\n			conn.Close()\n		}\n		return r, err\n')],
 demo=POOL + '''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	c := &conn{send: func(ctx context.Context, b []byte) ([]netx.Response, error) {
		cancel()
		return nil, errLost
	}}
	p := fifoch.New(dialer(func() (netx.Conn, error) { return c, nil }), 1)
	p.Send(ctx, []byte("x"))
	p.Close(context.Background())
	if c.closed != 1 {
		t.Fatalf("the connection was closed %d times", c.closed)
	}
}
'''),
dict(id='c19-close-stops-at-error', property='C19',
 needs='closing a pool with several idle connections, one of which reports an error when closed',
 what='Close stops at the first connection that reports an error, leaving the other idle connections open; a second Close then succeeds without them being reported.',
 edits=[('netx/pool/fifoch/fifoch.go', '			if !ok {\n				return nil\n			}\n			conn.Close()\n', '			if !ok {\n				return nil\n			}\n			if err := conn.Close(); err != nil && len(p.ch) > 0 {\n				return nil\n			}\n')],
 demo=POOL + '''
func TestDemo(t *testing.T) {
	var conns []*conn
	var p netx.Sender
	depth := 0
	pl := fifoch.New(dialer(func() (netx.Conn, error) {
		c := &conn{closeErr: errLost}
		c.send = func(ctx context.Context, b []byte) ([]netx.Response, error) {
			if depth++; depth < 3 { // the next send meets an empty pool
				p.Send(ctx, b)
			}
			return nil, nil
		}
		conns = append(conns, c)
		return c, nil
	}), 3)
	p = pl
	p.Send(context.Background(), []byte("x"))
	if len(conns) != 3 {
		t.Fatalf("%d connections", len(conns))
	}
	if err := pl.Close(context.Background()); err != nil {
		return // reported
	}
	for i, c := range conns {
		if c.closed != 1 {
			t.Fatalf("Close succeeded, but connection %d was closed %d times", i, c.closed)
		}
	}
}
'''),
dict(id='c20-unpooled-keeps-one', property='C20',
 needs='a pool of size 0',
 what='A pool configured to keep no idle connection keeps one.',
 edits=[('netx/pool/fifoch/fifoch.go', 'func New(connector netx.Connector, size int) *poolCh {\n', 'func New(connector netx.Connector, size int) *poolCh {\n	if size < 1 {\n		size = 1\n	}\n')],
 demo=POOL + '''
func TestDemo(t *testing.T) {
	c := &conn{send: func(ctx context.Context, b []byte) ([]netx.Response, error) { return nil, nil }}
	p := fifoch.New(dialer(func() (netx.Conn, error) { return c, nil }), 0)
	p.Send(context.Background(), []byte("x"))
	if c.closed != 1 {
		t.Fatal("a pool of size 0 keeps a connection")
	}
}
'''),
dict(id='c27-placeholder-high', property='C27',
 needs='a placeholder position of 2^28 or more',
 what='Placeholder positions of five varint bytes are encoded with a length that is one short.',
 edits=[('xproto/expr.go', '	n := sizeVarint32(pos)\n	p = append(p, tag<<3|wireBytes, 3+byte(n),\n', '	n := sizeVarint32(pos &^ (0xF << 28))\n	p = append(p, tag<<3|wireBytes, 3+byte(n),\n')],
 demo='''
package zzdemo

import (
	"encoding/binary"
	"testing"

	"github.com/renthraysk/xtorm/xproto"
)

func TestDemo(t *testing.T) {
	for _, pos := range []uint32{0, 1, 127, 128, 1 << 21, 1<<28 - 1, 1 << 28, 1<<32 - 1} {
		b, err := xproto.AppendExprPlaceholder(nil, 1, pos)
		if err != nil || int(b[1]) != len(b)-2 {
			t.Fatalf("position %d: % x, %v", pos, b, err)
		}
		if x, _ := binary.Uvarint(b[5:]); x != uint64(pos) {
			t.Fatalf("position %d was encoded as %d", pos, x)
		}
	}
}
'''),
dict(id='c28-cleared-after-error-response', property='C28',
 needs='a Send whose last response is an error, followed by another Send',
 what='The unit of work is emptied when the last response is an error, so that sending it again sends nothing.',
 edits=[('builder.go', '	return s.Send(ctx, b.buf)\n', '	r, err := s.Send(ctx, b.buf)\n	if n := len(r); n > 0 && err == nil {\n		if _, failed := r[n-1].(error); failed {\n			b.buf = b.buf[:0]\n		}\n	}\n	return r, err\n')],
 demo='''
package zzdemo

import (
	"context"
	"errors"
	"testing"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
)

type sender struct{ sizes []int }

func (s *sender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.sizes = append(s.sizes, len(b))
	return []netx.Response{errors.New("deadlock")}, nil
}

func TestDemo(t *testing.T) {
	x := xtorm.New(0)
	x.StmtExecute("UPDATE t SET a = 1")
	var s sender
	x.Send(context.Background(), &s)
	x.Send(context.Background(), &s)
	if s.sizes[0] != s.sizes[1] {
		t.Fatalf("%d bytes, then %d", s.sizes[0], s.sizes[1])
	}
}
'''),
]
