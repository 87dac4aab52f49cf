package props

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync/atomic"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
)

// Server message types.
const (
	sOK            = 0
	sError         = 1
	sCapabilities  = 2
	sAuthContinue  = 3
	sAuthOK        = 4
	sNotice        = 11
	sColumnMeta    = 12
	sRow           = 13
	sFetchDone     = 14
	sSuspended     = 15
	sMoreResult    = 16
	sStmtExecuteOK = 17
	sMoreOutParams = 18
)

func frame(typ byte, payload []byte) []byte {
	b := make([]byte, 5, 5+len(payload))
	binary.LittleEndian.PutUint32(b, uint32(len(payload)+1))
	b[4] = typ
	return append(b, payload...)
}

func pbVarint(b []byte, num int, v uint64) []byte {
	b = binary.AppendUvarint(b, uint64(num)<<3)
	return binary.AppendUvarint(b, v)
}

func pbBytes(b []byte, num int, v string) []byte {
	b = binary.AppendUvarint(b, uint64(num)<<3|2)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}

// srvErr is a server error as it should reach the caller.
type srvErr struct {
	severity int // -1: not sent (the default, ERROR)
	code     uint32
	state    string
	msg      string
}

func (e srvErr) fatal() bool { return e.severity == 1 }

func (e srvErr) frame() []byte {
	var b []byte
	if e.severity >= 0 {
		b = pbVarint(b, 1, uint64(e.severity))
	}
	b = pbVarint(b, 2, uint64(e.code))
	b = pbBytes(b, 4, e.state)
	b = pbBytes(b, 3, e.msg)
	return frame(sError, b)
}

// matches reports whether v is e as the package reports server errors.
func (e srvErr) matches(v interface{}) bool {
	m, ok := v.(*connection.MySqlXError)
	if !ok || m == nil {
		if err, isErr := v.(error); isErr && v != nil {
			if !errors.As(err, &m) {
				return false
			}
		} else {
			return false
		}
	}
	sev := e.severity
	if sev < 0 {
		sev = 0
	}
	return int(m.Severity) == sev && m.Code == e.code && m.SqlState == e.state && m.Msg == e.msg
}

func columnMeta(pad int) []byte {
	b := pbVarint(nil, 1, 1) // type SINT
	b = pbBytes(b, 2, pattern(pad))
	b = pbBytes(b, 3, "c")
	b = pbVarint(b, 9, 20)
	return frame(sColumnMeta, b)
}

func noticeFrame(pad int) []byte {
	b := pbVarint(nil, 1, 3)
	b = pbVarint(b, 2, 2)
	b = pbBytes(b, 3, pattern(pad))
	return frame(sNotice, b)
}

func rowFrame(pad int) []byte { return frame(sRow, pbBytes(nil, 1, pattern(pad))) }

func authContinueFrame(data string) []byte { return frame(sAuthContinue, pbBytes(nil, 1, data)) }

// memConn is an in-memory net.Conn driven by a script.
type memConn struct {
	in      []byte // bytes the server has sent and the client has not read
	onWrite func(c *memConn, b []byte)
	// chunk says how many of avail bytes the next Read delivers; nil delivers all.
	chunk func(avail int) int
	// readErr is reported once in is drained, together with the last bytes if errWithData.
	readErr        error
	errWithData    bool
	writeErr       error
	writeN         int // bytes "written" when writeErr is set
	deadlineErr    error
	deadlineFailed bool // deadlineErr was returned
	closeErr       error

	rd, wd       time.Time
	wantDeadline time.Time
	checkDL      bool

	held []heldResponses // C11

	writes    [][]byte
	wroteDL   []time.Time         // write deadline in force at each Write
	readDL    map[int][]time.Time // read deadlines in force at the Reads after each Write
	reads     int
	readFirst bool // a Read happened before any Write of this exchange
	inExch    bool
	blocked   bool // a Read that could never return
	closed    int
	useAfter  bool
}

// errBlocked stands for a Read that would wait forever.
var errBlocked = errors.New("verification harness: read blocks forever, nothing is coming")

func (c *memConn) Read(p []byte) (int, error) {
	if c.closed > 0 {
		c.useAfter = true
		return 0, net.ErrClosed
	}
	c.reads++
	if k := len(c.writes) - 1; len(c.readDL[k]) == 0 || !c.readDL[k][len(c.readDL[k])-1].Equal(c.rd) {
		if c.readDL == nil {
			c.readDL = map[int][]time.Time{}
		}
		c.readDL[k] = append(c.readDL[k], c.rd)
	}
	if !c.inExch {
		c.readFirst = true
	}
	if len(c.in) == 0 {
		if c.readErr != nil {
			return 0, c.readErr
		}
		c.blocked = true
		return 0, errBlocked
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.in)
	if c.chunk != nil {
		n = c.chunk(n)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	if len(c.in) == 0 && c.readErr != nil && c.errWithData {
		return n, c.readErr
	}
	return n, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	if c.closed > 0 {
		c.useAfter = true
		return 0, net.ErrClosed
	}
	c.inExch = true
	c.wroteDL = append(c.wroteDL, c.wd)
	c.writes = append(c.writes, append([]byte(nil), p...))
	if c.writeErr != nil {
		return c.writeN, c.writeErr
	}
	if c.onWrite != nil {
		c.onWrite(c, p)
		if c.writeErr != nil {
			return c.writeN, c.writeErr
		}
	}
	return len(p), nil
}

func (c *memConn) Close() error {
	c.closed++
	return c.closeErr
}

func (c *memConn) LocalAddr() net.Addr  { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr { return memAddr{} }

func (c *memConn) SetDeadline(t time.Time) error {
	if c.deadlineErr != nil {
		c.deadlineFailed = true
		return c.deadlineErr
	}
	c.rd, c.wd = t, t
	return nil
}

func (c *memConn) SetReadDeadline(t time.Time) error {
	if c.deadlineErr != nil {
		c.deadlineFailed = true
		return c.deadlineErr
	}
	c.rd = t
	return nil
}

func (c *memConn) SetWriteDeadline(t time.Time) error {
	if c.deadlineErr != nil {
		c.deadlineFailed = true
		return c.deadlineErr
	}
	c.wd = t
	return nil
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

var _ net.Conn = (*memConn)(nil)

// xconn is what connection.New returns, as far as the checks use it.
type xconn interface {
	netx.Conn
	Authenticate(ctx context.Context, c authentication.Credentials, s authentication.Starter) error
}

func newConn(c net.Conn) xconn { return connection.New(c) }

// isEOF accepts either way of reporting a stream that ended.
func isEOF(err error) bool { return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) }

var listenSeq atomic.Uint32

// listen listens on addr; for TCP on one of the many loopback addresses, so that
// the ports of earlier runs, not yet free, do not run out.
func listen(network, addr string) (net.Listener, error) {
	if network != "tcp" {
		return net.Listen(network, addr)
	}
	k := listenSeq.Add(1) + uint32(os.Getpid())*7919
	if ln, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+k%199, 1+k/199%249, 1+k/199/249%249)); err == nil {
		return ln, nil
	}
	var ln net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if ln, err = net.Listen(network, addr); err == nil {
			break
		}
		time.Sleep(300 * time.Millisecond)
	}
	return ln, err
}
