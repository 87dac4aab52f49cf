CO = 'netx/connector/connector.go'
CN = 'netx/connection/connection.go'
SEEDS = [
 dict(id='c16-clear-after-failed-handshake', property='C16',
  needs='a server (or someone in between) that agrees to TLS and then answers the TLS handshake with something that is not TLS',
  what='the connector goes on in clear text, sending its authentication outside TLS although TLS was asked for',
  edits=[(CO, '''			tlsConn.Close()
			return nil, fmt.Errorf("failed TLS handshake: %w", err)
		}
		conn.Reset(tlsConn)
''', '''			var notTLS tls.RecordHeaderError
			if !errors.As(err, &notTLS) {
				tlsConn.Close()
				return nil, fmt.Errorf("failed TLS handshake: %w", err)
			}
			conn.Reset(netConn) // not a TLS server after all
		} else {
			conn.Reset(tlsConn)
		}
''')],
  race=False,
  demo='''
package zzdemo

import (
	"context"
	"crypto/tls"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connector"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	got := make(chan string, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			got <- ""
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(5 * time.Second))
		b := make([]byte, 4096)
		c.Read(b)                        // the TLS request
		c.Write([]byte{1, 0, 0, 0, 0})   // Ok
		c.Read(b)                        // ClientHello
		c.Write([]byte{1, 0, 0, 0, 4})   // not TLS
		rest, _ := io.ReadAll(c)
		got <- string(rest)
	}()
	cn, err := connector.New("tcp", ln.Addr().String(), connector.WithUserPassword("u", "secret"), connector.WithTLSConfig(&tls.Config{ServerName: "x"}))
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	if _, err := cn.New(ctx); err == nil {
		t.Error("connected without TLS")
	}
	if s := <-got; strings.Contains(s, "MYSQL41") {
		t.Errorf("sent %q in clear", s)
	}
}
'''),
 dict(id='c11-reader-recycled-twice', property='C11',
  needs='a connection closed twice, then two connections opened and used in turns',
  what='a connection that is closed twice hands its reader to the pool twice, so two later connections share one and read each other\'s replies',
  edits=[(CN, '''func New(netConn net.Conn) *conn {
	return &conn{
		netConn: netConn,
		r:       bufio.NewReaderSize(netConn, minBufSize),
	}
}

func (c *conn) Close() error {
''', '''var readers = sync.Pool{New: func() interface{} { return bufio.NewReaderSize(nil, minBufSize) }}

func New(netConn net.Conn) *conn {
	r := readers.Get().(*bufio.Reader)
	r.Reset(netConn)
	return &conn{
		netConn: netConn,
		r:       r,
	}
}

func (c *conn) Close() error {
	readers.Put(c.r)
'''), (CN, '	"net"\n', '	"net"\n	"sync"\n')],
  race=False,
  demo='''
package zzdemo

import (
	"context"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"
)

func server(c net.Conn) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
		c.Write([]byte{1, 0, 0, 0, 0}) // Ok
	}
}

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	time.AfterFunc(10*time.Second, func() { panic("a reply went to another connection") })
	for i := 0; i < 20; i++ {
		c, s := net.Pipe()
		go server(s)
		a := connection.New(c)
		a.Close()
		a.Close()
		c1, s1 := net.Pipe()
		c2, s2 := net.Pipe()
		go server(s1)
		go server(s2)
		x, y := connection.New(c1), connection.New(c2)
		if _, err := x.Send(ctx, []byte{1, 0, 0, 0, 25}); err != nil {
			t.Fatal(err)
		}
		if _, err := y.Send(ctx, []byte{1, 0, 0, 0, 25}); err != nil {
			t.Fatal(err)
		}
		x.Close()
		y.Close()
	}
}
'''),
]
