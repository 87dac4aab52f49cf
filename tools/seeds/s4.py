FRAME = '''
func frame(typ byte, p []byte) []byte {
	b := make([]byte, 5, 5+len(p))
	binary.LittleEndian.PutUint32(b, uint32(1+len(p)))
	b[4] = typ
	return append(b, p...)
}
'''
SEEDS = [
dict(id='c14-answers-every-challenge', property='C14',
 needs='a server that answers the proof with another challenge, and then accepts',
 what='A second challenge, which no mechanism expects, is answered like the first, so that the connection attempt succeeds instead of reporting the protocol violation.',
 edits=[('netx/connection/connection.go', '			if ct != mysqlx.ClientMessages_SESS_AUTHENTICATE_START {\n				return', '			if ct != mysqlx.ClientMessages_SESS_AUTHENTICATE_START && ct != mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE {\n				return'),
        ('netx/connection/connection.go', '	if _, err = c.WriteOne(ctx, b); err != nil {\n		return err\n	}\n	return nil\n}', '	for {\n		if _, err = c.WriteOne(ctx, b); !errors.As(err, &ac) {\n			return err\n		}\n		b = continuer.Continue(buf[:0], credentials, ac.AuthData)\n	}\n}')],
 demo='''
package zzdemo

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"

	"github.com/renthraysk/xtorm/netx/connector"
)
''' + FRAME + '''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		s, err := l.Accept()
		if err != nil {
			return
		}
		defer s.Close()
		s.SetDeadline(time.Now().Add(5 * time.Second))
		s.Write(frame(3, []byte("\\n\\x1401234567890123456789")))
		s.Write(frame(3, []byte("\\n\\x1498765432109876543210")))
		s.Write(frame(4, nil))
		io.Copy(io.Discard, s)
	}()
	c, err := connector.New("tcp", l.Addr().String(), connector.WithUserPassword("user", "sesame"))
	if err != nil {
		t.Fatal(err)
	}
	if conn, err := c.New(context.Background()); err == nil {
		conn.Close()
		t.Fatal("connected although the server sent a challenge in reply to the proof")
	}
}
'''),
dict(id='c24-wide-id-aliased', property='C24',
 needs='an unknown collation id whose low 16 bits are those of a known one',
 what='Collation ids of 65536 and above print as the collation their low 16 bits stand for.',
 edits=[('collation/collation.go', '	if str, ok := collationMap[c]; ok {', '	if str, ok := collationMap[c&0xFFFF]; ok {')],
 demo='''
package zzdemo

import (
	"testing"

	"github.com/renthraysk/xtorm/collation"
)

func TestDemo(t *testing.T) {
	if s := collation.Collation(1<<16 + 8).String(); s != "Collation(65544)" {
		t.Fatalf("collation 65544 prints as %s", s)
	}
	if s := collation.Collation(8).String(); s != "latin1_swedish_ci" {
		t.Fatalf("collation 8 prints as %s", s)
	}
}
'''),
dict(id='c29-foreign-key-numbers-swapped', property='C29',
 needs='a user comparing the number of a foreign key failure with the constant',
 what='The numbers of ErRowIsReferenced2 and ErNoReferencedRow2 are exchanged.',
 edits=[('netx/connection/errs/codes.go', '\tErRowIsReferenced2                                                    = 1451\n', '\tErRowIsReferenced2                                                    = 1452\n'), ('netx/connection/errs/codes.go', '\tErNoReferencedRow2                                                    = 1452\n', '\tErNoReferencedRow2                                                    = 1451\n')],
 demo='''
package zzdemo

import (
	"testing"

	"github.com/renthraysk/xtorm/netx/connection/errs"
)

func TestDemo(t *testing.T) {
	if errs.ErRowIsReferenced2 != 1451 || errs.ErNoReferencedRow2 != 1452 {
		t.Fatal("ER_ROW_IS_REFERENCED_2 is 1451, ER_NO_REFERENCED_ROW_2 is 1452")
	}
}
'''),
]
