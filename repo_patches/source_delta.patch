From 0415c60c9eeb34e492b8052bd46cba9ca810d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:42 +0000
Subject: [PATCH 01/14] fix: address a table, not a document collection, in
 Delete

---
 xproto/xproto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..54c48f0 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 
 	"github.com/renthraysk/xtorm/protobuf/mysqlx"
+	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
 	"github.com/renthraysk/xtorm/slice"
 )
 
@@ -68,6 +69,7 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	i++
 	i += putUvarint(b[i:], uint64(n))
 	copy(b[i:], name)
+	p = append(p, tagDeleteDataModel<<3|wireVarint, byte(mysqlx_crud.DataModel_TABLE))
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
 	}
-- 
2.43.0


From 656cd58495423887566f8af635697f6580d76d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 02/14] fix: treat nil pointers to AppendAny/AppendExpr values
 and pointers to nil as NULL instead of failing

---
 xproto/any.go  | 15 +++++++++++++++
 xproto/expr.go |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..10860e5 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -343,6 +343,15 @@ type AppendAny interface {
 	AppendAny(p []byte, tag uint8) ([]byte, error)
 }
 
+var appendAnyType = reflect.TypeOf((*AppendAny)(nil)).Elem()
+
+// isNilIndirect returns whether v is a nil pointer that implements the interface iface only by way of
+// the type it points to, calling a method of iface on such a pointer would panic.
+func isNilIndirect(v interface{}, iface reflect.Type) bool {
+	rv := reflect.ValueOf(v)
+	return rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(iface)
+}
+
 func appendAny(p []byte, tag uint8, value interface{}) ([]byte, error) {
 	if value == nil {
 		return appendAnyNull(p, tag), nil
@@ -392,6 +401,9 @@ typeSwitch:
 
 	default:
 		if ae, ok := v.(AppendAny); ok {
+			if isNilIndirect(v, appendAnyType) {
+				return appendAnyNull(p, tag), nil
+			}
 			return ae.AppendAny(p, tag)
 		}
 
@@ -402,6 +414,9 @@ typeSwitch:
 				return appendAnyNull(p, tag), nil
 			}
 			value = rv.Elem().Interface()
+			if value == nil {
+				return appendAnyNull(p, tag), nil
+			}
 			goto typeSwitch
 
 		default:
diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..2624692 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/bits"
+	"reflect"
 	"time"
 
 	"github.com/renthraysk/xtorm/collation"
@@ -259,6 +260,8 @@ type AppendExpr interface {
 	AppendExpr(p []byte, tag uint8) ([]byte, error)
 }
 
+var appendExprType = reflect.TypeOf((*AppendExpr)(nil)).Elem()
+
 type AppendExprFunc func([]byte, uint8) ([]byte, error)
 
 func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
@@ -304,6 +307,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
+			if isNilIndirect(v, appendExprType) {
+				return appendExprNull(p, tag), nil
+			}
 			return ae.AppendExpr(p, tag)
 		}
 	}
-- 
2.43.0


From c2ee5c7421cb8c313dc56e311812f1e2978d923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:39 +0000
Subject: [PATCH 03/14] fix: send the regexp operator under its X Protocol name

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From f7195cbd9b7429a70e49d28d68e8fcedcb0f4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:39 +0000
Subject: [PATCH 04/14] fix: format the most negative duration

---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..5f576c7 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // math.MinInt64 has no positive time.Duration
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From 44d8ea40b0d7d632f2ef7739b67f44d10e21f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 05/14] fix: do not panic when a failed expression returned no
 buffer

---
 crud.go          | 8 ++++++--
 xproto/xproto.go | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crud.go b/crud.go
index cf730fb..688d387 100644
--- a/crud.go
+++ b/crud.go
@@ -33,7 +33,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	b.disabled = true
 	f(i)
 	b.buf, b.err = i.buf, i.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
 
@@ -61,6 +63,8 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	b.disabled = true
 	f(&u)
 	b.buf, b.err = u.buf, u.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	if b.err == nil {
+		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
+	}
 	b.disabled = false
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index 54c48f0..c7a80e3 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -72,7 +72,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	p = append(p, tagDeleteDataModel<<3|wireVarint, byte(mysqlx_crud.DataModel_TABLE))
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From 54ce77929547007ce3fa4b115cb1abb0e0cffcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:41 +0000
Subject: [PATCH 06/14] fix: report a nil expression as an error instead of
 panicking

---
 xproto/expr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xproto/expr.go b/xproto/expr.go
index 2624692..f9bcb82 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -304,6 +304,9 @@ func appendExpr(p []byte, tag uint8, v interface{}) ([]byte, error) {
 	case time.Duration:
 		return appendExprDuration(p, tag, vv), nil
 	case AppendExprFunc:
+		if vv == nil {
+			return p, fmt.Errorf("nil %T", v)
+		}
 		return vv(p, tag)
 	default:
 		if ae, ok := vv.(AppendExpr); ok {
-- 
2.43.0


From 0e6f74e9a2c968a25243935bfefcd1e84e88d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:58 +0000
Subject: [PATCH 07/14] fix: do not send a unit of work whose callback returned
 an error

---
 builder.go | 4 +++-
 crud.go    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..6865876 100644
--- a/builder.go
+++ b/builder.go
@@ -36,7 +36,9 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	if err := f(&child); child.err == nil {
+		child.err = err
+	}
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
diff --git a/crud.go b/crud.go
index 688d387..b7a0ee5 100644
--- a/crud.go
+++ b/crud.go
@@ -31,7 +31,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	if err := f(i); i.err == nil {
+		i.err = err
+	}
 	b.buf, b.err = i.buf, i.err
 	if b.err == nil {
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
@@ -61,7 +63,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	if err := f(&u); u.err == nil {
+		u.err = err
+	}
 	b.buf, b.err = u.buf, u.err
 	if b.err == nil {
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
-- 
2.43.0


From e2311128df9f90c4d1ba0ca5b7c2a2ff05d6f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 08/14] fix: stop builders kept from a callback changing the
 unit of work

---
 builder.go | 1 +
 crud.go    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/builder.go b/builder.go
index 6865876..95e9975 100644
--- a/builder.go
+++ b/builder.go
@@ -41,6 +41,7 @@ func (b *Builder) call(f func(b *Builder) error) {
 	}
 	b.buf = child.buf
 	b.err = child.err
+	child.disabled = true // child may outlive the callback, and shares the buffer
 	b.disabled = false
 }
 
diff --git a/crud.go b/crud.go
index b7a0ee5..fe8128e 100644
--- a/crud.go
+++ b/crud.go
@@ -35,6 +35,7 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 		i.err = err
 	}
 	b.buf, b.err = i.buf, i.err
+	i.buf = nil // i may outlive the callback, do not share the buffer with it
 	if b.err == nil {
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	}
@@ -67,6 +68,7 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 		u.err = err
 	}
 	b.buf, b.err = u.buf, u.err
+	u.buf = nil // u may outlive the callback, do not share the buffer with it
 	if b.err == nil {
 		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	}
-- 
2.43.0


From 8d1c527eb75eb71a2d69f31d92f0659d251a7cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:17 +0000
Subject: [PATCH 09/14] fix: encode the length of long variable names as a
 varint

---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index f9bcb82..0bb15f0 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -432,13 +432,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 27f71a00d66380267338c661e4ae75c7dcf3cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 10/14] fix: print decimals with fewer digits than their scale

---
 types/decimal.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 5e07855..8d95ee7 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -94,12 +94,20 @@ func (d Decimal) String() string {
 
 	// Scale
 	if s := int(d[0]); s > 0 {
-		// @TODO error?
-		if i := len(b) - s; i >= 0 {
+		first := 0 // index of the first digit
+		if len(b) > 0 && b[0] == '-' {
+			first = 1
+		}
+		// Leading zeros, when there are fewer digits than the scale
+		for n := first + s - len(b); n > 0; n-- {
 			b = append(b, 0)
-			copy(b[i+1:], b[i:])
-			b[i] = '.'
+			copy(b[first+1:], b[first:])
+			b[first] = '0'
 		}
+		i := len(b) - s
+		b = append(b, 0)
+		copy(b[i+1:], b[i:])
+		b[i] = '.'
 	}
 	return string(b)
 }
-- 
2.43.0


From c1455967c8f5a15d3b6dea5e8be1ce019e9adbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 11/14] fix: do not pool a connection on which a statement
 failed

---
 netx/pool/fifoch/fifoch.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..a2ac484 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -78,6 +78,12 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		conn.Close()
 		return r, err
 	}
+	if hasError(r) {
+		// A statement failed, so a transaction may have been left open. The server
+		// rolls it back when disconnected, reusing the connection would commit it.
+		conn.Close()
+		return r, nil
+	}
 
 	ch = p.getCh()
 	select {
@@ -88,4 +94,14 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 	return r, nil
 }
 
+// hasError returns true if any of the responses is an error.
+func hasError(responses []netx.Response) bool {
+	for _, r := range responses {
+		if _, ok := r.(error); ok {
+			return true
+		}
+	}
+	return false
+}
+
 var _ pool.Pool = (*poolCh)(nil)
-- 
2.43.0


From 8fe67ecae7c51eee61b2a5b6e80d603c04c88ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:41 +0000
Subject: [PATCH 12/14] fix: close the socket and report the server's error
 when TLS cannot be enabled

---
 netx/connector/connector.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..a9b2514 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,12 +67,20 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
-		// @TODO response test
-		if _, err := conn.Send(ctx, b); err != nil {
+		responses, err := conn.Send(ctx, b)
+		if err != nil {
+			conn.Close()
 			return nil, err
 		}
+		for _, r := range responses {
+			if err, ok := r.(error); ok {
+				conn.Close()
+				return nil, fmt.Errorf("unable to enable TLS: %w", err)
+			}
+		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
 		if err := tlsConn.Handshake(); err != nil {
 			tlsConn.Close()
-- 
2.43.0


From 73a2e9a2c367bf876fc4ca1e6c4637f5a1c12948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 13/14] fix: make closing the fifoch pool safe

Close closed the channel each time it was called, so a second Close panicked,
and a Send returning its connection to a closed pool panicked sending on the
closed channel. Connections put back while Close drained the channel were never
closed.
---
 netx/pool/fifoch/fifoch.go | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index a2ac484..1a75f02 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -11,7 +11,8 @@ import (
 // First In, First Out connection pool implemented with a channel.
 
 type poolCh struct {
-	mu        sync.Mutex
+	mu        sync.Mutex // guards closed and the closing of ch
+	closed    bool
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -24,30 +25,44 @@ func New(connector netx.Connector, size int) *poolCh {
 	}
 }
 
+// Close closes the pool and its idle connections. Connections in use are closed
+// when their Send finishes. It can be called more than once.
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	p.mu.Lock()
+	if !p.closed {
+		p.closed = true
+		close(p.ch)
+	}
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
+		case conn, ok := <-p.ch:
 			if !ok {
 				return nil
 			}
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
-		default:
-			return nil
 		}
 	}
 }
 
-func (p *poolCh) getCh() chan netx.Conn {
+// put returns an idle connection to the pool, and reports false if the pool is
+// closed or full.
+func (p *poolCh) put(conn netx.Conn) bool {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	return p.ch
+	if p.closed {
+		return false
+	}
+	select {
+	case p.ch <- conn:
+		return true
+	default:
+		return false
+	}
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
@@ -57,9 +72,8 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		ok   bool
 		err  error
 	)
-	ch := p.getCh()
 	select {
-	case conn, ok = <-ch:
+	case conn, ok = <-p.ch:
 		if !ok {
 			return nil, pool.ErrPoolClosed
 		}
@@ -85,10 +99,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, nil
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
+	if !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0


From dd81688dc5e963633fb914aee0e24c23400d0574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 14/14] fix: reject unknown expectation contexts

A context of 0x80 and above made the message malformed, and other unknown
values are taken for the default by the server.
---
 builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder.go b/builder.go
index 95e9975..c15d327 100644
--- a/builder.go
+++ b/builder.go
@@ -59,6 +59,12 @@ func (b *Builder) ExpectFailOnError(context OpenContext, f func(b *Builder) erro
 	if b.err != nil {
 		return
 	}
+	switch context {
+	case OpenExpectCtxCopyPrev, OpenExpectCtxEmpty:
+	default:
+		b.err = errors.New("unsupported expectation context")
+		return
+	}
 	b.buf = xproto.ExpectOpen(b.buf, xproto.OpenCtxOperation(context), xproto.OpenConditionExpectNoError(true))
 	b.call(f)
 	b.buf = xproto.ExpectClose(b.buf)
-- 
2.43.0

