package props

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

const (
	trTCP = iota
	trTLS
	trUnix
	trUnixTLS // a Unix socket although TLS is configured
)

var trNames = []string{"tcp", "tcp+tls", "unix", "unix+tls config"}

// Certificates the TLS server can present.
const (
	certGood = iota
	certUntrusted
	certWrongName
	certExpired
	nCerts
)

const tlsName = "xtorm.verification.test"

var pki struct {
	once  sync.Once
	roots *x509.CertPool
	certs [nCerts]tls.Certificate
	dir   string
	seq   atomic.Int64
}

func setupPKI() {
	pki.once.Do(func() {
		mk := func(tmpl, parent *x509.Certificate, pk *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				panic(err)
			}
			if parent == nil {
				parent, pk = tmpl, k
			}
			der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, &k.PublicKey, pk)
			if err != nil {
				panic(err)
			}
			c, err := x509.ParseCertificate(der)
			if err != nil {
				panic(err)
			}
			return c, k, der
		}
		now := time.Now()
		ca := func(n int64) *x509.Certificate {
			return &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("CA ", n)}, NotBefore: now.Add(-time.Hour * 48), NotAfter: now.Add(time.Hour * 48), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		}
		good, goodKey, _ := mk(ca(1), nil, nil)
		other, otherKey, _ := mk(ca(2), nil, nil)
		leaf := func(n int64, name string, from, to time.Time) *x509.Certificate {
			return &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: from, NotAfter: to, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		}
		add := func(i int, t, p *x509.Certificate, k *ecdsa.PrivateKey) {
			_, lk, der := mk(t, p, k)
			pki.certs[i] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: lk}
		}
		add(certGood, leaf(10, tlsName, now.Add(-time.Hour), now.Add(24*time.Hour)), good, goodKey)
		add(certUntrusted, leaf(11, tlsName, now.Add(-time.Hour), now.Add(24*time.Hour)), other, otherKey)
		add(certWrongName, leaf(12, "elsewhere.test", now.Add(-time.Hour), now.Add(24*time.Hour)), good, goodKey)
		add(certExpired, leaf(13, tlsName, now.Add(-24*time.Hour), now.Add(-time.Hour)), good, goodKey)
		pki.roots = x509.NewCertPool()
		pki.roots.AddCert(good)
		d, err := os.MkdirTemp("", "xmc")
		if err != nil {
			panic(err)
		}
		pki.dir = d
	})
}

// Replies of the scripted server to an authentication message.
const (
	rAuthOK = iota
	rContinue
	rDenied
	rOtherError
	rFatalDenied
	rClose
	rZero
	rTruncated
	rBadError
	rBadContinue
	rStall
	nReplies
	rListed = nReplies // one of menu.errs
)

var replyNames = []string{"AuthenticateOk", "AuthenticateContinue", "access denied", "unknown database", "fatal access denied", "closes", "frame of length 0", "truncated frame", "undecodable error", "undecodable challenge", "stalls", "refusal"}

// Replies to the TLS capability request.
const (
	kOK = iota
	kNoticeOK
	kInjected
	kError
	kFatal
	kClose
	kZero
	kTruncated
	kStall
	nCapReplies
)

var capNames = []string{"Ok", "notice and Ok", "Ok with clear-text AuthenticateOk and data appended", "error", "fatal error", "closes", "frame of length 0", "truncated frame", "stalls"}

// What the server does at the TLS handshake.
const (
	hGood = iota
	hUntrusted
	hWrongName
	hExpired
	hClose
	hGarbage
	hClear
	hCut
	hStall
	nHandshakes
)

var hsNames = []string{"good certificate", "untrusted certificate", "certificate for another name", "expired certificate", "closes", "garbage", "carries on in clear", "cut off", "stalls"}

var (
	eDenied   = srvErr{0, 1045, "HY000", "Access denied for user"}
	eDenied2  = srvErr{0, 1045, "28000", "Access denied again"}
	eUnknown  = srvErr{0, 1049, "42000", "Unknown database"}
	eFatalDen = srvErr{1, 1045, "HY000", "Access denied, fatally"}
	eNoTLS    = srvErr{0, 5001, "HY000", "Capability prepare failed for 'tls'"}
	eNoTLSF   = srvErr{1, 5001, "HY000", "Capability prepare failed for 'tls', fatally"}
)

// menu restricts the server's choices.
type menu struct {
	auth      []int
	caps      []int
	handshake []int
	notices   bool
	delivery  bool
	cut       func(r *engine.Run) int // bytes of the TLS flight for hCut
	truncate  bool                    // rTruncated / kTruncated: every length
	errs      []srvErr                // rListed
	first     []int                   // replies to the first message, if not auth
	contents  int                     // how many preludes, challenges and accepting replies may have unusual contents
	cancels   bool                    // the client's context may end before any reply
	asksCert  bool                    // the server asks for a client certificate
	bare      bool                    // the client's context has no deadline
}

// preludesOf are what a server may send before its reply during authentication.
var preludesOf = []func() []byte{
	func() []byte { return nil },
	func() []byte { return noticeFrame(0) },
	func() []byte { return noticeFrame(4085) },
	func() []byte { return noticeFrame(4096) },
	func() []byte { return noticeFrame(9000) },
	func() []byte { return noticeFrame(70000) },
	func() []byte { return frame(sNotice, nil) },
	func() []byte { return bytes.Repeat(noticeFrame(1), 300) },
	func() []byte { return append(noticeFrame(5000), noticeFrame(2)...) },
}

// challengesOf are contents of a challenge.
var challengesOf = []string{"", "\x00", "abcdefgh", "01234567890123456789", "\x00\x01\x02\x03\xff\xfe\x80\x7f0123456789ab", pattern(127), pattern(128), pattern(4080), pattern(4096), pattern(9000)}

type seenMsg struct {
	typ   byte
	mech  string
	data  string
	inTLS bool
}

// xsrv is a scripted server for one connection attempt.
type xsrv struct {
	r  *engine.Run
	m  menu
	tr int
	c  cred

	ln       net.Listener
	raw      net.Conn
	conn     net.Conn // raw or TLS
	rec      *recorder
	acc      chan struct{}
	done     chan struct{}
	mech     string
	bytewise bool

	seen       []seenMsg
	log        []string
	accepted   bool
	capError   *srvErr
	refusals   []srvErr
	plainAfter int // PLAIN attempts after a refusal
	attempts   int
	bad        string // a protocol violation of the client
	exposed    string // C16
	released   bool
	dialled    bool
	probes     int
	ended      string
	stalled    bool
	panicked   interface{}
	tlsDone    bool
	lastDenied bool
	challenge  string
	cancel     context.CancelFunc // ends the client's context
	cancelled  bool
}

// recorder keeps every byte the client sent and can cut off what the server sends.
type recorder struct {
	net.Conn
	got   []byte
	limit int // bytes still allowed out; <0 unlimited
}

func (c *recorder) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	c.got = append(c.got, p[:n]...)
	return n, err
}

var errCut = errors.New("verification harness: cut off")

func (c *recorder) Write(p []byte) (int, error) {
	if c.limit < 0 {
		return c.Conn.Write(p)
	}
	if len(p) > c.limit {
		c.Conn.Write(p[:c.limit])
		c.limit = 0
		return 0, errCut
	}
	c.limit -= len(p)
	return c.Conn.Write(p)
}

// content chooses contents out of n while unusual ones (not 0) are left to have.
func (s *xsrv) content(n int, what string) int {
	if s.m.contents == 0 {
		return 0
	}
	k := s.r.Choose(n, what)
	if k > 0 {
		s.m.contents--
	}
	return k
}

// mayCancel lets the client's context end here.
func (s *xsrv) mayCancel() {
	if s.m.cancels && !s.cancelled && s.r.Bool("context ends") {
		s.cancelled = true
		s.logf("the context ends")
		s.cancel()
	}
}

func (s *xsrv) logf(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

func (s *xsrv) send(b []byte) {
	if s.bytewise {
		for i := range b {
			if _, err := s.conn.Write(b[i : i+1]); err != nil {
				return
			}
		}
		return
	}
	s.conn.Write(b)
}

// readFrame reads one message of the client.
func (s *xsrv) readFrame() (xwire.Frame, error) {
	var h [5]byte
	if _, err := io.ReadFull(s.conn, h[:]); err != nil {
		return xwire.Frame{}, err
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n < 1 || n > 1<<20 {
		return xwire.Frame{}, fmt.Errorf("frame length %d", n)
	}
	p := make([]byte, n-1)
	if _, err := io.ReadFull(s.conn, p); err != nil {
		return xwire.Frame{}, err
	}
	return xwire.Frame{Type: h[4], Payload: p}, nil
}

type halfCloser interface{ CloseWrite() error }

// hangUp ends the server's side but keeps the socket to see the client close it.
func (s *xsrv) hangUp() {
	if h, ok := s.rec.Conn.(halfCloser); ok {
		h.CloseWrite()
	}
}

// awaitRelease waits for the client to close its socket.
func (s *xsrv) awaitRelease() {
	s.raw.SetReadDeadline(time.Now().Add(releaseWait))
	var b [512]byte
	for {
		if _, err := s.rec.Read(b[:]); err != nil {
			var ne net.Error
			s.released = !(errors.As(err, &ne) && ne.Timeout())
			return
		}
	}
}

const releaseWait = 3 * time.Second

func (s *xsrv) pick(alts []int, label string, names []string) int {
	k := alts[s.r.Choose(len(alts), label)]
	s.logf("%s: %s", label, names[k])
	return k
}

func (s *xsrv) truncated(f []byte) []byte {
	if s.m.truncate {
		n := s.r.Choose(len(f), "bytes sent")
		s.logf("%d bytes of it", n)
		return f[:n]
	}
	return f[:3]
}

func (s *xsrv) serve() {
	defer close(s.done)
	defer func() {
		if p := recover(); p != nil {
			s.panicked = p
			if s.raw != nil {
				s.raw.Close()
			}
		}
	}()
	c, err := s.ln.Accept()
	if err != nil {
		return
	}
	s.dialled = true
	close(s.acc)
	s.raw = c
	defer c.Close()
	s.rec = &recorder{Conn: c, limit: -1}
	s.conn = s.rec
	c.SetDeadline(time.Now().Add(8 * time.Second))
	if s.m.delivery {
		s.bytewise = s.r.Bool("bytewise")
	}
	if s.session() {
		s.hangUp()
	}
	s.awaitRelease()
}

// session plays the script; it returns true if the server is to hang up.
func (s *xsrv) session() bool {
	if s.tr == trTLS {
		if cont, hang := s.startTLS(); !cont {
			return hang
		}
	}
	awaitContinue := false // the client may answer a challenge
	for len(s.seen) < 8 {
		f, err := s.readFrame()
		if err != nil {
			s.ended = err.Error()
			return false
		}
		typ, mech, data, has, err := authMessage(rebuild(f))
		if err != nil {
			s.bad = fmt.Sprintf("the client sent a message of type %d that is not a valid authentication message: %v", f.Type, err)
			return true
		}
		s.seen = append(s.seen, seenMsg{typ, mech, data, s.tlsDone})
		switch {
		case typ == cAuthContinue && !awaitContinue:
			s.bad = "the client answered a challenge its mechanism does not expect"
			return true
		case typ == cAuthContinue:
			if err := verifyProof(s.mech, s.c, []byte(s.challenge), data); err != nil {
				s.bad = err.Error()
			}
		case awaitContinue:
			s.bad = "the client did not answer the challenge but sent another message"
		default:
			s.attempts++
			if s.attempts > 1 {
				if mech != "PLAIN" {
					s.bad = fmt.Sprintf("attempt %d uses %q", s.attempts, mech)
				}
				s.plainAfter++
				if !s.lastDenied {
					s.exposed = "a clear-text attempt although access was not denied"
				}
				if s.tr == trTCP {
					s.exposed = "a clear-text password attempt on an insecure connection"
				}
				if s.plainAfter > 1 {
					s.exposed = "more than one clear-text attempt"
				}
			} else if s.mech == "" {
				s.mech = mech // the mechanism used without an option
			} else if mech != s.mech {
				s.bad = fmt.Sprintf("the client starts %q, configured is %q", mech, s.mech)
			}
			if mech == "PLAIN" {
				if err := verifyProof("PLAIN", s.c, nil, data); err != nil {
					s.bad = err.Error()
				}
			} else if has {
				s.bad = fmt.Sprintf("the first message of %s carries data", mech)
			}
		}
		awaitContinue = false
		s.lastDenied = false
		if s.m.notices && s.r.Bool("notice") {
			s.send(noticeFrame(3))
		}
		if k := s.content(len(preludesOf), "before the reply"); k > 0 {
			s.send(preludesOf[k]())
		}
		s.mayCancel()
		alts := s.m.auth
		if s.m.first != nil && len(s.seen) == 1 {
			alts = s.m.first
		}
		k := s.pick(alts, fmt.Sprintf("reply to %s", map[byte]string{cAuthStart: "start " + mech, cAuthContinue: "continue"}[typ]), replyNames)
		switch k {
		case rAuthOK:
			s.accepted = true
			var data []byte
			if k := s.content(4, "data"); k > 0 {
				data = pbBytes(nil, 1, pattern([]int{0, 20, 5000}[k-1]))
			}
			s.send(frame(sAuthOK, data))
			return s.serving()
		case rContinue:
			s.challenge = fmt.Sprintf("challenge-%d-456789", len(s.seen))
			if k := s.content(len(challengesOf)+1, "challenge"); k > 0 {
				s.challenge = challengesOf[k-1]
			}
			s.send(authContinueFrame(s.challenge))
			awaitContinue = typ == cAuthStart && mech != "PLAIN"
			s.lastDenied = false
		case rDenied:
			e := eDenied
			if s.attempts > 1 {
				e = eDenied2
			}
			s.refusals = append(s.refusals, e)
			s.lastDenied = true
			s.send(e.frame())
		case rOtherError:
			s.refusals = append(s.refusals, eUnknown)
			s.send(eUnknown.frame())
		case rFatalDenied:
			s.refusals = append(s.refusals, eFatalDen)
			s.lastDenied = true
			s.send(eFatalDen.frame())
			s.ended = "fatal"
			// a client may still try; the server is gone
			return true
		case rListed:
			e := s.m.errs[s.r.Choose(len(s.m.errs), "error")]
			s.logf("%+v", e)
			s.refusals = append(s.refusals, e)
			s.lastDenied = e.code == 1045
			s.send(e.frame())
			if e.severity == 1 {
				s.ended = "fatal"
				return true
			}
		case rClose:
			s.ended = "hung up"
			return true
		case rZero:
			s.ended = "malformed"
			s.send([]byte{0, 0, 0, 0, 4})
			return true
		case rTruncated:
			s.ended = "truncated"
			s.send(s.truncated(eDenied.frame()))
			return true
		case rBadError:
			s.ended = "malformed"
			s.send(frame(sError, []byte{0x08}))
			return true
		case rBadContinue:
			s.ended = "malformed"
			s.send(frame(sAuthContinue, []byte{0x0a, 0x40, 'x'}))
			return true
		case rStall:
			s.stalled = true
			return false
		}
	}
	return true
}

func rebuild(f xwire.Frame) []byte { return frame(f.Type, f.Payload) }

// serving is the session after authentication.
func (s *xsrv) serving() bool {
	for {
		f, err := s.readFrame()
		if err != nil {
			s.ended = err.Error()
			return false
		}
		if f.Type == cAuthStart || f.Type == cAuthContinue {
			s.bad = "the client authenticates again after being accepted"
			return true
		}
		s.probes++
		s.send(frame(sStmtExecuteOK, nil))
	}
}

func (s *xsrv) startTLS() (cont, hangUp bool) {
	f, err := s.readFrame()
	if err != nil {
		s.ended = err.Error()
		return false, false
	}
	canon, err := f.Canon()
	if want := "CapabilitiesSet{capabilities=Capabilities{capabilities[Capability{name=" + mStr("tls") + " value=" + sBool(true) + " }] } }"; err != nil || canon != want {
		s.exposed = fmt.Sprintf("with TLS configured the first message is %q (%v)", canon, err)
		return false, true
	}
	s.mayCancel()
	switch s.pick(s.m.caps, "reply to the TLS request", capNames) {
	case kOK:
		s.send(frame(sOK, nil))
	case kNoticeOK:
		s.send(noticeFrame(2))
		s.send(frame(sOK, nil))
	case kInjected:
		b := frame(sOK, nil)
		b = append(b, frame(sAuthOK, nil)...)
		b = append(b, authContinueFrame("01234567890123456789")...)
		b = append(b, frame(sAuthOK, nil)...)
		s.conn.Write(b)
	case kError:
		s.capError = &eNoTLS
		s.send(eNoTLS.frame())
		// stay, and see what the client sends
		io.Copy(io.Discard, s.rec)
		return false, true
	case kFatal:
		s.capError = &eNoTLSF
		s.send(eNoTLSF.frame())
		return false, true
	case kClose:
		return false, true
	case kZero:
		s.send([]byte{0, 0, 0, 0, 0})
		return false, true
	case kTruncated:
		s.send(s.truncated(frame(sOK, nil)))
		return false, true
	case kStall:
		s.stalled = true
		return false, false
	}
	cert := certGood
	s.mayCancel()
	switch h := s.pick(s.m.handshake, "TLS handshake", hsNames); h {
	case hGood:
	case hUntrusted, hWrongName, hExpired:
		cert = h
	case hClose:
		return false, true
	case hGarbage:
		var b [4096]byte
		if _, err := s.rec.Read(b[:]); err != nil {
			return false, true
		}
		s.conn.Write([]byte(strings.Repeat("this is not TLS ", 8)))
		// stay, and see what the client sends
		io.Copy(io.Discard, s.rec)
		return false, true
	case hClear:
		// carry on in clear, accepting whatever comes
		var b [4096]byte
		for {
			if _, err := s.rec.Read(b[:]); err != nil {
				return false, true
			}
			if _, err := s.conn.Write(bytes.Repeat(frame(sAuthOK, nil), 5)); err != nil {
				io.Copy(io.Discard, s.rec)
				return false, true
			}
		}
	case hStall:
		s.stalled = true
		return false, false
	case hCut:
		s.rec.limit = s.m.cut(s.r)
		s.logf("cut after %d bytes", s.rec.limit)
	}
	conf := &tls.Config{Certificates: []tls.Certificate{pki.certs[cert]}, MinVersion: tls.VersionTLS12, SessionTicketsDisabled: true}
	if s.m.asksCert {
		conf.ClientAuth = tls.RequireAnyClientCert
		conf.MaxVersion = tls.VersionTLS12 // the client learns of a refusal in the handshake
	}
	t := tls.Server(s.rec, conf)
	if err := t.Handshake(); err != nil {
		s.ended = "handshake: " + err.Error()
		return false, true
	}
	s.tlsDone = true
	s.conn = t
	return true, false
}

// outcome of one connection attempt.
type outcome struct {
	s      *xsrv
	err    error
	secure bool
	probe  error
	late   bool
}

// connect runs the real connector against the scripted server.
func connect(r *engine.Run, tr, mech int, c cred, m menu, limit time.Duration) *outcome {
	setupPKI()
	var conf *tls.Config
	if tr == trTLS || tr == trUnixTLS {
		conf = &tls.Config{RootCAs: pki.roots, ServerName: tlsName}
	}
	return connectWith(r, tr, mech, c, m, limit, conf)
}

func connectWith(r *engine.Run, tr, mech int, c cred, m menu, limit time.Duration, conf *tls.Config) *outcome {
	network, addr := "tcp", "127.0.0.1:0"
	if tr == trUnix || tr == trUnixTLS {
		network = "unix"
		addr = filepath.Join(pki.dir, fmt.Sprintf("s%d", pki.seq.Add(1)))
	}
	ln, err := listen(network, addr)
	if err != nil {
		r.HarnessFailf("listen: %v", err)
	}
	defer ln.Close()
	cn, err := connector.New(network, ln.Addr().String(), connOptions(mech, c, conf)...)
	if err != nil {
		r.Failf("connector.New: %v", err)
	}
	return attempt(r, cn, ln, tr, mech, c, m, limit)
}

// connOptions are the options of a connector; mechanism mechDefault sets none.
func connOptions(mech int, c cred, conf *tls.Config) []connector.Option {
	opts := []connector.Option{connector.WithUserPassword(c.user, c.pass), connector.WithDatabase(c.db)}
	if mech != mechDefault {
		opts = append(opts, connector.WithAuthentication(mechs[mech].mk()))
	}
	if conf != nil {
		opts = append(opts, connector.WithTLSConfig(conf))
	}
	return opts
}

const mechDefault = -1

// attempt opens one connection with cn, which dials ln.
func attempt(r *engine.Run, cn *connector.Connector, ln net.Listener, tr, mech int, c cred, m menu, limit time.Duration) *outcome {
	s := &xsrv{r: r, m: m, tr: tr, c: c, ln: ln, acc: make(chan struct{}), done: make(chan struct{})}
	if mech != mechDefault {
		s.mech = mechs[mech].name
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	if m.bare {
		cancel()
		ctx, cancel = context.WithCancel(context.Background())
		watch := time.AfterFunc(2*limit, func() {
			if s.raw != nil {
				s.raw.Close()
			}
		})
		defer watch.Stop()
	}
	defer cancel()
	s.cancel = cancel
	go s.serve()
	o := &outcome{s: s}
	conn, err := cn.New(ctx)
	o.err = err
	if err == nil {
		pctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
		o.secure = conn.IsSecure()
		var out []netx.Response
		out, o.probe = conn.Send(pctx, frame(12, pbBytes(nil, 1, "SELECT 1")))
		if o.probe == nil && (len(out) != 1 || out[0] != nil) {
			o.probe = fmt.Errorf("responses %v", out)
		}
		cancel()
		conn.Close()
	}
	// let the server take the connection before the listener goes
	select {
	case <-s.acc:
	case <-time.After(2 * time.Second):
		ln.Close()
	}
	<-s.done
	r.StepN(1 + len(s.log))
	if s.panicked != nil {
		panic(s.panicked)
	}
	for _, l := range s.log {
		r.Notef("%s", l)
	}
	r.StateS(fmt.Sprint(tr, mech, s.log, err == nil))
	return o
}

func (o *outcome) String() string {
	return fmt.Sprintf("%s, %s, server: %s", trNames[o.s.tr], o.s.mech, strings.Join(o.s.log, "; "))
}

// checkC14: New succeeds exactly when the server accepted.
func checkC14(r *engine.Run, o *outcome) {
	s := o.s
	if s.bad != "" {
		r.Failf("%v: %s", o, s.bad)
	}
	if !s.dialled {
		r.Failf("%v: the connector did not dial (%v)", o, o.err)
	}
	if s.accepted && o.err != nil {
		r.Failf("%v: the server accepted, New reported %v", o, o.err)
	}
	if !s.accepted && o.err == nil {
		r.Failf("%v: the server did not accept, New reported success", o)
	}
	if o.err == nil && o.probe != nil {
		r.Failf("%v: the new connection is not usable: %v", o, o.probe)
	}
	if s.capError != nil && !s.capError.matches(o.err) {
		r.Failf("%v: the server refused TLS with its error %+v, New reported %v", o, *s.capError, o.err)
	}
	if n := len(s.refusals); n > 0 && o.err != nil {
		// the last thing the server said was a refusal
		ok := false
		for _, e := range s.refusals {
			ok = ok || e.matches(o.err)
		}
		if !ok && (s.lastReplyWasRefusal() || s.attempts == 1) {
			r.Failf("%v: New reported %v instead of the server's error", o, o.err)
		}
	}
	if secure := s.tr != trTCP; secure && len(s.refusals) == 1 && s.refusals[0].severity < 1 && s.attempts == 1 && s.lastDenied {
		r.Failf("%v: access was denied on a secure connection and clear-text authentication was not tried", o)
	}
}

func (s *xsrv) lastReplyWasRefusal() bool {
	if len(s.log) == 0 {
		return false
	}
	l := s.log[len(s.log)-1]
	return strings.HasPrefix(l, "{") || strings.HasSuffix(l, replyNames[rDenied]) || strings.HasSuffix(l, replyNames[rOtherError]) || strings.HasSuffix(l, replyNames[rFatalDenied])
}

// checkC16: what was exposed, and what was trusted.
func checkC16(r *engine.Run, o *outcome) {
	s := o.s
	if s.exposed != "" {
		r.Failf("%v: %s", o, s.exposed)
	}
	if s.rec == nil {
		return
	}
	if s.tr == trTLS {
		b := s.rec.got
		fr := 0
		if len(b) >= 5 {
			fr = 4 + int(binary.LittleEndian.Uint32(b))
		}
		if fr > len(b) || fr == 0 {
			if len(b) > 0 {
				r.Failf("%v: the clear-text bytes % x are not a TLS request", o, clip(string(b)))
			}
			return
		}
		for rest := b[fr:]; len(rest) > 0; {
			if rest[0] < 20 || rest[0] > 23 || len(rest) > 1 && rest[1] != 3 {
				r.Failf("%v: after the TLS request the client sent %q in clear", o, clip(string(rest)))
			}
			if len(rest) < 5 {
				break
			}
			n := 5 + int(rest[3])<<8 + int(rest[4])
			if n > len(rest) {
				break
			}
			rest = rest[n:]
		}
		if o.err == nil && !s.tlsDone {
			r.Failf("%v: New succeeded without TLS", o)
		}
		if o.err == nil && !(s.accepted && s.tlsDone) {
			r.Failf("%v: New succeeded on what the server said in clear", o)
		}
	}
	if s.tr == trTCP || s.tr == trTLS {
		if s.mech != "PLAIN" || s.tr == trTLS {
			if s.c.pass != "" && bytes.Contains(s.rec.got, []byte(s.c.pass)) {
				r.Failf("%v: the password was sent in clear", o)
			}
		}
	}
	if s.tr == trTLS && (s.c.user != "" && bytes.Contains(s.rec.got, []byte(s.c.user)) || s.c.db != "" && bytes.Contains(s.rec.got, []byte(s.c.db))) {
		r.Failf("%v: the user or database name was sent in clear", o)
	}
	if o.err == nil && o.secure != (s.tr != trTCP) {
		r.Failf("%v: IsSecure reports %v", o, o.secure)
	}
}

// checkC17: the socket is released.
func checkC17(r *engine.Run, o *outcome) {
	s := o.s
	if !s.dialled {
		return
	}
	if o.err != nil && !s.released {
		r.Failf("%v: New reported %q and left its socket open", o, o.err)
	}
	if o.err == nil {
		if o.probe != nil {
			r.Failf("%v: the new connection is not usable: %v", o, o.probe)
		}
		if s.probes != 1 {
			r.Failf("%v: the server got %d messages after accepting", o, s.probes)
		}
	}
}

func seq(n int, without ...int) []int {
	var out []int
outer:
	for i := 0; i < n; i++ {
		for _, w := range without {
			if i == w {
				continue outer
			}
		}
		out = append(out, i)
	}
	return out
}

var stdCred = cred{"kelvin-user-17", "pa55-word+unguessable", "inventory_db"}

func connScenarios(check func(r *engine.Run, o *outcome), thorough bool) []engine.Scenario {
	run := func(r *engine.Run, tr, mech int, c cred, m menu) {
		check(r, connect(r, tr, mech, c, m, 8*time.Second))
	}
	full := menu{auth: seq(nReplies, rStall), caps: []int{kOK}, handshake: []int{hGood}, notices: true}
	scs := []engine.Scenario{
		{Name: "authentication replies", Bound: "{tcp, unix, unix with a TLS configuration} x 3 mechanisms x every sequence of server replies (10 kinds, each with or without a notice) until the client is done",
			Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) {
				tr := []int{trTCP, trUnix, trUnixTLS}[r.Choose(3, "transport")]
				run(r, tr, r.Choose(3, "mechanism"), stdCred, full)
			}},
		{Name: "authentication replies over TLS", Bound: "TLS x 3 mechanisms x every sequence of server replies (10 kinds, each with or without a notice) until the client is done",
			Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) { run(r, trTLS, r.Choose(3, "mechanism"), stdCred, full) }},
		{Name: "starting TLS", Bound: "3 mechanisms x every reply to the TLS request (8 kinds) x every handshake (8 kinds), then AuthenticateOk, challenge or denial, replies whole or bytewise", Confirm: 4,
			Body: func(r *engine.Run) {
				run(r, trTLS, r.Choose(3, "mechanism"), stdCred, menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: seq(nCapReplies, kStall), handshake: seq(nHandshakes, hStall), delivery: true,
					cut: func(r *engine.Run) int { return []int{0, 1, 5, 50, 90, 200, 400, 700}[r.Choose(8, "cut")] }})
			}},
		{Name: "delivery and truncation", Bound: "4 transports x 3 mechanisms x {AuthenticateOk, challenge, denial, an error truncated at every byte}, delivered whole or bytewise", Confirm: 4,
			Body: func(r *engine.Run) {
				run(r, r.Choose(4, "transport"), r.Choose(3, "mechanism"), stdCred, menu{auth: []int{rAuthOK, rContinue, rDenied, rTruncated}, caps: []int{kOK}, handshake: []int{hGood}, delivery: true, truncate: true})
			}},
		{Name: "credentials", Bound: "4 transports x 3 mechanisms x empty, ordinary and long (200 bytes) user, password and database x {AuthenticateOk, challenge, denial}", Confirm: 4,
			Body: func(r *engine.Run) {
				tr, mech := r.Choose(4, "transport"), r.Choose(3, "mechanism")
				c := stdCred
				switch r.Choose(9, "credentials") {
				case 0:
					c = cred{"u-long-" + name0(200, 4), "p-long-" + name0(200, 8), "d-long-" + name0(200, 6)}
				case 1:
					c.pass = "pw-long-" + name0(120, 3)
				case 2:
					c.db = "db-of-thirty-one-bytes-xxxxxxxx"
				case 3:
					c.user = "user-" + name0(70, 1)
				case 4:
					c.pass = ""
				case 5:
					c.user = ""
				case 6:
					c.db = ""
				case 7:
					c = cred{}
				}
				run(r, tr, mech, c, menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: []int{kOK}, handshake: []int{hGood}})
			}},
	}
	lists := refusalList(thorough)
	scs = append(scs,
		engine.Scenario{Name: "contents", Bound: fmt.Sprintf("4 transports x 3 mechanisms x {AuthenticateOk, challenge, denial}; one of (unix: two of) {%d preludes of a reply: notices of every size class, 300 notices; %d challenges; AuthenticateOk data of 0..5000 bytes}", len(preludesOf), len(challengesOf)), Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) {
				tr := r.Choose(4, "transport")
				n := 1
				if tr == trUnix || thorough && tr != trTCP {
					n = 2
				}
				run(r, tr, r.Choose(3, "mechanism"), stdCred, menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: []int{kOK}, handshake: []int{hGood}, contents: n})
			}},
		engine.Scenario{Name: "refusals", Bound: fmt.Sprintf("3 mechanisms x {tcp, unix, tls} x the server refuses the first message with one of %d errors (codes x SQL states x severities x texts), then accepts or refuses whatever follows", len(lists)), Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) {
				tr := []int{trTCP, trUnix, trTLS}[r.Choose(3, "transport")]
				if tr == trTLS && !thorough {
					// handshakes are dear: the codes that matter most
					run(r, tr, r.Choose(3, "mechanism"), stdCred, menu{first: []int{rListed}, errs: lists[:40], auth: []int{rAuthOK, rDenied}, caps: []int{kOK}, handshake: []int{hGood}})
					return
				}
				run(r, tr, r.Choose(3, "mechanism"), stdCred, menu{first: []int{rListed}, errs: lists, auth: []int{rAuthOK, rDenied}, caps: []int{kOK}, handshake: []int{hGood}})
			}},
		engine.Scenario{Name: "refusals after a challenge", Bound: "2 mechanisms x {tcp, unix} x the server sends a challenge and refuses the answer with one of 40 errors, then accepts or refuses whatever follows", Confirm: 4,
			Body: func(r *engine.Run) {
				tr := []int{trTCP, trUnix}[r.Choose(2, "transport")]
				mech := r.Choose(3, "mechanism")
				if mechs[mech].name == "PLAIN" {
					return
				}
				run(r, tr, mech, stdCred, menu{first: []int{rContinue}, errs: lists[:40], auth: []int{rListed, rAuthOK}, caps: []int{kOK}, handshake: []int{hGood}})
			}},
		engine.Scenario{Name: "one connector, several connections", Bound: fmt.Sprintf("4 transports x 4 mechanisms (3 and the default) x %d connections one after another with the same connector, each {accepted, challenged, denied, refused, closed, cut short} at every step", 2), Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) {
				tr, mech := r.Choose(4, "transport"), r.Choose(4, "mechanism")-1
				m := menu{auth: []int{rAuthOK, rContinue, rDenied, rOtherError, rClose, rBadError}, caps: []int{kOK}, handshake: []int{hGood}}
				if tr == trTLS {
					m = menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: []int{kOK, kError}, handshake: []int{hGood, hUntrusted}}
				}
				reuse(r, check, tr, mech, m, []menu{m, m})
			}},
		engine.Scenario{Name: "TLS configurations", Bound: "9 TLS configurations (server name and authorities right, missing or wrong, no verification, own verification, versions, client certificate) x 4 server certificates x client certificate asked for or not x {AuthenticateOk, challenge, denial}; context with and without a deadline", Confirm: 4,
			Body: func(r *engine.Run) {
				setupPKI()
				conf := &tls.Config{RootCAs: pki.roots, ServerName: tlsName}
				h := []int{hGood, hUntrusted, hWrongName, hExpired}[r.Choose(4, "certificate")]
				asks := r.Bool("asks for a certificate")
				trusted := h == hGood && !asks
				switch r.Choose(9, "configuration") {
				case 0:
				case 1:
					conf.ServerName, trusted = "", false
				case 2:
					conf.ServerName, trusted = "elsewhere.test", h == hWrongName && !asks
				case 3:
					conf.RootCAs, trusted = x509.NewCertPool(), false
				case 4:
					conf = &tls.Config{InsecureSkipVerify: true}
					trusted = !asks
				case 5:
					conf.VerifyConnection, trusted = func(tls.ConnectionState) error { return errUser }, false
				case 6:
					conf.VerifyPeerCertificate, trusted = func([][]byte, [][]*x509.Certificate) error { return errUser }, false
				case 7:
					conf.MinVersion, conf.MaxVersion, trusted = tls.VersionTLS10, tls.VersionTLS11, false
				case 8:
					conf.Certificates = []tls.Certificate{pki.certs[certUntrusted]}
					trusted = h == hGood
				}
				before := conf.Clone()
				o := connectWith(r, trTLS, r.Choose(3, "mechanism"), stdCred, menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: []int{kOK}, handshake: []int{h}, asksCert: asks, bare: r.Bool("no deadline")}, 8*time.Second, conf)
				if !trusted && (o.err == nil || len(o.s.seen) > 0) {
					r.Failf("%v: the configuration does not admit the server; New reported %v and %d authentication messages were sent", o, o.err, len(o.s.seen))
				}
				if trusted && !o.s.tlsDone {
					r.Failf("%v: the configuration admits the server; New reported %v", o, o.err)
				}
				if conf.ServerName != before.ServerName || conf.InsecureSkipVerify != before.InsecureSkipVerify || conf.MinVersion != before.MinVersion || conf.MaxVersion != before.MaxVersion || len(conf.Certificates) != len(before.Certificates) {
					r.Failf("%v: the caller's TLS configuration was changed", o)
				}
				check(r, o)
			}},
		engine.Scenario{Name: "options", Bound: "4 transports x 4 mechanisms (3 and the default) x the connector's options in every order x {AuthenticateOk, challenge, denial}", Confirm: 4,
			Body: func(r *engine.Run) {
				tr, mech := r.Choose(4, "transport"), r.Choose(4, "mechanism")-1
				m := menu{auth: []int{rAuthOK, rContinue, rDenied}, caps: []int{kOK}, handshake: []int{hGood}}
				reuse(r, check, tr, mech, m, []menu{m})
			}})
	many := 1100
	if thorough {
		many = 10000
	}
	scs = append(scs, engine.Scenario{Name: "one connector, many connections", Bound: fmt.Sprintf("{unix, unix with a TLS configuration} x 4 mechanisms (3 and the default) x %d connections one after another with the same connector: all accepted at once, all challenged, all denied, all refused, in turn", many), Confirm: 1,
		Body: func(r *engine.Run) {
			tr, mech := []int{trUnix, trUnixTLS}[r.Choose(2, "transport")], r.Choose(4, "mechanism")-1
			kinds := []menu{
				{first: []int{rAuthOK}, auth: []int{rAuthOK}},
				{first: []int{rContinue}, auth: []int{rAuthOK}},
				{first: []int{rDenied}, auth: []int{rAuthOK}},
				{first: []int{rDenied}, auth: []int{rDenied}},
				{first: []int{rOtherError}, auth: []int{rAuthOK}},
			}
			which := r.Choose(len(kinds)+1, "replies")
			ms := make([]menu, many)
			for i := range ms {
				k := which
				if k == len(kinds) {
					k = i % len(kinds)
				}
				ms[i] = kinds[k]
				ms[i].caps, ms[i].handshake = []int{kOK}, []int{hGood}
			}
			reuse(r, check, tr, mech, ms[0], ms)
		}})
	if thorough {
		scs = append(scs, engine.Scenario{Name: "one connector, three connections", Bound: "unix x 4 mechanisms x 3 connections one after another with the same connector, each {accepted, challenged, denied, refused, closed} at every step", Weight: 2, Confirm: 4,
			Body: func(r *engine.Run) {
				m := menu{auth: []int{rAuthOK, rContinue, rDenied, rOtherError}, caps: []int{kOK}, handshake: []int{hGood}}
				reuse(r, check, trUnix, r.Choose(4, "mechanism")-1, m, []menu{m, m, m})
			}})
	}
	return scs
}

// reuse opens several connections with one connector. With a single one, its options come in every order.
func reuse(r *engine.Run, check func(r *engine.Run, o *outcome), tr, mech int, m menu, ms []menu) {
	setupPKI()
	network, addr := "tcp", "127.0.0.1:0"
	if tr == trUnix || tr == trUnixTLS {
		network = "unix"
		addr = filepath.Join(pki.dir, fmt.Sprintf("s%d", pki.seq.Add(1)))
	}
	ln, err := listen(network, addr)
	if err != nil {
		r.HarnessFailf("listen: %v", err)
	}
	defer ln.Close()
	var conf *tls.Config
	if tr == trTLS || tr == trUnixTLS {
		conf = &tls.Config{RootCAs: pki.roots, ServerName: tlsName}
	}
	opts := connOptions(mech, stdCred, conf)
	if len(ms) == 1 {
		var p []connector.Option
		for len(opts) > 0 {
			k := r.Choose(len(opts), "option")
			p = append(p, opts[k])
			opts = append(opts[:k:k], opts[k+1:]...)
		}
		opts = p
	}
	cn, err := connector.New(network, ln.Addr().String(), opts...)
	if err != nil {
		r.Failf("connector.New: %v", err)
	}
	for i, m := range ms {
		r.Notef("connection %d", i)
		check(r, attempt(r, cn, ln, tr, mech, stdCred, m, 8*time.Second))
	}
}

// refusalList are the errors a server may refuse with; the first 40 are the most telling.
func refusalList(thorough bool) []srvErr {
	var out []srvErr
	add := func(code uint32, state string, sev int, msg string) { out = append(out, srvErr{sev, code, state, msg}) }
	const denied = "Access denied for user 'kelvin-user-17'@'localhost' (using password: YES)"
	add(1045, "28000", 0, denied)
	add(1045, "HY000", -1, denied)
	add(1045, "28000", 1, denied)
	add(1045, "", 0, "")
	add(1045, "00000", 0, pattern(5000))
	for _, code := range []uint32{1044, 1046, 1049, 1040, 1129, 1130, 1203, 1226, 1227, 1251, 1524, 1698, 1820, 1862, 3118, 3159, 3955, 4151} {
		add(code, "28000", 0, denied)
	}
	for _, code := range []uint32{0, 1, 2, 45, 1041, 1047, 1053, 1069, 2045, 3032, 5000, 11045, 10450, 1045 << 16, 1045 | 1<<16} {
		add(code, "28000", 0, "refused")
	}
	for k := 0; k < 32; k++ {
		add(1045^1<<k, "HY000", 0, denied)
		add(1<<k, "28000", 0, denied)
	}
	for c := uint32(1000); c < 1100; c++ {
		add(c, "42000", -(int(c) % 2), "refused")
	}
	if thorough {
		for c := uint32(0); c < 6000; c++ {
			add(c, []string{"28000", "HY000", "42000"}[c%3], 0, "refused")
		}
	}
	return out
}

func init() {
	assume := []string{"AuthenticateOk is the only acceptance a server sends in reply to an authentication message", "loopback and Unix sockets of this machine stand for the network; a close is seen by the peer within 3 s"}
	register(&Prop{ID: "C14", Assumptions: assume, Scenarios: func(t Tier) []engine.Scenario { return connScenarios(checkC14, t.Thorough) }})
	register(&Prop{ID: "C16", Assumptions: assume, Scenarios: func(t Tier) []engine.Scenario { return connScenarios(checkC16, t.Thorough) }})
	register(&Prop{ID: "C17", Assumptions: assume, Scenarios: func(t Tier) []engine.Scenario {
		// A leaked socket must stay open until it is looked at, not until it is collected.
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(8 << 30)
		scs := connScenarios(checkC17, t.Thorough)
		step := t.pick(7, 1)
		scs = append(scs,
			engine.Scenario{Name: "TLS cut off", Bound: fmt.Sprintf("the server's TLS bytes stop after every %d-th byte 0..900", step), Confirm: 4,
				Body: func(r *engine.Run) {
					checkC17(r, connect(r, trTLS, 0, stdCred, menu{auth: []int{rAuthOK}, caps: []int{kOK}, handshake: []int{hCut},
						cut: func(r *engine.Run) int { return step * r.Choose(900/step+1, "cut") }}, 8*time.Second))
				}},
			engine.Scenario{Name: "stalls", Bound: "4 transports x 3 mechanisms x the server stops answering at any step (TLS request, handshake, start, continue, second attempt) and the context's deadline passes", Confirm: 3,
				Body: func(r *engine.Run) {
					tr, mech := r.Choose(4, "transport"), r.Choose(3, "mechanism")
					o := connect(r, tr, mech, stdCred, menu{auth: []int{rStall, rContinue, rDenied}, caps: []int{kStall, kOK}, handshake: []int{hStall, hGood}}, 250*time.Millisecond)
					if o.err == nil {
						r.Failf("%v: New reported success", o)
					}
					checkC17(r, o)
				}},
			engine.Scenario{Name: "contexts ending meanwhile", Bound: "4 transports x 3 mechanisms x the context, with or without a deadline, ends before any reply of the server, x every sequence of {AuthenticateOk, challenge, denial, another error, closing}", Confirm: 4,
				Body: func(r *engine.Run) {
					tr, mech := r.Choose(4, "transport"), r.Choose(3, "mechanism")
					checkC17(r, connect(r, tr, mech, stdCred, menu{auth: []int{rAuthOK, rContinue, rDenied, rOtherError, rClose}, caps: []int{kOK, kError}, handshake: []int{hGood, hUntrusted}, cancels: true, bare: r.Bool("no deadline")}, 8*time.Second))
				}},
			engine.Scenario{Name: "nothing to release", Bound: "dialling fails (nobody listens) or the context is already cancelled", Confirm: 4,
				Body: func(r *engine.Run) {
					setupPKI()
					ln, err := listen("tcp", "127.0.0.1:0")
					if err != nil {
						r.HarnessFailf("%v", err)
					}
					addr := ln.Addr().String()
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					if r.Bool("cancelled") {
						cancel()
					} else {
						ln.Close()
					}
					cn, err := connector.New("tcp", addr)
					if err != nil {
						r.Failf("%v", err)
					}
					if _, err := cn.New(ctx); err == nil {
						r.Failf("New reported success")
					}
					ln.Close()
					r.Step()
				}})
		return scs
	}})
}
