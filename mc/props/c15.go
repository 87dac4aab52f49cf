package props

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/renthraysk/xtorm/netx/connector/authentication"

	"verif.local/mc/engine"
	"verif.local/mc/xwire"
)

const (
	cAuthStart    = 4
	cAuthContinue = 5
)

// authMessage decodes one authentication message.
func authMessage(b []byte) (typ byte, mech, data string, hasData bool, err error) {
	fs, err := xwire.Frames(b)
	if err != nil {
		return 0, "", "", false, err
	}
	if len(fs) != 1 {
		return 0, "", "", false, fmt.Errorf("%d messages", len(fs))
	}
	if _, err := fs[0].Canon(); err != nil {
		return 0, "", "", false, err
	}
	f := xwire.BytesFields(fs[0].Payload)
	switch fs[0].Type {
	case cAuthStart:
		d, ok := f[2]
		if _, init := f[3]; init {
			return 0, "", "", false, fmt.Errorf("unexpected initial_response")
		}
		return cAuthStart, f[1], d, ok && d != "", nil
	case cAuthContinue:
		return cAuthContinue, "", f[1], true, nil
	}
	return 0, "", "", false, fmt.Errorf("message type %d", fs[0].Type)
}

// verifyProof plays the server's part of mechanism mech.
func verifyProof(mech string, c cred, challenge []byte, data string) error {
	prefix := c.db + "\x00" + c.user + "\x00"
	if len(data) < len(prefix) || data[:len(prefix)] != prefix {
		return fmt.Errorf("authentication data %q does not start with the database and user %q", clip(data), clip(prefix))
	}
	proof := data[len(prefix):]
	switch mech {
	case "PLAIN":
		if proof != c.pass {
			return fmt.Errorf("PLAIN sends %q as the password %q", clip(proof), clip(c.pass))
		}
	case "MYSQL41":
		if c.pass == "" {
			if proof != "" {
				return fmt.Errorf("MYSQL41 sends the proof %q for an empty password", proof)
			}
			return nil
		}
		if len(proof) != 41 || proof[0] != '*' {
			return fmt.Errorf("MYSQL41 proof %q is not * and 40 hex digits", clip(proof))
		}
		p, err := hex.DecodeString(proof[1:])
		if err != nil {
			return fmt.Errorf("MYSQL41 proof %q is not hexadecimal", proof)
		}
		// What the server stores, and its check of the scramble.
		s1 := sha1.Sum([]byte(c.pass))
		stored := sha1.Sum(s1[:])
		mask := sha1.Sum(append(append([]byte(nil), challenge...), stored[:]...))
		for i := range p {
			p[i] ^= mask[i]
		}
		if sha1.Sum(p) != stored {
			return fmt.Errorf("the MYSQL41 proof %q does not verify", proof)
		}
	case "SHA256_MEMORY":
		if len(proof) != 64 {
			return fmt.Errorf("SHA256_MEMORY proof %q is not 64 hex digits", clip(proof))
		}
		p, err := hex.DecodeString(proof)
		if err != nil {
			return fmt.Errorf("SHA256_MEMORY proof %q is not hexadecimal", proof)
		}
		s1 := sha256.Sum256([]byte(c.pass))
		stored := sha256.Sum256(s1[:])
		mask := sha256.Sum256(append(append([]byte(nil), stored[:]...), challenge...))
		for i := range p {
			p[i] ^= mask[i]
		}
		if sha256.Sum256(p) != stored {
			return fmt.Errorf("the SHA256_MEMORY proof %q does not verify", proof)
		}
	}
	return nil
}

// poison is a message buffer of the given capacity with recognisable leftovers.
func poison(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xA5
	}
	return b[:0]
}

// checkMech runs both steps of a mechanism directly.
func checkMech(r *engine.Run, name string, s authentication.Starter, c cred, challenge []byte, bufCap int) {
	fail := func(err error) {
		r.Failf("%s, database %d bytes, user %d bytes, password %d bytes, challenge %x, buffer %d: %v", name, len(c.db), len(c.user), len(c.pass), clip(string(challenge)), bufCap, err)
	}
	b := s.Start(poison(bufCap), c)
	typ, mech, data, has, err := authMessage(b)
	if err == nil && typ != cAuthStart {
		err = fmt.Errorf("message type %d", typ)
	}
	if err == nil && mech != name {
		err = fmt.Errorf("mechanism %q", mech)
	}
	if err != nil {
		fail(err)
	}
	r.Step()
	cont, ok := s.(authentication.StartContinuer)
	if !ok {
		if err := verifyProof(name, c, nil, data); err != nil {
			fail(err)
		}
		r.State(b)
		return
	}
	if has {
		fail(fmt.Errorf("the first message reveals %q", clip(data)))
	}
	keep := append([]byte(nil), challenge...)
	b = cont.Continue(poison(bufCap), c, challenge)
	typ, _, data, _, err = authMessage(b)
	if err == nil && typ != cAuthContinue {
		err = fmt.Errorf("message type %d", typ)
	}
	if err == nil {
		err = verifyProof(name, c, keep, data)
	}
	if err != nil {
		fail(err)
	}
	if !bytes.Equal(keep, challenge) {
		fail(fmt.Errorf("the challenge was modified"))
	}
	r.Step()
	r.State(b)
}

// checkExchange authenticates over a connection with a scripted server.
func checkExchange(r *engine.Run, name string, s authentication.Starter, c cred, challenge string) {
	var verr error
	step := 0
	mc := &memConn{}
	mc.onWrite = func(m *memConn, p []byte) {
		if verr != nil {
			return
		}
		typ, mech, data, has, err := authMessage(p)
		switch {
		case err != nil:
			verr = err
		case step == 0 && (typ != cAuthStart || mech != name):
			verr = fmt.Errorf("first message of type %d naming %q", typ, mech)
		case step == 0 && name == "PLAIN":
			verr = verifyProof(name, c, nil, data)
			m.in = append(m.in, frame(sAuthOK, nil)...)
		case step == 0:
			if has {
				verr = fmt.Errorf("first message reveals %q", clip(data))
			}
			m.in = append(m.in, authContinueFrame(challenge)...)
		case step == 1 && name != "PLAIN" && typ == cAuthContinue:
			verr = verifyProof(name, c, []byte(challenge), data)
			m.in = append(m.in, frame(sAuthOK, nil)...)
		default:
			verr = fmt.Errorf("message %d of type %d", step, typ)
		}
		step++
		r.Step()
	}
	err := newConn(mc).Authenticate(bg, c, s)
	if verr == nil && err != nil {
		verr = fmt.Errorf("Authenticate reported %v", err)
	}
	if verr != nil {
		r.Failf("%s exchange, database %d bytes, user %d bytes, password %d bytes, challenge %x: %v", name, len(c.db), len(c.user), len(c.pass), clip(challenge), verr)
	}
	for _, w := range mc.writes {
		r.State(w)
	}
}

// binPattern is n bytes covering all byte values.
func binPattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + i/256 + 200)
	}
	return string(b)
}

// name0 is n non-zero bytes.
func name0(n, salt int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i*7+salt)%255 + 1)
	}
	return string(b)
}

func init() {
	nonce := binPattern(20)
	register(&Prop{ID: "C15",
		Assumptions: []string{"database and user names contain no zero byte (the separator of the authentication data)", "crypto/sha1 and crypto/sha256 are correct"},
		Scenarios: func(t Tier) []engine.Scenario {
			max := t.pick(5000, 17000)
			caps := []int{0, 1, 16, 64, 128, 129, 4096}
			grid := []int{0, 1, 8, 31, 60, 64, 100, 127, 128, 300}
			return []engine.Scenario{
				{Name: "one length", Bound: fmt.Sprintf("3 mechanisms x {database, user, password, challenge} of every length 0..%d, buffers of %v bytes", max, caps),
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						which := r.Choose(4, "varied")
						n := r.Choose(max+1, "length")
						c := cred{"user", "pass word", "db"}
						ch := nonce
						switch which {
						case 0:
							c.db = name0(n, 3)
						case 1:
							c.user = name0(n, 5)
						case 2:
							c.pass = binPattern(n)
						case 3:
							ch = binPattern(n)
						}
						for _, k := range caps {
							checkMech(r, m.name, m.mk(), c, []byte(ch), k)
						}
						checkExchange(r, m.name, m.mk(), c, ch)
						r.Cases(len(caps) + 1)
					}},
				{Name: "all lengths", Bound: fmt.Sprintf("3 mechanisms x database, user, password lengths out of %v x challenge lengths {0,1,19,20,21,64}", grid),
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						c := cred{name0(grid[r.Choose(len(grid), "user")], 1), binPattern(grid[r.Choose(len(grid), "password")]), name0(grid[r.Choose(len(grid), "database")], 9)}
						ch := binPattern([]int{0, 1, 19, 20, 21, 64}[r.Choose(6, "challenge")])
						for _, k := range caps {
							checkMech(r, m.name, m.mk(), c, []byte(ch), k)
						}
						checkExchange(r, m.name, m.mk(), c, ch)
						r.Cases(len(caps) + 1)
					}},
				{Name: "buffer capacities", Bound: "3 mechanisms x total sizes 0..200 x every buffer capacity 0..400",
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						n := r.Choose(201, "size")
						c := cred{name0(n/3, 1), binPattern(n - n/3), "x"}
						for k := 0; k <= 400; k++ {
							checkMech(r, m.name, m.mk(), c, []byte(nonce), k)
						}
						r.Cases(401)
					}},
				{Name: "password bytes", Bound: "3 mechanisms x every password of one or two bytes",
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						a := r.Choose(256, "first byte")
						s := m.mk()
						checkMech(r, m.name, s, cred{"u", string([]byte{byte(a)}), "d"}, []byte(nonce), 128)
						for b := 0; b < 256; b++ {
							checkMech(r, m.name, s, cred{"u", string([]byte{byte(a), byte(b)}), "d"}, []byte(nonce), 128)
						}
						r.Cases(257)
					}},
				{Name: "challenge bytes", Bound: "2 challenge mechanisms x every value of every byte of a 20-byte challenge x passwords {empty, short, long}, directly and over a connection",
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(2, "mechanism")]
						i := r.Choose(20, "position")
						c := cred{"u", []string{"", "secret", binPattern(77)}[r.Choose(3, "password")], "d"}
						s := m.mk()
						for v := 0; v < 256; v++ {
							ch := []byte(nonce)
							ch[i] = byte(v)
							checkMech(r, m.name, s, c, ch, 128)
							checkExchange(r, m.name, s, c, string(ch))
						}
						r.Cases(512)
					}},
				{Name: "contents", Bound: "3 mechanisms x {user, password, database, challenge}: of every length 0..70 with each of 10 bytes (zero, space, newline, 0xff, ...; zero only in password and challenge) first, last, at both ends or throughout; and every text of the word list, alone, doubled and at the end of a long one; directly and over a connection",
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						which := r.Choose(4, "varied")
						try := func(x string) {
							if which%2 == 0 && strings.IndexByte(x, 0) >= 0 {
								return
							}
							c, ch := cred{"user", "pass word", "db"}, nonce
							switch which {
							case 0:
								c.db = x
							case 1:
								c.pass = x
							case 2:
								c.user = x
							case 3:
								ch = x
							}
							checkMech(r, m.name, m.mk(), c, []byte(ch), 128)
							checkExchange(r, m.name, m.mk(), c, ch)
							r.Cases(2)
						}
						if k := r.Choose(72, "length"); k < 71 {
							b := "\x00 \n\r\t\xff'a*0"[r.Choose(10, "byte")]
							x := []byte(name0(k, 11))
							try(string(x))
							if k == 0 {
								return
							}
							y := append([]byte(nil), x...)
							y[0] = b
							try(string(y))
							y[k-1] = b
							try(string(y))
							y[0] = x[0]
							try(string(y))
							try(strings.Repeat(string([]byte{b}), k))
							return
						}
						for _, w := range wordList {
							try(w)
							try(w + w)
							try(pattern(130) + w)
							try(w + pattern(130))
						}
					}},
				{Name: "repeated use", Bound: fmt.Sprintf("one mechanism value used for every sequence of %d authentications over 4 credentials x 2 challenges", t.pick(4, 6)),
					Body: func(r *engine.Run) {
						m := mechs[r.Choose(len(mechs), "mechanism")]
						s := m.mk()
						for k := 0; k < t.pick(4, 6); k++ {
							c := []cred{{"alice", "one", "a"}, {"bob", "", "b"}, {"", "x", ""}, {name0(150, 2), binPattern(90), "zz"}}[r.Choose(4, "credentials")]
							ch := []string{nonce, binPattern(33)}[r.Choose(2, "challenge")]
							checkExchange(r, m.name, s, c, ch)
						}
					}},
			}
		}})
}
