// Package hauth checks authentication and the handshake (C23-C30).
package hauth

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

const (
	anonymous  = "anonymous"
	ticket     = "ticket"
	wampcra    = "wampcra"
	cryptosign = "cryptosign"
)

var methods = []string{anonymous, ticket, wampcra, cryptosign}

// server is a ServerAuthenticator that knows one user and records what it was
// asked.
type server struct {
	methods []auth.Method
	refuse  bool // whatever is asked

	ticket     string
	secret     string
	salt       string
	iterations int
	keylen     int
	pubkey     string

	authid, role string // what it grants

	asked []auth.Request
	given []auth.Response // nil where it refused
}

func (s *server) Methods() []auth.Method { return s.methods }

func (s *server) Authenticate(r auth.Request) (auth.Response, error) {
	s.asked = append(s.asked, r)
	s.given = append(s.given, nil)
	if s.refuse {
		return nil, errors.New("refused")
	}
	var resp auth.Response
	switch string(r.AuthMethod()) {
	case anonymous:
		resp, _ = auth.NewResponse(s.authid, s.role, 0)
	case ticket:
		t, ok := r.(*auth.TicketRequest)
		if !ok || !sym.Branch(sym.Eq(t.Ticket(), s.ticket)) {
			return nil, errors.New("wrong ticket")
		}
		resp, _ = auth.NewResponse(s.authid, s.role, 0)
	case wampcra:
		if s.salt == "" {
			resp = auth.NewCRAResponse(s.authid, s.role, s.secret, 0)
		} else {
			resp = auth.NewCRAResponseSalted(s.authid, s.role, s.secret, s.salt, s.iterations, s.keylen, 0)
		}
	case cryptosign:
		c, ok := r.(*auth.RequestCryptoSign)
		if !ok || !sym.Branch(sym.Eq(c.PublicKey(), s.pubkey)) {
			return nil, errors.New("wrong key")
		}
		resp, _ = auth.NewResponse(s.authid, s.role, 0)
	default:
		return nil, errors.New("unknown method")
	}
	s.given[len(s.given)-1] = resp
	return resp, nil
}

func newServer() *server {
	s := &server{ticket: "tick", secret: "secret", authid: sym.Str("granted authid", 2), role: sym.Str("granted authrole", 3)}
	for _, m := range methods {
		s.methods = append(s.methods, auth.Method(m))
	}
	return s
}

// key is a cryptosign key pair.
type key struct {
	seed []byte
	priv ed25519.PrivateKey
	pub  string
}

func newKey(name string) *key {
	k := &key{seed: sym.Bytes(name, 32)}
	k.priv = ed25519.NewKeyFromSeed(k.seed)
	k.pub = hex.EncodeToString(k.priv[32:])
	return k
}

func (k *key) sign(challenge string) string {
	s, err := auth.SignCryptoSignChallenge(challenge, k.priv)
	sym.Assert(err == nil, "a hex challenge can be signed")
	return s
}

// craKey is what the server's user signs with.
func (s *server) craKey() []byte {
	if s.salt == "" {
		return []byte(s.secret)
	}
	return auth.DeriveWAMPCRAKey(s.salt, s.secret, s.iterations, s.keylen)
}

// hs is a handshake of one peer with an acceptor.
type hs struct {
	a      *wampproto.Acceptor
	srv    *server
	method string
	hello  *messages.Hello
	key    *key

	extra     map[string]any // of AUTHENTICATE
	challenge string         // issued
	welcomed  bool
	aborted   bool
}

func newHS(method string) *hs { return newPeer(method, sym.Choice("peer", 4)) }

// newPeer has a plain peer, one that leaves empty what it can, one that is
// granted no name (3), or one that
// fills in whatever the code could take notice of.
func newPeer(method string, peer int) *hs {
	h := &hs{srv: newServer(), method: method}
	if method == cryptosign {
		h.key = newKey("seed")
		h.srv.pubkey = h.key.pub
	}
	if method == wampcra && sym.Choice("salted", 2) == 1 {
		h.srv.salt = "salt"
		h.srv.iterations = 10
		h.srv.keylen = []int{0, 32}[sym.Choice("keylen", 2)]
	}
	h.a = wampproto.NewAcceptor(nil, h.srv)
	extra := map[string]any{"x": "y"}
	realm, id := sym.Str("realm", 2), sym.Str("authid", 2)
	h.extra = map[string]any{}
	switch peer {
	case 1:
		realm, id, h.extra = "", "", nil
		h.srv.authid, h.srv.role = "", ""
	case 3:
		h.srv.authid, h.srv.role = "", ""
	case 2:
		extra = odd.With(extra, odd.Dict())
		delete(extra, "pubkey")
		h.extra = odd.Dict("challenge")
		h.extra["pubkey"] = "00"
	}
	if h.key != nil {
		extra["pubkey"] = h.key.pub
	}
	h.hello = messages.NewHello(realm, id, extra, map[string]any{}, []string{method})
	return h
}

// session tells whether there are session details.
func (h *hs) session() bool {
	d, err := h.a.SessionDetails()
	sym.Assert((d == nil) == (err != nil), "session details or an error")
	return err == nil
}

// start sends HELLO and remembers the challenge.
func (h *hs) start() messages.Message {
	m, err := h.a.ReceiveMessage(h.hello)
	if err != nil {
		sym.Assert(m == nil && !h.session(), "an error establishes nothing")
		return nil
	}
	if c, ok := m.(*messages.Challenge); ok {
		sym.Assert(c.AuthMethod() == h.method, "CHALLENGE names the method")
		h.challenge, _ = c.Extra()["challenge"].(string)
	}
	h.note(m)
	return m
}

func (h *hs) note(m messages.Message) {
	switch m.(type) {
	case *messages.Welcome:
		h.welcomed = true
	case *messages.Abort:
		h.aborted = true
	}
}

// authenticate sends AUTHENTICATE and tells whether the peer is welcomed.
func (h *hs) authenticate(signature string) bool {
	m, err := h.a.ReceiveMessage(messages.NewAuthenticate(signature, h.extra))
	sym.Assert((m == nil) == (err != nil), "a message or an error")
	if err != nil {
		return false
	}
	h.note(m)
	switch m := m.(type) {
	case *messages.Welcome:
		return true
	case *messages.Abort:
		sym.Assert(m.Reason() == "wamp.error.authentication_failed", "ABORT says that authentication failed")
	default:
		sym.Assert(false, "AUTHENTICATE is answered by WELCOME or ABORT")
	}
	return false
}

// right is the signature that a peer with the credentials gives.
func (h *hs) right() string {
	switch h.method {
	case ticket:
		return h.srv.ticket
	case wampcra:
		return auth.SignWAMPCRAChallenge(h.challenge, h.srv.craKey())
	case cryptosign:
		return h.key.sign(h.challenge)
	}
	return ""
}

// details checks the session that was established.
func (h *hs) details(w *messages.Welcome) {
	d, err := h.a.SessionDetails()
	sym.Assert(err == nil && d != nil, "there is a session after WELCOME")
	sym.Assert(d.ID() == w.SessionID() && d.ID() >= 1 && d.ID() <= 1<<53, "the session ID is that of WELCOME")
	sym.Assert(sym.Eq(d.Realm(), h.hello.Realm()), "the realm is that of HELLO")
	sym.Assert(sym.Eq(d.AuthID(), h.srv.authid), "the authid is the granted one")
	sym.Assert(sym.Eq(d.AuthRole(), h.srv.role), "the authrole is the granted one")
	sym.Assert(d.AuthMethod() == h.method, "the authmethod is the one used")
	sym.Assert(!d.StaticSerializer(), "the serializer is known")
	sym.Assert(sym.Eq(w.Details()["realm"], h.hello.Realm()), "WELCOME has the realm of HELLO")
	sym.Assert(sym.Eq(w.Details()["authid"], h.srv.authid), "WELCOME has the granted authid")
	sym.Assert(sym.Eq(w.Details()["authrole"], h.srv.role), "WELCOME has the granted authrole")
	sym.Assert(sym.Eq(w.Details()["authmethod"], h.method), "WELCOME has the authmethod used")
	roles, ok := w.Details()["roles"].(map[string]any)
	sym.Assert(ok && sym.Eq(roles, wampproto.RouterRoles), "WELCOME has the router's roles")
	sym.Assert(sym.Eq(d.RouterRoles(), wampproto.RouterRoles), "and so have the session details")
	if h.method == anonymous || len(h.extra) == 0 {
		sym.Assert(len(d.AuthExtra()) == 0, "there is no authextra without one in AUTHENTICATE")
	} else {
		sym.Assert(sym.Eq(d.AuthExtra(), h.extra), "the authextra is that of AUTHENTICATE")
	}
}

// request checks what the authenticator was asked last.
func (h *hs) request(n int) {
	sym.Assert(len(h.srv.asked) == n, "the authenticator is asked once per handshake")
	if n == 0 || len(h.srv.asked) == 0 {
		return
	}
	r := h.srv.asked[n-1]
	sym.Assert(sym.Eq(r.Realm(), h.hello.Realm()) && sym.Eq(r.AuthID(), h.hello.AuthID()) && string(r.AuthMethod()) == h.method,
		"the request is made from the HELLO")
	sym.Assert(sym.Eq(r.AuthExtra(), h.hello.AuthExtra()), "the request has the authextra of HELLO")
}

// C23_Anonymous: a peer is welcomed exactly if the authenticator approves.
func C23_Anonymous() {
	h := newHS(anonymous)
	h.srv.refuse = sym.Bool("refuse")
	m := h.start()
	h.request(1)
	w, ok := m.(*messages.Welcome)
	sym.Assert(ok == !h.srv.refuse, "WELCOME exactly for approved peers")
	sym.Assert(h.session() == ok, "a session exactly after WELCOME")
	if ok {
		h.details(w)
	} else {
		_, abort := m.(*messages.Abort)
		sym.Assert(abort, "ABORT for the others")
	}
}

// C23_Default: the default authenticator only approves anonymous peers.
func C23_Default() {
	a := wampproto.NewAcceptor(nil, nil)
	method := append(append([]string{}, methods...), "other", "")[sym.Choice("method", 6)]
	m, err := a.ReceiveMessage(messages.NewHello("realm", "a", map[string]any{"pubkey": "00"}, nil, []string{method}))
	_, ok := m.(*messages.Welcome)
	sym.Assert(ok == (method == anonymous), "only anonymous peers are welcomed")
	_, serr := a.SessionDetails()
	sym.Assert((serr == nil) == ok, "a session exactly after WELCOME")
	_, abort := m.(*messages.Abort)
	sym.Assert(ok || abort || err != nil, "the others get ABORT or an error")
	m, _ = a.ReceiveMessage(messages.NewAuthenticate("", nil))
	sym.Assert(m == nil, "AUTHENTICATE is of no use")
}

// C23_Ticket: a peer is welcomed exactly with the ticket.
func C23_Ticket() {
	h := newHS(ticket)
	h.srv.ticket = sym.Str("ticket", 3)
	_, ok := h.start().(*messages.Challenge)
	sym.Assert(ok && !h.session(), "HELLO is challenged")
	given := sym.Str("given", sym.Choice("length", 5))
	h.srv.refuse = sym.Bool("refuse")
	got := h.authenticate(given)
	h.request(1)
	t, isT := h.srv.asked[0].(*auth.TicketRequest)
	sym.Assert(isT && sym.Eq(t.Ticket(), given), "the authenticator is asked about the given ticket")
	sym.Assert(got == sym.And(!h.srv.refuse, sym.Eq(given, h.srv.ticket)), "WELCOME exactly for the right ticket")
	sym.Assert(h.session() == got, "a session exactly after WELCOME")
}

// C23_Right: peers with the right credentials are welcomed as granted.
func C23_Right() {
	h := newHS(methods[1+sym.Choice("method", 3)])
	_, ok := h.start().(*messages.Challenge)
	sym.Assert(ok && !h.session(), "HELLO is challenged")
	if h.method != ticket {
		sym.Assert(h.challenge != "", "there is a challenge")
	}
	m, err := h.a.ReceiveMessage(messages.NewAuthenticate(h.right(), h.extra))
	w, ok := m.(*messages.Welcome)
	sym.Assert(err == nil && ok, "a peer with the right credentials is welcomed")
	h.request(1)
	h.details(w)
}

// C23_Refused: HELLO the authenticator refuses is never welcomed.
func C23_Refused() {
	h := newHS(methods[1+sym.Choice("method", 3)])
	h.srv.refuse = true
	m := h.start()
	_, welcome := m.(*messages.Welcome)
	sym.Assert(!welcome, "a refused peer is not welcomed")
	if h.method != ticket {
		_, abort := m.(*messages.Abort)
		sym.Assert(abort, "a refused peer gets ABORT")
		h.request(1)
		if h.method == wampcra {
			h.challenge = sym.Str("guess", 3)
			h.a.ReceiveMessage(messages.NewAuthenticate(h.right(), nil))
		}
	} else {
		sym.Assert(!h.authenticate(h.right()), "a refused peer is not welcomed")
	}
	sym.Assert(!h.session(), "no session for a refused peer")
}

// C23_WrongCRA: signatures not made with the secret.
func C23_WrongCRA() {
	h := newPeer(wampcra, 2)
	h.start()
	var sig string
	switch sym.Choice("signature", 6) {
	case 0:
		n := []int{0, 3, 4, 8, 43, 44, 48}[sym.Choice("length", sym.Bound("lengths", 4, 7))]
		sig = sym.Str("signature", n)
	case 1:
		other := sym.Str("other secret", 6)
		sym.Assume(other != h.srv.secret)
		k := []byte(other)
		if h.srv.salt != "" {
			k = auth.DeriveWAMPCRAKey(h.srv.salt, other, h.srv.iterations, h.srv.keylen)
		}
		if h.extra != nil {
			h.extra["secret"] = other
		}
		sig = auth.SignWAMPCRAChallenge(h.challenge, k)
	case 2:
		if h.srv.salt == "" {
			sig = auth.SignWAMPCRAChallenge(h.challenge, auth.DeriveWAMPCRAKey("salt", h.srv.secret, 0, 0))
		} else {
			sig = auth.SignWAMPCRAChallenge(h.challenge, []byte(h.srv.secret))
		}
	case 3:
		sig = flip64(h.right(), 32)
	case 4:
		raw, _ := base64.StdEncoding.DecodeString(h.right())
		sig = base64.StdEncoding.EncodeToString(raw[:31])
	case 5:
		sig = auth.SignWAMPCRAChallenge(h.challenge, nil)
	}
	sym.Assert(!h.authenticate(sig), "a peer without the secret is not welcomed")
	sym.Assert(!h.session(), "no session without the secret")
}

// flip64 changes one byte of a base64 text of n bytes.
func flip64(s string, n int) string {
	raw, err := base64.StdEncoding.DecodeString(s)
	sym.Assert(err == nil && len(raw) == n, "signatures are base64")
	x := sym.Uint8("flip")
	sym.Assume(x != 0)
	raw[[]int{0, n / 2, n - 1}[sym.Choice("at", 3)]] ^= x
	return base64.StdEncoding.EncodeToString(raw)
}

// C23_WrongKey: cryptosign signatures not made with the private key.
func C23_WrongKey() {
	h := newPeer(cryptosign, 2)
	h.start()
	other := newKey("other seed")
	sym.Assume(!sym.Eq(other.seed, h.key.seed))
	var sig string
	switch sym.Choice("signature", 6) {
	case 0:
		sig = sym.Str("signature", []int{0, 1, 2, 64}[sym.Choice("length", sym.Bound("lengths", 3, 4))])
	case 1:
		sig = other.sign(h.challenge)
		if h.extra != nil {
			h.extra["pubkey"] = other.pub
		}
	case 2:
		raw, _ := hex.DecodeString(h.right())
		x := sym.Uint8("flip")
		sym.Assume(x != 0)
		raw[[]int{0, 31, 63, 64, 95}[sym.Choice("at", 5)]] ^= x
		sig = hex.EncodeToString(raw)
	case 3:
		raw, _ := hex.DecodeString(h.right())
		sig = hex.EncodeToString(raw[:[]int{0, 63, 64, 95}[sym.Choice("cut", 4)]])
	case 4:
		sig = h.right() + "00"
	case 5:
		sig = hex.EncodeToString(sym.Bytes("signed", 64)) + h.challenge
		raw, _ := hex.DecodeString(h.right())
		raw2, _ := hex.DecodeString(sig)
		sym.Assume(!sym.Eq(raw[:64], raw2[:64]))
	}
	sym.Assert(!h.authenticate(sig), "a peer without the key is not welcomed")
	sym.Assert(!h.session(), "no session without the key")
}

// C23_OtherPubkey: the key whose signature counts is the approved one.
func C23_OtherPubkey() {
	h := newHS(cryptosign)
	other := newKey("other seed")
	sym.Assume(!sym.Eq(other.seed, h.key.seed))
	if h.extra != nil {
		h.extra["pubkey"] = h.key.pub
	}
	switch sym.Choice("pubkey", 5) {
	case 0:
		h.hello.AuthExtra()["pubkey"] = other.pub
	case 1:
		h.hello.AuthExtra()["pubkey"] = sym.OneOf("pubkey", nil, uint64(1), []byte("x"), "", true)
	case 2:
		delete(h.hello.AuthExtra(), "pubkey")
	case 3:
		h.srv.pubkey = sym.Str("not hex", []int{0, 1, 3}[sym.Choice("length", 3)])
		h.hello.AuthExtra()["pubkey"] = h.srv.pubkey
	case 4:
		h.srv.pubkey = h.key.pub + "00"
		h.hello.AuthExtra()["pubkey"] = h.srv.pubkey
	}
	_, ok := h.start().(*messages.Challenge)
	if ok {
		sym.Assert(!h.authenticate(h.right()), "a peer that did not present the approved key is not welcomed")
	}
	sym.Assert(!h.session(), "no session without the approved key")
}

// C24_Replay: proofs over other challenges.
func C24_Replay() {
	h := newHS([]string{wampcra, cryptosign}[sym.Choice("method", 2)])
	h.start()
	issued := h.challenge
	var sig string
	if h.method == wampcra {
		switch sym.Choice("challenge", 3) {
		case 0:
			h.challenge = sym.Str("old challenge", sym.Choice("length", 2))
			sym.Assume(h.challenge != issued)
		case 1:
			h.challenge = issued + "x"
		case 2:
			h.challenge = issued[:len(issued)-1]
		}
		sig = h.right()
	} else {
		raw, _ := hex.DecodeString(issued)
		switch sym.Choice("challenge", 6) {
		case 0:
			old := sym.Bytes("old challenge", 32)
			sym.Assume(!sym.Eq(old, raw))
			h.challenge = hex.EncodeToString(old)
			sig = h.right()
		case 1: // signed an old one, claims the issued one
			old := sym.Bytes("old challenge", 32)
			sym.Assume(!sym.Eq(old, raw))
			h.challenge = hex.EncodeToString(old)
			sig = h.right()[:128] + issued
		case 2: // signed the issued one, claims an old one
			old := sym.Bytes("old challenge", 32)
			sym.Assume(!sym.Eq(old, raw))
			sig = h.right()[:128] + hex.EncodeToString(old)
		case 3: // a longer message that begins or ends with the issued one
			h.challenge = issued + "00"
			sig = h.right()
		case 4:
			h.challenge = "00" + issued
			sig = h.right()
		case 5: // a shorter one
			h.challenge = issued[2:]
			sig = h.right()
		}
	}
	if h.extra != nil {
		h.extra["challenge"] = h.challenge
	}
	sym.Assert(!h.authenticate(sig), "a proof for another challenge is not accepted")
	sym.Assert(!h.session(), "no session for a proof for another challenge")
	sym.Assert(h.aborted, "a proof for another challenge is answered with ABORT")
}

// C24_Recorded: what one handshake accepted is of no use in the next one.
func C24_Recorded() {
	h := newHS([]string{wampcra, cryptosign}[sym.Choice("method", 2)])
	h.start()
	sig := h.right()
	sym.Assert(h.authenticate(sig), "the first handshake succeeds")
	g := &hs{srv: h.srv, method: h.method, hello: h.hello, key: h.key, a: wampproto.NewAcceptor(nil, h.srv)}
	g.start()
	sym.Assume(g.challenge != h.challenge)
	sym.Assert(!g.authenticate(sig), "a recorded proof is not accepted")
	sym.Assert(!g.session() && g.aborted, "a recorded proof is answered with ABORT")
}

// nonce is the random part of a challenge.
func (h *hs) nonce() []byte {
	if h.method == cryptosign {
		raw, err := hex.DecodeString(h.challenge)
		sym.Assert(err == nil && len(raw) == 32, "a challenge is 32 bytes in hex")
		return raw
	}
	var m map[string]any
	sym.Assert(json.Unmarshal([]byte(h.challenge), &m) == nil, "a challenge is a JSON object")
	s, _ := m["nonce"].(string)
	raw, _ := base64.StdEncoding.DecodeString(s)
	return raw
}

// C24_Fresh: the challenges of two handshakes are drawn independently.
func C24_Fresh() {
	h := newHS([]string{wampcra, cryptosign}[sym.Choice("method", 2)])
	h.start()
	g := &hs{srv: h.srv, method: h.method, hello: h.hello, key: h.key, a: wampproto.NewAcceptor(nil, h.srv)}
	g.start()
	a, b := h.nonce(), g.nonce()
	sym.Assert(len(a) >= 16 && len(a) == len(b), "a challenge has at least 16 random bytes")
	if len(a) < 16 || len(a) != len(b) {
		return
	}
	for i := range a {
		sym.Possible(a[i] != b[i], h.method+" challenges of two handshakes differ in byte "+string(rune('0'+i/10))+string(rune('0'+i%10)))
		if i > 0 {
			sym.Possible(a[i] != a[i-1], h.method+" challenges are not one repeated byte, "+string(rune('0'+i/10))+string(rune('0'+i%10)))
		}
	}
}

// every other message.
func other(k int) messages.Message {
	ms := []messages.Message{
		messages.NewWelcome(1, map[string]any{"authid": "a", "authrole": "b"}),
		messages.NewAbort(nil, "r", nil, nil),
		messages.NewChallenge("ticket", nil),
		messages.NewGoodBye("wamp.close.normal", nil),
		messages.NewSubscribe(1, nil, "t"), messages.NewUnsubscribe(1, 1), messages.NewError(48, 1, nil, "e", nil, nil),
		messages.NewCall(1, nil, "p", nil, nil), messages.NewYield(1, nil, nil, nil), messages.NewPublish(1, nil, "t", nil, nil),
		messages.NewCancel(1, nil), messages.NewRegister(1, nil, "p"), messages.NewUnregister(1, 1),
		messages.NewResult(1, nil, nil, nil), messages.NewRegistered(1, 1), messages.NewInvocation(1, 1, nil, nil, nil),
		messages.NewInterrupt(1, nil), messages.NewUnregistered(1), messages.NewEvent(1, 1, nil, nil, nil),
		messages.NewPublished(1, 1), messages.NewSubscribed(1, 1), messages.NewUnsubscribed(1),
	}
	return ms[k]
}

// C25_Order: sequences of messages to one acceptor.
func C25_Order() {
	h := newPeer(methods[sym.Choice("method", 4)], 2*sym.Choice("peer", 2))
	if h.method != anonymous && h.method != ticket {
		h.srv.refuse = sym.Choice("refuse", 2) == 1
	}
	greeted, challenged, over := false, false, false
	for i := sym.Bound("messages", 4, 5); i > 0; i-- {
		var m messages.Message
		kind := sym.Choice("message", 4)
		switch kind {
		case 0:
			m = h.hello
		case 1:
			if challenged {
				m = messages.NewAuthenticate(h.right(), nil)
			} else {
				m = messages.NewAuthenticate("abcd", nil)
			}
		case 2:
			m = messages.NewAuthenticate(sym.Str("wrong", 4*sym.Choice("length", 2)), nil)
		case 3:
			m = other(sym.Choice("other", sym.Bound("other types", 4, 22)))
		}
		out, err := h.a.ReceiveMessage(m)
		sym.Assert((out == nil) == (err != nil), "a message or an error")
		if over {
			sym.Assert(err != nil, "nothing is accepted after WELCOME or ABORT")
		}
		switch out := out.(type) {
		case nil:
		case *messages.Challenge:
			sym.Assert(kind == 0 && !greeted && h.method != anonymous, "CHALLENGE answers the first HELLO")
			greeted, challenged = true, true
			h.challenge, _ = out.Extra()["challenge"].(string)
		case *messages.Welcome:
			if kind == 0 {
				sym.Assert(!greeted && h.method == anonymous, "WELCOME answers the first HELLO of an anonymous peer")
			} else {
				sym.Assert(kind <= 2 && challenged, "WELCOME answers AUTHENTICATE after CHALLENGE")
			}
			sym.Assert(!h.welcomed && !h.aborted, "there is one WELCOME")
			greeted, over = true, true
		case *messages.Abort:
			sym.Assert(kind == 0 && !greeted || (kind == 1 || kind == 2) && challenged, "ABORT answers HELLO or AUTHENTICATE")
			greeted, over = true, true
		default:
			sym.Assert(false, "the acceptor sends CHALLENGE, WELCOME or ABORT")
		}
		if out != nil {
			h.note(out)
		}
		sym.Assert(h.session() == h.welcomed, "session details exactly after WELCOME")
		if kind == 0 && !over && !challenged {
			sym.Assert(false, "the first HELLO is answered")
		}
	}
}

// C25_Types: every other message type in every state.
func C25_Types() {
	h := newHS(methods[sym.Choice("method", 4)])
	state := sym.Choice("state", 4) // new, challenged, welcomed, aborted
	if state > 0 {
		h.srv.refuse = state == 3 && h.method != ticket
		h.start()
		if state > 1 && !h.welcomed && !h.aborted {
			if state == 2 {
				h.authenticate(h.right())
			} else {
				h.authenticate("AAAA")
			}
		}
	}
	was := h.session()
	m, err := h.a.ReceiveMessage(other(sym.Choice("type", 22)))
	sym.Assert(m == nil && err != nil, "every other message is refused")
	sym.Assert(h.session() == was, "a refused message establishes nothing")
	if state == 2 {
		sym.Assert(h.welcomed && was, "the session stays")
	}
	if state == 3 && (h.aborted || h.welcomed) {
		m, err = h.a.ReceiveMessage(h.hello)
		sym.Assert(m == nil && err != nil, "HELLO is refused after ABORT")
		m, err = h.a.ReceiveMessage(messages.NewAuthenticate(h.right(), nil))
		sym.Assert(m == nil && err != nil, "AUTHENTICATE is refused after ABORT")
	}
}

// wrongKind is an authenticator whose answer is not one of WAMP-CRA.
type wrongKind struct{ *server }

func (w wrongKind) Authenticate(r auth.Request) (auth.Response, error) {
	w.asked = append(w.asked, r)
	switch sym.Choice("answer", 2) {
	case 0:
		return auth.NewResponse(w.authid, w.role, 0)
	}
	return nil, nil
}

// C25_Response: an authenticator that approves of WAMP-CRA without naming a
// secret lets nobody in.
func C25_Response() {
	h := newPeer(wampcra, 0)
	h.a = wampproto.NewAcceptor(nil, wrongKind{h.srv})
	m, err := h.a.ReceiveMessage(h.hello)
	_, abort := m.(*messages.Abort)
	sym.Assert(err != nil && m == nil || err == nil && abort, "ABORT or an error")
	sym.Assert(!h.session(), "and no session")
	m, err = h.a.ReceiveMessage(messages.NewAuthenticate(sym.Str("signature", 4*sym.Choice("length", 2)), nil))
	sym.Assert(err != nil && m == nil && !h.session(), "AUTHENTICATE is of no use")
}

// C26_Select: any client list against any server list.
func C26_Select() {
	all := append(append([]string{}, methods...), "other", "")
	s := newServer()
	s.methods = nil
	for _, m := range all[:5] { // a server does not offer the empty name
		if sym.Choice("offered", 2) == 1 {
			s.methods = append([]auth.Method{auth.Method(m)}, s.methods...)
		}
	}
	s.pubkey = "00"
	s.refuse = sym.Bool("refuse")
	var list []string
	for i := sym.Choice("length", sym.Bound("methods", 4, 4)); i > 0; i-- {
		list = append(list, all[sym.Choice("method", len(all))])
	}
	want := ""
	for _, m := range list {
		for _, o := range s.methods {
			if want == "" && string(o) == m {
				want = m
			}
		}
	}
	a := wampproto.NewAcceptor(nil, s)
	m, err := a.ReceiveMessage(messages.NewHello("realm", "a", map[string]any{"pubkey": "00"}, nil, list))
	for _, r := range s.asked {
		if len(list) == 0 {
			sym.Assert(string(r.AuthMethod()) == anonymous, "without a list the method is anonymous")
		} else {
			sym.Assert(string(r.AuthMethod()) == want, "the method is the client's first that is offered")
		}
	}
	if len(list) > 0 && want == "" {
		_, ok := m.(*messages.Abort)
		sym.Assert(ok && err == nil && len(s.asked) == 0, "ABORT when no method is offered, without asking")
		return
	}
	switch want {
	case "", anonymous:
		_, ok := m.(*messages.Welcome)
		sym.Assert(len(s.asked) == 1 && ok == !s.refuse, "an anonymous peer is welcomed if approved")
	case ticket:
		c, ok := m.(*messages.Challenge)
		sym.Assert(ok && c.AuthMethod() == ticket, "CHALLENGE names the method")
	case wampcra, cryptosign:
		c, ok := m.(*messages.Challenge)
		sym.Assert(ok == !s.refuse && (!ok || c.AuthMethod() == want), "CHALLENGE names the method")
	default:
		_, welcome := m.(*messages.Welcome)
		sym.Assert(!welcome, "an unknown method is not welcomed")
	}
}

// C26_Near: names that differ in little from those offered are other names.
func C26_Near() {
	s := newServer()
	m := methods[sym.Choice("offered", len(methods))]
	s.methods = []auth.Method{auth.Method(m)}
	s.pubkey = "00"
	near := []string{strings.ToUpper(m), strings.ToUpper(m[:1]) + m[1:], " " + m, m + " ", m + "\x00", m[:len(m)-1], m + "2", m[:1] + "-" + m[1:], m + "-scram", m + "," + m, ""}
	list := []string{near[sym.Choice("proposed", len(near))]}
	if sym.Choice("two", 2) == 1 {
		list = append(list, near[sym.Choice("proposed", len(near))])
	}
	out, err := wampproto.NewAcceptor(nil, s).ReceiveMessage(messages.NewHello("realm", "a", map[string]any{"pubkey": "00"}, nil, list))
	_, ok := out.(*messages.Abort)
	sym.Assert(ok && err == nil && len(s.asked) == 0, "ABORT when no method is offered, without asking")
}

// C26_Function: SelectAuthMethod with any method names.
func C26_Function() {
	var offered []auth.Method
	var names []string
	for i := sym.Choice("offered", 3); i > 0; i-- {
		n := sym.StrOver("offered", 1+sym.Choice("offered length", 2), "aA -")
		names = append(names, n)
		offered = append(offered, auth.Method(n))
	}
	var list []string
	for i := sym.Choice("proposed", sym.Bound("proposed", 4, 5)); i > 0; i-- {
		list = append(list, sym.StrOver("proposed", sym.Choice("proposed length", 3), "aA -"))
	}
	m, err := auth.SelectAuthMethod(offered, list)
	if len(list) == 0 {
		sym.Assert(err == nil && string(m) == anonymous, "without a list the method is anonymous")
		return
	}
	before := true // none of the earlier ones is offered
	right := false
	for _, p := range list {
		in := false
		for _, o := range names {
			in = sym.Or(in, sym.Eq(o, p))
		}
		if err == nil {
			right = sym.Or(right, sym.And(before, in, sym.Eq(string(m), p)))
		}
		before = sym.And(before, !in)
	}
	sym.Assert((err != nil) == before, "an error exactly when nothing is offered")
	sym.Assert(err != nil || right, "the first proposed method that is offered")
}

// C29_Names: the challenge that a peer is given names the session and the user
// that it is welcomed to.
func C29_Names() {
	h := newHS(wampcra)
	_, ok := h.start().(*messages.Challenge)
	sym.Assert(ok, "HELLO is challenged")
	var c map[string]any
	err := json.Unmarshal([]byte(h.challenge), &c)
	sym.Assert(err == nil, "the challenge is JSON")
	m, err := h.a.ReceiveMessage(messages.NewAuthenticate(h.right(), h.extra))
	w, ok := m.(*messages.Welcome)
	sym.Assert(err == nil && ok, "a peer with the right credentials is welcomed")
	if !ok {
		return
	}
	f, ok := c["session"].(float64)
	sym.Assert(ok && uint64(f) == w.SessionID(), "the challenge names the session")
	sym.Assert(sym.Eq(c["authid"], h.srv.authid) && sym.Eq(c["authrole"], h.srv.role), "and the granted authid and authrole")
	sym.Assert(sym.Eq(c["authmethod"], wampcra), "and the method")
	t, _ := c["timestamp"].(string)
	n, _ := c["nonce"].(string)
	sym.Assert(t != "" && n != "", "and has a timestamp and a nonce")
}
