package hauth

import (
	"encoding/hex"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/serializers"
)

func codec(k int) serializers.Serializer {
	return []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.MsgPackSerializer{}, &serializers.CBORSerializer{}, static{&serializers.CBORSerializer{}}}[k]
}

// static is a serializer that has binary payloads.
type static struct{ serializers.Serializer }

func (static) Static() bool { return true }

// handshake lets a joiner and an acceptor talk until one of them is done, and
// tells whether a session is established.
func handshake(j *wampproto.Joiner, a *wampproto.Acceptor) bool {
	out, err := j.SendHello()
	sym.Assert(err == nil && len(out) > 0, "HELLO can be sent")
	for i := 0; i < 3; i++ {
		in, welcomed, err := a.Receive(out)
		if err != nil {
			sym.Assert(!welcomed, "an error welcomes nobody")
			return false
		}
		_, derr := a.SessionDetails()
		sym.Assert(welcomed == (derr == nil), "the acceptor tells when it welcomed")
		out, err = j.Receive(in)
		_, jerr := j.SessionDetails()
		if err != nil {
			sym.Assert(!welcomed && jerr != nil, "the joiner joins whenever it is welcomed, and only then")
			return false
		}
		sym.Assert(welcomed == (jerr == nil), "the joiner joins whenever it is welcomed, and only then")
		if out == nil {
			sym.Assert(welcomed, "a handshake ends with WELCOME")
			return true
		}
	}
	sym.Assert(false, "a handshake ends")
	return false
}

func agree(j *wampproto.Joiner, a *wampproto.Acceptor, s *server, realm, method string) {
	jd, jerr := j.SessionDetails()
	ad, aerr := a.SessionDetails()
	sym.Assert(jerr == nil && aerr == nil, "both have session details")
	if jd == nil || ad == nil {
		return
	}
	sym.Assert(jd.ID() == ad.ID() && ad.ID() >= 1, "both have the same session ID")
	sym.Assert(sym.Eq(jd.Realm(), realm) && sym.Eq(ad.Realm(), realm), "both are in the same realm")
	sym.Assert(sym.Eq(jd.AuthID(), s.authid) && sym.Eq(ad.AuthID(), s.authid), "both have the granted authid")
	sym.Assert(sym.Eq(jd.AuthRole(), s.role) && sym.Eq(ad.AuthRole(), s.role), "both have the granted authrole")
	sym.Assert(jd.AuthMethod() == method && ad.AuthMethod() == method, "both have the authmethod")
	sym.Assert(sym.Eq(jd.RouterRoles(), ad.RouterRoles()) && sym.Eq(ad.RouterRoles(), wampproto.RouterRoles), "both have the router's roles")
}

// asked checks what reached the authenticator.
func asked(s *server, realm, authid, method string, extra map[string]any) {
	sym.Assert(len(s.asked) == 1, "the authenticator is asked once")
	for _, r := range s.asked {
		sym.Assert(sym.Eq(r.Realm(), realm) && sym.Eq(r.AuthID(), authid) && string(r.AuthMethod()) == method, "the authenticator is asked about the joiner")
		for k, v := range extra {
			sym.Assert(sym.Eq(r.AuthExtra()[k], v), "the authenticator gets the joiner's authextra")
		}
	}
}

// C28_Anonymous.
func C28_Anonymous() {
	s := newServer()
	if sym.Choice("grants no name", 2) == 1 {
		s.authid, s.role = "", ""
	}
	s.refuse = sym.Bool("refuse")
	c := codec(sym.Choice("codec", 4))
	realm, id := sym.Str("realm", 3), sym.Str("authid", sym.Choice("length", 3))
	extra := map[string]any{"x": sym.Str("extra", 2)}
	var ca auth.ClientAuthenticator
	if sym.Choice("extra", 2) == 1 {
		ca = auth.NewAnonymousAuthenticator(id, extra)
	} else {
		ca, extra = auth.NewAnonymousAuthenticator(id, nil), nil
	}
	if sym.Choice("default", 2) == 1 {
		ca, id, extra = nil, "", nil
	}
	j, a := wampproto.NewJoiner(realm, c, ca), wampproto.NewAcceptor(c, s)
	ok := handshake(j, a)
	asked(s, realm, id, anonymous, extra)
	sym.Assert(ok == !s.refuse, "exactly approved peers join")
	if ok {
		agree(j, a, s, realm, anonymous)
		jd, _ := j.SessionDetails()
		ad, _ := a.SessionDetails()
		sym.Assert(jd.StaticSerializer() == c.Static() && ad.StaticSerializer() == c.Static(), "both know whether the serializer is static")
	}
}

// C28_Ticket.
func C28_Ticket() {
	s := newServer()
	if sym.Choice("grants no name", 2) == 1 {
		s.authid, s.role = "", ""
	}
	s.ticket = sym.Str("ticket", 3)
	given := sym.Str("given", sym.Choice("length", 5))
	c := codec(sym.Choice("codec", 3))
	realm, id := sym.Str("realm", 3), sym.Str("authid", sym.Choice("authid length", 2))
	var extra map[string]any
	if sym.Choice("extra", 2) == 1 {
		extra = map[string]any{"x": sym.Str("extra", 2)}
	}
	j, a := wampproto.NewJoiner(realm, c, auth.NewTicketAuthenticator(id, given, extra)), wampproto.NewAcceptor(c, s)
	ok := handshake(j, a)
	asked(s, realm, id, ticket, extra)
	sym.Assert(ok == sym.Eq(s.ticket, given), "exactly peers with the ticket join")
	if ok {
		agree(j, a, s, realm, ticket)
	}
}

// C28_CRA: with and without salt.
func C28_CRA() {
	s := newServer()
	k := sym.Choice("codec", 3)
	c := codec(k)
	s.secret = sym.Str("secret", 2)
	given := sym.Str("given", 1+sym.Choice("given length", sym.Bound("secret length", 2, 3)))
	var extra map[string]any
	switch sym.Choice("salt", 4) {
	case 0:
		extra = map[string]any{"x": "y"}
	case 1: // any salt, common derivations
		s.salt = sym.Str("salt", 2)
		s.keylen = []int{0, 1, 16, 32, 64, 100}[sym.Choice("keylen", 6)]
		s.iterations = []int{0, 1777}[sym.Choice("iterations", 2)]
	case 2: // any number of iterations
		s.salt = "salt"
		if k == 0 {
			s.iterations = []int{-3, 1, 999, 1000, 25000}[sym.Choice("iterations", 5)]
		} else {
			s.iterations = int(int32(sym.Uint32("iterations")))
			sym.Assume(sym.And(s.iterations >= -3, s.iterations < 1<<17))
		}
	case 3: // any key length
		s.salt = "salt"
		s.iterations = 10
		if k == 0 {
			s.keylen = []int{-3, 5, 33}[sym.Choice("keylen", 3)]
		} else {
			s.keylen = int(int8(sym.Uint8("keylen")))
			sym.Assume(s.keylen >= -3 && s.keylen <= sym.Bound("keylen", 20, 64))
		}
	}
	realm, id := sym.Str("realm", 3), sym.Str("authid", 2)
	j, a := wampproto.NewJoiner(realm, c, auth.NewWAMPCRAAuthenticator(id, given, extra)), wampproto.NewAcceptor(c, s)
	ok := handshake(j, a)
	asked(s, realm, id, wampcra, extra)
	if s.salt == "" || s.keylen <= 0 || s.keylen >= 16 {
		sym.Assert(ok == sym.Eq(s.secret, given), "exactly peers with the secret join")
	} else {
		sym.Assert(sym.Implies(sym.Eq(s.secret, given), ok), "peers with the secret join")
	}
	if ok {
		agree(j, a, s, realm, wampcra)
	}
}

// C28_Key: cryptosign.
func C28_Key() {
	s := newServer()
	c := codec(sym.Choice("codec", 3))
	right := newKey("seed")
	s.pubkey = right.pub
	mine := right
	if sym.Choice("other key", 2) == 1 {
		mine = newKey("other seed")
	}
	realm, id := sym.Str("realm", 3), sym.Str("authid", 2)
	extra := []map[string]any{nil, {"x": "y"}, {"pubkey": mine.pub}}[sym.Choice("extra", 3)]
	ca, err := auth.NewCryptoSignAuthenticator(id, hex.EncodeToString(mine.seed), extra)
	sym.Assert(err == nil, "a 32-byte key is accepted")
	if err != nil {
		return
	}
	j, a := wampproto.NewJoiner(realm, c, ca), wampproto.NewAcceptor(c, s)
	ok := handshake(j, a)
	asked(s, realm, id, cryptosign, map[string]any{"pubkey": mine.pub})
	sym.Assert(ok == sym.Eq(mine.seed, right.seed), "exactly peers with the key join")
	if ok {
		agree(j, a, s, realm, cryptosign)
	}
}

// C28_Methods: a joiner whose method the acceptor does not offer.
func C28_Methods() {
	s := newServer()
	s.methods = nil
	mask := sym.Choice("offered", 16)
	for i, m := range methods {
		if mask>>i&1 == 1 {
			s.methods = append(s.methods, auth.Method(m))
		}
	}
	mine := sym.Choice("method", 4)
	k := newKey("seed")
	s.pubkey = k.pub
	var ca auth.ClientAuthenticator
	switch mine {
	case 0:
		ca = auth.NewAnonymousAuthenticator("id", nil)
	case 1:
		ca = auth.NewTicketAuthenticator("id", s.ticket, nil)
	case 2:
		ca = auth.NewWAMPCRAAuthenticator("id", s.secret, nil)
	case 3:
		ca, _ = auth.NewCryptoSignAuthenticator("id", hex.EncodeToString(k.seed), nil)
	}
	c := codec(sym.Choice("codec", sym.Bound("codecs", 2, 3)))
	j, a := wampproto.NewJoiner("realm", c, ca), wampproto.NewAcceptor(c, s)
	ok := handshake(j, a)
	sym.Assert(ok == (mask>>mine&1 == 1), "exactly peers with an offered method join")
	if ok {
		agree(j, a, s, "realm", methods[mine])
	}
}
