package hauth

import (
	"errors"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

const seedHex = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"

// client is an authenticator for the method.
func client(method string) auth.ClientAuthenticator {
	switch method {
	case anonymous:
		return auth.NewAnonymousAuthenticator("id", map[string]any{"x": "y"})
	case ticket:
		return auth.NewTicketAuthenticator("id", "tick", map[string]any{"x": "y"})
	case wampcra:
		return auth.NewWAMPCRAAuthenticator("id", "secret", map[string]any{"x": "y"})
	case cryptosign:
		a, err := auth.NewCryptoSignAuthenticator("id", seedHex, map[string]any{"x": "y"})
		sym.Assert(err == nil, "a 32-byte key is accepted")
		return a
	}
	return nil
}

// failing is an authenticator that cannot answer.
type failing struct{ auth.ClientAuthenticator }

func (f failing) Authenticate(messages.Challenge) (*messages.Authenticate, error) {
	return nil, errors.New("no answer")
}

// joined checks the session that the joiner established.
func joined(j *wampproto.Joiner, w *messages.Welcome) {
	d, err := j.SessionDetails()
	sym.Assert(err == nil && d != nil, "there is a session after WELCOME")
	if d == nil {
		return
	}
	str := func(k string) string { s, _ := w.Details()[k].(string); return s }
	sym.Assert(d.ID() == w.SessionID(), "the session ID is that of WELCOME")
	sym.Assert(sym.Eq(d.Realm(), "realm"), "the realm is the joined one")
	sym.Assert(sym.Eq(d.AuthID(), str("authid")), "the authid is that of WELCOME")
	sym.Assert(sym.Eq(d.AuthRole(), str("authrole")), "the authrole is that of WELCOME")
	sym.Assert(sym.Eq(d.AuthMethod(), str("authmethod")), "the authmethod is that of WELCOME")
	if r, ok := w.Details()["roles"].(map[string]any); ok && r != nil {
		sym.Assert(sym.Eq(d.RouterRoles(), r), "the roles are those of WELCOME")
	}
	sym.Assert(!d.StaticSerializer(), "the serializer is known")
}

// C27_Order: any sequence of messages.
func C27_Order() {
	method := methods[sym.Choice("method", 4)]
	ca := client(method)
	broken := method == ticket && sym.Choice("authenticator fails", 2) == 1
	if broken {
		ca = failing{ca}
	}
	j := wampproto.NewJoiner("realm", nil, ca)
	sent, answered, joinedYet, aborted := false, false, false, false
	var welcome *messages.Welcome
	for i := sym.Bound("messages", 5, 6); i > 0; i-- {
		n := 4
		if !sent && !aborted {
			n = 5
		}
		switch sym.Choice("message", n) {
		case 4:
			b, err := j.SendHello()
			sym.Assert(err == nil && len(b) > 0, "HELLO can be sent")
			sent = true
		case 0:
			w := messages.NewWelcome(sym.Uint64("session"), map[string]any{"authid": "a", "authrole": "b", "authmethod": method, "roles": map[string]any{"r": "s"}})
			m, err := j.ReceiveMessage(w)
			sym.Assert(m == nil, "WELCOME is not answered")
			sym.Assert((err == nil) == (sent && !joinedYet && !aborted), "WELCOME is accepted exactly after HELLO, once")
			if err == nil {
				joinedYet, welcome = true, w
			}
		case 1:
			extra := map[string]any{"challenge": "abcd"}
			m, err := j.ReceiveMessage(messages.NewChallenge(method, extra))
			sym.Assert((m == nil) == (err != nil), "an answer or an error")
			if err == nil {
				sym.Assert(sent && !answered && !joinedYet && !aborted, "CHALLENGE is answered once, between HELLO and WELCOME")
				a, ok := m.(*messages.Authenticate)
				sym.Assert(ok && method != anonymous && !broken, "CHALLENGE is answered by AUTHENTICATE")
				_ = a
				answered = true
			} else {
				sym.Assert(!sent || answered || joinedYet || aborted || method == anonymous || broken, "the first CHALLENGE after HELLO is answered")
			}
		case 2:
			m, err := j.ReceiveMessage(messages.NewAbort(nil, "wamp.error.some_reason", nil, nil))
			sym.Assert(m == nil && err != nil, "ABORT is an error")
			sym.Assert(strings.Contains(err.Error(), "wamp.error.some_reason"), "the error names the reason")
			aborted = true
		case 3:
			k := sym.Choice("other", sym.Bound("other types", 3, 18))
			var m messages.Message
			if k == 0 {
				m = messages.NewHello("realm", "", nil, nil, nil)
			} else if k == 1 {
				m = messages.NewAuthenticate("", nil)
			} else {
				m = other(k + 1)
			}
			o, err := j.ReceiveMessage(m)
			sym.Assert(o == nil && err != nil, "everything else is refused")
		}
		_, err := j.SessionDetails()
		sym.Assert((err == nil) == joinedYet, "session details exactly after WELCOME")
		if joinedYet {
			joined(j, welcome)
		}
	}
}

// C27_Types: every other type in every state.
func C27_Types() {
	j := wampproto.NewJoiner("realm", nil, client(ticket))
	state := sym.Choice("state", 5) // new, hello, challenged, joined, aborted
	if state > 0 {
		j.SendHello()
	}
	if state > 1 {
		j.ReceiveMessage(messages.NewChallenge(ticket, nil))
	}
	if state == 3 {
		j.ReceiveMessage(messages.NewWelcome(1, map[string]any{}))
	}
	if state == 4 {
		j.ReceiveMessage(messages.NewAbort(nil, "r", nil, nil))
	}
	var m messages.Message
	switch k := sym.Choice("type", 21); k {
	case 0:
		m = messages.NewHello("realm", "", nil, nil, nil)
	case 1:
		m = messages.NewAuthenticate("", nil)
	default:
		m = other(k + 1)
	}
	o, err := j.ReceiveMessage(m)
	sym.Assert(o == nil && err != nil, "everything else is refused")
	_, err = j.SessionDetails()
	sym.Assert((err == nil) == (state == 3), "a refused message establishes nothing")
	_, err = j.ReceiveMessage(messages.NewWelcome(1, map[string]any{}))
	sym.Assert((err == nil) == (state == 1 || state == 2), "a refused message does not change what is expected")
}

func any8(name string) any {
	return sym.OneOf(name, nil, "text", uint64(7), int64(-1), 1.5, true, []any{"a", nil}, map[string]any{"k": []any{}}, []byte{1})
}

// C27_Welcome: any content of WELCOME.
func C27_Welcome() {
	j := wampproto.NewJoiner("realm", nil, client(anonymous))
	j.SendHello()
	d := map[string]any{}
	for _, k := range []string{"authid", "authrole", "authmethod", "roles"} {
		if sym.Choice("has "+k, 2) == 1 {
			d[k] = any8(k)
		}
	}
	switch sym.Choice("details", 3) {
	case 1:
		d = nil
	case 2:
		d = odd.With(d, odd.Dict("authid", "authrole", "authmethod", "roles"))
	}
	w := messages.NewWelcome(sym.Uint64("session"), d)
	m, err := j.ReceiveMessage(w)
	sym.Assert(m == nil && err == nil, "WELCOME is accepted")
	joined(j, w)
}

// C27_Abort: any content of ABORT.
func C27_Abort() {
	j := wampproto.NewJoiner("realm", nil, client(ticket))
	state := sym.Choice("state", 4) // new, hello, challenged, joined
	if state > 0 {
		j.SendHello()
	}
	if state > 1 {
		j.ReceiveMessage(messages.NewChallenge(ticket, nil))
	}
	if state == 3 {
		j.ReceiveMessage(messages.NewWelcome(1, map[string]any{}))
	}
	reason := "wamp.error.some_reason"
	var args []any
	var kwargs map[string]any
	for i := sym.Choice("args", sym.Bound("args", 2, 3)); i > 0; i-- {
		args = append(args, any8("arg"))
	}
	for i := sym.Choice("kwargs", sym.Bound("kwargs", 2, 3)); i > 0; i-- {
		if kwargs == nil {
			kwargs = map[string]any{}
		}
		kwargs[[]string{"", "a", "b"}[i]] = any8("kwarg")
	}
	m, err := j.ReceiveMessage(messages.NewAbort(odd.Opts(), reason, args, kwargs))
	sym.Assert(m == nil && err != nil, "ABORT is an error")
	sym.Assert(strings.Contains(err.Error(), reason), "the error names the reason")
	_, err = j.SessionDetails()
	sym.Assert((err == nil) == (state == 3), "ABORT establishes nothing")
	_, err = j.ReceiveMessage(messages.NewWelcome(1, map[string]any{}))
	sym.Assert(err != nil, "no WELCOME after ABORT")
}

// C27_Challenge: any content of CHALLENGE.
func C27_Challenge() {
	method := methods[sym.Choice("method", 4)]
	j := wampproto.NewJoiner("realm", nil, client(method))
	j.SendHello()
	extra := map[string]any{}
	if sym.Choice("has challenge", 2) == 1 {
		extra["challenge"] = sym.OneOf("challenge", nil, "abcd", "abc", "xy", "", uint64(1), []any{}, []byte{1}, map[string]any{})
	}
	if method == wampcra {
		if sym.Choice("has salt", 2) == 1 {
			extra["salt"] = sym.OneOf("salt", "salt", "", nil, uint64(1), []byte{1})
		}
		if sym.Choice("has iterations", 2) == 1 {
			n := sym.Int64("iterations")
			sym.Assume(n <= 2000)
			extra["iterations"] = sym.OneOf("iterations", n, uint16(n&2047), "10", nil, 12.5, true)
		}
		if sym.Choice("has keylen", 2) == 1 {
			n := sym.Int64("keylen")
			sym.Assume(sym.Or(n <= 33, n > 4096))
			extra["keylen"] = sym.OneOf("keylen", n, uint64(n), uint8(n&31), "10", nil, 12.5, -3.5, 1e300, true)
		}
	}
	name := method
	if sym.Choice("other method", 2) == 1 {
		name = "other"
	}
	if sym.Choice("no extra", 2) == 1 {
		extra = nil
	}
	m, err := j.ReceiveMessage(messages.NewChallenge(name, extra))
	sym.Assert((m == nil) == (err != nil), "an answer or an error")
	if m != nil {
		a, ok := m.(*messages.Authenticate)
		sym.Assert(ok && a != nil, "CHALLENGE is answered by AUTHENTICATE")
	}
	_, err = j.SessionDetails()
	sym.Assert(err != nil, "CHALLENGE establishes nothing")
}

// mute is a serializer that cannot encode for a while.
type mute struct {
	serializers.Serializer
	on bool
}

func (m *mute) Serialize(msg messages.Message) ([]byte, error) {
	if m.on {
		return nil, errors.New("cannot encode")
	}
	return m.Serializer.Serialize(msg)
}

// C27_Unsent: a HELLO that cannot be encoded was not sent.
func C27_Unsent() {
	method := methods[sym.Choice("method", 4)]
	c := &mute{codec(sym.Choice("codec", 3)), true}
	j := wampproto.NewJoiner("realm", c, client(method))
	b, err := j.SendHello()
	sym.Assert(b == nil && err != nil, "what cannot be encoded is not sent")
	welcome := messages.NewWelcome(1, map[string]any{"authid": "a", "authrole": "r", "authmethod": method, "roles": map[string]any{}})
	early := sym.Choice("early", 3)
	switch early {
	case 1:
		m, err := j.ReceiveMessage(welcome)
		sym.Assert(m == nil && err != nil, "WELCOME is not accepted before HELLO was sent")
	case 2:
		m, err := j.ReceiveMessage(messages.NewChallenge(method, map[string]any{"challenge": "00"}))
		sym.Assert(m == nil && err != nil, "CHALLENGE is not accepted before HELLO was sent")
	}
	_, err = j.SessionDetails()
	sym.Assert(err != nil, "there is no session before WELCOME")
	c.on = false
	b, err = j.SendHello()
	sym.Assert(b != nil && err == nil, "HELLO can be sent")
	_, err = j.ReceiveMessage(welcome)
	sym.Assert(err == nil, "WELCOME is accepted after HELLO")
	_, err = j.SessionDetails()
	sym.Assert(err == nil, "there is a session after WELCOME")
}
