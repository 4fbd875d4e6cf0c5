// Package hflow checks what holds across the parts: clients, serializers,
// handshakes and the router together (C45, C48), and that objects and messages
// do not influence each other behind the user's back (C46, C47).
package hflow

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

func codec(k int) serializers.Serializer {
	return []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.MsgPackSerializer{}, &serializers.CBORSerializer{}, static{&serializers.CBORSerializer{}}}[k]
}

// static is a serializer that has binary payloads.
type static struct{ serializers.Serializer }

func (static) Static() bool { return true }

// same: b is a, up to the number types of a codec. Absent and empty containers
// are the same.
func same(a, b any) bool {
	switch x := a.(type) {
	case nil:
		switch y := b.(type) {
		case []any:
			return len(y) == 0
		case map[string]any:
			return len(y) == 0
		}
		return b == nil
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return b == nil && len(x) == 0
		}
		r := true
		for i := range x {
			r = sym.And(r, same(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return b == nil && len(x) == 0
		}
		r := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			r = sym.And(r, same(v, w))
		}
		return r
	case string:
		y, ok := b.(string)
		return ok && sym.Eq(x, y)
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	x, ok1 := number(a)
	y, ok2 := number(b)
	return ok1 && ok2 && x == y
}

func number(v any) (uint64, bool) {
	switch x := v.(type) {
	case uint64:
		return x, true
	case uint32:
		return uint64(x), true
	case uint16:
		return uint64(x), true
	case uint8:
		return uint64(x), true
	case int64:
		return uint64(x), x >= 0
	case int32:
		return uint64(x), x >= 0
	case int16:
		return uint64(x), x >= 0
	case int8:
		return uint64(x), x >= 0
	case float64:
		return uint64(x), float64(uint64(x)) == x
	}
	return 0, false
}

func id(name string) uint64 {
	x := sym.Uint64(name)
	sym.Assume(sym.And(x >= 1, x <= 1<<53))
	return x
}

// some is an ID out of a few; the codecs' numbers are the business of C33 and
// C34.
func some(name string) uint64 {
	return []uint64{1, 1 << 53, 3}[sym.Choice(name, sym.Bound("IDs", 2, 3))]
}

// payload is what travels.
func payload(name string) ([]any, map[string]any) {
	switch sym.Choice(name, 4) {
	case 0:
		return nil, nil
	case 1:
		return []any{}, map[string]any{"k": sym.Str("kwarg", 2)}
	case 2:
		return []any{uint64(70000), sym.Str("arg", 2), nil}, nil
	}
	return []any{[]any{sym.Bool("item")}, map[string]any{"n": sym.Str("nested", 1)}}, map[string]any{"k": sym.Bool("kwarg"), "l": []any{}}
}

// peer is a client with its session, and the router's side of its connection.
type peer struct {
	id   uint64
	c    serializers.Serializer
	s    *wampproto.Session
	seen messages.Message // the last message it took
	n    int              // how many
}

type router struct {
	d     *wampproto.Dealer
	b     *wampproto.Broker
	peers []*peer
}

type approve struct{}

func (approve) Methods() []auth.Method { return []auth.Method{"anonymous"} }
func (approve) Authenticate(r auth.Request) (auth.Response, error) {
	return auth.NewResponse(r.AuthID(), "user", 0)
}

// join connects a client whose session is established.
func (r *router) join(k int) *peer {
	return r.connect(codec(k), details(sym.Uint64("session"), false))
}

func (r *router) connect(c serializers.Serializer, d *wampproto.SessionDetails) *peer {
	p := &peer{id: d.ID(), c: c, s: wampproto.NewSession(c)}
	for _, o := range r.peers {
		sym.Assume(o.id != p.id)
	}
	sym.Assert(r.d.AddSession(d) == nil && r.b.AddSession(d) == nil, "the session is attached")
	r.peers = append(r.peers, p)
	return p
}

// C45_Join: from the handshake to a call and an event.
func C45_Join() {
	r := newRouter()
	c := codec(sym.Choice("codec", 3))
	j, a := wampproto.NewJoiner("realm", c, nil), wampproto.NewAcceptor(c, approve{})
	hello, err := j.SendHello()
	sym.Assert(err == nil, "HELLO can be sent")
	welcome, done, err := a.Receive(hello)
	sym.Assert(err == nil && done, "the client is welcomed")
	out, err := j.Receive(welcome)
	sym.Assert(err == nil && out == nil, "the client joins")
	jd, err1 := j.SessionDetails()
	ad, err2 := a.SessionDetails()
	sym.Assert(err1 == nil && err2 == nil && jd.ID() == ad.ID(), "both know the session")
	p := r.connect(c, ad)
	sym.Assert(r.from(p, messages.NewRegister(1, nil, "a.b")), "REGISTER is answered")
	sym.Assert(r.from(p, messages.NewCall(2, nil, "a.b", []any{"x"}, nil)), "CALL is routed")
	inv, ok := p.seen.(*messages.Invocation)
	sym.Assert(ok && same([]any{"x"}, inv.Args()), "the callee is invoked")
	sym.Assert(r.from(p, messages.NewYield(inv.RequestID(), nil, nil, nil)), "YIELD is routed")
	res, ok := p.seen.(*messages.Result)
	sym.Assert(ok && res.RequestID() == 2, "the caller gets its RESULT")
	sym.Assert(r.from(p, messages.NewSubscribe(3, nil, "a.b")), "SUBSCRIBE is answered")
	sym.Assert(r.from(p, messages.NewPublish(4, map[string]any{"exclude_me": false}, "a.b", []any{"y"}, nil)), "PUBLISH is taken")
	ev, ok := p.seen.(*messages.Event)
	sym.Assert(ok && same([]any{"y"}, ev.Args()), "the event arrives at the subscriber")
}

func newRouter() *router { return &router{d: wampproto.NewDealer(), b: wampproto.NewBroker()} }

// to delivers a message of the router.
func (r *router) to(who uint64, m messages.Message) {
	for _, p := range r.peers {
		if p.id != who {
			continue
		}
		b, err := p.c.Serialize(m)
		sym.Assert(err == nil, "the router's message can be encoded")
		got, err := p.s.Receive(b)
		sym.Assert(err == nil && got != nil, "the client accepts the router's message")
		p.seen = got
		p.n++
		return
	}
	sym.Assert(false, "messages go to connected clients")
}

// from sends a message of a client through the router.
func (r *router) from(p *peer, m messages.Message) bool {
	b, err := p.s.SendMessage(m)
	sym.Assert(err == nil && len(b) > 0, "the client can send its message")
	in, err := p.c.Deserialize(b)
	sym.Assert(err == nil && in != nil && in.Type() == m.Type(), "the router reads the client's message")
	if err != nil || in == nil {
		return false
	}
	switch x := in.(type) {
	case *messages.Publish:
		pub, err := r.b.ReceivePublish(p.id, x)
		if err != nil || pub == nil {
			return false
		}
		if pub.Ack != nil {
			r.to(pub.Ack.Recipient, pub.Ack.Message)
		}
		for _, who := range pub.Recipients {
			r.to(who, pub.Event)
		}
		return true
	case *messages.Subscribe, *messages.Unsubscribe:
		out, err := r.b.ReceiveMessage(p.id, in)
		if err != nil || out == nil {
			return false
		}
		r.to(out.Recipient, out.Message)
		return true
	}
	out, err := r.d.ReceiveMessage(p.id, in)
	if err != nil || out == nil {
		return false
	}
	r.to(out.Recipient, out.Message)
	return true
}

var matches = []struct {
	opts map[string]any
	uri  string
}{{nil, "a.b.c"}, {map[string]any{"match": "prefix"}, "a.b"}, {map[string]any{"match": "wildcard"}, "a.*.c"}}

// C45_Call: a procedure is registered, called, answered and given up.
func C45_Call() {
	r := newRouter()
	callee := r.join(sym.Choice("callee codec", 3))
	caller := callee
	if sym.Choice("caller", 2) == 1 {
		caller = r.join(sym.Choice("caller codec", 3))
	}
	progress := sym.Choice("progressive results", 3)
	want := progress > 0 || sym.Choice("receive_progress", 2) == 1
	m := matches[0]
	if !want {
		m = matches[sym.Choice("match", 3)]
	}
	sym.Assert(r.from(callee, messages.NewRegister(11, m.opts, m.uri)), "REGISTER is answered")
	reg, ok := callee.seen.(*messages.Registered)
	sym.Assert(ok, "the callee is registered")
	call := some("call")
	args, kwargs := payload("call payload")
	opts := map[string]any{}
	if want {
		opts["receive_progress"] = true
	}
	n := callee.n
	sym.Assert(r.from(caller, messages.NewCall(call, opts, "a.b.c", args, kwargs)), "CALL is routed")
	inv, ok := callee.seen.(*messages.Invocation)
	sym.Assert(ok && callee.n == n+1, "the callee is invoked")
	if !ok {
		return
	}
	sym.Assert(inv.RegistrationID() == reg.RegistrationID(), "the callee knows what is called")
	sym.Assert(same(args, inv.Args()) && same(kwargs, inv.KwArgs()), "the arguments arrive at the callee")
	for i := 0; i < progress; i++ {
		pa, pk := []any{sym.Str("part", 1), uint64(i)}, map[string]any{"k": sym.Bool("part")}
		sym.Assert(r.from(callee, messages.NewYield(inv.RequestID(), map[string]any{"progress": true}, pa, pk)), "a progressive YIELD is routed")
		res, ok := caller.seen.(*messages.Result)
		sym.Assert(ok && res.RequestID() == call, "the caller gets its progressive RESULT")
		if ok {
			more, _ := res.Details()["progress"].(bool)
			sym.Assert(more && same(pa, res.Args()) && same(pk, res.KwArgs()), "the progressive result arrives at the caller")
		}
	}
	ra, rk := payload("result payload")
	if sym.Choice("fails", 2) == 0 {
		sym.Assert(r.from(callee, messages.NewYield(inv.RequestID(), nil, ra, rk)), "YIELD is routed")
		res, ok := caller.seen.(*messages.Result)
		sym.Assert(ok && res.RequestID() == call, "the caller gets its RESULT")
		if ok {
			sym.Assert(same(ra, res.Args()) && same(rk, res.KwArgs()), "the result arrives at the caller")
		}
	} else {
		sym.Assert(r.from(callee, messages.NewError(messages.MessageTypeInvocation, inv.RequestID(), nil, "an.error", ra, rk)), "ERROR is routed")
		res, ok := caller.seen.(*messages.Error)
		sym.Assert(ok && res.RequestID() == call && res.MessageType() == messages.MessageTypeCall, "the caller gets its ERROR")
		if ok {
			sym.Assert(res.URI() == "an.error" && same(ra, res.Args()) && same(rk, res.KwArgs()), "the error arrives at the caller")
		}
	}
	_, err := caller.s.ReceiveMessage(caller.seen)
	sym.Assert(err != nil, "the answer ends the call")
	sym.Assert(r.from(callee, messages.NewUnregister(12, reg.RegistrationID())), "UNREGISTER is answered")
	_, ok = callee.seen.(*messages.Unregistered)
	sym.Assert(ok, "the callee is no longer registered")
	again := uint64(13)
	sym.Assert(r.from(caller, messages.NewCall(again, nil, "a.b.c", nil, nil)), "a call of nothing is answered")
	e, ok := caller.seen.(*messages.Error)
	sym.Assert(ok && e.RequestID() == again && e.URI() == wampproto.ErrNoSuchProcedure, "the caller learns that there is no such procedure")
}

// C45_Event: topics are subscribed, published to and unsubscribed.
func C45_Event() {
	r := newRouter()
	reader := r.join(sym.Choice("subscriber codec", 3))
	writer := r.join(sym.Choice("publisher codec", 3))
	m := matches[sym.Choice("match", 3)]
	both := sym.Choice("publisher subscribes", 2) == 1
	sym.Assert(r.from(reader, messages.NewSubscribe(14, m.opts, m.uri)), "SUBSCRIBE is answered")
	sub, ok := reader.seen.(*messages.Subscribed)
	sym.Assert(ok, "the subscriber is subscribed")
	if !ok {
		return
	}
	if both {
		sym.Assert(r.from(writer, messages.NewSubscribe(14, m.opts, m.uri)), "SUBSCRIBE is answered")
		sub2, ok := writer.seen.(*messages.Subscribed)
		sym.Assert(ok && sub2.SubscriptionID() == sub.SubscriptionID(), "the publisher is subscribed")
	}
	args, kwargs := payload("payload")
	opts := map[string]any{}
	ack := sym.Choice("acknowledge", 2) == 1
	if ack {
		opts["acknowledge"] = true
	}
	own := both && sym.Choice("own events", 2) == 1
	if own {
		opts["exclude_me"] = false
	}
	n, k, req := reader.n, writer.n, some("publish")
	sym.Assert(r.from(writer, messages.NewPublish(req, opts, "a.b.c", args, kwargs)), "PUBLISH is taken")
	ev, ok := reader.seen.(*messages.Event)
	sym.Assert(ok && reader.n == n+1, "the subscriber gets the event once")
	if ok {
		sym.Assert(ev.SubscriptionID() == sub.SubscriptionID() && same(args, ev.Args()) && same(kwargs, ev.KwArgs()), "the event arrives at the subscriber")
	}
	want := 0
	if ack {
		want++
	}
	if own {
		want++
	}
	sym.Assert(writer.n == k+want, "the publisher gets what it asked for")
	if ack && !own {
		p, ok := writer.seen.(*messages.Published)
		sym.Assert(ok && p.RequestID() == req && ev != nil && p.PublicationID() == ev.PublicationID(), "the publication is acknowledged")
	}
	sym.Assert(r.from(reader, messages.NewUnsubscribe(15, sub.SubscriptionID())), "UNSUBSCRIBE is answered")
	_, ok = reader.seen.(*messages.Unsubscribed)
	sym.Assert(ok, "the subscriber is no longer subscribed")
	n, k = reader.n, writer.n
	opts = map[string]any{}
	if ack {
		opts["acknowledge"] = true
	}
	topic := []string{"a.b.c", "x.y"}[sym.Choice("topic", 2)] // the publisher may still read the first, nobody the second
	sym.Assert(r.from(writer, messages.NewPublish(16, opts, topic, nil, nil)), "PUBLISH is taken")
	sym.Assert(reader.n == n, "who unsubscribed gets no event")
	sym.Assert(!ack && writer.n == k || ack && writer.n == k+1, "the publisher gets no more than it asked for")
	if ack {
		p, ok := writer.seen.(*messages.Published)
		sym.Assert(ok && p.RequestID() == 16, "a publication nobody reads is acknowledged")
	}
}

// C48_Hello: what the joiner says of itself, with any authenticator.
func C48_Hello() {
	c := codec(sym.Choice("codec", 4))
	roles, _ := odd.Copy(wampproto.ClientRoles).(map[string]any)
	realm, aid := sym.Str("realm", 3), sym.Str("authid", 2)
	var extra map[string]any
	switch sym.Choice("authextra", 4) {
	case 1:
		extra = map[string]any{}
	case 2:
		extra = map[string]any{"k": sym.Str("extra", 2), "n": id("number"), "l": []any{sym.Bool("item")}}
	case 3: // keys that mean something elsewhere
		ks := append(sym.Keys(), "authid", "authmethods", "roles")
		extra = map[string]any{ks[sym.Choice("key", len(ks))]: []any{"other", true}[sym.Choice("value", 2)]}
		delete(extra, "pubkey")
	}
	want := map[string]any{}
	for k, v := range extra {
		want[k] = v
	}
	var a auth.ClientAuthenticator
	method := []string{"anonymous", "ticket", "wampcra", "cryptosign", "anonymous"}[sym.Choice("method", 5)]
	switch method {
	case "anonymous":
		if sym.Choice("authenticator", 2) == 1 {
			a = auth.NewAnonymousAuthenticator(aid, extra)
		} else {
			aid, want = "", map[string]any{}
		}
	case "ticket":
		a = auth.NewTicketAuthenticator(aid, sym.Str("ticket", 3), extra)
	case "wampcra":
		a = auth.NewWAMPCRAAuthenticator(aid, sym.Str("secret", 3), extra)
	case "cryptosign":
		pub, priv, err := auth.GenerateCryptoSignKeyPair()
		sym.Assert(err == nil, "a key pair can be made")
		a, err = auth.NewCryptoSignAuthenticator(aid, priv, extra)
		sym.Assert(err == nil, "the authenticator takes the key")
		want["pubkey"] = pub
	}
	j := wampproto.NewJoiner(realm, c, a)
	b, err := j.SendHello()
	sym.Assert(err == nil && len(b) > 0, "HELLO can be sent")
	m, err := c.Deserialize(b)
	h, ok := m.(*messages.Hello)
	sym.Assert(err == nil && ok, "HELLO can be read")
	if !ok {
		return
	}
	sym.Assert(sym.Eq(h.Realm(), realm), "HELLO names the realm")
	sym.Assert(sym.Eq(h.AuthID(), aid), "HELLO names the authid")
	sym.Assert(len(h.AuthMethods()) == 1 && h.AuthMethods()[0] == method, "HELLO names the method of the authenticator only")
	sym.Assert(same(want, h.AuthExtra()), "HELLO carries the authextra")
	for _, role := range []string{"caller", "callee", "publisher", "subscriber"} {
		given, ok := roles[role]
		sym.Assert(ok, "the client has all four roles")
		got, ok := h.Roles()[role]
		sym.Assert(ok && same(given, got), "HELLO announces the client's roles and features")
	}
	sym.Assert(len(h.Roles()) == 4, "HELLO announces the client's roles and features")
	sym.Assert(sym.Eq(wampproto.ClientRoles, roles), "the client's roles and features stay as they are")
	caller, _ := h.Roles()["caller"].(map[string]any)
	cf, _ := caller["features"].(map[string]any)
	callee, _ := h.Roles()["callee"].(map[string]any)
	ef, _ := callee["features"].(map[string]any)
	sym.Assert(same(cf["progressive_call_invocations"], true) && same(ef["progressive_call_results"], true), "HELLO announces progressive calls")
}
