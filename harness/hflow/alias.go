package hflow

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// kept remembers what values looked like when they were handed in or out.
type kept struct {
	now  []func() any
	then []any
	what []string
}

func (k *kept) keep(what string, f func() any) {
	k.now = append(k.now, f)
	k.then = append(k.then, odd.Copy(f()))
	k.what = append(k.what, what)
}

func (k *kept) message(what string, m messages.Message) {
	if m == nil {
		return
	}
	k.keep(what, func() any { return m.Marshal() })
	if b, ok := m.(messages.BinaryPayload); ok && b.PayloadIsBinary() {
		k.keep(what, func() any { return []any{b.Payload(), b.PayloadSerializer()} })
	}
}

// check compares all of it with what it looks like now.
func (k *kept) check() {
	for i := range k.now {
		now := k.now[i]()
		switch x := now.(type) {
		case []uint64:
			y := k.then[i].([]uint64)
			sym.Assert(len(x) == len(y), k.what[i]+" stay as they were")
			for j := range x {
				sym.Assert(j < len(y) && x[j] == y[j], k.what[i]+" stay as they were")
			}
		default:
			sym.Assert(sym.Eq(now, k.then[i]), k.what[i]+" stay as they were")
		}
	}
}

func details(id uint64, static bool) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm", "authid", "role", "anonymous", static, nil, nil)
}

func two() (a, b uint64) {
	a, b = id("session"), id("session")
	sym.Assume(a != b)
	return
}

func someOptions() map[string]any {
	if sym.Choice("options", 2) == 0 {
		return nil
	}
	return map[string]any{"progress": true, "receive_progress": true, "acknowledge": true, "exclude_me": false,
		"x.list": []any{map[string]any{"k": sym.Bool("item")}}}
}

// C46_Dealer: messages to and from a dealer.
func C46_Dealer() {
	a, b := two()
	d := wampproto.NewDealer()
	static := sym.Choice("static", 2) == 1
	sym.Assert(d.AddSession(details(a, static)) == nil && d.AddSession(details(b, static)) == nil, "sessions attach")
	d.AutoDiscloseCaller(sym.Choice("disclose", 2) == 1)
	k := &kept{}
	last := uint64(1)
	do := func(s uint64, m messages.Message) {
		k.message("messages given to the dealer", m)
		out, err := d.ReceiveMessage(s, m)
		if err == nil && out != nil {
			k.message("messages the dealer gave out", out.Message)
			to := out.Recipient
			k.keep("recipients", func() any { return []uint64{out.Recipient} })
			_ = to
			if inv, ok := out.Message.(*messages.Invocation); ok {
				last = inv.RequestID()
			}
		}
	}
	share := map[string]any{"invoke": "roundrobin"}
	do(a, messages.NewRegister(1, share, "p"))
	bin := func() ([]byte, uint64) { return sym.Bytes("payload", 2), id("serializer") }
	for i := 0; i < sym.Bound("steps", 3, 4); i++ {
		switch sym.Choice("step", 8) {
		case 0:
			args, kwargs := []any{id("arg"), []any{sym.Bool("item")}}, map[string]any{"k": id("kwarg")}
			do(b, messages.NewCall(id("request"), someOptions(), "p", args, kwargs))
		case 1:
			p, s := bin()
			do(b, messages.NewCallBinary(id("request"), someOptions(), "p", p, s))
		case 2:
			do(a, messages.NewYield(last, someOptions(), []any{"r", id("arg")}, map[string]any{"k": sym.Bool("kwarg")}))
		case 3:
			p, s := bin()
			do(a, messages.NewYieldBinary(last, someOptions(), p, s))
		case 4:
			do(a, messages.NewError(messages.MessageTypeInvocation, last, map[string]any{"d": sym.Bool("detail")}, "an.error", []any{id("arg")}, nil))
		case 5:
			do(b, messages.NewRegister(2, share, "p"))
		case 6:
			do(a, messages.NewUnregister(3, 1))
		case 7:
			_ = d.RemoveSession(a)
		}
	}
	do(b, messages.NewCall(id("request"), nil, "p", nil, nil))
	k.check()
}

// C46_Broker: messages and publications of a broker.
func C46_Broker() {
	ss := make([]uint64, 3)
	b := wampproto.NewBroker()
	for i := range ss {
		ss[i] = id("session")
		for j := 0; j < i; j++ {
			sym.Assume(ss[j] != ss[i])
		}
		sym.Assert(b.AddSession(details(ss[i], false)) == nil, "sessions attach")
	}
	b.AutoDisclosePublisher(sym.Choice("disclose", 2) == 1)
	k := &kept{}
	do := func(s uint64, m messages.Message) {
		k.message("messages given to the broker", m)
		out, err := b.ReceiveMessage(s, m)
		if err == nil && out != nil {
			k.message("messages the broker gave out", out.Message)
			k.keep("recipients", func() any { return []uint64{out.Recipient} })
		}
	}
	pub := func(s uint64) {
		var args []any
		var kwargs map[string]any
		if s == ss[2] {
			args, kwargs = []any{id("arg"), []any{sym.Bool("item")}}, map[string]any{"k": id("kwarg")}
		}
		m := messages.NewPublish(id("request"), someOptions(), "t", args, kwargs)
		k.message("messages given to the broker", m)
		out, err := b.ReceivePublish(s, m)
		if err != nil || out == nil {
			return
		}
		if out.Event != nil {
			k.message("events the broker gave out", out.Event)
		}
		if out.Ack != nil {
			k.message("messages the broker gave out", out.Ack.Message)
		}
		k.keep("recipients", func() any { return out.Recipients })
	}
	match := []map[string]any{nil, {"match": "prefix"}, {"match": "wildcard"}}[sym.Choice("match", 3)]
	do(ss[0], messages.NewSubscribe(1, match, "t"))
	do(ss[1], messages.NewSubscribe(2, match, "t"))
	pub(ss[2])
	for i := 0; i < sym.Bound("steps", 2, 3); i++ {
		switch sym.Choice("step", 5) {
		case 0:
			do(ss[2], messages.NewSubscribe(3, match, "t"))
		case 1:
			do(ss[0], messages.NewUnsubscribe(4, 1))
		case 2:
			_ = b.RemoveSession(ss[1])
		case 3:
			pub(ss[2])
		case 4:
			pub(ss[0])
		}
	}
	pub(ss[2])
	k.check()
}

// C46_Build: the constructors leave what they are given as it is, and messages
// made from the same options do not meet.
func C46_Build() {
	k := &kept{}
	opts := []map[string]any{{}, {"x": sym.Bool("option")}, {"x_payload_serializer": id("other"), "l": []any{id("item")}}}[sym.Choice("options", 3)]
	k.keep("options given to a constructor", func() any { return opts })
	p := sym.Bytes("payload", 2)
	k.keep("payloads given to a constructor", func() any { return p })
	args, kwargs := []any{id("arg"), []any{nil}}, map[string]any{"k": []any{sym.Bool("kwarg")}}
	k.keep("arguments given to a constructor", func() any { return []any{args, kwargs} })
	for i := 0; i < 2; i++ {
		switch sym.Choice("message", 14) {
		case 0:
			k.message("messages", messages.NewCallBinary(1, opts, "p", p, id("serializer")))
		case 1:
			k.message("messages", messages.NewInvocationBinary(1, 2, opts, p, id("serializer")))
		case 2:
			k.message("messages", messages.NewYieldBinary(1, opts, p, id("serializer")))
		case 3:
			k.message("messages", messages.NewResultBinary(1, opts, p, id("serializer")))
		case 4:
			k.message("messages", messages.NewCall(1, opts, "p", args, kwargs))
		case 5:
			k.message("messages", messages.NewInvocation(1, 2, opts, args, kwargs))
		case 6:
			k.message("messages", messages.NewYield(1, opts, args, kwargs))
		case 7:
			k.message("messages", messages.NewResult(1, opts, args, kwargs))
		case 8:
			k.message("messages", messages.NewPublish(1, opts, "t", args, kwargs))
		case 9:
			k.message("messages", messages.NewEvent(1, 2, opts, args, kwargs))
		case 10:
			k.message("messages", messages.NewError(48, 1, opts, "e", args, kwargs))
		case 11:
			k.message("messages", messages.NewHello("realm", "id", opts, kwargs, []string{"anonymous"}))
		case 12:
			k.message("messages", messages.NewWelcome(1, opts))
		case 13:
			k.message("messages", messages.NewAbort(opts, "r", args, kwargs))
		}
	}
	k.check()
}

// C46_Encode: serializers and payload functions leave what they encode and
// decode as it is.
func C46_Encode() {
	k := &kept{}
	args, kwargs := payload("payload")
	k.keep("arguments", func() any { return []any{args, kwargs} })
	c := codec(sym.Choice("codec", 3))
	switch sym.Choice("what", 3) {
	case 0:
		m := messages.NewCall(id("request"), map[string]any{"x": sym.Bool("option")}, "p", args, kwargs)
		k.message("messages", m)
		b, err := c.Serialize(m)
		sym.Assert(err == nil, "a message can be encoded")
		k.keep("encoded messages", func() any { return b })
		m1, err1 := c.Deserialize(b)
		m2, err2 := c.Deserialize(b)
		sym.Assert(err1 == nil && err2 == nil, "an encoded message can be decoded, more than once")
		k.message("messages", m1)
		k.message("messages", m2)
		_, _ = c.Serialize(messages.NewEvent(1, 2, nil, []any{"other"}, nil))
	case 1:
		n := uint64(1 + sym.Choice("serializer", 3))
		b, err := serializers.SerializePayload(n, args, kwargs)
		sym.Assert(err == nil, "a payload can be encoded")
		k.keep("encoded payloads", func() any { return b })
		a1, k1, err := serializers.DeserializePayload(n, b)
		sym.Assert(err == nil, "a payload can be decoded")
		k.keep("decoded payloads", func() any { return []any{a1, k1} })
		b2, err := serializers.SerializePayload(n, []any{"other"}, nil)
		sym.Assert(err == nil, "a payload can be encoded")
		_, _, _ = serializers.DeserializePayload(n, b2)
	case 2:
		b, err := serializers.EncodeCBOR(args, kwargs)
		sym.Assert(err == nil, "arguments can be encoded")
		k.keep("encoded payloads", func() any { return b })
		a1, k1, err := serializers.DecodeCBOR(b)
		sym.Assert(err == nil, "arguments can be decoded")
		k.keep("decoded payloads", func() any { return []any{a1, k1} })
		b2, _ := serializers.EncodeCBOR([]any{"other"}, nil)
		_, _, _ = serializers.DecodeCBOR(b2)
	}
	k.check()
}

// C46_Handshake: the user's authextra, and the messages of a handshake.
func C46_Handshake() {
	k := &kept{}
	extra := map[string]any{"x": id("extra")}
	k.keep("the authextra given to an authenticator", func() any { return extra })
	roles := func() any { return []any{wampproto.ClientRoles, wampproto.RouterRoles} }
	k.keep("the roles", roles)
	var as []auth.ClientAuthenticator
	for i := 0; i < 2; i++ {
		switch sym.Choice("authenticator", 4) {
		case 0:
			as = append(as, auth.NewAnonymousAuthenticator("a", extra))
		case 1:
			as = append(as, auth.NewTicketAuthenticator("a", "ticket", extra))
		case 2:
			as = append(as, auth.NewWAMPCRAAuthenticator("a", "secret", extra))
		case 3:
			_, priv, err := auth.GenerateCryptoSignKeyPair()
			sym.Assert(err == nil, "a key pair can be made")
			a, err := auth.NewCryptoSignAuthenticator("a", priv, extra)
			sym.Assert(err == nil, "an authenticator can be made for any key")
			if a == nil {
				return
			}
			as = append(as, a)
		}
	}
	for _, a := range as {
		a := a
		k.keep("authenticators", func() any { return []any{a.AuthID(), a.AuthMethod(), a.AuthExtra()} })
	}
	for _, a := range as {
		c := codec(0)
		j, acc := wampproto.NewJoiner("realm", c, a), wampproto.NewAcceptor(c, approve{})
		b, err := j.SendHello()
		sym.Assert(err == nil, "HELLO can be sent")
		out, _, err := acc.Receive(b)
		if err == nil {
			k.keep("answers of the acceptor", func() any { return out })
			_, _ = j.Receive(out)
		}
	}
	k.check()
}

// C46_Details: the dictionaries that session details are made of, and sessions
// made of the same ones.
func C46_Details() {
	k := &kept{}
	roles := []map[string]any{nil, {}, wampproto.RouterRoles, wampproto.ClientRoles, {"broker": map[string]any{"features": map[string]any{"f": sym.Bool("feature")}}, "dealer": map[string]any{}}}[sym.Choice("roles", 5)]
	extra := []map[string]any{nil, {}, {"x": id("extra"), "l": []any{sym.Bool("item")}}}[sym.Choice("extra", 3)]
	k.keep("the roles", func() any { return []any{wampproto.ClientRoles, wampproto.RouterRoles} })
	k.keep("dictionaries given for session details", func() any { return []any{roles, extra} })
	a, b := two()
	name := func(what string) string { return sym.StrOver(what, sym.Choice(what+" length", 2), "ab") }
	method := []string{"anonymous", "ticket", "cryptosign"}[sym.Choice("method", 3)]
	d, br := wampproto.NewDealer(), wampproto.NewBroker()
	d.AutoDiscloseCaller(sym.Choice("disclose", 2) == 1)
	for _, n := range []uint64{a, b} {
		s := wampproto.NewSessionDetails(n, name("realm"), name("authid"), name("authrole"), method, sym.Choice("static", 2) == 1, roles, extra)
		k.keep("session details", func() any {
			return []any{s.ID(), s.Realm(), s.AuthID(), s.AuthRole(), s.AuthMethod(), s.StaticSerializer(), s.RouterRoles(), s.AuthExtra()}
		})
		sym.Assert(d.AddSession(s) == nil && br.AddSession(s) == nil, "a session can be attached")
	}
	_, _ = d.ReceiveMessage(a, messages.NewRegister(1, nil, "p"))
	_, _ = d.ReceiveMessage(b, messages.NewCall(2, map[string]any{"disclose_me": true}, "p", nil, nil))
	_, _ = br.ReceiveMessage(a, messages.NewSubscribe(1, nil, "t"))
	_, _ = br.ReceivePublish(b, messages.NewPublish(2, map[string]any{"disclose_me": true}, "t", nil, nil))
	_, _ = d.RemoveSession(a), br.RemoveSession(b)
	k.check()
}

// C46_Session: what a session is given to send, and what it received.
func C46_Session() {
	k := &kept{}
	c := codec(sym.Choice("codec", 2))
	s := wampproto.NewSession(c)
	var received []messages.Message
	last := map[string]uint64{}
	send := func(what string, n uint64, m messages.Message) {
		k.message("messages given to the session", m)
		b, err := s.SendMessage(m)
		if err == nil {
			last[what] = n
			k.keep("what the session encoded", func() any { return b })
		}
	}
	receive := func(m messages.Message) {
		k.message("messages given to a serializer", m)
		b, err := c.Serialize(m)
		sym.Assert(err == nil, "a message can be encoded")
		got, err := s.Receive(b)
		if err == nil && got != nil {
			received = append(received, got)
			k.message("received messages", got)
		}
	}
	payload := func() ([]any, map[string]any) {
		return []any{sym.Str("arg", 1), []any{sym.Bool("item")}}, map[string]any{"k": []any{"v"}}
	}
	for i := 0; i < sym.Bound("steps", 3, 4); i++ {
		n := uint64(i + 1)
		switch sym.Choice("step", 8) {
		case 0:
			a, kw := payload()
			send("call", n, messages.NewCall(n, someOptions(), "p", a, kw))
		case 1:
			a, kw := payload()
			receive(messages.NewResult(last["call"], map[string]any{"progress": sym.Choice("progress", 2) == 1}, a, kw))
		case 2:
			send("register", n, messages.NewRegister(n, someOptions(), "p"))
		case 3:
			receive(messages.NewRegistered(last["register"], 5))
		case 4:
			a, kw := payload()
			receive(messages.NewInvocation(7, 5, map[string]any{"d": sym.Str("detail", 1)}, a, kw))
		case 5:
			a, kw := payload()
			send("yield", n, messages.NewYield(7, someOptions(), a, kw))
		case 6:
			a, kw := payload()
			send("publish", n, messages.NewPublish(n, someOptions(), "t", a, kw))
		case 7:
			a, kw := payload()
			receive(messages.NewError(messages.MessageTypeCall, last["call"], map[string]any{"d": []any{n}}, "an.error", a, kw))
		}
	}
	k.check()
}

// C46_Received: a session and the messages it is given, with whatever details
// the code looks up.
func C46_Received() {
	k := &kept{}
	s := wampproto.NewSession(nil)
	d := odd.With(map[string]any{"x.list": []any{map[string]any{"k": true}}}, odd.Opts("acknowledge"))
	args, kw := []any{"x", []any{sym.Bool("item")}}, map[string]any{"k": []any{"v"}}
	send := func(m messages.Message) {
		k.message("messages given to the session", m)
		b, err := s.SendMessage(m)
		if err == nil {
			k.keep("what the session encoded", func() any { return b })
		}
	}
	receive := func(m messages.Message) {
		k.message("messages given to the session", m)
		_, _ = s.ReceiveMessage(m)
	}
	send(messages.NewRegister(1, d, "p"))
	receive(messages.NewRegistered(1, 5))
	send(messages.NewSubscribe(2, d, "t"))
	receive(messages.NewSubscribed(2, 6))
	send(messages.NewCall(3, d, "p", args, kw))
	send(messages.NewPublish(4, odd.With(map[string]any{"acknowledge": true}, d), "t", args, kw))
	for round := 0; round < 2; round++ {
		switch sym.Choice("received", 7) {
		case 0:
			receive(messages.NewEvent(6, 8, d, args, kw))
		case 1:
			receive(messages.NewInvocation(9, 5, d, args, kw))
			send(messages.NewYield(9, d, args, kw))
		case 2:
			receive(messages.NewResult(3, d, args, kw))
		case 3:
			receive(messages.NewError([]uint64{messages.MessageTypeCall, messages.MessageTypePublish}[sym.Choice("about", 2)], uint64(3+sym.Choice("request", 2)), d, "an.error", args, kw))
		case 4:
			receive(messages.NewPublished(4, 11))
		case 5:
			receive(messages.NewGoodBye("wamp.close.normal", d))
			receive(messages.NewAbort(d, "wamp.error", args, kw))
		case 6:
			receive(messages.NewInvocation(9, 5, d, args, kw))
			send(messages.NewError(messages.MessageTypeInvocation, 9, d, "an.error", args, kw))
			send(messages.NewGoodBye("wamp.close.normal", d))
		}
	}
	k.check()
}
