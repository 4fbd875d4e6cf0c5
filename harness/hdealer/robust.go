package hdealer

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// message is any message with the given ID in it.
func message(k int, id uint64) messages.Message {
	opts := map[string]any(nil)
	switch k {
	case 0:
		return messages.NewCall(id, opts, "a.b.c", nil, nil)
	case 1:
		return messages.NewYield(id, opts, nil, nil)
	case 2:
		return messages.NewRegister(id, map[string]any{"match": sym.OneOf("match", "exact", "prefix", "wildcard", nil, uint64(3)), "invoke": "roundrobin"}, []string{"a.b.c", "a.", ""}[sym.Choice("uri", 3)])
	case 3:
		return messages.NewUnregister(sym.Uint64("request"), id)
	case 4:
		return messages.NewError(sym.Uint64("error type"), id, nil, "e", nil, nil)
	case 5:
		return messages.NewPublish(id, nil, "a.b.c", nil, nil)
	case 6:
		return messages.NewCancel(id, nil)
	case 7:
		return messages.NewGoodBye("wamp.close.normal", nil)
	case 8:
		return messages.NewSubscribe(id, nil, "a.b.c")
	case 9:
		return messages.NewUnsubscribe(sym.Uint64("request"), id)
	case 10:
		return messages.NewHello("realm", "a", nil, nil, nil)
	case 11:
		return messages.NewWelcome(id, nil)
	case 12:
		return messages.NewAbort(nil, "r", nil, nil)
	case 13:
		return messages.NewChallenge("m", nil)
	case 14:
		return messages.NewAuthenticate("s", nil)
	case 15:
		return messages.NewResult(id, nil, nil, nil)
	case 16:
		return messages.NewRegistered(sym.Uint64("request"), id)
	case 17:
		return messages.NewInvocation(id, sym.Uint64("reg"), nil, nil, nil)
	case 18:
		return messages.NewInterrupt(id, nil)
	case 19:
		return messages.NewUnregistered(id)
	case 20:
		return messages.NewEvent(id, id, nil, nil, nil)
	case 21:
		return messages.NewPublished(id, id)
	case 22:
		return messages.NewSubscribed(id, id)
	case 23:
		return messages.NewUnsubscribed(id)
	}
	if k == 26 {
		return messages.NewCallBinary(id, opts, "a.b.c", nil, sym.Uint64("serializer"))
	}
	if k == 27 {
		return messages.NewYieldBinary(id, opts, sym.Bytes("payload", sym.Choice("payload len", 2)), sym.Uint64("serializer"))
	}
	// bodies whose options are nil
	f := &fields{req: id}
	if k == 24 {
		return messages.NewCallWithFields(f)
	}
	return messages.NewYieldWithFields(f)
}

// C12_Any: any operations with any IDs from attached and unattached sessions.
func C12_Any() {
	w := newWorld("C12", 3, 2)
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		switch k := sym.Choice("op", 9); {
		case k <= 4:
			w.send(sym.Choice("by", 3), message(k, sym.Uint64("id")))
		case k == 5:
			w.attach(1)
		case k == 6:
			w.remove(1)
		case k == 7:
			w.remove(0)
		case k == 8:
			w.d.AutoDiscloseCaller(true)
		}
		w.d.HasProcedure("a.b.c")
	}
	w.usable()
}

// C12_Types: every message type, in a dealer that has something pending.
func C12_Types() {
	w := newWorld("C12", 3, 0)
	for i := 0; i < 2; i++ {
		w.ss[i].static = i == 0
		w.attach(i)
	}
	if sym.Choice("disclose", 2) == 1 {
		w.d.AutoDiscloseCaller(true)
	}
	w.register(0, []uri{exact, pre1, wild}[sym.Choice("uri", 3)], "roundrobin")
	w.call(1, exact.text, sym.Uint64("call"), nil)
	for i := 0; i < sym.Bound("messages", 1, 2); i++ {
		w.send(sym.Choice("by", 3), message(sym.Choice("type", 28), sym.Uint64("id")))
	}
	if sym.Choice("remove", 2) == 1 {
		w.remove(0)
	}
	w.usable()
}

// C12_Options: options of any kind, also those that mean something.
func C12_Options() {
	w := newWorld("C12", 3, 2)
	w.register(0, exact, "roundrobin")
	w.call(1, exact.text, 1, nil)
	w.probes++
	for i := sym.Bound("messages", 1, 2); i > 0; i-- {
		by, id := sym.Choice("by", 2), sym.Uint64("id")
		opts := odd.Opts()
		switch sym.Choice("type", 5) {
		case 0:
			w.send(by, messages.NewCall(id, opts, "a.b.c", nil, nil))
		case 1:
			w.send(by, messages.NewYield(id, opts, nil, nil))
		case 2:
			w.send(by, messages.NewRegister(id, opts, []string{"a.b.c", "a."}[sym.Choice("uri", 2)]))
		case 3:
			w.send(by, messages.NewError(messages.MessageTypeInvocation, id, opts, "e", nil, nil))
		case 4:
			w.send(by, messages.NewCancel(id, opts))
		}
	}
	w.usable()
}

// usable: the dealer still does its work for fresh sessions.
func (w *world) usable() {
	id := sym.Uint64("fresh session")
	for _, s := range w.ss {
		sym.Assume(s.id != id)
	}
	w.ss = append(w.ss, &session{id: id})
	n := len(w.ss) - 1
	w.attach(n)
	sym.Assert(w.ss[n].up, "a new session can attach")
	out := w.send(n, messages.NewRegister(1, nil, "fresh.procedure"))
	sym.Assert(out != nil, "REGISTER works")
	reg, ok := out.Message.(*messages.Registered)
	sym.Assert(ok, "REGISTER is granted")
	out = w.send(n, messages.NewCall(2, nil, "fresh.procedure", nil, nil))
	sym.Assert(out != nil && out.Recipient == id, "CALL works")
	inv, ok := out.Message.(*messages.Invocation)
	sym.Assert(ok && inv.RegistrationID() == reg.RegistrationID(), "CALL is routed")
	out = w.send(n, messages.NewYield(inv.RequestID(), nil, nil, nil))
	sym.Assert(out != nil && out.Recipient == id, "YIELD works")
	out = w.send(n, messages.NewUnregister(3, reg.RegistrationID()))
	sym.Assert(out != nil, "UNREGISTER works")
	w.remove(n)
}

// C13_Departed: sessions leave (and come back) between the steps of calls.
func C13_Departed() {
	w := newWorld("C13", 3, 3)
	us := []uri{exact, pre1}
	policy := []string{"single", "roundrobin", "first", "last"}[sym.Choice("policy", 4)]
	w.register(0, us[0], policy)
	w.register(1, us[sym.Choice("second", 2)], policy)
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		switch sym.Choice("op", 4) {
		case 0:
			s := sym.Choice("caller", 3)
			if w.ss[s].up {
				w.probes++
				w.call(s, exact.text, w.probes, map[string]any{"receive_progress": sym.Bool("receive_progress"), "progress": sym.Bool("progress")})
			}
		case 1:
			if len(w.invs) > 0 {
				v := w.invs[sym.Choice("which", len(w.invs))]
				w.answer(v.callee, v.id, sym.Choice("error", 2) == 1, sym.Bool("progress"))
			}
		case 2:
			w.remove(sym.Choice("who", 3))
		case 3:
			w.attach(sym.Choice("who", 3))
		}
	}
	for _, v := range w.invs {
		if !v.done {
			w.answer(v.callee, v.id, false, nil)
		}
	}
	w.probe(0)
}

// C13_AttachTwice: refused attachments and removals change nothing.
func C13_AttachTwice() {
	w := newWorld("C13", 2, 1)
	w.also = "C10"
	w.register(0, exact, "")
	w.ss[0].authid = "second"
	w.attach(0)
	w.remove(1)
	sym.Assert(w.d.HasProcedure(exact.text), "a refused attachment keeps the registrations")
	w.d.AutoDiscloseCaller(true)
	out := w.send(0, messages.NewCall(1, nil, exact.text, nil, nil))
	sym.Assert(out != nil && out.Recipient == w.ss[0].id, "calls still work")
	m, ok := out.Message.(*messages.Invocation)
	sym.Assert(ok && sym.Eq(m.Details()["caller_authid"], "id"), "the session keeps the identity it was attached with")
}
