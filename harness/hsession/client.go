package hsession

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// step sends or receives something; it does not repeat an open request.
func (w *world) step() {
	type op struct{ what, kind, id, arg int }
	var ops []op
	for k := 0; k < kinds; k++ {
		for i := range w.ids {
			if (k == call || !w.open[k][i]) && !w.free[k][i] {
				for a := range w.ids {
					if a == 0 || k == unregister || k == unsubscribe {
						ops = append(ops, op{0, k, i, a})
					}
				}
			}
			ops = append(ops, op{2, k, i, 0})
			for a := range w.ids {
				if a == 0 || k == register || k == subscribe {
					ops = append(ops, op{1, k, i, a})
				}
			}
		}
	}
	o := ops[sym.Choice("step", len(ops))]
	switch o.what {
	case 0:
		var ack any
		if o.kind == publish {
			ack = sym.OneOf("acknowledge", sym.Bool("ack"), nil, "true", uint64(1))
		}
		w.request(o.kind, o.id, o.arg, ack)
	case 1:
		var progress any
		if o.kind == call {
			progress = sym.OneOf("progress", sym.Bool("more"), nil, "true", uint64(1))
		}
		w.answer(o.kind, o.id, o.arg, false, progress)
	case 2:
		w.answer(o.kind, o.id, 0, true, nil)
	}
}

// C20_Answers: any histories, then every answer twice.
func C20_Answers() {
	w := newWorld("C20", 2)
	if sym.Choice("holding", 2) == 1 {
		w.hold(register, 0, 1)
		w.hold(subscribe, 1, 0)
	}
	for i := sym.Bound("steps", 2, 3); i > 0; i-- {
		w.step()
	}
	w.probe()
}

// C20_Twice: a request of one kind, several answers to any IDs.
func C20_Twice() {
	w := newWorld("C20", 2)
	w.hold(register, 0, 0)
	w.hold(subscribe, 0, 1)
	k := sym.Choice("kind", kinds)
	i := sym.Choice("request", 2)
	a := 0
	if k == unsubscribe {
		a = 1
	}
	w.request(k, i, a, true)
	for n := sym.Bound("answers", 3, 4); n > 0; n-- {
		var progress any
		if k == call {
			progress = sym.OneOf("progress", sym.Bool("more"), nil, "true", int64(1))
		}
		w.answer(k, sym.Choice("answered", 2), 0, sym.Choice("error", 2) == 1, progress)
		if (k == call || !w.open[k][i]) && !w.free[k][i] && (k != unsubscribe || w.subs[1]) && sym.Choice("again", 2) == 1 {
			w.request(k, i, a, true)
		}
	}
	w.probe()
}

// C20_All: requests of all kinds with one ID are answered independently.
func C20_All() {
	w := newWorld("C20", 2)
	w.hold(register, 0, 0)
	w.hold(subscribe, 0, 0)
	for k := 0; k < kinds; k++ {
		w.request(k, 0, 0, true)
		if k%2 == 0 {
			w.request(k, 1, 0, true)
		}
	}
	n := sym.Bound("answers", 2, 3)
	for ; n > 0; n-- {
		w.answer(sym.Choice("kind", kinds), sym.Choice("answered", 2), 0, sym.Choice("error", 2) == 1, nil)
	}
	w.probe()
}

// C21_Gates: any histories of confirmations and endings, then every EVENT and
// INVOCATION.
func C21_Gates() {
	w := newWorld("C21", 3)
	other := sym.Uint64("unknown")
	for _, id := range w.ids {
		sym.Assume(id != other)
	}
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		a := sym.Choice("which", 2)
		switch sym.Choice("step", 9) {
		case 0:
			w.hold(subscribe, 2, a)
		case 1:
			w.hold(register, 2, a)
		case 2:
			w.request(unsubscribe, a, a, nil)
			w.answer(unsubscribe, a, 0, false, nil)
		case 3:
			w.request(unregister, a, a, nil)
			w.answer(unregister, a, 0, false, nil)
		case 4:
			w.request(unsubscribe, a, a, nil)
			w.answer(unsubscribe, a, 0, true, nil)
		case 5:
			w.request(unregister, a, a, nil)
			w.answer(unregister, a, 0, true, nil)
		case 6:
			w.answer(subscribe, a, a, false, nil)
			w.answer(register, a, a, false, nil)
		case 7:
			w.event(a, other)
			w.invocation(a, other)
			w.out(messages.NewYield(other, map[string]any{"progress": sym.Bool("progress")}, nil, nil))
		case 8:
			w.out(messages.NewError(messages.MessageTypeInvocation, w.ids[a], nil, "e", nil, nil))
			w.request(subscribe, a, a, nil)
			w.answer(subscribe, a, a, true, nil)
		}
	}
	for i := range w.ids {
		w.event(i, w.ids[0])
		w.event(i, w.ids[0])
		w.invocation(i, w.ids[0])
		w.invocation(i, w.ids[0])
	}
	for i := range w.ids {
		w.request(unsubscribe, i, i, nil)
		w.event(i, other)
	}
	got := w.in(messages.NewEvent(other, w.ids[0], nil, nil, nil))
	sym.Assert(!got, "EVENT for an unknown subscription is refused")
	got = w.in(messages.NewInvocation(w.ids[0], other, nil, nil, nil))
	sym.Assert(!got, "INVOCATION for an unknown registration is refused")
	ok := w.out(messages.NewUnsubscribe(w.ids[0], other))
	sym.Assert(!ok, "UNSUBSCRIBE for an unknown subscription is refused")
}

// C21_AnyID: EVENT and INVOCATION with any ID.
func C21_AnyID() {
	w := newWorld("C21", 3)
	w.hold(subscribe, 0, 0)
	w.hold(register, 0, 1)
	id := sym.Uint64("any")
	for i := sym.Choice("open requests", kinds+1); i > 0; i-- {
		k := kinds - i
		w.request(k, 1, []int{0, 0, 1, 0, 0, 0}[k], true)
	}
	switch sym.Choice("ended", 4) {
	case 1:
		w.request(unsubscribe, 2, 0, nil)
		w.answer(unsubscribe, 2, 0, false, nil)
	case 2:
		w.request(unregister, 2, 1, nil)
		w.answer(unregister, 2, 0, false, nil)
	case 3:
		w.hold(subscribe, 2, 2)
	}
	want := sym.Or(sym.And(w.subs[0], id == w.ids[0]), sym.And(w.subs[2], id == w.ids[2]))
	ok := w.out(messages.NewUnsubscribe(w.ids[2], id))
	sym.Assert(ok == want, "UNSUBSCRIBE exactly for a held subscription")
	ev := w.in(messages.NewEvent(id, sym.Uint64("publication"), nil, nil, nil))
	sym.Assert(ev == want, "EVENT exactly for a held subscription")
	inv := w.in(messages.NewInvocation(sym.Uint64("request"), id, nil, nil, nil))
	sym.Assert(inv == sym.And(w.regs[1], id == w.ids[1]), "INVOCATION exactly for a held registration")
}

// C21_Content: accepted messages are handed over unchanged, also from bytes.
func C21_Content() {
	ser := []serializers.Serializer{nil, &serializers.CBORSerializer{}, &serializers.MsgPackSerializer{}}[sym.Choice("serializer", 3)]
	s := wampproto.NewSession(ser)
	if ser == nil {
		ser = &serializers.JSONSerializer{}
	}
	sub, pub, other := uint64(7), uint64(8), uint64(7+2*sym.Choice("event for", 2))
	if _, json := ser.(*serializers.JSONSerializer); !json { // JSON numbers are floats, whose conversions take the solver minutes
		sub, pub, other = sym.Uint64("subscription"), sym.Uint64("publication"), sym.Uint64("other")
	}
	sym.Assume(sub <= 1<<53)
	sym.Assume(pub <= 1<<53)
	sym.Assume(other <= 1<<53)
	_, err := s.SendMessage(messages.NewSubscribe(1, nil, "t"))
	sym.Assert(err == nil, "sent")
	b, err := ser.Serialize(messages.NewSubscribed(1, sub))
	sym.Assert(err == nil, "serialized")
	_, err = s.Receive(b)
	sym.Assert(err == nil, "confirmed")
	b, err = ser.Serialize(messages.NewEvent(other, pub, map[string]any{"k": "v"}, []any{"x", true, nil}, nil))
	sym.Assert(err == nil, "serialized")
	m, err := s.Receive(b)
	sym.Assert((err == nil) == (other == sub), "EVENT exactly for the held subscription")
	if err != nil {
		sym.Assert(m == nil, "nothing is handed over with an error")
		return
	}
	e, ok := m.(*messages.Event)
	sym.Assert(ok && e.SubscriptionID() == other && e.PublicationID() == pub, "the event's IDs")
	sym.Assert(sym.Eq(e.Args(), []any{"x", true, nil}), "the event's arguments")
	sym.Assert(sym.Eq(e.Details(), map[string]any{"k": "v"}), "the event's details")
}

// every is a message of every type.
func every(k int, id, id2 uint64) messages.Message {
	var opts map[string]any
	switch sym.Choice("options", 3) {
	case 1:
		opts = map[string]any{}
	case 2:
		opts = map[string]any{"progress": sym.OneOf("option", sym.Bool("flag"), nil, "x", uint64(1)), "acknowledge": sym.OneOf("option", nil, "x")}
	}
	switch k {
	case 0:
		return messages.NewSubscribe(id, opts, "t")
	case 1:
		return messages.NewUnsubscribe(id, id2)
	case 2:
		return messages.NewError(id2, id, opts, "e", nil, nil)
	case 3:
		return messages.NewCall(id, opts, "p", nil, nil)
	case 4:
		return messages.NewYield(id, opts, nil, nil)
	case 5:
		return messages.NewPublish(id, opts, "t", nil, nil)
	case 6:
		return messages.NewCancel(id, opts)
	case 7:
		return messages.NewGoodBye("wamp.close.normal", opts)
	case 8:
		return messages.NewRegister(id, opts, "p")
	case 9:
		return messages.NewUnregister(id, id2)
	case 10:
		return messages.NewHello("realm", "a", opts, nil, nil)
	case 11:
		return messages.NewWelcome(id, opts)
	case 12:
		return messages.NewAbort(opts, "r", nil, nil)
	case 13:
		return messages.NewChallenge("m", opts)
	case 14:
		return messages.NewAuthenticate("s", opts)
	case 15:
		return messages.NewResult(id, opts, nil, nil)
	case 16:
		return messages.NewRegistered(id, id2)
	case 17:
		return messages.NewInvocation(id, id2, opts, nil, nil)
	case 18:
		return messages.NewInterrupt(id, opts)
	case 19:
		return messages.NewUnregistered(id)
	case 20:
		return messages.NewEvent(id, id2, opts, nil, nil)
	case 21:
		return messages.NewPublished(id, id2)
	case 22:
		return messages.NewSubscribed(id, id2)
	}
	return messages.NewUnsubscribed(id)
}

// What a client sends and receives, by the numbering of every.
var (
	clientSends    = map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 7: true, 8: true, 9: true}
	clientReceives = map[int]bool{2: true, 7: true, 12: true, 15: true, 16: true, 17: true, 19: true, 20: true, 21: true, 22: true, 23: true}
)

// C22_Any: messages of every type, both ways, in several states.
func C22_Any() {
	w := newWorld("C22", 2)
	if sym.Choice("state", 2) == 1 {
		w.hold(register, 0, 1)
		w.hold(subscribe, 1, 0)
		for k := 0; k < kinds; k++ {
			w.request(k, 0, 0, true)
		}
	}
	for i := sym.Bound("messages", 1, 2); i > 0; i-- {
		k := sym.Choice("type", 24)
		m := every(k, sym.Uint64("id"), sym.Uint64("id2"))
		if sym.Choice("way", 2) == 0 {
			if ok := w.out(m); ok {
				sym.Assert(clientSends[k], "only what a client sends is sent")
			}
		} else if ok := w.in(m); ok {
			sym.Assert(clientReceives[k], "only what a client receives is accepted")
		}
	}
	_, err := w.s.SendMessage(messages.NewCall(1, nil, "p", nil, nil))
	sym.Assert(err == nil, "the session is still usable")
	_, err = w.s.ReceiveMessage(messages.NewResult(1, nil, nil, nil))
	sym.Assert(err == nil, "the session is still usable")
}

// C22_Refused: what is refused changes nothing.
func C22_Refused() {
	w := newWorld("C20", 2)
	if sym.Choice("state", 2) == 1 {
		w.hold(register, 0, 1)
		w.hold(subscribe, 1, 0)
		for k := 0; k < kinds; k++ {
			w.request(k, 0, 0, true)
		}
	}
	for i := sym.Bound("refused", 1, 2); i > 0; i-- {
		k := sym.Choice("type", 24)
		if sym.Choice("way", 2) == 0 {
			id2 := sym.Uint64("id2")
			sym.Assume(id2 != messages.MessageTypeInvocation)
			if !clientSends[k] || k == 2 {
				ok := w.out(every(k, sym.Uint64("id"), id2))
				sym.Assert(!ok, "what a client does not send is refused")
			}
		} else {
			id2 := sym.Uint64("id2")
			for _, t := range wire {
				sym.Assume(id2 != t)
			}
			if !clientReceives[k] || k == 2 {
				ok := w.in(every(k, sym.Uint64("id"), id2))
				sym.Assert(!ok, "what a client does not receive is refused")
			}
		}
	}
	w.probe()
}
