// Package hsession checks the client session (C20-C22) against a reference
// model of its open requests, registrations and subscriptions.
package hsession

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// The kinds of requests that are answered.
const (
	call = iota
	register
	unregister
	publish
	subscribe
	unsubscribe
	kinds
)

var wire = [kinds]uint64{messages.MessageTypeCall, messages.MessageTypeRegister, messages.MessageTypeUnregister,
	messages.MessageTypePublish, messages.MessageTypeSubscribe, messages.MessageTypeUnsubscribe}

type world struct {
	prop string
	s    *wampproto.Session
	ids  []uint64 // the IDs in use, all different

	open [kinds][]bool // by index of the request ID
	free [kinds][]bool // the model does not say whether the request is open
	of   [kinds][]int  // what UNREGISTER and UNSUBSCRIBE were about
	regs []bool
	subs []bool

	odd  map[string]any // unusual options of every message
	text string         // the procedure and topic
}

// with adds the unusual options.
func (w *world) with(o map[string]any) map[string]any {
	if w.odd == nil {
		return o
	}
	return odd.With(o, w.odd)
}

func newWorld(prop string, n int) *world {
	w := &world{prop: prop, s: wampproto.NewSession(nil), regs: make([]bool, n), subs: make([]bool, n), text: "a.b"}
	for i := 0; i < n; i++ {
		id := sym.Uint64("id")
		for _, o := range w.ids {
			sym.Assume(o != id)
		}
		w.ids = append(w.ids, id)
	}
	for k := 0; k < kinds; k++ {
		w.open[k], w.free[k], w.of[k] = make([]bool, n), make([]bool, n), make([]int, n)
	}
	return w
}

func (w *world) as(prop string, ok bool, label string) {
	if prop == w.prop {
		sym.Assert(ok, label)
	}
}

// out sends a message and tells whether it was accepted.
func (w *world) out(m messages.Message) bool {
	b, err := w.s.SendMessage(m)
	w.as("C22", (b == nil) == (err != nil), "bytes or an error")
	return err == nil
}

// in receives a message and tells whether it was accepted.
func (w *world) in(m messages.Message) bool {
	var before any
	plain := w.prop == "C21" && w.odd == nil && w.text == "a.b"
	if plain {
		before = odd.Copy(m.Marshal())
	}
	got, err := w.s.ReceiveMessage(m)
	w.as("C22", (got == nil) == (err != nil), "a message or an error")
	w.as("C21", err != nil || got == m, "an accepted message is handed over as it came")
	w.as("C21", err != nil || !plain || sym.Eq(m.Marshal(), before), "an accepted message is handed over unchanged")
	return err == nil
}

// request sends a request of a kind; arg is the registration or subscription
// it is about, option the acknowledge option.
func (w *world) request(kind, id, arg int, option any) {
	r := w.ids[id]
	accepted := true
	switch kind {
	case call:
		accepted = w.out(messages.NewCall(r, w.with(map[string]any{"receive_progress": sym.OneOf("receive_progress", true, false, nil), "progress": sym.Bool("has more")}), w.text, nil, nil))
	case register:
		accepted = w.out(messages.NewRegister(r, w.with(nil), w.text))
	case unregister:
		accepted = w.out(messages.NewUnregister(r, w.ids[arg]))
	case publish:
		o := map[string]any{}
		if option != nil {
			o["acknowledge"] = option
		}
		accepted = w.out(messages.NewPublish(r, w.with(o), w.text, nil, nil))
	case subscribe:
		accepted = w.out(messages.NewSubscribe(r, w.with(nil), w.text))
	case unsubscribe:
		accepted = w.out(messages.NewUnsubscribe(r, w.ids[arg]))
		w.as("C21", accepted == w.subs[arg], "UNSUBSCRIBE can be sent exactly for a held subscription")
		if !w.subs[arg] {
			return
		}
	}
	w.as("C20", accepted, "the request is sent")
	w.as("C22", accepted, "the request is sent")
	ack, _ := option.(bool)
	if kind != publish || ack {
		w.open[kind][id] = true
		w.of[kind][id] = arg
	}
	w.free[kind][id] = false
}

// answer receives the answer (an ERROR if failed) to a request; arg is the
// registration or subscription it confirms, option the progress detail.
func (w *world) answer(kind, id, arg int, failed bool, option any) {
	r := w.ids[id]
	open := w.open[kind][id]
	if w.free[kind][id] {
		return
	}
	if failed {
		got := w.in(messages.NewError(wire[kind], r, w.with(nil), w.text, nil, nil))
		w.as("C20", got == open, "ERROR is accepted exactly for an open request of its kind")
		w.open[kind][id] = false
		return
	}
	switch kind {
	case call:
		d := map[string]any{}
		if option != nil {
			d["progress"] = option
		}
		got := w.in(messages.NewResult(r, w.with(d), nil, nil))
		w.as("C20", got == open, "RESULT is accepted exactly for an open call")
		if p, _ := option.(bool); p {
			return
		}
	case register:
		got := w.in(messages.NewRegistered(r, w.ids[arg]))
		w.as("C20", got == open, "REGISTERED is accepted exactly for an open REGISTER")
		w.regs[arg] = w.regs[arg] || open
	case unregister:
		got := w.in(messages.NewUnregistered(r))
		held := w.regs[w.of[kind][id]]
		if open && !held {
			w.as("C20", !got, "UNREGISTERED for a registration that is not held is refused")
			w.free[kind][id] = true
			return
		}
		w.as("C20", got == open, "UNREGISTERED is accepted exactly for an open UNREGISTER")
		if open {
			w.regs[w.of[kind][id]] = false
		}
	case publish:
		got := w.in(messages.NewPublished(r, w.ids[arg]))
		w.as("C20", got == open, "PUBLISHED is accepted exactly for an open acknowledged PUBLISH")
	case subscribe:
		got := w.in(messages.NewSubscribed(r, w.ids[arg]))
		w.as("C20", got == open, "SUBSCRIBED is accepted exactly for an open SUBSCRIBE")
		w.subs[arg] = w.subs[arg] || open
	case unsubscribe:
		got := w.in(messages.NewUnsubscribed(r))
		held := w.subs[w.of[kind][id]]
		if open && !held {
			w.as("C20", !got, "UNSUBSCRIBED for a subscription that is not held is refused")
			w.free[kind][id] = true
			return
		}
		w.as("C20", got == open, "UNSUBSCRIBED is accepted exactly for an open UNSUBSCRIBE")
		if open {
			w.subs[w.of[kind][id]] = false
		}
	}
	w.open[kind][id] = false
}

// event and invocation receive an EVENT and an INVOCATION.
func (w *world) event(sub int, pub uint64) {
	got := w.in(messages.NewEvent(w.ids[sub], pub, w.with(nil), nil, nil))
	w.as("C21", got == w.subs[sub], "EVENT is accepted exactly for a held subscription")
}

func (w *world) invocation(reg int, req uint64) {
	got := w.in(messages.NewInvocation(req, w.ids[reg], w.with(nil), nil, nil))
	w.as("C21", got == w.regs[reg], "INVOCATION is accepted exactly for a held registration")
}

// hold makes the session hold a registration or a subscription.
func (w *world) hold(kind, id, what int) {
	w.request(kind, id, 0, nil)
	w.answer(kind, id, what, false, nil)
}

// probe answers every request ID of every kind, twice.
func (w *world) probe() {
	failed := sym.Choice("answer by error", 2) == 1
	last := -1
	for round := 0; round < 2; round++ {
		for k := 0; k < kinds; k++ {
			for i := range w.ids {
				if k == register || k == subscribe {
					last = i
				}
				w.answer(k, i, max(last, 0), failed, nil)
			}
		}
	}
	for i := range w.ids {
		w.event(i, w.ids[0])
		w.invocation(i, w.ids[0])
	}
}
