// Package hbroker checks the broker (C14-C19) against a reference model that
// follows the messages the broker returns.
package hbroker

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

type topic struct {
	text  string
	match string
}

func (t topic) matches(s string) bool {
	switch t.match {
	case "prefix":
		return len(s) >= len(t.text) && s[:len(t.text)] == t.text
	case "wildcard":
		return glob(t.text, s)
	}
	return t.text == s
}

// glob: '*' stands for any sequence of characters, none of which is '/'.
func glob(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(pat[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				return false
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && glob(pat[1:], s[1:])
}

type session struct {
	id           uint64
	up           bool
	authid, role string
}

type subscription struct {
	id    uint64
	topic topic
	subs  []int
}

func (x *subscription) has(s int) bool {
	for _, o := range x.subs {
		if o == s {
			return true
		}
	}
	return false
}

type world struct {
	prop string
	b    *wampproto.Broker
	ss   []*session
	subs []*subscription
	all  []*subscription
	pubs []uint64 // publication IDs seen
	reqs uint64
	odd  map[string]any // unusual options of every message
	args []any
	kw   map[string]any
	dis  bool // publishers are disclosed
}

// with adds the unusual options.
func (w *world) with(o map[string]any) map[string]any {
	if w.odd == nil {
		return o
	}
	return odd.With(o, w.odd)
}

func newWorld(prop string, n, up int) *world {
	w := &world{prop: prop, b: wampproto.NewBroker()}
	for i := 0; i < n; i++ {
		s := &session{id: sym.Uint64("session"), authid: "id", role: "role"}
		for _, o := range w.ss {
			sym.Assume(o.id != s.id)
		}
		w.ss = append(w.ss, s)
	}
	for i := 0; i < up; i++ {
		w.attach(i)
	}
	return w
}

func (w *world) as(prop string, ok bool, label string) {
	if prop == w.prop {
		sym.Assert(ok, label)
	}
}

func (w *world) attach(s int) {
	x := w.ss[s]
	err := w.b.AddSession(wampproto.NewSessionDetails(x.id, "realm", x.authid, x.role, "anonymous", false, nil, nil))
	w.as("C19", (err == nil) == !x.up, "attaching fails exactly for an attached ID")
	x.up = true
}

func (w *world) remove(s int) {
	x := w.ss[s]
	err := w.b.RemoveSession(x.id)
	w.as("C19", (err == nil) == x.up, "removing fails exactly for an ID that is not attached")
	x.up = false
	for _, r := range append([]*subscription{}, w.subs...) {
		w.drop(r, s)
	}
}

func (w *world) drop(r *subscription, s int) {
	for i, h := range r.subs {
		if h == s {
			r.subs = append(append([]int{}, r.subs[:i]...), r.subs[i+1:]...)
			break
		}
	}
	if len(r.subs) == 0 {
		for i, o := range w.subs {
			if o == r {
				w.subs = append(append([]*subscription{}, w.subs[:i]...), w.subs[i+1:]...)
				break
			}
		}
	}
}

func (w *world) live(text string) *subscription {
	for _, r := range w.subs {
		if r.topic.text == text {
			return r
		}
	}
	return nil
}

func (w *world) who(id uint64) int {
	for i, s := range w.ss {
		if s.id == id {
			return i
		}
	}
	return -1
}

func (w *world) send(s int, m messages.Message) *wampproto.MessageWithRecipient {
	out, err := w.b.ReceiveMessage(w.ss[s].id, m)
	w.as("C19", (out == nil) == (err != nil), "an answer or an error")
	w.as("C19", w.ss[s].up || err != nil, "a session that is not attached is refused")
	if err != nil || out == nil {
		return nil
	}
	return out
}

func (w *world) subscribe(s int, t topic) {
	req := sym.Uint64("request")
	opts := map[string]any{}
	if t.match != "" {
		opts["match"] = t.match
	}
	out := w.send(s, messages.NewSubscribe(req, w.with(opts), t.text))
	w.as("C15", (out != nil) == w.ss[s].up, "SUBSCRIBE succeeds exactly for attached sessions")
	if out == nil {
		return
	}
	m, ok := out.Message.(*messages.Subscribed)
	w.as("C15", ok && m.RequestID() == req && out.Recipient == w.ss[s].id, "SUBSCRIBED answers the request")
	if !ok {
		return
	}
	r := w.live(t.text)
	if r == nil {
		for _, o := range w.subs {
			w.as("C15", o.id != m.SubscriptionID(), "different topics have different subscription IDs")
		}
		r = &subscription{id: m.SubscriptionID(), topic: t}
		w.subs = append(w.subs, r)
		w.all = append(w.all, r)
	}
	w.as("C15", r.id == m.SubscriptionID(), "subscribers of one topic share the ID")
	if !r.has(s) {
		r.subs = append(append([]int{}, r.subs...), s)
	}
}

func (w *world) unsubscribe(s int, id uint64) {
	req := sym.Uint64("request")
	var r *subscription
	for _, o := range w.subs {
		if o.has(s) && o.id == id {
			r = o
		}
	}
	out := w.send(s, messages.NewUnsubscribe(req, id))
	w.as("C15", (out != nil) == (r != nil), "UNSUBSCRIBE succeeds exactly for a subscription the sender holds")
	if out == nil {
		return
	}
	m, ok := out.Message.(*messages.Unsubscribed)
	w.as("C15", ok && m.RequestID() == req && out.Recipient == w.ss[s].id, "UNSUBSCRIBED answers the request")
	if r != nil {
		w.drop(r, s)
	}
}

func (w *world) has() {
	for _, r := range w.all {
		w.as("C14", w.b.HasSubscription(r.topic.text) == (w.live(r.topic.text) != nil), "HasSubscription tells whether somebody subscribed")
	}
}

func rank(r *subscription) int {
	switch r.topic.match {
	case "prefix":
		return 1000 + len(r.topic.text)
	case "wildcard":
		return 0
	}
	return 1000000
}

// publish sends PUBLISH and checks who gets the event.
func (w *world) publish(s int, text string, opts map[string]any) *wampproto.Publication {
	w.reqs++
	req := w.reqs
	args := append([]any{req}, w.args...)
	pub, err := w.b.ReceivePublish(w.ss[s].id, messages.NewPublish(req, w.with(opts), text, args, w.kw))
	w.as("C19", (err == nil) == w.ss[s].up, "PUBLISH succeeds exactly for attached sessions")
	w.as("C19", (pub == nil) == (err != nil), "a publication or an error")
	if pub == nil || !w.ss[s].up {
		return nil
	}
	excludeMe, isBool := opts["exclude_me"].(bool)
	if !isBool {
		excludeMe = true
	}
	var cand []*subscription
	for _, r := range w.subs {
		if r.topic.matches(text) {
			cand = append(cand, r)
		}
	}
	w.as("C14", pub.Event != nil || len(pub.Recipients) == 0, "no recipients without an event")
	w.as("C14", w.b.HasSubscription(text) == (w.live(text) != nil), "HasSubscription tells whether somebody subscribed")
	counts := make([]int, len(w.ss))
	for _, id := range pub.Recipients {
		k := w.who(id)
		w.as("C14", k >= 0, "recipients are known sessions")
		if k >= 0 {
			counts[k]++
		}
	}
	if len(cand) == 0 {
		w.as("C14", len(pub.Recipients) == 0, "no recipient without a subscription")
	}
	if len(cand) == 1 {
		for k := range w.ss {
			want := cand[0].has(k)
			got := counts[k]
			if k == s {
				w.as("C14", sym.Iff(got == 1, sym.And(want, !excludeMe)), "the publisher gets its own event exactly when it set exclude_me to false")
			} else {
				w.as("C14", sym.Iff(got == 1, want), "exactly the subscribers get the event")
			}
			w.as("C14", got <= 1, "each recipient once")
		}
	}
	for k := range w.ss {
		sub := false
		for _, r := range cand {
			sub = sub || r.has(k)
		}
		w.as("C14", counts[k] == 0 || sub, "only subscribers get the event")
		w.as("C14", counts[k] == 0 || w.ss[k].up, "only attached sessions get the event")
	}
	if w.prop == "C16" {
		w.overlap(s, cand, counts)
	}
	if pub.Event != nil {
		var sub *subscription
		for _, r := range cand {
			if r.id == pub.Event.SubscriptionID() {
				sub = r
			}
		}
		w.as("C15", sub != nil || len(pub.Recipients) == 0, "the event names a matching subscription")
		for k := range w.ss {
			w.as("C15", counts[k] == 0 || sub != nil && sub.has(k), "recipients hold the subscription the event names")
		}
		w.as("C17", sym.Eq(pub.Event.Args(), args), "the event has the arguments")
		w.as("C17", sym.Eq(pub.Event.KwArgs(), w.kw), "the event has the keyword arguments")
		if w.prop == "C18" {
			w.disclosed(s, text, pub.Event.Details())
		}
		for _, id := range w.pubs {
			w.as("C17", id != pub.Event.PublicationID(), "every publication has its own ID")
		}
	}
	ack, _ := opts["acknowledge"].(bool)
	w.as("C17", (pub.Ack != nil) == ack, "acknowledged exactly on request")
	if pub.Ack != nil {
		m, ok := pub.Ack.Message.(*messages.Published)
		w.as("C17", ok && m.RequestID() == req && pub.Ack.Recipient == w.ss[s].id, "PUBLISHED answers the publisher")
		if ok {
			for _, id := range w.pubs {
				w.as("C17", id != m.PublicationID(), "every publication has its own ID")
			}
			w.as("C17", pub.Event == nil || m.PublicationID() == pub.Event.PublicationID(), "PUBLISHED has the event's publication ID")
			w.pubs = append(w.pubs, m.PublicationID())
			return pub
		}
	}
	if pub.Event != nil {
		w.pubs = append(w.pubs, pub.Event.PublicationID())
	}
	return pub
}

// overlap: every matching subscription's subscribers get the event; that all
// but the most specific subscription are left out is a known finding.
func (w *world) overlap(s int, cand []*subscription, counts []int) {
	best := -1
	for _, r := range cand {
		best = max(best, rank(r))
	}
	served := false
	for _, r := range cand {
		all := true
		for k := range w.ss {
			if k != s && r.has(k) && counts[k] == 0 {
				all = false
			}
		}
		if rank(r) == best {
			served = served || all
		}
		sym.Known("overlapping-subscriptions", len(cand) > 1, all, "the subscribers of every matching subscription get the event")
	}
	sym.Assert(served || len(cand) == 0, "the subscribers of the most specific subscription get the event")
}

// disclosed checks what the event tells about the publisher.
func (w *world) disclosed(s int, text string, d map[string]any) {
	id, ok1 := d["publisher"]
	authid, ok2 := d["publisher_authid"]
	role, ok3 := d["publisher_authrole"]
	t, ok4 := d["topic"]
	if !w.dis {
		sym.Assert(!ok1 && !ok2 && !ok3 && !ok4, "nothing is disclosed")
		return
	}
	sym.Assert(ok1 && ok2 && ok3 && ok4, "the publisher is disclosed")
	sym.Assert(sym.Eq(id, w.ss[s].id), "publisher is the publishing session")
	sym.Assert(sym.Eq(authid, w.ss[s].authid), "publisher_authid is the publisher's")
	sym.Assert(sym.Eq(role, w.ss[s].role), "publisher_authrole is the publisher's")
	sym.Assert(sym.Eq(t, text), "topic is the published one")
}

func (w *world) disclose(on bool) {
	w.b.AutoDisclosePublisher(on)
	w.dis = on
}
