package hbroker

import (
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// oddities is a short history in which every message has whatever options the
// code looks up, or the topics are the code's own strings, or have the lengths
// it compares with.
func oddities(prop string) {
	w := newWorld(prop, 3, 3)
	t := topic{"a.b.c", []string{"", "prefix", "wildcard"}[sym.Choice("match", 3)]}
	switch sym.Choice("odd", 3) {
	case 0:
		w.odd = odd.Opts("match", "exclude_me", "acknowledge")
		if sym.Choice("disclose", 2) == 1 {
			w.disclose(true)
		}
	case 1:
		t.text = odd.Text()
	case 2:
		t.text = strings.Repeat("a", odd.Size(sym.Bound("topic length", 300, 300)))
	}
	if t.text == "" {
		t.match = ""
	}
	p := t.text
	w.as("C14", !w.b.HasSubscription(p), "HasSubscription of a topic never subscribed")
	w.publish(2, p, nil)
	w.subscribe(0, t)
	w.subscribe(1, t)
	w.publish(2, p, map[string]any{"acknowledge": true})
	w.has()
	opts := map[string]any{"exclude_me": sym.Bool("exclude me"), "acknowledge": sym.Bool("acknowledge")}
	w.args, w.kw = []any{"x", nil}, map[string]any{"k": nil, "l": uint64(1)}
	w.publish(0, p, opts)
	w.args, w.kw = nil, odd.Dict()
	w.publish(1, p, nil)
	w.kw = nil
	if len(w.all) > 0 {
		w.unsubscribe(2, w.all[0].id)
		w.unsubscribe(0, w.all[0].id)
		w.unsubscribe(0, w.all[0].id)
	}
	w.publish(0, p, opts)
	w.publish(1, p, opts)
	w.has()
	w.remove(1)
	w.has()
	w.publish(0, p, opts)
	w.subscribe(0, t)
	w.publish(2, p, nil)
	w.has()
}

func C14_Odd() { oddities("C14") }
func C15_Odd() { oddities("C15") }
func C16_Odd() { oddities("C16") }
func C17_Odd() { oddities("C17") }
func C18_Odd() { oddities("C18") }
func C19_Odd() { oddities("C19") }

// many: more subscribers of one topic than elsewhere; some leave and come back.
func many(prop string) {
	n := sym.Bound("subscribers", 7, 12)
	t := []topic{exact, pre1, wild}[sym.Choice("topic", 3)]
	w := newWorld(prop, n, n)
	for i := 0; i < n-1; i++ {
		w.subscribe(i, t)
	}
	w.publish(n-1, "a.b.c", nil)
	w.publish(0, "a.b.c", map[string]any{"exclude_me": sym.Bool("exclude me")})
	for i := sym.Bound("gone", 2, 3); i > 0; i-- {
		k := sym.Choice("gone", n-1)
		if r := w.live(t.text); sym.Choice("how", 2) == 0 && r.has(k) {
			w.unsubscribe(k, r.id)
		} else {
			w.remove(k)
			w.attach(k)
		}
		w.publish(n-1, "a.b.c", nil)
		if sym.Choice("back", 2) == 1 {
			w.subscribe(k, t)
		}
	}
	w.publish(n-1, "a.b.c", nil)
	w.has()
	for i := 0; i < n-1; i++ {
		if r := w.live(t.text); r != nil && r.has(i) {
			w.unsubscribe(i, r.id)
		}
	}
	w.publish(n-1, "a.b.c", nil)
	w.has()
}

func C14_Many() { many("C14") }
func C15_Many() { many("C15") }

// topics: more topics than elsewhere, one of which goes.
func topics(prop string) {
	n := sym.Bound("subscriptions", 8, 12)
	w := newWorld(prop, 3, 3)
	long := "a.b.c.d.e.f.g.h.i.j.k.l"
	var ts []topic
	for i := 0; i < n; i++ {
		ts = append(ts, topic{long[:2*i+1], []string{"prefix", "prefix", "exact", "prefix", "prefix"}[i%5]})
	}
	ts = append(ts, topic{"a.*", "wildcard"}, topic{"*", "wildcard"})
	order := sym.Choice("order", 3)
	for i := range ts {
		switch order {
		case 1:
			i = len(ts) - 1 - i
		case 2:
			i = i * 3 % len(ts)
		}
		if w.live(ts[i].text) == nil {
			w.subscribe(i%2, ts[i])
		}
	}
	for _, t := range ts {
		if w.live(t.text) == nil {
			w.subscribe(0, t)
		}
	}
	k := sym.Choice("gone", len(w.subs))
	gone := w.subs[k]
	if sym.Choice("how", 2) == 0 {
		w.unsubscribe(gone.subs[0], gone.id)
	} else {
		w.remove(gone.subs[0])
	}
	w.has()
	for i := 0; i < n+1; i++ {
		w.publish(2, (long + ".m.n.o")[:2*i+1], nil)
	}
	w.publish(2, "b", nil)
}

func C14_Wide() { topics("C14") }
func C15_Wide() { topics("C15") }
func C16_Wide() { topics("C16") }

// refused: a request that is refused changes nothing, whatever is asked
// afterwards.
func refused(prop string) {
	ts := []topic{exact, pre1, wild}
	var ids []uint64
	for i := 0; i < 4; i++ {
		x := sym.Uint64("session")
		for _, y := range ids {
			sym.Assume(x != y)
		}
		ids = append(ids, x)
	}
	build := func() *world {
		w := &world{prop: prop, b: wampproto.NewBroker()}
		for i := 0; i < 4; i++ {
			w.ss = append(w.ss, &session{id: ids[i], authid: "id", role: "role"})
			if i < 3 {
				w.attach(i)
			}
		}
		return w
	}
	a, b := build(), build()
	t0, t1 := ts[sym.Choice("topic", 3)], ts[sym.Choice("topic", 3)]
	for _, w := range []*world{a, b} {
		w.subscribe(0, t0)
		w.subscribe(1, t1)
	}
	id := sym.Uint64("refused subscription")
	s := sym.Choice("refused", 4)
	switch sym.Choice("refused request", 5) {
	case 0:
		for _, r := range b.subs {
			sym.Assume(!(r.has(s) && r.id == id))
		}
		b.unsubscribe(s, id)
	case 1:
		b.subscribe(3, ts[sym.Choice("topic", 3)])
	case 2:
		b.remove(3)
	case 3:
		b.ss[s%3].authid = "other"
		b.attach(s % 3)
	case 4:
		_, err := b.b.ReceiveMessage(ids[s], message(2+sym.Choice("type", 22), sym.Uint64("id")))
		sym.Assert(err != nil, "only SUBSCRIBE and UNSUBSCRIBE are taken")
	}
	a.b.AutoDisclosePublisher(true)
	b.b.AutoDisclosePublisher(true)
	for i := sym.Bound("then", 1, 2); i > 0; i-- {
		s := sym.Choice("by", 4)
		var m messages.Message
		switch sym.Choice("request", 4) {
		case 0:
			m = messages.NewUnsubscribe(7, sym.Uint64("subscription"))
		case 1:
			t := ts[sym.Choice("topic", 3)]
			o := map[string]any{}
			if t.match != "" {
				o["match"] = t.match
			}
			m = messages.NewSubscribe(8, o, t.text)
		case 2:
			e1, e2 := a.b.RemoveSession(ids[s]), b.b.RemoveSession(ids[s])
			sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
			continue
		case 3:
			d := wampproto.NewSessionDetails(ids[s], "realm", "late", "role", "anonymous", false, nil, nil)
			e1, e2 := a.b.AddSession(d), b.b.AddSession(d)
			sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
			continue
		}
		o1, e1 := a.b.ReceiveMessage(ids[s], m)
		o2, e2 := b.b.ReceiveMessage(ids[s], m)
		sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
		if o1 != nil && o2 != nil {
			sym.Assert(o1.Recipient == o2.Recipient && o1.Message.Type() == o2.Message.Type(), "a refused request changes nothing")
		}
	}
	for _, t := range []string{"a.b.c", "a.x.c", "a.b", "zz"} {
		for s := range ids {
			p1, e1 := a.b.ReceivePublish(ids[s], messages.NewPublish(9, map[string]any{"acknowledge": true}, t, nil, nil))
			p2, e2 := b.b.ReceivePublish(ids[s], messages.NewPublish(9, map[string]any{"acknowledge": true}, t, nil, nil))
			sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
			if p1 == nil || p2 == nil {
				continue
			}
			sym.Assert((p1.Event == nil) == (p2.Event == nil) && (p1.Ack == nil) == (p2.Ack == nil), "a refused request changes nothing")
			if p1.Event == nil || p2.Event == nil {
				continue
			}
			for _, r := range a.all {
				sym.Assert((p1.Event.SubscriptionID() == r.id) == (p2.Event.SubscriptionID() == r.id), "a refused request changes nothing")
			}
			sym.Assert(sym.Eq(p1.Event.Details(), p2.Event.Details()), "a refused request changes nothing")
			for _, x := range ids {
				in1, in2 := false, false
				for _, y := range p1.Recipients {
					in1 = sym.Or(in1, x == y)
				}
				for _, y := range p2.Recipients {
					in2 = sym.Or(in2, x == y)
				}
				sym.Assert(in1 == in2, "a refused request changes nothing")
			}
		}
	}
	for _, t := range ts {
		sym.Assert(a.b.HasSubscription(t.text) == b.b.HasSubscription(t.text), "a refused request changes nothing")
	}
}

func C15_Refused() { refused("C15") }
func C19_Refused() { refused("C19") }

// wildcards: several patterns, visited in any order.
func wildcards(prop string) {
	sym.MapOrder(2)
	w := newWorld(prop, 3, 3)
	w.churn(sym.Bound("steps", 3, 4), []topic{wild, wild2, {"a.b/*", "wildcard"}})
	for _, p := range []string{"a.b.c", "a.b/c", "b.c", "a.b/c/c"} {
		w.publish(2, p, nil)
	}
}

func C14_Wild() { wildcards("C14") }
func C15_Wild() { wildcards("C15") }
func C16_Wild() { wildcards("C16") }

func kindOf(match string) string {
	if match == "prefix" || match == "wildcard" {
		return match
	}
	return "exact"
}

// C15_Kinds: one text subscribed by several sessions under any matchings.
func C15_Kinds() {
	w := newWorld("C15", 3, 3)
	text := []string{"a.b", "a.*", "*"}[sym.Choice("text", 3)]
	ks := []string{"", "prefix", "wildcard", "exact", "Prefix", "fuzzy"}
	var ids []uint64
	var ts []topic
	mixed := false
	for i := 0; i < 3; i++ {
		t := topic{text, ks[sym.Choice("match", len(ks))]}
		out := w.send(i, messages.NewSubscribe(1, map[string]any{"match": t.match}, text))
		sym.Assert(out != nil, "SUBSCRIBE is granted")
		m, ok := out.Message.(*messages.Subscribed)
		sym.Assert(ok, "SUBSCRIBE is granted")
		for j := range ids {
			same := kindOf(ts[j].match) == kindOf(t.match)
			mixed = mixed || !same
			if same {
				sym.Assert(ids[j] == m.SubscriptionID(), "subscribers of one topic share the ID")
			} else {
				sym.Known("matching-of-first-subscriber", true, ids[j] != m.SubscriptionID(), "different matchings have different IDs")
			}
		}
		ids, ts = append(ids, m.SubscriptionID()), append(ts, t)
	}
	gone := sym.Choice("gone", 4)
	if gone < 3 {
		out := w.send(gone, messages.NewUnsubscribe(2, ids[gone]))
		sym.Assert(out != nil, "UNSUBSCRIBE of a held subscription is granted")
		out = w.send(gone, messages.NewUnsubscribe(2, ids[gone]))
		sym.Assert(out == nil, "UNSUBSCRIBE of a subscription that ended is refused")
	}
	for _, p := range []string{text, text + ".c", "a.x", "x"} {
		pub, err := w.b.ReceivePublish(w.ss[0].id, messages.NewPublish(3, map[string]any{"exclude_me": false}, p, nil, nil))
		sym.Assert(err == nil && pub != nil, "published")
		for _, id := range pub.Recipients {
			k := w.who(id)
			sym.Assert(k >= 0 && k != gone, "recipients hold a subscription")
			if k >= 0 {
				sym.Assert(ids[k] == pub.Event.SubscriptionID(), "recipients hold the subscription the event names")
				sym.Known("matching-of-first-subscriber", mixed, ts[k].matches(p), "the subscription the event names matches as it was asked for")
			}
		}
	}
}
