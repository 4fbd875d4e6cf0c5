package hbroker

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

var (
	exact  = topic{"a.b.c", ""}
	exact2 = topic{"a.b", "exact"}
	pre2   = topic{"a.b", "prefix"}
	pre1   = topic{"a.", "prefix"}
	wild   = topic{"a.*.c", "wildcard"}
	wild2  = topic{"*c", "wildcard"}
)

var probes = []string{"a.b.c", "a.b", "a.bb", "a.x.c", "b.c", "a"}

// churn runs n steps of subscriptions, unsubscriptions, removals and
// attachments.
func (w *world) churn(n int, ts []topic) {
	for i := 0; i < n; i++ {
		type op struct{ kind, s, t int }
		var ops []op
		fresh := false
		for s := range w.ss {
			if !w.ss[s].up {
				ops = append(ops, op{3, s, 0})
				continue
			}
			used := false
			for _, r := range w.all {
				used = used || r.has(s)
			}
			for t := range ts {
				r := w.live(ts[t].text)
				if used || !fresh || i > 1 {
					ops = append(ops, op{0, s, t})
				}
				if r != nil && r.has(s) {
					ops = append(ops, op{1, s, t})
				}
			}
			if used {
				ops = append(ops, op{2, s, 0})
			} else {
				fresh = true
			}
		}
		o := ops[sym.Choice("step", len(ops))]
		switch o.kind {
		case 0:
			w.subscribe(o.s, ts[o.t])
		case 1:
			w.unsubscribe(o.s, w.live(ts[o.t].text).id)
		case 2:
			w.remove(o.s)
		case 3:
			w.attach(o.s)
		}
	}
}

func (w *world) probe(s int, opts map[string]any) {
	for _, p := range probes {
		w.publish(s, p, opts)
	}
	w.has()
}

func someOpts() map[string]any {
	return map[string]any{"exclude_me": sym.OneOf("exclude_me", true, false, nil, "false", uint64(0), int64(0)), "acknowledge": sym.Bool("acknowledge")}
}

// C14_One: histories over one topic and up to three sessions.
func C14_One() {
	ts := []topic{exact, pre1, wild}
	t := ts[sym.Choice("topic", len(ts))]
	w := newWorld("C14", 3, 3)
	w.churn(sym.Bound("steps", 4, 6), []topic{t})
	if w.ss[2].up {
		w.publish(2, probes[0], someOpts())
	}
	w.probe(2, nil)
	w.probe(0, map[string]any{"exclude_me": false})
	w.remove(1)
	w.probe(0, nil)
}

// C14_Two: histories over two topics.
func C14_Two() {
	pairs := [][]topic{{exact, pre1}, {exact, wild}, {pre2, pre1}, {pre1, wild}, {wild, wild2}, {exact, exact2}}
	ts := pairs[sym.Choice("pair", len(pairs))]
	w := newWorld("C14", 2, 2)
	w.churn(sym.Bound("steps", 4, 5), ts)
	w.probe(1, nil)
}

// C15_Ids: UNSUBSCRIBE and SUBSCRIBE with any IDs after any history.
func C15_Ids() {
	ts := [][]topic{{exact, pre1}, {wild, exact}, {pre1, pre2}}[sym.Choice("topics", 3)]
	w := newWorld("C15", 3, 2)
	w.churn(sym.Bound("steps", 3, 4), ts)
	w.unsubscribe(sym.Choice("by", 3), sym.Uint64("subscription"))
	w.probe(1, map[string]any{"exclude_me": false})
	w.subscribe(sym.Choice("by", 3), ts[sym.Choice("topic", 2)])
	w.probe(0, map[string]any{"exclude_me": false})
	for _, r := range append([]*subscription{}, w.all...) {
		w.unsubscribe(0, r.id)
		w.unsubscribe(1, r.id)
	}
	w.probe(0, map[string]any{"exclude_me": false})
}

// C16_Overlap: overlapping subscriptions of several sessions.
func C16_Overlap() {
	w := newWorld("C16", 3, 3)
	w.churn(sym.Bound("steps", 4, 5), []topic{exact, pre2, pre1, wild})
	w.probe(2, nil)
}

// C17_Publish: sequences of publications with any options.
func C17_Publish() {
	w := newWorld("C17", 3, 3)
	if k := sym.Choice("subscribed", 3); k > 0 {
		w.subscribe(1, []topic{exact, pre1, wild}[k])
		w.subscribe(0, exact2)
	}
	n := sym.Bound("publications", 3, 5)
	odd := sym.Choice("odd one", n)
	for i := 0; i < n; i++ {
		var opts map[string]any
		if i != odd && sym.Choice("options", 2) == 1 {
			opts = map[string]any{"acknowledge": sym.Bool("ack")}
		}
		if i == odd {
			opts = map[string]any{"acknowledge": sym.OneOf("acknowledge", sym.Bool("ack"), nil, "true", uint64(1), int64(1), 1.0, []any{true})}
			if sym.Choice("exclude_me", 2) == 1 {
				opts["exclude_me"] = sym.Bool("exclude")
			}
		}
		w.publish(sym.Choice("by", 2), []string{"a.b.c", "a.b", "zz"}[sym.Choice("topic", 3)], opts)
	}
}

// C17_Args: the event has the publication's arguments and request IDs.
func C17_Args() {
	w := newWorld("C17", 2, 2)
	w.subscribe(0, exact)
	f := sym.Float64("f")
	sym.Assume(f == f)
	var args []any
	switch sym.Choice("args", 4) {
	case 1:
		args = []any{}
	case 2:
		args = []any{sym.Uint64("arg"), nil}
	case 3:
		args = []any{sym.OneOf("arg", sym.Int64("i"), sym.Bool("b"), sym.Str("s", 2), nil, f, []any{"x"}), map[string]any{"k": sym.Uint64("v")}}
	}
	var kwargs map[string]any
	switch sym.Choice("kwargs", 3) {
	case 1:
		kwargs = map[string]any{}
	case 2:
		kwargs = map[string]any{sym.Str("key", 1): sym.OneOf("kwarg", sym.Int64("i"), sym.Bool("b"), nil, "s")}
	}
	req := sym.Uint64("request")
	pub, err := w.b.ReceivePublish(w.ss[1].id, messages.NewPublish(req, map[string]any{"acknowledge": true}, exact.text, args, kwargs))
	sym.Assert(err == nil && pub != nil && pub.Event != nil && pub.Ack != nil, "published")
	sym.Assert(sym.Eq(pub.Event.Args(), args), "the event has the arguments")
	sym.Assert(sym.Eq(pub.Event.KwArgs(), kwargs), "the event has the keyword arguments")
	m, ok := pub.Ack.Message.(*messages.Published)
	sym.Assert(ok && m.RequestID() == req && pub.Ack.Recipient == w.ss[1].id, "PUBLISHED answers the request")
	sym.Assert(ok && m.PublicationID() == pub.Event.PublicationID(), "with the event's publication ID")
}

// C18_Disclosure: publishers with any identity, any options, in both modes.
func C18_Disclosure() {
	w := newWorld("C18", 3, 0)
	for i := 1; i < 3; i++ {
		w.ss[i].authid = sym.Str("authid", sym.Choice("len", 3))
		w.ss[i].role = sym.Str("authrole", 1+i)
	}
	for i := range w.ss {
		w.attach(i)
	}
	w.subscribe(0, []topic{exact, pre1, wild}[sym.Choice("topic", 3)])
	for i := sym.Bound("publications", 3, 4); i > 0; i-- {
		switch sym.Choice("disclose", 3) {
		case 0:
			w.disclose(true)
		case 1:
			w.disclose(false)
		}
		p := 1 + sym.Choice("publisher", 2)
		var opts map[string]any
		if sym.Choice("spoof", 2) == 1 {
			opts = map[string]any{"publisher": sym.Uint64("fake"), "publisher_authid": "fake", "publisher_authrole": "fake", "topic": "fake",
				"disclose_me": sym.Bool("disclose_me")}
		}
		pub := w.publish(p, exact.text, opts)
		sym.Assert(pub != nil && pub.Event != nil, "the event is routed")
	}
}

// symGlob: does the pattern, in which '*' stands for any sequence of
// characters none of which is '/', match s? Without branches on the characters.
func symGlob(pat, s string) bool {
	row := make([]bool, len(s)+1)
	row[len(s)] = true
	for i := len(pat) - 1; i >= 0; i-- {
		next := make([]bool, len(s)+1)
		star := pat[i] == '*'
		for j := len(s); j >= 0; j-- {
			more, one := false, false
			if j < len(s) {
				more = sym.And(next[j+1], s[j] != '/')
				one = sym.And(pat[i] == s[j], row[j+1])
			}
			next[j] = sym.Or(sym.And(star, sym.Or(row[j], more)), sym.And(!star, one))
		}
		row = next
	}
	return row[0]
}

func symPrefix(p, s string) bool {
	if len(p) > len(s) {
		return false
	}
	return sym.Eq(p, s[:len(p)])
}

type symSub struct {
	kind    int
	text    string
	id, who uint64
	match   bool
}

func anyTopics(prop string) {
	n := sym.Bound("subscriptions", 2, 3)
	w := newWorld(prop, n+1, n+1)
	text := sym.StrOver("topic", 1+sym.Choice("topic length", 3), "a./*")
	var rs []*symSub
	for i := 0; i < n; i++ {
		r := &symSub{kind: sym.Choice("kind", 3), who: w.ss[i].id}
		ln := 1 + sym.Choice("length", sym.Bound("subscribed topic length", 2, 3))
		opts := map[string]any{}
		switch r.kind {
		case 0:
			r.text = sym.StrOver("exact", ln, "a./")
			r.match = sym.Eq(r.text, text)
		case 1:
			r.text = sym.StrOver("prefix", ln, "a./")
			opts["match"] = "prefix"
			r.match = symPrefix(r.text, text)
		case 2:
			r.text = sym.StrOver("wildcard", ln, "a*/")
			opts["match"] = "wildcard"
			r.match = symGlob(r.text, text)
		}
		for _, o := range rs {
			sym.Assume(o.text != r.text)
		}
		out := w.send(i, messages.NewSubscribe(1, opts, r.text))
		m, ok := out.Message.(*messages.Subscribed)
		sym.Assert(ok, "subscribed")
		r.id = m.SubscriptionID()
		for _, o := range rs {
			w.as("C15", o.id != r.id, "different topics have different IDs")
		}
		rs = append(rs, r)
	}
	if k := sym.Choice("gone", n+1); k < n {
		if sym.Choice("how", 2) == 0 {
			w.send(k, messages.NewUnsubscribe(2, rs[k].id))
		} else {
			w.remove(k)
		}
		rs = append(append([]*symSub{}, rs[:k]...), rs[k+1:]...)
	}
	pub, err := w.b.ReceivePublish(w.ss[n].id, messages.NewPublish(1, nil, text, nil, nil))
	sym.Assert(err == nil && pub != nil, "published")
	var used *symSub
	if pub.Event != nil {
		for _, r := range rs {
			if r.id == pub.Event.SubscriptionID() {
				used = r
			}
		}
		w.as("C15", used != nil, "the event names a current subscription")
	}
	if used != nil {
		w.as("C15", used.match, "the event names a matching subscription")
	}
	for _, r := range rs {
		got := false
		for _, id := range pub.Recipients {
			got = sym.Or(got, id == r.who)
		}
		others := false
		for _, o := range rs {
			if o != r {
				others = sym.Or(others, o.match)
			}
		}
		w.as("C14", sym.Implies(got, r.match), "only subscribers of a matching topic get the event")
		w.as("C14", sym.Implies(sym.And(r.match, !others), got), "the subscriber of the only matching topic gets the event")
		w.as("C15", sym.Implies(got, used == r), "recipients hold the subscription the event names")
		if prop == "C16" {
			better := false
			for _, o := range rs {
				if o != r && (o.kind < r.kind || o.kind == r.kind && (r.kind == 2 || len(o.text) >= len(r.text))) {
					better = sym.Or(better, o.match)
				}
			}
			sym.Known("overlapping-subscriptions", sym.And(r.match, better), sym.Implies(r.match, got), "the subscribers of every matching subscription get the event")
		}
	}
	w.as("C14", len(pub.Recipients) <= len(rs), "nobody else gets the event")
}

// C14_Topics, C15_Topics and C16_Topics: any short topics and patterns.
func C14_Topics() { anyTopics("C14") }

// C15_Topics: any short topics and patterns.
func C15_Topics() { anyTopics("C15") }

// C16_Topics: any short topics and patterns.
func C16_Topics() { anyTopics("C16") }

func message(k int, id uint64) messages.Message {
	switch k {
	case 0:
		return messages.NewSubscribe(id, map[string]any{"match": sym.OneOf("match", "exact", "prefix", "wildcard", nil, uint64(3))}, []string{"a.b.c", "a.", ""}[sym.Choice("topic", 3)])
	case 1:
		return messages.NewUnsubscribe(sym.Uint64("request"), id)
	case 2:
		return messages.NewError(sym.Uint64("error type"), id, nil, "e", nil, nil)
	case 3:
		return messages.NewCall(id, nil, "a.b.c", nil, nil)
	case 4:
		return messages.NewYield(id, nil, nil, nil)
	case 5:
		return messages.NewPublish(id, nil, "a.b.c", nil, nil)
	case 6:
		return messages.NewCancel(id, nil)
	case 7:
		return messages.NewGoodBye("wamp.close.normal", nil)
	case 8:
		return messages.NewRegister(id, nil, "a.b.c")
	case 9:
		return messages.NewUnregister(sym.Uint64("request"), id)
	case 10:
		return messages.NewHello("realm", "a", nil, nil, nil)
	case 11:
		return messages.NewWelcome(id, nil)
	case 12:
		return messages.NewAbort(nil, "r", nil, nil)
	case 13:
		return messages.NewChallenge("m", nil)
	case 14:
		return messages.NewAuthenticate("s", nil)
	case 15:
		return messages.NewResult(id, nil, nil, nil)
	case 16:
		return messages.NewRegistered(sym.Uint64("request"), id)
	case 17:
		return messages.NewInvocation(id, sym.Uint64("reg"), nil, nil, nil)
	case 18:
		return messages.NewInterrupt(id, nil)
	case 19:
		return messages.NewUnregistered(id)
	case 20:
		return messages.NewEvent(id, id, nil, nil, nil)
	case 21:
		return messages.NewPublished(id, id)
	case 22:
		return messages.NewSubscribed(id, id)
	}
	return messages.NewUnsubscribed(id)
}

// C19_Any: any operations with any IDs from attached and unattached sessions.
func C19_Any() {
	w := newWorld("C19", 3, 2)
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		switch k := sym.Choice("op", 7); {
		case k <= 1:
			w.send(sym.Choice("by", 3), message(k, sym.Uint64("id")))
		case k == 2:
			w.attach(1)
		case k == 3:
			w.remove(1)
		case k == 4:
			w.remove(0)
		case k == 5:
			w.b.AutoDisclosePublisher(true)
		case k == 6:
			w.publish(sym.Choice("by", 3), "a.b.c", nil)
		}
		w.b.HasSubscription("a.b.c")
	}
	w.usable()
}

// C19_Types: every message type.
func C19_Types() {
	w := newWorld("C19", 3, 2)
	w.subscribe(0, []topic{exact, pre1, wild}[sym.Choice("topic", 3)])
	for i := 0; i < sym.Bound("messages", 1, 2); i++ {
		w.send(sym.Choice("by", 3), message(sym.Choice("type", 24), sym.Uint64("id")))
	}
	if sym.Choice("remove", 2) == 1 {
		w.remove(0)
	}
	w.publish(1, "a.b.c", nil)
	w.usable()
}

// C19_Options: options of any kind, also those that mean something.
func C19_Options() {
	w := newWorld("C19", 3, 2)
	w.subscribe(0, exact)
	if sym.Choice("disclose", 2) == 1 {
		w.b.AutoDisclosePublisher(true)
	}
	for i := sym.Bound("messages", 1, 2); i > 0; i-- {
		by, id := sym.Choice("by", 3), sym.Uint64("id")
		opts := odd.Opts()
		switch sym.Choice("type", 3) {
		case 0:
			w.send(by, messages.NewSubscribe(id, opts, []string{"a.b.c", "a.", "*", ""}[sym.Choice("uri", 4)]))
		case 1:
			p, err := w.b.ReceivePublish(w.ss[by].id, messages.NewPublish(id, opts, "a.b.c", nil, nil))
			sym.Assert((p == nil) == (err != nil), "an answer or an error")
		case 2:
			w.send(by, messages.NewError(messages.MessageTypeInvocation, id, opts, "e", nil, nil))
		}
	}
	w.publish(1, "a.b.c", nil)
	w.usable()
}

// pubFields is a publication whose options may be nil.
type pubFields struct{ opts map[string]any }

func (f *pubFields) RequestID() uint64         { return 9 }
func (f *pubFields) Options() map[string]any   { return f.opts }
func (f *pubFields) Topic() string             { return "a.b.c" }
func (f *pubFields) Args() []any               { return nil }
func (f *pubFields) KwArgs() map[string]any    { return nil }
func (f *pubFields) PayloadIsBinary() bool     { return false }
func (f *pubFields) Payload() []byte           { return nil }
func (f *pubFields) PayloadSerializer() uint64 { return 0 }

func (w *world) usable() {
	id := sym.Uint64("fresh session")
	for _, s := range w.ss {
		sym.Assume(s.id != id)
	}
	w.ss = append(w.ss, &session{id: id})
	n := len(w.ss) - 1
	w.attach(n)
	out := w.send(n, messages.NewSubscribe(1, nil, "fresh.topic"))
	sym.Assert(out != nil, "SUBSCRIBE works")
	m, ok := out.Message.(*messages.Subscribed)
	sym.Assert(ok, "SUBSCRIBE is granted")
	var pub *wampproto.Publication
	pub, err := w.b.ReceivePublish(id, messages.NewPublishWithFields(&pubFields{map[string]any{"exclude_me": false}}))
	sym.Assert(err == nil && pub != nil, "PUBLISH works")
	pub, err = w.b.ReceivePublish(id, messages.NewPublish(2, map[string]any{"exclude_me": false}, "fresh.topic", nil, nil))
	sym.Assert(err == nil && pub != nil && pub.Event != nil && len(pub.Recipients) == 1, "events are routed")
	_, err = w.b.ReceivePublish(id, messages.NewPublishWithFields(&pubFields{}))
	sym.Assert(err == nil, "PUBLISH with nil options works")
	out = w.send(n, messages.NewUnsubscribe(3, m.SubscriptionID()))
	sym.Assert(out != nil, "UNSUBSCRIBE works")
	w.remove(n)
}

// C19_Twice: refused attachments change nothing.
func C19_Twice() {
	w := newWorld("C19", 2, 1)
	w.subscribe(0, exact)
	w.ss[0].authid = "second"
	w.attach(0)
	w.remove(1)
	w.b.AutoDisclosePublisher(true)
	pub := w.publish(0, exact.text, map[string]any{"exclude_me": false})
	sym.Assert(pub != nil && pub.Event != nil && len(pub.Recipients) == 1, "the subscription is still there")
	sym.Assert(sym.Eq(pub.Event.Details()["publisher_authid"], "id"), "the session keeps the identity it was attached with")
	w.publish(1, exact.text, nil)
	w.subscribe(1, exact)
	pub = w.publish(0, exact.text, nil)
	sym.Assert(pub != nil && len(pub.Recipients) == 0, "refused operations change nothing")
}
