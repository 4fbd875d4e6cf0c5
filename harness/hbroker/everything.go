package hbroker

import "github.com/xconnio/wampproto-go/internal/zzverif/sym"

// everything runs histories in which subscriptions, departures, publications
// and disclosure mix, then publishes to all of it again.
func everything(prop string) {
	w := newWorld(prop, 3, 3)
	for i, t := range []string{"zero", "one", "two"} {
		w.remove(i)
		w.ss[i].authid, w.ss[i].role = t, "role of "+t
		w.attach(i)
	}
	main := []topic{exact, pre1, wild}[sym.Choice("topic", 3)]
	other, wide := topic{"x.y", ""}, topic{"a.b", "prefix"}
	w.subscribe(0, main)
	for i := sym.Bound("steps", 3, 5); i > 0; i-- {
		r := w.live(main.text)
		var ops []func()
		add := func(ok bool, f func()) {
			if ok {
				ops = append(ops, f)
			}
		}
		add(w.ss[2].up, func() { w.publish(2, exact.text, map[string]any{"acknowledge": true}) })
		add(w.ss[0].up, func() { w.publish(0, exact.text, map[string]any{"exclude_me": false}) })
		add(w.ss[2].up, func() { w.publish(2, "x.y", nil) })
		for s := 0; s < 2; s++ {
			add(w.ss[s].up && (r == nil || !r.has(s)), func() { w.subscribe(s, main) })
			add(r != nil && r.has(s), func() { w.unsubscribe(s, r.id) })
		}
		add(w.live(other.text) == nil, func() { w.subscribe(1, other) })
		add(w.live(wide.text) == nil, func() { w.subscribe(1, wide) })
		for s := 0; s < 3; s += 2 {
			add(w.ss[s].up, func() { w.remove(s) })
			add(!w.ss[s].up, func() { w.attach(s) })
		}
		add(true, func() { w.disclose(!w.dis) })
		ops[sym.Choice("step", len(ops))]()
	}
	w.has()
	w.subscribe(1, topic{"brand.new", ""})
	w.args, w.kw = []any{"x", nil}, map[string]any{"k": nil}
	for _, p := range []string{exact.text, "x.y", "a.b", "a.x", "brand.new", exact.text} {
		w.publish(1, p, map[string]any{"exclude_me": false, "acknowledge": true})
		if w.ss[0].up {
			w.publish(0, p, nil)
		}
	}
	for _, r := range append([]*subscription{}, w.all...) {
		w.unsubscribe(1, r.id)
	}
	w.has()
	w.publish(1, exact.text, map[string]any{"exclude_me": false})
}

// C14_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C14_Blend() { everything("C14") }

// C15_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C15_Blend() { everything("C15") }

// C16_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C16_Blend() { everything("C16") }

// C17_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C17_Blend() { everything("C17") }

// C18_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C18_Blend() { everything("C18") }

// C19_Blend: histories that mix subscriptions, departures, publications and
// disclosure.
func C19_Blend() { everything("C19") }
