package hdealer

import "github.com/xconnio/wampproto-go/internal/zzverif/sym"

// everything runs histories in which registrations, departures, calls (also
// progressive ones), answers and disclosure mix, then asks for all of it again.
func everything(prop string) {
	w := newWorld(prop, 3, 3)
	for i, t := range []string{"zero", "one", "two"} {
		w.remove(i)
		w.ss[i].authid, w.ss[i].role = t, "role of "+t
		w.attach(i)
	}
	main, other := exact, uri{"x.y", ""}
	policy := "single"
	switch sym.Choice("set-up", 3) {
	case 0:
		w.register(0, main, policy)
	case 1:
		policy = "roundrobin"
		w.register(0, main, policy)
		w.register(1, main, policy)
	case 2:
		main, policy = pre1, "first"
		w.register(0, main, policy)
	}
	more := map[string]any{"receive_progress": true, "progress": true}
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		var open []*invocation
		for _, v := range w.invs {
			if !v.done {
				open = append(open, v)
			}
		}
		r := w.held(main.text)
		var ops []func()
		add := func(ok bool, f func()) {
			if ok {
				ops = append(ops, f)
			}
		}
		add(w.ss[2].up, func() { w.call(2, exact.text, 1, nil) })
		add(w.ss[2].up, func() { w.call(2, exact.text, 2, more) })
		add(true, func() { w.call(1, exact.text, 2, more) })
		if len(open) > 0 {
			first, last := open[0], open[len(open)-1]
			add(true, func() { w.answer(first.callee, first.id, false, nil) })
			add(first.wantProg, func() { w.answer(first.callee, first.id, false, true) })
			add(first != last, func() { w.answer(last.callee, last.id, true, nil) })
		}
		add(w.held(other.text) == nil, func() { w.register(1, other, "") })
		add(w.ss[0].up && (r == nil || policy != "single" && !r.has(0)), func() { w.register(0, main, policy) })
		add(w.ss[1].up && r != nil && !r.has(1), func() { w.register(1, main, policy) })
		add(r != nil && r.has(0), func() { w.unregister(0, r.id) })
		add(w.ss[0].up, func() { w.remove(0) })
		add(!w.ss[0].up, func() { w.attach(0) })
		add(w.ss[2].up, func() { w.remove(2) })
		add(!w.ss[2].up, func() { w.attach(2) })
		add(true, func() { w.disclose(!w.dis) })
		add(w.held("a.b") == nil, func() { w.register(1, pre2, "last") })
		ops[sym.Choice("step", len(ops))]()
	}
	us := []uri{main, other, pre2}
	for _, u := range us {
		w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
	}
	w.others(us...)
	w.register(1, uri{"brand.new", ""}, "")
	for _, p := range []string{exact.text, "x.y", "a.b", "a.x", "brand.new", exact.text} {
		w.probes++
		w.call(1, p, 100+w.probes, nil)
	}
	for _, v := range append([]*invocation{}, w.invs...) {
		if v.done {
			w.answer(v.callee, v.id, false, nil)
			continue
		}
		if v.wantProg {
			w.call(v.caller, v.proc, v.req, more)
			w.answer(v.callee, v.id, false, true)
		}
		w.answer(v.callee, v.id, false, nil)
	}
	for _, r := range append([]*registration{}, w.all...) {
		w.unregister(1, r.id)
	}
	w.call(1, exact.text, 99, nil)
}

// C01_Blend: histories that mix registrations, calls, answers and disclosure.
func C01_Blend() { everything("C01") }

// C02_Blend: histories that mix registrations, calls, answers and disclosure.
func C02_Blend() { everything("C02") }

// C03_Blend: histories that mix registrations, calls, answers and disclosure.
func C03_Blend() { everything("C03") }

// C04_Blend: histories that mix registrations, calls, answers and disclosure.
func C04_Blend() { everything("C04") }

// C05_Blend: histories that mix registrations, calls, answers and disclosure.
func C05_Blend() { everything("C05") }

// C06_Blend: histories that mix registrations, calls, answers and disclosure.
func C06_Blend() { everything("C06") }

// C08_Blend: histories that mix registrations, calls, answers and disclosure.
func C08_Blend() { everything("C08") }

// C09_Blend: histories that mix registrations, calls, answers and disclosure.
func C09_Blend() { everything("C09") }

// C10_Blend: histories that mix registrations, calls, answers and disclosure.
func C10_Blend() { everything("C10") }

// C11_Blend: histories that mix registrations, calls, answers and disclosure.
func C11_Blend() { everything("C11") }

// C12_Blend: histories that mix registrations, calls, answers and disclosure.
func C12_Blend() { everything("C12") }

// C13_Blend: histories that mix registrations, calls, answers and disclosure.
func C13_Blend() { everything("C13") }
