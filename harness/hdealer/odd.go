package hdealer

import (
	"strings"

	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// meant are the options that mean something to a dealer.
var meant = []string{"match", "invoke", "progress", "receive_progress"}

// oddities is a short history in which every message has whatever options the
// code looks up, or the procedures are named by the code's own strings, or have
// the lengths it compares with.
func oddities(prop string) {
	w := newWorld(prop, 3, 0)
	u := uri{"a.b.c", []string{"", "prefix", "wildcard"}[sym.Choice("match", 3)]}
	kind := sym.Choice("odd", 4)
	w.bin = kind == 3
	for i := range w.ss {
		w.ss[i].static = w.bin
		w.ss[i].authid = []string{"", "x", "long authid"}[i]
		w.ss[i].role = []string{"r", "", "anonymous"}[i]
		w.attach(i)
	}
	switch kind {
	case 3:
		w.disclose(sym.Choice("disclose", 2) == 1)
	case 0:
		w.odd = odd.Opts(meant...)
		w.disclose(sym.Choice("disclose", 2) == 1)
	case 1:
		u.text = odd.Text()
	case 2:
		u.text = strings.Repeat("a", odd.Size(sym.Bound("URI length", 300, 300)))
	}
	if u.text == "" {
		u.match = ""
	}
	call := u.text
	w.as("C03", !w.d.HasProcedure(u.text), "HasProcedure of a name never registered")
	w.call(2, call, 1, nil)
	policy := []string{"", "roundrobin"}[sym.Choice("policy", 2)]
	w.register(0, u, policy)
	w.register(1, u, policy)
	w.as("C03", w.d.HasProcedure(u.text), "HasProcedure tells whether the procedure is held")
	opts := map[string]any{"receive_progress": sym.Bool("wants progress"), "progress": sym.Bool("has more")}
	inv := w.call(2, call, 2, opts)
	w.call(0, call, 3, nil)
	if inv != nil {
		v := w.invs[0]
		w.answer(1-v.callee, v.id, false, nil)
		w.answer(v.callee, v.id, sym.Choice("error", 2) == 1, sym.Bool("progress"))
	}
	w.call(2, call, 4, nil)
	if len(w.all) > 0 {
		w.unregister(2, w.all[0].id)
		w.unregister(0, w.all[0].id)
	}
	w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
	w.call(2, call, 5, nil)
	w.call(2, call, 6, nil)
	w.remove(1)
	w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
	w.call(2, call, 7, nil)
	for _, v := range w.invs {
		if w.ss[v.callee].up {
			w.answer(v.callee, v.id, true, nil)
		}
	}
}

func C01_Odd() { oddities("C01") }
func C02_Odd() { oddities("C02") }
func C03_Odd() { oddities("C03") }
func C04_Odd() { oddities("C04") }
func C05_Odd() { oddities("C05") }
func C06_Odd() { oddities("C06") }
func C07_Odd() { oddities("C07") }
func C08_Odd() { oddities("C08") }
func C09_Odd() { oddities("C09") }
func C10_Odd() { oddities("C10") }
func C11_Odd() { oddities("C11") }
func C12_Odd() { oddities("C12") }
func C13_Odd() { oddities("C13") }

// C01_Many and C02_Many: more registrations than elsewhere, one of which goes.
func many(prop string) {
	n := sym.Bound("registrations", 8, 12)
	w := newWorld(prop, 3, 3)
	long := "a.b.c.d.e.f.g.h.i.j.k.l"
	var us []uri
	for i := 0; i < n; i++ {
		us = append(us, uri{long[:2*i+1], []string{"prefix", "prefix", "exact", "prefix", "prefix"}[i%5]})
	}
	us = append(us, uri{"a.*", "wildcard"}, uri{"*", "wildcard"})
	order := sym.Choice("order", 3)
	for i := range us {
		switch order {
		case 1:
			i = len(us) - 1 - i
		case 2:
			i = i * 3 % len(us)
		}
		if w.held(us[i].text) == nil {
			w.register(i%2, us[i], "roundrobin")
		}
	}
	for _, u := range us {
		if w.held(u.text) == nil {
			w.register(0, u, "")
		}
	}
	gone := w.regs[sym.Choice("gone", len(w.regs))]
	if sym.Choice("how", 2) == 0 {
		w.unregister(gone.holders[0], gone.id)
	} else {
		w.remove(gone.holders[0])
	}
	for i := 0; i < n+1; i++ {
		w.probes++
		w.call(2, (long + ".m.n.o")[:2*i+1], w.probes, nil)
	}
	w.probes++
	w.call(2, "b", w.probes, nil)
}

func C01_Many() { many("C01") }
func C02_Many() { many("C02") }

// C05_Many: more holders than elsewhere; some leave and join again between
// calls.
func C05_Many() {
	n := sym.Bound("holders", 6, 9)
	policy := []string{"first", "last", "roundrobin"}[sym.Choice("policy", 3)]
	u := []uri{exact, pre1, wild}[sym.Choice("uri", 3)]
	w := newWorld("C05", n, n)
	for i := 0; i < n; i++ {
		w.register(i, u, policy)
		if i == n/2 && sym.Choice("a call in between", 2) == 1 {
			w.probes++
			w.call(0, "a.b.c", w.probes, nil)
		}
	}
	calls := func(k int) {
		for i := 0; i < k; i++ {
			w.probes++
			w.call(0, "a.b.c", w.probes, nil)
		}
	}
	calls([]int{0, n - 1, n + 1}[sym.Choice("calls", 3)])
	a := sym.Choice("gone", n)
	b := (a + 1 + sym.Choice("also gone", 2)*2) % n
	for i, x := range []int{a, b} {
		r := w.held(u.text)
		if sym.Choice("how", 2) == 0 {
			w.unregister(x, r.id)
		} else {
			w.remove(x)
			w.attach(x)
		}
		if i == 0 {
			calls(2)
		}
	}
	calls(n)
	w.register(a, u, policy)
	calls(2 * n)
}

// C03_Refused and the one below: a request that is refused changes nothing,
// whatever is asked afterwards.
func refused(prop string, extra func(w *world)) {
	us := []uri{exact, pre1, wild}
	build := func(ids []uint64) *world {
		w := &world{prop: prop, d: newDealer()}
		for i := 0; i < 3; i++ {
			w.ss = append(w.ss, &session{id: ids[i], authid: "id", role: "role"})
			w.attach(i)
		}
		return w
	}
	var ids []uint64
	for i := 0; i < 3; i++ {
		x := sym.Uint64("session")
		for _, y := range ids {
			sym.Assume(x != y)
		}
		ids = append(ids, x)
	}
	a, b := build(ids), build(ids)
	policies := []string{"single", "roundrobin"}
	p0, p1 := policies[sym.Choice("policy", 2)], policies[sym.Choice("policy", 2)]
	u0 := us[sym.Choice("uri", 3)]
	u1 := us[sym.Choice("uri", 3)]
	for _, w := range []*world{a, b} {
		w.register(0, u0, p0)
		w.register(1, u1, p1)
	}
	extra(b)
	sym.Assert(len(a.regs) == len(b.regs), "a refused request changes nothing")
	if len(a.regs) != len(b.regs) {
		return
	}
	for i := range a.regs {
		sym.Assert(a.regs[i].id == b.regs[i].id, "a refused request changes nothing")
	}
	// whatever is asked next is answered alike
	for i := sym.Bound("then", 1, 2); i > 0; i-- {
		s := sym.Choice("by", 3)
		var m messages.Message
		switch sym.Choice("request", 5) {
		case 0:
			m = messages.NewUnregister(7, sym.Uint64("registration"))
		case 1:
			m = messages.NewCall(uint64(10+i), nil, exact.text, nil, nil)
		case 2:
			u := us[sym.Choice("uri", 3)]
			o := map[string]any{"invoke": policies[sym.Choice("policy", 2)]}
			if u.match != "" {
				o["match"] = u.match
			}
			m = messages.NewRegister(8, o, u.text)
		case 3:
			m = messages.NewYield(sym.Uint64("invocation"), nil, nil, nil)
		case 4:
			e1, e2 := a.d.RemoveSession(ids[s]), b.d.RemoveSession(ids[s])
			sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
			continue
		}
		alike(a, b, ids[s], m)
	}
	for _, u := range us {
		sym.Assert(a.d.HasProcedure(u.text) == b.d.HasProcedure(u.text), "a refused request changes nothing")
		alike(a, b, ids[2], messages.NewCall(20, nil, u.text, nil, nil))
	}
	alike(a, b, ids[2], messages.NewCall(21, nil, exact.text, nil, nil))
}

// alike gives a message to both dealers and compares the answers up to IDs that
// are new.
func alike(a, b *world, s uint64, m messages.Message) {
	o1, e1 := a.d.ReceiveMessage(s, m)
	o2, e2 := b.d.ReceiveMessage(s, m)
	sym.Assert((e1 == nil) == (e2 == nil), "a refused request changes nothing")
	if o1 == nil || o2 == nil {
		return
	}
	sym.Assert(o1.Recipient == o2.Recipient && o1.Message.Type() == o2.Message.Type(), "a refused request changes nothing")
	switch x := o1.Message.(type) {
	case *messages.Registered:
		if y, ok := o2.Message.(*messages.Registered); ok {
			old1, old2 := false, false
			for _, r := range a.all {
				old1 = sym.Or(old1, r.id == x.RegistrationID())
				old2 = sym.Or(old2, r.id == y.RegistrationID())
			}
			sym.Assert(sym.And(old1 == old2, sym.Implies(old1, x.RegistrationID() == y.RegistrationID())), "a refused request changes nothing")
		}
	case *messages.Invocation:
		if y, ok := o2.Message.(*messages.Invocation); ok {
			for _, r := range a.all {
				sym.Assert((x.RegistrationID() == r.id) == (y.RegistrationID() == r.id), "a refused request changes nothing")
			}
		}
	}
}

// C03_Refused: a refused REGISTER, or one that only repeats what the session
// holds.
func C03_Refused() {
	us := []uri{exact, pre1, wild}
	refused("C03", func(w *world) {
		u := us[sym.Choice("refused uri", 3)]
		r := w.held(u.text)
		sym.Assume(r != nil)
		s := sym.Choice("refused", 3)
		policy := []string{"single", "roundrobin", "first", ""}[sym.Choice("refused policy", 4)]
		sym.Assume(!(shared(r.policy) && r.policy == policy))
		if s == 2 && sym.Choice("other match", 2) == 1 {
			u.match = "prefix"
		}
		sym.Assert(!w.register(s, u, policy), "the procedure is taken")
	})
}

// C04_Refused: a refused UNREGISTER.
func C04_Refused() {
	refused("C04", func(w *world) {
		s, id := sym.Choice("refused", 3), sym.Uint64("refused registration")
		for _, r := range w.regs {
			sym.Assume(!(r.has(s) && r.id == id))
		}
		sym.Assert(!w.unregister(s, id), "the sender does not hold the registration")
	})
}

// kinds: one text registered by several sessions under any matchings and
// policies.
func kinds(prop string) {
	w := newWorld(prop, 3, 3)
	text := []string{"a.b", "a.*", "*"}[sym.Choice("text", 3)]
	ks := []string{"", "prefix", "wildcard", "exact", "Prefix", "fuzzy"}
	for i := 0; i < 3; i++ {
		u := uri{text, ks[sym.Choice("match", len(ks))]}
		w.register(i%2, u, []string{"roundrobin", "last", ""}[sym.Choice("policy", 3)])
	}
	if len(w.regs) > 0 && sym.Choice("gone", 2) == 1 {
		w.unregister(0, w.regs[0].id)
	}
	w.register(2, uri{text, ks[sym.Choice("match", 3)]}, "roundrobin")
	for _, p := range []string{text, text + ".c", "a.x", "x"} {
		w.probes++
		w.call(2, p, w.probes, nil)
	}
}

func C01_Kinds() { kinds("C01") }
func C02_Kinds() { kinds("C02") }
func C03_Kinds() { kinds("C03") }

// parts: the parts of two progressive calls at once, and their progressive
// results, in any order.
func parts(prop string) {
	w := newWorld(prop, 4, 0)
	w.bin = sym.Choice("binary", 2) == 1
	for i := range w.ss {
		w.ss[i].static = w.bin
		w.attach(i)
	}
	w.disclose(sym.Choice("disclose", 2) == 1)
	policy := []string{"roundrobin", "single"}[sym.Choice("policy", 2)]
	w.register(0, exact, policy)
	if policy == "roundrobin" {
		w.register(1, exact, policy)
	}
	req := sym.Uint64("request")
	more := map[string]any{"progress": true, "receive_progress": true}
	w.call(2, exact.text, req, more)
	w.call(3, exact.text, req, more)
	for i := sym.Bound("parts", 3, 4); i > 0; i-- {
		k := sym.Choice("whose", 2)
		v := w.invs[k]
		switch sym.Choice("part", 3) {
		case 0:
			if !v.done && !v.last {
				last := sym.Choice("last", 2) == 1
				v.last = last
				w.call(2+k, exact.text, req, map[string]any{"progress": !last, "receive_progress": true})
			}
		case 1:
			w.answer(v.callee, v.id, false, true)
		case 2:
			w.answer(v.callee, v.id, sym.Choice("error", 2) == 1, nil)
		}
	}
	for _, v := range w.invs {
		w.answer(v.callee, v.id, false, nil)
		w.answer(v.callee, v.id, true, nil)
	}
}

func C06_Mixed() { parts("C06") }
func C08_Mixed() { parts("C08") }
func C09_Mixed() { parts("C09") }
func C10_Mixed() { parts("C10") }
func C11_Mixed() { parts("C11") }
