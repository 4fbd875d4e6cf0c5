package hdealer

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// C03_Register: any sequence of REGISTER (free or not), UNREGISTER and removal
// with any policy.
func C03_Register() {
	w := newWorld("C03", 3, 2)
	us := []uri{exact, pre1, wild}[:sym.Bound("procedures", 2, 3)]
	if sym.Choice("other pair", 2) == 1 {
		us = []uri{wild, exact}
	}
	for i := sym.Bound("steps", 4, 5); i > 0; i-- {
		switch k := sym.Choice("op", 3); k {
		case 0:
			u := us[sym.Choice("procedure", len(us))]
			s := sym.Choice("by", 3)
			policy := ""
			if s != 2 {
				policy = []string{"single", "roundrobin"}[sym.Choice("policy", 2)]
			}
			w.register(s, u, policy)
		case 1:
			s := sym.Choice("by", 2)
			var held []*registration
			for _, r := range w.regs {
				if r.has(s) {
					held = append(held, r)
				}
			}
			if len(held) == 0 {
				continue
			}
			w.unregister(s, held[sym.Choice("which", len(held))].id)
		case 2:
			s := sym.Choice("who", 2)
			if w.ss[s].up {
				w.remove(s)
			} else {
				w.attach(s)
			}
		}
		for _, u := range us {
			w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
		}
	}
	w.others(us...)
}

// others asks for names that are close to those of procedures.
func (w *world) others(us ...uri) {
	for _, u := range us {
		for _, t := range []string{u.text + "x", u.text + ".another", u.text[:len(u.text)-1], "x" + u.text, "not.there", ""} {
			w.as("C03", w.d.HasProcedure(t) == (w.held(t) != nil), "HasProcedure of a name never registered")
		}
	}
}

// C03_Policies: every pair of policies, with a holder leaving in between.
func C03_Policies() {
	w := newWorld("C03", 3, 3)
	u := []uri{exact, pre1, wild}[sym.Choice("procedure", 3)]
	policy := func() string {
		return sym.OneOf("policy", "", "single", "first", "last", "roundrobin", "random", "other", "First").(string)
	}
	w.register(0, u, policy())
	w.register(1, u, policy())
	switch sym.Choice("then", 4) {
	case 0:
		if r := w.held(u.text); r != nil {
			w.unregister(0, r.id)
		}
	case 1:
		w.remove(0)
	case 2:
		if r := w.held(u.text); r != nil && r.has(1) {
			w.unregister(1, r.id)
		}
	}
	w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
	w.register(2, u, policy())
	w.as("C03", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "HasProcedure tells whether the procedure is held")
	w.others(u)
}

// C03_Options: values of the invoke option that are not strings.
func C03_Options() {
	w := newWorld("C03", 2, 2)
	v := sym.OneOf("invoke", nil, true, uint64(1), int64(2), 1.5, []any{"first"}, map[string]any{"a": 1})
	for s := 0; s < 2; s++ {
		req := sym.Uint64("request")
		out := w.send(s, messages.NewRegister(req, map[string]any{"invoke": v}, "p.q"))
		sym.Assert(out != nil, "REGISTER is answered")
		if s == 0 {
			m, ok := out.Message.(*messages.Registered)
			sym.Assert(ok && m.RequestID() == req, "a free procedure is granted")
		} else {
			m, ok := out.Message.(*messages.Error)
			sym.Assert(ok && m.RequestID() == req && m.URI() == "wamp.error.procedure_already_exists", "not shared without a shared policy")
		}
		sym.Assert(w.d.HasProcedure("p.q"), "held")
	}
}

// C04_Unregister: UNREGISTER of any ID by any session in any state.
func C04_Unregister() {
	w := newWorld("C04", 3, 2)
	us := [][]uri{{exact, pre1}, {wild, exact}}[sym.Choice("procedures", 2)]
	w.churn(sym.Bound("steps", 4, 5), us, []string{"roundrobin", "single"})
	w.also = "C01"
	by := sym.Choice("by", 3)
	w.unregister(by, sym.Uint64("registration"))
	for _, u := range us {
		w.as("C04", w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "a procedure stays exactly while it is held")
	}
	w.probe(1)
	for _, r := range append([]*registration{}, w.regs...) {
		for s := range w.ss {
			if r.has(s) {
				w.unregister(s, r.id)
			}
		}
	}
	w.probe(1)
	for _, r := range w.all {
		w.unregister(0, r.id)
	}
}

// C05_Policy: sessions join and leave a shared procedure between calls.
func C05_Policy() {
	policy := []string{"first", "last", "roundrobin"}[sym.Choice("policy", 3)]
	u := []uri{exact, pre1, wild}[sym.Choice("uri", sym.Bound("kinds", 1, 3))]
	n := 3
	w := newWorld("C05", n, n)
	caller := 0
	for i := sym.Bound("steps", 6, 7); i > 0; i-- {
		type op struct{ kind, s int }
		ops := []op{}
		r := w.held(u.text)
		if r != nil {
			ops = append(ops, op{0, 0})
		}
		fresh := false
		for s := range w.ss {
			switch {
			case r != nil && r.has(s):
				ops = append(ops, op{1, s}, op{2, s})
				if policy != "last" {
					ops = append(ops, op{3, s})
				}
			case w.touched(s):
				ops = append(ops, op{3, s})
			case !fresh:
				fresh = true
				ops = append(ops, op{3, s})
			}
		}
		o := ops[sym.Choice("step", len(ops))]
		switch o.kind {
		case 0:
			w.probes++
			w.call(caller, "a.b.c", w.probes, nil)
		case 1:
			w.unregister(o.s, r.id)
		case 2:
			w.remove(o.s)
			w.attach(o.s)
		case 3:
			w.register(o.s, u, policy)
			w.ss[o.s].authid = "used"
		}
	}
	for i := 0; i < 6; i++ {
		w.probes++
		w.call(caller, "a.b.c", w.probes, nil)
	}
}

func (w *world) touched(s int) bool { return w.ss[s].authid == "used" }

// C05_Random: a random choice is always a current holder.
func C05_Random() {
	w := newWorld("C05", 3, 3)
	for i := sym.Bound("steps", 4, 5); i > 0; i-- {
		s := sym.Choice("session", 3)
		if r := w.held(exact.text); r != nil && r.has(s) {
			if sym.Choice("how", 2) == 0 {
				w.unregister(s, r.id)
			} else {
				w.remove(s)
				w.attach(s)
			}
		} else {
			w.register(s, exact, "random")
		}
	}
	w.probes++
	w.call(0, "a.b.c", w.probes, nil)
	w.probes++
	w.call(1, "a.b.c", w.probes, nil)
}

// C06_Answers: calls of two callers, with any request IDs, answered in any
// order by the sessions invoked, and stray answers.
func C06_Answers() {
	w := newWorld("C06", 3, 3)
	w.register(2, exact, "single")
	w.register(1, uri{"x.y", ""}, "single")
	for i := sym.Bound("steps", 4, 5); i > 0; i-- {
		switch k := sym.Choice("op", 4); k {
		case 0, 1:
			req := sym.Uint64("call")
			for _, o := range w.invs {
				if o.caller == k && !o.done {
					sym.Assume(req != o.req)
				}
			}
			proc := exact.text
			if k == 0 && sym.Choice("proc", 2) == 1 {
				proc = "x.y"
			}
			w.call(k, proc, req, map[string]any{"receive_progress": sym.Bool("wants progress"), "progress": sym.Bool("has more")})
		case 2:
			if len(w.invs) == 0 {
				continue
			}
			v := w.invs[sym.Choice("which", len(w.invs))]
			w.answer(v.callee, v.id, sym.Choice("error", 2) == 1, sym.Bool("progress"))
		case 3:
			id := sym.Uint64("stray")
			for _, o := range w.invs {
				sym.Assume(id != o.id)
			}
			w.answer(sym.Choice("by", 3), id, sym.Choice("error", 2) == 1, nil)
		}
	}
	for _, v := range w.invs {
		w.answer(v.callee, v.id, false, nil)
	}
	for _, v := range w.invs {
		w.answer(v.callee, v.id, true, nil)
	}
}

// C06_ErrorType: an ERROR that is not about an invocation is refused.
func C06_ErrorType() {
	w := newWorld("C06", 2, 2)
	w.register(0, exact, "")
	inv := w.call(1, exact.text, sym.Uint64("call"), nil)
	typ := sym.Uint64("type")
	sym.Assume(typ != messages.MessageTypeInvocation)
	out := w.send(0, messages.NewError(typ, inv.RequestID(), nil, "an.error", nil, nil))
	sym.Assert(out == nil, "an ERROR about something else is refused")
	w.answer(0, inv.RequestID(), sym.Choice("error", 2) == 1, nil)
}

// C07_Foreign: other sessions try to answer between the callee's answers.
func C07_Foreign() {
	w := newWorld("C07", 4, 3)
	w.register(2, exact, "roundrobin")
	if sym.Choice("shared", 2) == 1 {
		w.register(1, exact, "roundrobin")
	}
	var opts map[string]any
	if sym.Choice("wants progress", 2) == 1 {
		opts = map[string]any{"receive_progress": true}
	}
	w.call(0, exact.text, sym.Uint64("call"), opts)
	if sym.Choice("second call", 2) == 1 {
		w.probes = 7
		w.call(1, exact.text, w.probes, opts)
	}
	for i := sym.Bound("answers", 3, 4); i > 0 && !w.ended; i-- {
		v := w.invs[sym.Choice("which", len(w.invs))]
		w.answer(sym.Choice("by", 4), v.id, sym.Choice("error", 2) == 1, sym.Bool("progress"))
	}
	if w.ended {
		return
	}
	for _, v := range w.invs {
		if !v.done {
			w.answer(v.callee, v.id, sym.Choice("last", 2) == 1, nil)
		}
	}
}

// C08_Parts: the parts of progressive calls of two callers under every policy.
func C08_Parts() {
	policy := []string{"roundrobin", "first", "last", "random"}[sym.Choice("policy", sym.Bound("policies", 4, 4))]
	w := newWorld("C08", 3, 3)
	w.register(1, exact, policy)
	w.register(2, exact, policy)
	reqs := []uint64{sym.Uint64("call"), sym.Uint64("call")}
	sym.Assume(reqs[0] != reqs[1])
	lim := 2
	if policy == "random" {
		lim = 1
	}
	for i := sym.Bound("steps", 4, 5); i > 0; i-- {
		switch k := sym.Choice("op", 3); k {
		case 0:
			w.call(0, exact.text, reqs[0], map[string]any{"progress": sym.Bool("progress")})
		case 1:
			if lim == 0 {
				continue
			}
			who := 0
			if sym.Choice("other caller", 2) == 1 {
				who = 1
			}
			r := reqs[0]
			if who == 0 {
				r = reqs[1]
			}
			w.call(who, exact.text, r, map[string]any{"progress": sym.Bool("progress")})
			lim--
		case 2:
			if len(w.invs) == 0 {
				continue
			}
			v := w.invs[sym.Choice("which", len(w.invs))]
			w.answer(v.callee, v.id, sym.Choice("error", 2) == 1, nil)
		}
	}
	w.call(0, exact.text, reqs[0], map[string]any{"progress": sym.Bool("progress")})
	for _, v := range w.invs {
		w.answer(v.callee, v.id, false, nil)
	}
	w.call(0, exact.text, reqs[0], nil)
}

// C08_Churn: registrations come and go while a call is in progress.
func C08_Churn() {
	w := newWorld("C08", 4, 4)
	w.register(1, pre1, "roundrobin")
	w.register(2, pre1, "roundrobin")
	req := sym.Uint64("call")
	w.call(0, exact.text, req, map[string]any{"progress": true})
	first := w.invs[0]
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		switch sym.Choice("op", 5) {
		case 0:
			w.call(0, exact.text, req, map[string]any{"progress": sym.Bool("progress")})
		case 1:
			w.register(3, exact, "single")
		case 2:
			if r := w.held(pre1.text); r != nil && r.has(2) {
				w.unregister(2, r.id)
			}
		case 3:
			w.register(3, pre1, "roundrobin")
		case 4:
			w.probes++
			w.call(3, exact.text, w.probes, nil)
		}
	}
	w.call(0, exact.text, req, nil)
	w.answer(first.callee, first.id, sym.Choice("error", 2) == 1, nil)
}

// C09_Results: any sequence of YIELDs with any progress option value.
func C09_Results() {
	w := newWorld("C09", 3, 3)
	w.register(1, exact, "")
	val := func(n string) any {
		return sym.OneOf(n, sym.Bool(n+" flag"), nil, uint64(1), int64(1), "true", 1.0, []any{true})
	}
	for k := 0; k < sym.Bound("calls", 1, 2); k++ {
		opts := map[string]any{}
		if v := val("receive_progress"); sym.Choice("set", 2) == 1 {
			opts["receive_progress"] = v
		}
		if sym.Choice("progressive call", 2) == 1 {
			opts["progress"] = true
		}
		w.call(2*k, exact.text, sym.Uint64("call"), opts)
	}
	for i := sym.Bound("answers", 3, 3); i > 0; i-- {
		v := w.invs[sym.Choice("which", len(w.invs))]
		if i == 1 && sym.Choice("error", 2) == 1 {
			w.answer(v.callee, v.id, true, nil)
		} else {
			w.answer(v.callee, v.id, false, val("progress"))
		}
	}
}

// C10_Disclosure: callers with any identity, any options, in both modes.
func C10_Disclosure() {
	w := newWorld("C10", 3, 0)
	for i := 1; i < 3; i++ {
		w.ss[i].authid = sym.Str("authid", sym.Choice("len", 3))
		w.ss[i].role = sym.Str("authrole", 1+i)
	}
	for i := range w.ss {
		w.attach(i)
	}
	u := []uri{exact, pre1, wild}[sym.Choice("uri", 3)]
	w.register(0, u, "")
	on := false
	for i := sym.Bound("calls", 3, 4); i > 0; i-- {
		switch sym.Choice("disclose", 3) {
		case 0:
			w.d.AutoDiscloseCaller(true)
			on = true
		case 1:
			w.d.AutoDiscloseCaller(false)
			on = false
		}
		c := 1 + sym.Choice("caller", 2)
		var opts map[string]any
		if sym.Choice("spoof", 2) == 1 {
			opts = map[string]any{"caller": sym.Uint64("fake"), "caller_authid": "fake", "caller_authrole": "fake", "procedure": "fake",
				"disclose_me": sym.Bool("disclose_me"), "receive_progress": sym.Bool("receive_progress")}
		}
		proc := "a.b.c"
		w.probes++
		out := w.send(c, messages.NewCall(w.probes, opts, proc, nil, nil))
		m, ok := out.Message.(*messages.Invocation)
		sym.Assert(ok, "the call is routed")
		d := m.Details()
		caller, ok1 := d["caller"]
		authid, ok2 := d["caller_authid"]
		role, ok3 := d["caller_authrole"]
		p, ok4 := d["procedure"]
		if on {
			sym.Assert(ok1 && ok2 && ok3 && ok4, "the caller is disclosed")
			sym.Assert(sym.Eq(caller, w.ss[c].id), "caller is the calling session")
			sym.Assert(sym.Eq(authid, w.ss[c].authid), "caller_authid is the caller's")
			sym.Assert(sym.Eq(role, w.ss[c].role), "caller_authrole is the caller's")
			sym.Assert(sym.Eq(p, proc), "procedure is the called one")
		} else {
			sym.Assert(!ok1 && !ok2 && !ok3 && !ok4, "nothing is disclosed")
		}
	}
}

// fields is a message body that offers both forms of the payload.
type fields struct {
	req     uint64
	options map[string]any
	args    []any
	kwargs  map[string]any
	bin     bool
	payload []byte
	ser     uint64
}

func (f *fields) RequestID() uint64         { return f.req }
func (f *fields) Options() map[string]any   { return f.options }
func (f *fields) Procedure() string         { return exact.text }
func (f *fields) Args() []any               { return f.args }
func (f *fields) KwArgs() map[string]any    { return f.kwargs }
func (f *fields) PayloadIsBinary() bool     { return f.bin }
func (f *fields) Payload() []byte           { return f.payload }
func (f *fields) PayloadSerializer() uint64 { return f.ser }

func anyArgs() []any {
	switch sym.Choice("args", 4) {
	case 0:
		return nil
	case 1:
		return []any{}
	case 2:
		return []any{sym.Uint64("arg"), nil}
	}
	f := sym.Float64("f")
	sym.Assume(f == f)
	return []any{sym.OneOf("arg", sym.Int64("i"), sym.Bool("b"), sym.Str("s", 2), nil, f, []any{"x"}), map[string]any{"k": sym.Uint64("v")}}
}

func anyKwargs() map[string]any {
	switch sym.Choice("kwargs", 3) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	}
	return map[string]any{sym.Str("key", 1): sym.OneOf("kwarg", sym.Int64("i"), sym.Bool("b"), nil, "s")}
}

func anyPayload() *fields {
	f := &fields{args: anyArgs(), kwargs: anyKwargs()}
	if sym.Choice("binary", 2) == 1 {
		f.bin = true
		f.ser = sym.Uint64("serializer")
		f.payload = sym.Bytes("payload", sym.Choice("payload len", 3))
	}
	return f
}

type body interface {
	Args() []any
	KwArgs() map[string]any
	messages.BinaryPayload
}

func (w *world) same(in *fields, out body, static bool, what string) {
	if in.bin && static {
		sym.Assert(out.PayloadIsBinary(), what+" stays binary")
		sym.Assert(sym.Eq(out.Payload(), in.payload), what+" has the payload")
		sym.Assert(out.PayloadSerializer() == in.ser, what+" has the serializer")
		return
	}
	sym.Assert(!out.PayloadIsBinary(), what+" is not binary")
	sym.Assert(sym.Eq(out.Args(), in.args), what+" has the arguments")
	sym.Assert(sym.Eq(out.KwArgs(), in.kwargs), what+" has the keyword arguments")
}

// C11_Call and the two below: payloads on both ends.
func C11_Call() {
	w := newWorld("C11", 2, 0)
	w.ss[0].static = sym.Choice("callee static", 2) == 1
	w.ss[1].static = sym.Choice("caller static", 2) == 1
	w.attach(0)
	w.attach(1)
	w.register(0, exact, "")
	f := anyPayload()
	f.req = 5
	out := w.send(1, messages.NewCallWithFields(f))
	m, ok := out.Message.(*messages.Invocation)
	sym.Assert(ok, "the call is routed")
	w.same(f, m, w.ss[0].static, "INVOCATION")
}

// C11_Yield: a YIELD with any payload, between static and other sessions.
func C11_Yield() {
	w := newWorld("C11", 2, 0)
	w.ss[0].static = sym.Choice("callee static", 2) == 1
	w.ss[1].static = sym.Choice("caller static", 2) == 1
	w.attach(0)
	w.attach(1)
	w.register(0, exact, "")
	inv := w.call(1, exact.text, sym.Uint64("call"), map[string]any{"receive_progress": sym.Bool("receive_progress")})
	f := anyPayload()
	f.req = inv.RequestID()
	if sym.Choice("progressive", 2) == 1 {
		f.options = map[string]any{"progress": sym.Bool("progress")}
	}
	out := w.send(0, messages.NewYieldWithFields(f))
	m, ok := out.Message.(*messages.Result)
	sym.Assert(ok, "the yield is routed")
	w.same(f, m, w.ss[1].static, "RESULT")
}

// C11_Error: an ERROR with any payload.
func C11_Error() {
	w := newWorld("C11", 2, 0)
	w.ss[1].static = sym.Choice("caller static", 2) == 1
	w.attach(0)
	w.attach(1)
	w.register(0, exact, "")
	inv := w.call(1, exact.text, sym.Uint64("call"), nil)
	args, kwargs, uri := anyArgs(), anyKwargs(), sym.Str("uri", 3)
	details := map[string]any{}
	if sym.Choice("details", 2) == 1 {
		details["d"] = sym.Uint64("detail")
	}
	out := w.send(0, messages.NewError(messages.MessageTypeInvocation, inv.RequestID(), details, uri, args, kwargs))
	m, ok := out.Message.(*messages.Error)
	sym.Assert(ok, "the error is routed")
	sym.Assert(m.URI() == uri, "ERROR has the URI")
	sym.Assert(sym.Eq(m.Args(), args), "ERROR has the arguments")
	sym.Assert(sym.Eq(m.KwArgs(), kwargs), "ERROR has the keyword arguments")
	sym.Assert(sym.Eq(m.Details(), details), "ERROR has the details")
}

// C11_Binary: the constructors of binary messages themselves.
func C11_Binary() {
	w := newWorld("C11", 2, 0)
	w.ss[0].static = true
	w.ss[1].static = true
	w.attach(0)
	w.attach(1)
	w.register(0, exact, "")
	ser, pay := sym.Uint64("serializer"), sym.Bytes("payload", 2)
	out := w.send(1, messages.NewCallBinary(sym.Uint64("call"), nil, exact.text, pay, ser))
	inv := out.Message.(*messages.Invocation)
	sym.Assert(sym.And(inv.PayloadIsBinary(), sym.Eq(inv.Payload(), pay), inv.PayloadSerializer() == ser), "binary CALL passes")
	ser2, pay2 := sym.Uint64("serializer"), sym.Bytes("payload", 3)
	out = w.send(0, messages.NewYieldBinary(inv.RequestID(), nil, pay2, ser2))
	res := out.Message.(*messages.Result)
	sym.Assert(sym.And(res.PayloadIsBinary(), sym.Eq(res.Payload(), pay2), res.PayloadSerializer() == ser2), "binary YIELD passes")
}

// C13_Left: a session that left, or was never attached, asks for anything; then
// the others call everything that could have come of it.
func C13_Left() {
	w := newWorld("C13", 3, 2)
	policy := []string{"", "roundrobin"}[sym.Choice("policy", 2)]
	us := []uri{exact, pre1, wild}
	w.register(0, us[sym.Choice("first", 3)], policy)
	id := uint64(0)
	if len(w.all) > 0 {
		id = w.all[0].id
	}
	if sym.Choice("also held by another", 2) == 1 {
		w.register(1, w.all[0].uri, policy)
	}
	gone := []int{0, 2}[sym.Choice("gone", 2)]
	if gone == 0 {
		w.remove(0)
	}
	for i := sym.Bound("requests", 2, 2); i > 0; i-- {
		var m messages.Message
		switch sym.Choice("request", 5) {
		case 0:
			u := us[sym.Choice("uri", 3)]
			opts := map[string]any{"invoke": sym.OneOf("invoke", "", "single", "roundrobin")}
			if u.match != "" {
				opts["match"] = u.match
			}
			m = messages.NewRegister(1, opts, u.text)
		case 1:
			m = messages.NewUnregister(1, id)
		case 2:
			m = messages.NewCall(1, map[string]any{"progress": sym.Bool("progress")}, exact.text, nil, nil)
		case 3:
			m = messages.NewYield(sym.OneOf("invocation", uint64(1), uint64(2)).(uint64), nil, nil, nil)
		case 4:
			m = messages.NewError(messages.MessageTypeInvocation, 1, nil, "e", nil, nil)
		}
		out, err := w.d.ReceiveMessage(w.ss[gone].id, m)
		sym.Assert(out == nil && err != nil, "a session that is not attached is refused everything")
	}
	for _, u := range us {
		sym.Assert(w.d.HasProcedure(u.text) == (w.held(u.text) != nil), "a departed session holds no procedure")
	}
	for i := sym.Bound("calls", 2, 3); i > 0; i-- {
		w.probes++
		w.call(1, exact.text, w.probes, nil)
	}
	w.attach(gone)
	sym.Assert(w.d.HasProcedure(exact.text) == (w.held(exact.text) != nil), "a session that comes back holds nothing")
}
