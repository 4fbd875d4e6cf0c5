// Package hdealer checks the dealer (C01-C13) against a reference model that
// follows the messages the dealer returns.
package hdealer

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// uri is a registration URI with the match option it is registered under.
type uri struct {
	text  string
	match string
}

// kind is the matching the registration asked for.
func (u uri) kind() string {
	if u.match == "prefix" || u.match == "wildcard" {
		return u.match
	}
	return "exact"
}

func (u uri) matches(call string) bool {
	switch u.match {
	case "prefix":
		return len(call) >= len(u.text) && call[:len(u.text)] == u.text || u.text == call
	case "wildcard":
		return glob(u.text, call) || u.text == call
	}
	return u.text == call
}

// glob: '*' stands for any sequence of characters, none of which is '/'.
func glob(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(pat[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				return false
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && glob(pat[1:], s[1:])
}

type session struct {
	id     uint64
	up     bool
	static bool
	authid string
	role   string
}

type registration struct {
	id      uint64
	uri     uri
	policy  string
	holders []int // in the order they joined
	recent  []int // callees of the calls since the holders last changed
}

type invocation struct {
	id       uint64
	caller   int
	req      uint64
	callee   int
	proc     string
	wantProg bool
	done     bool
	last     bool // no further part comes
	reg      *registration
}

type world struct {
	prop string
	d    *wampproto.Dealer
	ss   []*session
	regs []*registration
	all  []*registration // also the ones given up
	invs []*invocation

	probes uint64
	also   string // a property whose assertions count here as well
	ended  bool   // a known finding made the model leave the track

	odd  map[string]any // goes into the options of every message
	bin  bool           // payloads are binary, and every session takes them
	dis  bool           // callers are disclosed
	sent uint64         // tells the payloads apart
}

// newWorld has n sessions with arbitrary different IDs, the first up of which
// are attached.
func newWorld(prop string, n, up int) *world {
	w := &world{prop: prop, d: wampproto.NewDealer()}
	for i := 0; i < n; i++ {
		s := &session{id: sym.Uint64("session"), authid: "id", role: "role"}
		for _, o := range w.ss {
			sym.Assume(o.id != s.id)
		}
		w.ss = append(w.ss, s)
	}
	for i := 0; i < up; i++ {
		w.attach(i)
	}
	return w
}

func newDealer() *wampproto.Dealer { return wampproto.NewDealer() }

func (w *world) as(prop string, ok bool, label string) {
	if prop == w.prop || prop == w.also {
		sym.Assert(ok, label)
	}
}

func (w *world) attach(s int) {
	x := w.ss[s]
	err := w.d.AddSession(wampproto.NewSessionDetails(x.id, "realm", x.authid, x.role, "anonymous", x.static, nil, nil))
	w.as("C13", (err == nil) == !x.up, "attaching fails exactly for an attached ID")
	x.up = true
}

func (w *world) remove(s int) {
	x := w.ss[s]
	err := w.d.RemoveSession(x.id)
	w.as("C13", (err == nil) == x.up, "removing fails exactly for an ID that is not attached")
	x.up = false
	for _, r := range append([]*registration{}, w.regs...) {
		w.drop(r, s)
	}
	for _, v := range w.invs {
		if v.caller == s || v.callee == s {
			v.done = true
		}
	}
}

func (r *registration) has(s int) bool {
	for _, h := range r.holders {
		if h == s {
			return true
		}
	}
	return false
}

// drop takes s out of the holders of r.
func (w *world) drop(r *registration, s int) {
	for i, h := range r.holders {
		if h == s {
			r.holders = append(append([]int{}, r.holders[:i]...), r.holders[i+1:]...)
			r.recent = nil
			break
		}
	}
	if len(r.holders) == 0 {
		for i, o := range w.regs {
			if o == r {
				w.regs = append(append([]*registration{}, w.regs[:i]...), w.regs[i+1:]...)
				break
			}
		}
	}
}

// held is the live registration of exactly this URI.
func (w *world) held(text string) *registration {
	for _, r := range w.regs {
		if r.uri.text == text {
			return r
		}
	}
	return nil
}

// who is the index of the session with the ID, or -1.
func (w *world) who(id uint64) int {
	for i, s := range w.ss {
		if s.id == id {
			return i
		}
	}
	return -1
}

// send gives a message to the dealer and checks what holds for every answer.
func (w *world) send(s int, m messages.Message) *wampproto.MessageWithRecipient {
	out, err := w.d.ReceiveMessage(w.ss[s].id, m)
	w.as("C12", (out == nil) == (err != nil), "an answer or an error")
	if err != nil || out == nil {
		return nil
	}
	to := w.who(out.Recipient)
	w.as("C13", to == s || to >= 0 && w.ss[to].up, "addressed to an attached session or the sender")
	return out
}

// with adds the world's odd options.
func (w *world) with(opts map[string]any) map[string]any {
	if w.odd == nil {
		return opts
	}
	return odd.With(opts, w.odd)
}

func shared(policy string) bool {
	return policy == "first" || policy == "last" || policy == "roundrobin" || policy == "random"
}

// register sends REGISTER and reports whether it was granted.
func (w *world) register(s int, u uri, policy string) bool {
	req := sym.Uint64("request")
	opts := map[string]any{}
	if policy != "" {
		opts["invoke"] = policy
	}
	if u.match != "" {
		opts["match"] = u.match
	}
	out := w.send(s, messages.NewRegister(req, w.with(opts), u.text))
	if out == nil {
		w.as("C03", !w.ss[s].up, "REGISTER of an attached session is answered")
		return false
	}
	w.as("C03", w.ss[s].up, "REGISTER of a session that is not attached is refused")
	w.as("C03", out.Recipient == w.ss[s].id, "REGISTER is answered to its sender")
	r := w.held(u.text)
	free := r == nil || shared(r.policy) && r.policy == policy && r.uri.kind() == u.kind()
	switch m := out.Message.(type) {
	case *messages.Registered:
		w.as("C03", m.RequestID() == req, "REGISTERED carries the request ID")
		w.as("C03", free, "REGISTERED only when free or shared under the same policy and matching")
		if r == nil {
			for _, o := range w.regs {
				w.as("C03", o.id != m.RegistrationID(), "a new registration has its own ID")
			}
			r = &registration{id: m.RegistrationID(), uri: u, policy: policy}
			w.regs = append(w.regs, r)
			w.all = append(w.all, r)
		}
		w.as("C03", r.id == m.RegistrationID(), "holders of one procedure share the registration ID")
		if !r.has(s) {
			r.holders = append(append([]int{}, r.holders...), s)
			r.recent = nil
		}
		return true
	case *messages.Error:
		w.as("C03", !free, "REGISTER is refused only when the procedure is taken")
		w.as("C03", sym.And(m.MessageType() == messages.MessageTypeRegister, m.RequestID() == req,
			m.URI() == "wamp.error.procedure_already_exists"), "the refusal names the request")
	default:
		w.as("C03", false, "REGISTER is answered by REGISTERED or ERROR")
	}
	return false
}

// unregister sends UNREGISTER for an ID and reports whether it was granted.
func (w *world) unregister(s int, id uint64) bool {
	req := sym.Uint64("request")
	var r *registration
	for _, o := range w.regs {
		if o.has(s) && o.id == id {
			r = o
		}
	}
	out := w.send(s, messages.NewUnregister(req, id))
	w.as("C04", (out != nil) == (r != nil), "UNREGISTER succeeds exactly for a registration the sender holds")
	if out == nil {
		return false
	}
	m, ok := out.Message.(*messages.Unregistered)
	w.as("C04", ok && m.RequestID() == req && out.Recipient == w.ss[s].id, "UNREGISTERED answers the request")
	if r == nil {
		return false
	}
	w.drop(r, s)
	return true
}

// call sends CALL and checks the answer.
func (w *world) call(s int, proc string, req uint64, opts map[string]any) *messages.Invocation {
	wantProg, _ := opts["receive_progress"].(bool)
	prog, _ := opts["progress"].(bool)
	var open *invocation // the call in progress this one may belong to
	for _, v := range w.invs {
		if !v.done && v.caller == s && v.proc == proc && v.req == req {
			open = v
		}
	}
	args, kw, pay := w.payload()
	var call messages.Message = messages.NewCall(req, w.with(opts), proc, args, kw)
	if w.bin {
		call = messages.NewCallBinary(req, w.with(opts), proc, pay, w.sent)
	}
	out := w.send(s, call)
	if !w.ss[s].up {
		return nil
	}
	var cand []*registration
	for _, r := range w.regs {
		if r.uri.matches(proc) {
			cand = append(cand, r)
		}
	}
	w.as("C01", out != nil, "CALL of an attached session is answered")
	if out == nil {
		return nil
	}
	switch m := out.Message.(type) {
	case *messages.Error:
		w.as("C01", len(cand) == 0, "no error while a matching registration is held")
		w.as("C02", len(cand) == 0, "the most specific registration is used")
		w.as("C01", sym.And(m.MessageType() == messages.MessageTypeCall, m.RequestID() == req,
			m.URI() == "wamp.error.no_such_procedure", out.Recipient == w.ss[s].id), "the error answers the CALL")
		return nil
	case *messages.Invocation:
		to := w.who(out.Recipient)
		w.as("C13", to >= 0 && w.ss[to].up, "calls are routed to attached sessions")
		p, _ := m.Details()["progress"].(bool)
		rp, _ := m.Details()["receive_progress"].(bool)
		w.passed(m, args, kw, pay, "INVOCATION")
		if w.prop == "C10" {
			w.disclosed(s, proc, m.Details())
		}
		w.as("C08", p == prog, "the invocation is marked progress exactly when the call is")
		w.as("C09", rp == wantProg, "the callee learns whether progress is wanted")
		if open != nil && open.reg.has(open.callee) {
			w.as("C08", to == open.callee, "a further part goes to the session that got the first")
			w.as("C08", m.RequestID() == open.id, "a further part keeps the invocation ID")
			w.as("C01", open.reg.has(to), "the invoked session holds the registration")
			w.as("C05", open.reg.has(to), "a current holder is invoked")
			return m
		}
		w.as("C01", len(cand) > 0, "no invocation without a registration")
		var used *registration
		for _, r := range cand {
			if r.id == m.RegistrationID() {
				used = r
			}
		}
		w.as("C01", used != nil, "the invocation names a matching registration")
		w.as("C02", used != nil, "a registration nobody holds takes no part")
		if used == nil || to < 0 {
			w.as("C01", to >= 0, "the invocation goes to a known session")
			return m
		}
		w.as("C01", used.has(to), "the invoked session holds the registration")
		w.as("C02", rank(used) == rank(best(cand)), "the most specific registration is used")
		w.as("C05", used.has(to), "a current holder is invoked")
		if len(used.holders) > 0 {
			switch used.policy {
			case "first":
				w.as("C05", to == used.holders[0], "first invokes the earliest holder")
			case "last":
				w.as("C05", to == used.holders[len(used.holders)-1], "last invokes the latest holder")
			case "roundrobin":
				n := len(used.recent)
				for i := n - 1; i >= 0 && i > n-len(used.holders); i-- {
					w.as("C05", used.recent[i] != to, "roundrobin cycles through the holders")
				}
				used.recent = append(append([]int{}, used.recent...), to)
			}
		}
		for _, o := range w.invs {
			if !o.done && !(o.caller == s && o.req == req) {
				w.as("C06", o.id != m.RequestID(), "invocations in progress have different IDs")
				w.as("C08", o.id != m.RequestID(), "another call gets another invocation")
			}
		}
		if open == nil || open.id != m.RequestID() {
			w.invs = append(w.invs, &invocation{id: m.RequestID(), caller: s, req: req, callee: to, proc: proc, wantProg: wantProg, reg: used})
		}
		return m
	}
	w.as("C01", false, "CALL is answered by INVOCATION or ERROR")
	return nil
}

func rank(r *registration) int {
	switch r.uri.match {
	case "prefix":
		return 1000 + len(r.uri.text)
	case "wildcard":
		return 0
	}
	return 1000000
}

// best is the registration that should answer, any one among wildcards.
func best(cand []*registration) *registration {
	b := cand[0]
	for _, r := range cand {
		if rank(r) > rank(b) {
			b = r
		}
	}
	return b
}

// answer sends a YIELD (or an ERROR) for an invocation ID.
func (w *world) answer(by int, id uint64, isError bool, progress any) {
	var v *invocation
	for _, o := range w.invs {
		if !o.done && o.id == id {
			v = o
		}
	}
	opts := map[string]any{}
	if progress != nil {
		opts["progress"] = progress
	}
	var out *wampproto.MessageWithRecipient
	args, kw, pay := w.payload()
	if isError {
		out = w.send(by, messages.NewError(messages.MessageTypeInvocation, id, w.with(nil), "an.error", args, kw))
	} else if w.bin {
		out = w.send(by, messages.NewYieldBinary(id, w.with(opts), pay, w.sent))
	} else {
		out = w.send(by, messages.NewYield(id, w.with(opts), args, kw))
	}
	if v == nil {
		w.as("C06", out == nil, "an answer to no pending invocation is refused")
		w.as("C08", out == nil, "an answer to no pending invocation is refused")
		w.as("C09", out == nil, "an answer to no pending invocation is refused")
		w.as("C13", out == nil, "an answer to the call of a session that left is refused")
		return
	}
	if by != v.callee {
		if w.prop == "C07" {
			sym.Known("yield-by-caller", !isError && by == v.caller, out == nil, "an answer of a session that was not invoked is refused")
		}
		if out != nil {
			w.ended = true
		}
		return
	}
	for _, p := range []string{"C06", "C07", "C08", "C09"} {
		w.as(p, out != nil, "the invoked session's answer is delivered")
	}
	if out == nil {
		return
	}
	w.as("C06", out.Recipient == w.ss[v.caller].id, "the answer goes to the caller")
	w.as("C08", out.Recipient == w.ss[v.caller].id, "the answer goes to the caller")
	want, _ := progress.(bool)
	if isError {
		v.done = true
		m, ok := out.Message.(*messages.Error)
		for _, p := range []string{"C06", "C08", "C09"} {
			w.as(p, ok && m.MessageType() == messages.MessageTypeCall && m.RequestID() == v.req, "ERROR answers the CALL")
		}
		if w.prop == "C11" && ok {
			sym.Assert(sym.And(m.URI() == "an.error", sym.Eq(m.Args(), args), sym.Eq(m.KwArgs(), kw)), "ERROR has the URI and the arguments")
			if w.odd != nil {
				sym.Assert(sym.Eq(m.Details(), w.odd), "ERROR has the details")
			}
		}
		return
	}
	m, ok := out.Message.(*messages.Result)
	for _, p := range []string{"C06", "C08", "C09"} {
		w.as(p, ok && m.RequestID() == v.req, "RESULT answers the CALL")
	}
	if !ok {
		return
	}
	w.passed(m, args, kw, pay, "RESULT")
	got, _ := m.Details()["progress"].(bool)
	w.as("C09", got == sym.And(want, v.wantProg), "RESULT is marked progress exactly when asked for and sent so")
	if !(want && v.wantProg) {
		v.done = true
	}
}

// payload is a new payload.
func (w *world) payload() ([]any, map[string]any, []byte) {
	w.sent++
	return []any{w.sent, nil, "x"}, map[string]any{"n": w.sent, "progress": true, "": nil}, []byte{byte(w.sent), 0, 1}
}

// passed checks that a payload arrived.
func (w *world) passed(m body, args []any, kw map[string]any, pay []byte, what string) {
	if w.prop != "C11" {
		return
	}
	f := &fields{args: args, kwargs: kw, bin: w.bin, payload: pay, ser: w.sent}
	w.same(f, m, w.bin, what)
}

// disclosed checks what the invocation tells about the caller.
func (w *world) disclosed(s int, proc string, d map[string]any) {
	id, ok1 := d["caller"]
	authid, ok2 := d["caller_authid"]
	role, ok3 := d["caller_authrole"]
	p, ok4 := d["procedure"]
	if !w.dis {
		sym.Assert(!ok1 && !ok2 && !ok3 && !ok4, "nothing is disclosed")
		return
	}
	sym.Assert(ok1 && ok2 && ok3 && ok4, "the caller is disclosed")
	sym.Assert(sym.Eq(id, w.ss[s].id), "caller is the calling session")
	sym.Assert(sym.Eq(authid, w.ss[s].authid), "caller_authid is the caller's")
	sym.Assert(sym.Eq(role, w.ss[s].role), "caller_authrole is the caller's")
	sym.Assert(sym.Eq(p, proc), "procedure is the called one")
}

func (w *world) disclose(on bool) {
	w.d.AutoDiscloseCaller(on)
	w.dis = on
}
