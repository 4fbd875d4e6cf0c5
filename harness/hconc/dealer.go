package hconc

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// inputs are the values all runs of a scenario share.
type inputs struct {
	s     [4]uint64 // session IDs, the last one not attached at first
	args  []any
	setup int
}

func newInputs() *inputs {
	in := &inputs{args: []any{sym.Uint64("arg")}}
	for i := range in.s {
		in.s[i] = sym.Uint64("session")
		for j := 0; j < i; j++ {
			sym.Assume(in.s[i] != in.s[j])
		}
	}
	in.setup = sym.Choice("setup", 3)
	return in
}

type dealer struct {
	in *inputs
	d  *wampproto.Dealer
}

func details(id uint64) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm", "id", "role", "anonymous", false, nil, nil)
}

const shared = wampproto.InvokeRoundRobin

// newDealer has three sessions. The first holds proc; it may share it with the
// second, and a call of the third may be in progress.
func newDealer(in *inputs) *dealer {
	o := &dealer{in, wampproto.NewDealer()}
	for i := 0; i < 3; i++ {
		_ = o.d.AddSession(details(in.s[i]))
	}
	o.send(0, messages.NewRegister(1, map[string]any{"invoke": shared}, "proc"))
	if in.setup > 0 {
		o.send(1, messages.NewRegister(1, map[string]any{"invoke": shared}, "proc"))
	}
	if in.setup > 1 {
		o.send(2, messages.NewCall(1, map[string]any{"receive_progress": true}, "proc", in.args, nil))
	}
	return o
}

func (o *dealer) send(s int, m messages.Message) answer {
	r, err := o.d.ReceiveMessage(o.in.s[s], m)
	if err != nil || r == nil {
		return answer{failed: err != nil, flag: r == nil}
	}
	return answer{list: message(r.Message), to: r.Recipient}
}

// the IDs the dealer gave: the registration of proc and the call in progress
const procID, callID = 1, 2

const dealerOps = 16

func (o *dealer) run(op int) answer {
	in := o.in
	switch op {
	case 0:
		return o.send(2, messages.NewCall(2, nil, "proc", in.args, nil))
	case 1:
		return o.send(1, messages.NewCall(2, map[string]any{"receive_progress": true}, "proc", in.args, nil))
	case 2:
		return o.send(2, messages.NewRegister(3, map[string]any{"invoke": shared}, "proc"))
	case 3:
		return o.send(1, messages.NewRegister(4, map[string]any{"match": "prefix"}, "pr"))
	case 4:
		return o.send(0, messages.NewUnregister(5, procID))
	case 5:
		return o.send(1, messages.NewUnregister(5, procID))
	case 6:
		return o.send(0, messages.NewYield(callID, nil, in.args, nil))
	case 7:
		return o.send(0, messages.NewYield(callID, map[string]any{"progress": true}, in.args, nil))
	case 8:
		return o.send(0, messages.NewError(messages.MessageTypeInvocation, callID, nil, "an.error", in.args, nil))
	case 9:
		return answer{failed: o.d.RemoveSession(in.s[0]) != nil}
	case 10:
		return answer{failed: o.d.RemoveSession(in.s[2]) != nil}
	case 11:
		return answer{failed: o.d.AddSession(details(in.s[3])) != nil}
	case 12:
		o.d.AutoDiscloseCaller(true)
		return answer{}
	case 13:
		return answer{flag: o.d.HasProcedure("proc")}
	case 14:
		return o.send(2, messages.NewCall(1, map[string]any{"progress": true}, "proc", in.args, nil))
	case 15:
		return o.send(3, messages.NewRegister(6, nil, "other"))
	}
	panic("no such operation")
}

func (o *dealer) probe() (r []answer) {
	r = append(r, answer{flag: o.d.HasProcedure("proc")}, answer{flag: o.d.HasProcedure("pr")}, answer{flag: o.d.HasProcedure("other")})
	for i := 0; i < 2; i++ {
		r = append(r, o.send(1, messages.NewCall(20+uint64(i), nil, "proc", nil, nil)))
	}
	r = append(r, o.send(1, messages.NewCall(22, nil, "prefix", nil, nil)), o.send(1, messages.NewCall(23, nil, "other", nil, nil)))
	for s := 0; s < 4; s++ {
		r = append(r, o.send(s, messages.NewError(messages.MessageTypeInvocation, callID, nil, "an.error", nil, nil)))
		r = append(r, o.send(s, messages.NewError(messages.MessageTypeInvocation, callID+1, nil, "an.error", nil, nil)))
		r = append(r, o.send(s, messages.NewUnregister(30, procID)))
		r = append(r, answer{failed: o.d.RemoveSession(o.in.s[s]) != nil})
	}
	return r
}

// C40_ConcDealer: every two dealer operations at once, from prepared states.
func C40_ConcDealer() {
	in := newInputs()
	compare(func() object { return newDealer(in) }, pairs(dealerOps), "the answers are those of some order")
}

// C40_ConcDealerMore: three operations at once, or two of one goroutine beside one of another.
func C40_ConcDealerMore() {
	in := newInputs()
	t := more(sym.Bound("operations", 5, dealerOps))
	if t == nil {
		return
	}
	// the operations that change most
	pick := []int{0, 9, 6, 2, 4, 1, 3, 5, 7, 8, 10, 11, 12, 13, 14, 15}
	for i := range t {
		for k := range t[i] {
			t[i][k] = pick[t[i][k]]
		}
	}
	compare(func() object { return newDealer(in) }, t, "the answers are those of some order")
}
