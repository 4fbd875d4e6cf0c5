package hconc

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// sessionIDs are the request, registration and subscription IDs in use. The
// session keeps the kinds apart, so IDs of different kinds may be equal.
type sessionIDs struct {
	req, reg, sub, inv uint64
	newReg, newSub     uint64
}

type client struct {
	id *sessionIDs
	s  *wampproto.Session
}

// newClient has a registration, a subscription, and a request of every kind
// without an answer.
func newClient(id *sessionIDs) *client {
	c := &client{id, wampproto.NewSession(&serializers.CBORSerializer{})}
	c.send(messages.NewRegister(id.req, nil, "p"))
	c.receive(messages.NewRegistered(id.req, id.reg))
	c.send(messages.NewSubscribe(id.req, nil, "t"))
	c.receive(messages.NewSubscribed(id.req, id.sub))
	c.receive(messages.NewInvocation(id.inv, id.reg, nil, nil, nil))
	c.send(messages.NewCall(id.req, nil, "p", nil, nil))
	c.send(messages.NewRegister(id.req, nil, "q"))
	c.send(messages.NewUnregister(id.req, id.reg))
	c.send(messages.NewPublish(id.req, map[string]any{"acknowledge": true}, "t", nil, nil))
	c.send(messages.NewSubscribe(id.req, nil, "u"))
	c.send(messages.NewUnsubscribe(id.req, id.sub))
	return c
}

func (c *client) send(m messages.Message) answer {
	b, err := c.s.SendMessage(m)
	return answer{failed: err != nil, flag: len(b) > 0}
}

func (c *client) receive(m messages.Message) answer {
	r, err := c.s.ReceiveMessage(m)
	if err != nil || r == nil {
		return answer{failed: err != nil, flag: r == nil}
	}
	return answer{list: r.Marshal()}
}

func (c *client) err(kind uint64) answer {
	return c.receive(messages.NewError(kind, c.id.req, nil, "an.error", nil, nil))
}

const clientOps = 27

func (c *client) run(op int) answer {
	id := c.id
	switch op {
	case 0:
		return c.receive(messages.NewResult(id.req, nil, nil, nil))
	case 1:
		return c.receive(messages.NewResult(id.req, map[string]any{"progress": true}, nil, nil))
	case 2:
		return c.err(messages.MessageTypeCall)
	case 3:
		return c.receive(messages.NewRegistered(id.req, id.newReg))
	case 4:
		return c.err(messages.MessageTypeRegister)
	case 5:
		return c.receive(messages.NewUnregistered(id.req))
	case 6:
		return c.err(messages.MessageTypeUnregister)
	case 7:
		return c.receive(messages.NewPublished(id.req, 1))
	case 8:
		return c.err(messages.MessageTypePublish)
	case 9:
		return c.receive(messages.NewSubscribed(id.req, id.newSub))
	case 10:
		return c.err(messages.MessageTypeSubscribe)
	case 11:
		return c.receive(messages.NewUnsubscribed(id.req))
	case 12:
		return c.err(messages.MessageTypeUnsubscribe)
	case 13:
		return c.receive(messages.NewInvocation(1, id.reg, nil, nil, nil))
	case 14:
		return c.receive(messages.NewInvocation(1, id.newReg, nil, nil, nil))
	case 15:
		return c.receive(messages.NewEvent(id.sub, 1, nil, nil, nil))
	case 16:
		return c.receive(messages.NewEvent(id.newSub, 1, nil, nil, nil))
	case 17:
		return c.send(messages.NewCall(id.req, nil, "p", nil, nil))
	case 18:
		return c.send(messages.NewRegister(id.req, nil, "p"))
	case 19:
		return c.send(messages.NewUnregister(id.req, id.newReg))
	case 20:
		return c.send(messages.NewPublish(id.req, map[string]any{"acknowledge": true}, "t", nil, nil))
	case 21:
		return c.send(messages.NewSubscribe(id.req, nil, "t"))
	case 22:
		return c.send(messages.NewUnsubscribe(id.req, id.newSub))
	case 23:
		return c.send(messages.NewYield(id.inv, nil, nil, nil))
	case 24:
		return c.send(messages.NewError(messages.MessageTypeInvocation, id.inv, nil, "an.error", nil, nil))
	case 25:
		return c.send(messages.NewUnsubscribe(id.req+1, id.sub))
	case 26:
		return c.send(messages.NewGoodBye("bye", nil))
	}
	panic("no such operation")
}

func (c *client) probe() (r []answer) {
	id := c.id
	for _, g := range []uint64{id.reg, id.newReg} {
		r = append(r, c.receive(messages.NewInvocation(1, g, nil, nil, nil)))
	}
	for _, g := range []uint64{id.sub, id.newSub} {
		r = append(r, c.receive(messages.NewEvent(g, 1, nil, nil, nil)), c.send(messages.NewUnsubscribe(id.req+2, g)))
	}
	for _, k := range []uint64{48, 64, 66, 16, 32, 34} {
		r = append(r, c.err(k))
	}
	return r
}

func newIDs() *sessionIDs {
	id := &sessionIDs{req: sym.Uint64("request"), reg: sym.Uint64("registration"), sub: sym.Uint64("subscription"), inv: sym.Uint64("invocation"),
		newReg: sym.Uint64("new registration"), newSub: sym.Uint64("new subscription")}
	sym.Assume(id.reg != id.newReg)
	sym.Assume(id.sub != id.newSub)
	return id
}

// C41_ConcSession: every two client session operations at once, from prepared states.
func C41_ConcSession() {
	id := newIDs()
	compare(func() object { return newClient(id) }, pairs(clientOps), "the answers are those of some order")
}

// Answers of any kind to one request, in three goroutines: one is accepted.
func C41_ConcAnswers() {
	id := newIDs()
	c := newClient(id)
	final := [][]int{{0, 2}, {3, 4}, {5, 6}, {7, 8}, {9, 10}, {11, 12}}[sym.Choice("request", 6)]
	n := 2 + sym.Choice("answers", 2)
	got := make([]answer, n)
	for i := 0; i < n; i++ {
		i, op := i, final[sym.Choice("answer", 2)]
		sym.Go(func() { got[i] = c.run(op) })
	}
	sym.Join()
	accepted := 0
	for _, a := range got {
		if !a.failed {
			accepted++
		}
	}
	sym.Assert(accepted == 1, "exactly one of several answers to a request is accepted")
}

// NextID from several goroutines, anywhere in the range.
func C41_ConcNextID() {
	g := &wampproto.SessionScopeIDGenerator{}
	n := 2 + sym.Choice("goroutines", 2)
	k := 2
	got := make([][]uint64, n)
	for i := range got {
		i := i
		got[i] = make([]uint64, k)
		sym.Go(func() {
			for j := range got[i] {
				got[i][j] = g.NextID()
			}
		})
	}
	sym.Join()
	sum := uint64(0)
	for i := range got {
		sym.Assert(got[i][0] < got[i][1], "IDs grow")
		for j := range got[i] {
			sum += got[i][j]
			for x := 0; x < i; x++ {
				for y := range got[x] {
					sym.Assert(got[x][y] != got[i][j], "no two IDs are equal")
				}
			}
		}
	}
	m := uint64(n * k)
	sym.Assert(sum == m*(m+1)/2, "no ID is left out")
	sym.Assert(g.NextID() == m+1, "no ID is left out")
}

// C41_ConcNextIDAny: from any state of the generator.
func C41_ConcNextIDAny() {
	g := &wampproto.SessionScopeIDGenerator{}
	if !sym.Havoc(g, "state") {
		return
	}
	a := g.NextID()
	sym.Assume(a >= 1 && a <= 1<<53)
	var b, c uint64
	sym.Go(func() { b = g.NextID() })
	sym.Go(func() { c = g.NextID() })
	sym.Join()
	x := sym.IteU64(a == 1<<53, 1, a+1)
	y := sym.IteU64(x == 1<<53, 1, x+1)
	sym.Assert(sym.Or(sym.And(b == x, c == y), sym.And(b == y, c == x)), "each gets one of the next two IDs")
}
