package hconc

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

type broker struct {
	in *inputs
	b  *wampproto.Broker
}

// newBroker has three sessions. The first may subscribe to topic, and then the
// second as well.
func newBroker(in *inputs) *broker {
	o := &broker{in, wampproto.NewBroker()}
	for i := 0; i < 3; i++ {
		_ = o.b.AddSession(details(in.s[i]))
	}
	for i := 0; i < in.setup; i++ {
		o.send(i, messages.NewSubscribe(1, nil, "topic"))
	}
	return o
}

func (o *broker) send(s int, m messages.Message) answer {
	r, err := o.b.ReceiveMessage(o.in.s[s], m)
	if err != nil || r == nil {
		return answer{failed: err != nil, flag: r == nil}
	}
	return answer{list: message(r.Message), to: r.Recipient}
}

func (o *broker) publish(s int, req uint64, topic string, opts map[string]any) answer {
	p, err := o.b.ReceivePublish(o.in.s[s], messages.NewPublish(req, opts, topic, o.in.args, nil))
	if err != nil || p == nil {
		return answer{failed: err != nil, flag: p == nil}
	}
	var a answer
	if p.Event != nil {
		a.list = message(p.Event)
	}
	for _, x := range p.Recipients {
		a.readers = append(a.readers, x)
	}
	if p.Ack != nil {
		a.ack, a.ackTo = message(p.Ack.Message), p.Ack.Recipient
	}
	return a
}

const topicID = 1

const brokerOps = 13

func (o *broker) run(op int) answer {
	in := o.in
	switch op {
	case 0:
		return o.publish(2, 2, "topic", map[string]any{"acknowledge": true})
	case 1:
		return o.send(1, messages.NewSubscribe(3, nil, "topic"))
	case 2:
		return o.send(0, messages.NewUnsubscribe(4, topicID))
	case 3:
		return answer{failed: o.b.RemoveSession(in.s[0]) != nil}
	case 4:
		return o.publish(0, 5, "topic", map[string]any{"acknowledge": true, "exclude_me": false})
	case 5:
		return o.send(2, messages.NewSubscribe(6, map[string]any{"match": "prefix"}, "to"))
	case 6:
		return o.send(1, messages.NewUnsubscribe(7, topicID))
	case 7:
		return answer{failed: o.b.RemoveSession(in.s[2]) != nil}
	case 8:
		return answer{failed: o.b.AddSession(details(in.s[3])) != nil}
	case 9:
		o.b.AutoDisclosePublisher(true)
		return answer{}
	case 10:
		return answer{flag: o.b.HasSubscription("topic")}
	case 11:
		return o.send(3, messages.NewSubscribe(8, map[string]any{"match": "wildcard"}, "t*"))
	case 12:
		return o.publish(1, 9, "toast", nil)
	}
	panic("no such operation")
}

func (o *broker) probe() (r []answer) {
	for _, t := range []string{"topic", "to", "t*"} {
		r = append(r, answer{flag: o.b.HasSubscription(t)})
	}
	for _, t := range []string{"topic", "top", "tx"} {
		r = append(r, o.publish(1, 20, t, map[string]any{"acknowledge": true, "exclude_me": false}))
	}
	for s := 0; s < 4; s++ {
		for id := uint64(1); id < 3; id++ {
			r = append(r, o.send(s, messages.NewUnsubscribe(30, id)))
		}
		r = append(r, answer{failed: o.b.RemoveSession(o.in.s[s]) != nil})
	}
	return r
}

// C40_ConcBroker: every two broker operations at once, from prepared states.
func C40_ConcBroker() {
	in := newInputs()
	compare(func() object { return newBroker(in) }, pairs(brokerOps), "the answers are those of some order")
}

// C40_ConcBrokerMore: three operations at once, or two of one goroutine beside one of another.
func C40_ConcBrokerMore() {
	in := newInputs()
	t := more(sym.Bound("operations", 5, brokerOps))
	if t == nil {
		return
	}
	compare(func() object { return newBroker(in) }, t, "the answers are those of some order")
}
