package hsession

import (
	"errors"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// flaky is a serializer that cannot encode, or not decode, for a while.
type flaky struct {
	serializers.Serializer
	deaf, mute bool
}

func (f *flaky) Serialize(m messages.Message) ([]byte, error) {
	if f.mute {
		return nil, errors.New("cannot encode")
	}
	return f.Serializer.Serialize(m)
}

func (f *flaky) Deserialize(b []byte) (messages.Message, error) {
	if f.deaf {
		return nil, errors.New("cannot decode")
	}
	return f.Serializer.Deserialize(b)
}

// unsent has a session with some history fail to send or to read a message,
// which changes nothing.
func unsent() {
	w := newWorld("C20", 2)
	f := &flaky{Serializer: []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.MsgPackSerializer{}, &serializers.CBORSerializer{}}[sym.Choice("codec", 3)]}
	w.s = wampproto.NewSession(f)
	if sym.Choice("holding", 2) == 1 {
		w.hold(register, 0, 1)
		w.hold(subscribe, 1, 0)
	}
	if sym.Choice("open", 2) == 1 {
		for k := 0; k < kinds; k++ {
			w.request(k, 0, 0, true)
		}
	}
	id, id2 := w.ids[sym.Choice("ID", 2)], w.ids[sym.Choice("other ID", 2)]
	if sym.Choice("way", 2) == 0 {
		f.mute = true
		b, err := w.s.SendMessage(every(sym.Choice("type", 24), id, id2))
		sym.Assert(b == nil && err != nil, "what cannot be encoded is not sent")
	} else {
		f.deaf = true
		m, err := w.s.Receive([]byte{1})
		sym.Assert(m == nil && err != nil, "what cannot be decoded is not received")
	}
	f.deaf, f.mute = false, false
	w.probe()
}

// C20_Unsent: messages that cannot be encoded or decoded open and answer
// nothing.
func C20_Unsent() { unsent() }

// C22_Unsent: a session survives what it cannot encode or decode.
func C22_Unsent() { unsent() }

// C22_Received: what is read from the wire is what ReceiveMessage would be
// given.
func C22_Received() {
	c := []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.MsgPackSerializer{}, &serializers.CBORSerializer{}}[sym.Choice("codec", 3)]
	var ss [2]*wampproto.Session
	id, id2 := uint64(1+sym.Choice("ID", 2)), uint64(1+sym.Choice("other ID", 2))
	for i := range ss {
		ss[i] = wampproto.NewSession(c)
		for n := uint64(1); n <= 2; n++ {
			if _, err := ss[i].SendMessage(messages.NewCall(n, nil, "p", nil, nil)); err != nil {
				sym.Assert(false, "CALL is sent")
			}
		}
		for _, m := range []messages.Message{messages.NewRegister(1, nil, "p"), messages.NewSubscribe(1, nil, "t")} {
			if _, err := ss[i].SendMessage(m); err != nil {
				sym.Assert(false, "a request is sent")
			}
		}
		for _, m := range []messages.Message{messages.NewRegistered(1, 1), messages.NewSubscribed(1, 1)} {
			if _, err := ss[i].ReceiveMessage(m); err != nil {
				sym.Assert(false, "an answer is taken")
			}
		}
	}
	m := every(sym.Choice("type", 24), id, id2)
	b, err := c.Serialize(m)
	sym.Assert(err == nil, "the message is encoded")
	for n := 0; n < 2; n++ {
		x, xerr := ss[0].Receive(b)
		y, yerr := ss[1].ReceiveMessage(m)
		if _, err := c.Deserialize(b); err != nil {
			sym.Assert(x == nil && xerr != nil, "what cannot be decoded is not received")
			continue
		}
		sym.Assert((x == nil) == (xerr != nil), "a message or an error")
		sym.Assert((xerr == nil) == (yerr == nil), "what is read from the wire is judged like any message")
		if x != nil && y != nil {
			sym.Assert(x.Type() == y.Type(), "the message read is the one received")
		}
	}
}
