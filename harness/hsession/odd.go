package hsession

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// oddities is a short history in which every message has whatever options the
// code looks up, or names the code's own strings.
func oddities(prop string) {
	w := newWorld(prop, 2)
	text := sym.Choice("odd", 2) == 1
	if !text {
		w.odd = odd.Opts("progress", "acknowledge")
	} else {
		w.text = odd.Text()
	}
	w.hold(register, 0, 0)
	w.hold(subscribe, 0, 1)
	k := sym.Choice("kind", kinds)
	arg := 0
	if k == unsubscribe {
		arg = 1
	}
	var ack, progress any
	if k == publish {
		ack = sym.OneOf("acknowledge", sym.Bool("ack"), nil, "true")
	}
	if k == call {
		progress = sym.OneOf("progress", sym.Bool("more"), nil, "true")
	}
	w.event(1, w.ids[0])
	w.invocation(0, w.ids[1])
	ok := w.out(messages.NewYield(w.ids[1], w.with(map[string]any{"progress": sym.Bool("progressive")}), nil, nil))
	w.as("C22", ok, "YIELD is sent")
	w.invocation(0, w.ids[0])
	ok = w.out(messages.NewError(messages.MessageTypeInvocation, w.ids[0], w.with(nil), w.text, nil, nil))
	w.as("C22", ok, "ERROR is sent")
	w.request(k, 0, arg, ack)
	other, failed := 0, false
	if !text {
		other, failed = sym.Choice("other kind", kinds-1), sym.Choice("wrong by error", 2) == 1
	}
	w.answer((k+1+other)%kinds, 0, 0, failed, progress)
	w.answer(k, 0, 0, sym.Choice("error", 2) == 1, progress)
	w.event(1, w.ids[0])
	w.event(0, w.ids[0])
	w.invocation(0, w.ids[1])
	w.invocation(1, w.ids[1])
	ok = w.in(messages.NewGoodBye(w.text, w.with(nil)))
	w.as("C22", ok, "GOODBYE is received")
	ok = w.out(messages.NewGoodBye(w.text, w.with(nil)))
	w.as("C22", ok, "GOODBYE is sent")
	ok = w.in(messages.NewAbort(w.with(nil), w.text, nil, nil))
	w.as("C22", ok, "ABORT is received")
	ok = w.in(messages.NewHello("realm", w.text, w.with(nil), nil, nil))
	w.as("C22", !ok, "HELLO is refused")
	ok = w.in(messages.NewChallenge(w.text, w.with(nil)))
	w.as("C22", !ok, "CHALLENGE is refused")
	ok = w.in(messages.NewWelcome(3, w.with(nil)))
	w.as("C22", !ok, "WELCOME is refused")
	w.probe()
}

func C20_Odd() { oddities("C20") }
func C21_Odd() { oddities("C21") }
func C22_Odd() { oddities("C22") }
