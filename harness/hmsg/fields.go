package hmsg

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// Fields of someone else's making.
type (
	fieldsAbort        struct{ messages.AbortFields }
	fieldsAuthenticate struct{ messages.AuthenticateFields }
	fieldsCall         struct{ messages.CallFields }
	fieldsCancel       struct{ messages.CancelFields }
	fieldsChallenge    struct{ messages.ChallengeFields }
	fieldsError        struct{ messages.ErrorFields }
	fieldsEvent        struct{ messages.EventFields }
	fieldsGoodBye      struct{ messages.GoodByeFields }
	fieldsHello        struct{ messages.HelloFields }
	fieldsInterrupt    struct{ messages.InterruptFields }
	fieldsInvocation   struct{ messages.InvocationFields }
	fieldsPublish      struct{ messages.PublishFields }
	fieldsPublished    struct{ messages.PublishedFields }
	fieldsRegister     struct{ messages.RegisterFields }
	fieldsRegistered   struct{ messages.RegisteredFields }
	fieldsResult       struct{ messages.ResultFields }
	fieldsSubscribe    struct{ messages.SubscribeFields }
	fieldsSubscribed   struct{ messages.SubscribedFields }
	fieldsUnregister   struct{ messages.UnregisterFields }
	fieldsUnregistered struct{ messages.UnregisteredFields }
	fieldsUnsubscribe  struct{ messages.UnsubscribeFields }
	fieldsUnsubscribed struct{ messages.UnsubscribedFields }
	fieldsWelcome      struct{ messages.WelcomeFields }
	fieldsYield        struct{ messages.YieldFields }
)

// refield makes m again from fields that are not the package's own.
func refield(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.Abort:
		return messages.NewAbortWithFields(fieldsAbort{x})
	case *messages.Authenticate:
		return messages.NewAuthenticateWithFields(fieldsAuthenticate{x})
	case *messages.Call:
		return messages.NewCallWithFields(fieldsCall{x})
	case *messages.Cancel:
		return messages.NewCancelWithFields(fieldsCancel{x})
	case *messages.Challenge:
		return messages.NewChallengeWithFields(fieldsChallenge{x})
	case *messages.Error:
		return messages.NewErrorWithFields(fieldsError{x})
	case *messages.Event:
		return messages.NewEventWithFields(fieldsEvent{x})
	case *messages.GoodBye:
		return messages.NewGoodByeWithFields(fieldsGoodBye{x})
	case *messages.Hello:
		return messages.NewHelloWithFields(fieldsHello{x})
	case *messages.Interrupt:
		return messages.NewInterruptWithFields(fieldsInterrupt{x})
	case *messages.Invocation:
		return messages.NewInvocationWithFields(fieldsInvocation{x})
	case *messages.Publish:
		return messages.NewPublishWithFields(fieldsPublish{x})
	case *messages.Published:
		return messages.NewPublishedWithFields(fieldsPublished{x})
	case *messages.Register:
		return messages.NewRegisterWithFields(fieldsRegister{x})
	case *messages.Registered:
		return messages.NewRegisteredWithFields(fieldsRegistered{x})
	case *messages.Result:
		return messages.NewResultWithFields(fieldsResult{x})
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(fieldsSubscribe{x})
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(fieldsSubscribed{x})
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(fieldsUnregister{x})
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(fieldsUnregistered{x})
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(fieldsUnsubscribe{x})
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(fieldsUnsubscribed{x})
	case *messages.Welcome:
		return messages.NewWelcomeWithFields(fieldsWelcome{x})
	case *messages.Yield:
		return messages.NewYieldWithFields(fieldsYield{x})
	}
	panic("unknown message")
}

// C33_Fields: a message made from fields of the user's own is the message that
// those fields describe, and says the same on the wire.
func C33_Fields() {
	s := pick()
	m, list := build(s)
	m2 := refield(m)
	check(s, m2, list)
	l, l2 := m.Marshal(), m2.Marshal()
	sym.Assert(len(l) == len(l2), "the list has the protocol's length")
	for i := range l {
		sym.Assert(i >= len(l2) || same(l[i], l2[i]), "the fields come in the protocol's order")
	}
	if b, ok := m.(messages.BinaryPayload); ok {
		b2, ok := m2.(messages.BinaryPayload)
		sym.Assert(ok && b.PayloadIsBinary() == b2.PayloadIsBinary(), "a message says whether its payload is binary")
	}
}
