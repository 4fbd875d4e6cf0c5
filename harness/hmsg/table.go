// Package hmsg checks messages and their wire encodings (C31-C36).
package hmsg

import (
	"encoding/json"

	"github.com/fxamacker/cbor/v2"
	"github.com/vmihailenco/msgpack/v5"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// spec is what the protocol says about a message type. kinds has a letter per
// element after the type code: I an ID, S a string, M a map, L a list; small
// letters are optional.
type spec struct {
	name  string
	code  uint64
	kinds string
	get   func(messages.Message) []any
}

func (s *spec) min() int {
	n := 1
	for _, k := range s.kinds {
		if k < 'a' {
			n++
		}
	}
	return n
}

func (s *spec) max() int { return 1 + len(s.kinds) }

var specs = []*spec{
	{"HELLO", 1, "SM", nil},
	{"WELCOME", 2, "IM", func(m messages.Message) []any {
		if x, ok := m.(*messages.Welcome); ok {
			return []any{x.SessionID(), x.Details()}
		}
		return nil
	}},
	{"ABORT", 3, "MSlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Abort); ok {
			return []any{x.Details(), x.Reason(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"CHALLENGE", 4, "SM", func(m messages.Message) []any {
		if x, ok := m.(*messages.Challenge); ok {
			return []any{x.AuthMethod(), x.Extra()}
		}
		return nil
	}},
	{"AUTHENTICATE", 5, "SM", func(m messages.Message) []any {
		if x, ok := m.(*messages.Authenticate); ok {
			return []any{x.Signature(), x.Extra()}
		}
		return nil
	}},
	{"GOODBYE", 6, "MS", func(m messages.Message) []any {
		if x, ok := m.(*messages.GoodBye); ok {
			return []any{x.Details(), x.Reason()}
		}
		return nil
	}},
	{"ERROR", 8, "IIMSlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Error); ok {
			return []any{x.MessageType(), x.RequestID(), x.Details(), x.URI(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"PUBLISH", 16, "IMSlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Publish); ok {
			return []any{x.RequestID(), x.Options(), x.Topic(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"PUBLISHED", 17, "II", func(m messages.Message) []any {
		if x, ok := m.(*messages.Published); ok {
			return []any{x.RequestID(), x.PublicationID()}
		}
		return nil
	}},
	{"SUBSCRIBE", 32, "IMS", func(m messages.Message) []any {
		if x, ok := m.(*messages.Subscribe); ok {
			return []any{x.RequestID(), x.Options(), x.Topic()}
		}
		return nil
	}},
	{"SUBSCRIBED", 33, "II", func(m messages.Message) []any {
		if x, ok := m.(*messages.Subscribed); ok {
			return []any{x.RequestID(), x.SubscriptionID()}
		}
		return nil
	}},
	{"UNSUBSCRIBE", 34, "II", func(m messages.Message) []any {
		if x, ok := m.(*messages.Unsubscribe); ok {
			return []any{x.RequestID(), x.SubscriptionID()}
		}
		return nil
	}},
	{"UNSUBSCRIBED", 35, "I", func(m messages.Message) []any {
		if x, ok := m.(*messages.Unsubscribed); ok {
			return []any{x.RequestID()}
		}
		return nil
	}},
	{"EVENT", 36, "IIMlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Event); ok {
			return []any{x.SubscriptionID(), x.PublicationID(), x.Details(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"CALL", 48, "IMSlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Call); ok {
			return []any{x.RequestID(), x.Options(), x.Procedure(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"CANCEL", 49, "IM", func(m messages.Message) []any {
		if x, ok := m.(*messages.Cancel); ok {
			return []any{x.RequestID(), x.Options()}
		}
		return nil
	}},
	{"RESULT", 50, "IMlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Result); ok {
			return []any{x.RequestID(), x.Details(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"REGISTER", 64, "IMS", func(m messages.Message) []any {
		if x, ok := m.(*messages.Register); ok {
			return []any{x.RequestID(), x.Options(), x.Procedure()}
		}
		return nil
	}},
	{"REGISTERED", 65, "II", func(m messages.Message) []any {
		if x, ok := m.(*messages.Registered); ok {
			return []any{x.RequestID(), x.RegistrationID()}
		}
		return nil
	}},
	{"UNREGISTER", 66, "II", func(m messages.Message) []any {
		if x, ok := m.(*messages.Unregister); ok {
			return []any{x.RequestID(), x.RegistrationID()}
		}
		return nil
	}},
	{"UNREGISTERED", 67, "I", func(m messages.Message) []any {
		if x, ok := m.(*messages.Unregistered); ok {
			return []any{x.RequestID()}
		}
		return nil
	}},
	{"INVOCATION", 68, "IIMlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Invocation); ok {
			return []any{x.RequestID(), x.RegistrationID(), x.Details(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
	{"INTERRUPT", 69, "IM", func(m messages.Message) []any {
		if x, ok := m.(*messages.Interrupt); ok {
			return []any{x.RequestID(), x.Options()}
		}
		return nil
	}},
	{"YIELD", 70, "IMlm", func(m messages.Message) []any {
		if x, ok := m.(*messages.Yield); ok {
			return []any{x.RequestID(), x.Options(), x.Args(), x.KwArgs()}
		}
		return nil
	}},
}

// fields of a message in wire order; HELLO keeps its details taken apart.
func (s *spec) fields(m messages.Message) []any {
	if s.get != nil {
		return s.get(m)
	}
	if x, ok := m.(*messages.Hello); ok {
		return []any{x.Realm(), nil}
	}
	return nil
}

func pick() *spec { return specs[sym.Choice("message", len(specs))] }

// raw is a list sent as it is.
type raw []any

func (r raw) Type() uint64      { return 0 }
func (r raw) Parse([]any) error { return nil }
func (r raw) Marshal() []any    { return r }

func codec(k int) serializers.Serializer {
	return []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.MsgPackSerializer{}, &serializers.CBORSerializer{}}[k]
}

func encode(k int, v any) ([]byte, error) {
	switch k {
	case 0:
		return json.Marshal(v)
	case 1:
		return msgpack.Marshal(v)
	}
	return cbor.Marshal(v)
}
