package hmsg

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

func payload(name string) []byte {
	n := sym.Choice(name+" length", 2+sym.Bound("payload bytes", 3, 12))
	if n == 0 {
		return nil
	}
	return sym.Bytes(name, n-1)
}

const optSerializer = "x_payload_serializer"

func binaryOptions() map[string]any {
	switch sym.Choice("options", 5) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	case 2:
		return map[string]any{"k": sym.Str("option", 1)}
	case 3:
		return map[string]any{optSerializer: sym.Uint64("old serializer"), "k": "v"}
	}
	return map[string]any{optSerializer: "x", "progress": sym.Bool("progress")}
}

// reports checks what a message says of its payload.
func reports(m messages.BinaryPayload, binary bool, p []byte, ser uint64) {
	sym.Assert(m.PayloadIsBinary() == binary, "a message says whether its payload is binary")
	if !binary {
		sym.Assert(len(m.Payload()) == 0, "a message made from arguments has no binary payload")
		m.PayloadSerializer() // does not panic
		return
	}
	sym.Assert(sym.Eq(string(m.Payload()), string(p)), "the payload is the one given")
	sym.Assert(m.PayloadSerializer() == ser, "the serializer is the one given")
}

func copyOptions(m map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// C35_Binary: messages made from a binary payload.
func C35_Binary() {
	i, j := id("request"), id("registration")
	p, ser, o := payload("payload"), sym.Uint64("serializer"), binaryOptions()
	keep, keepP := copyOptions(o), append([]byte(nil), p...)
	var m messages.BinaryPayload
	var got map[string]any
	var args []any
	var kwargs map[string]any
	switch sym.Choice("message", 4) {
	case 0:
		x := messages.NewCallBinary(i, o, "some.uri", p, ser)
		sym.Assert(x.Type() == messages.MessageTypeCall && x.RequestID() == i && x.Procedure() == "some.uri", "the other fields are those given")
		m, got, args, kwargs = x, x.Options(), x.Args(), x.KwArgs()
	case 1:
		x := messages.NewInvocationBinary(i, j, o, p, ser)
		sym.Assert(x.Type() == messages.MessageTypeInvocation && x.RequestID() == i && x.RegistrationID() == j, "the other fields are those given")
		m, got, args, kwargs = x, x.Details(), x.Args(), x.KwArgs()
	case 2:
		x := messages.NewYieldBinary(i, o, p, ser)
		sym.Assert(x.Type() == messages.MessageTypeYield && x.RequestID() == i, "the other fields are those given")
		m, got, args, kwargs = x, x.Options(), x.Args(), x.KwArgs()
	case 3:
		x := messages.NewResultBinary(i, o, p, ser)
		sym.Assert(x.Type() == messages.MessageTypeResult && x.RequestID() == i, "the other fields are those given")
		m, got, args, kwargs = x, x.Details(), x.Args(), x.KwArgs()
	}
	reports(m, true, keepP, ser)
	sym.Assert(len(args) == 0 && len(kwargs) == 0, "a binary payload is not arguments")
	again, ok := refield(m.(messages.Message)).(messages.BinaryPayload)
	sym.Assert(ok, "a message made from its fields is of the same type")
	reports(again, true, keepP, ser)
	v, has := got[optSerializer]
	n, isNum := number(v)
	sym.Assert(has && isNum && n == ser, "the serializer is recorded in the options")
	for k, v := range keep {
		if k != optSerializer {
			sym.Assert(sym.Eq(got[k], v), "the other options are kept")
		}
	}
	keep[optSerializer] = nil
	sym.Assert(len(got) == len(keep), "no options are added")
}

// C35_Plain: messages made from arguments, and messages parsed, are not binary.
func C35_Plain() {
	s := pick()
	m, _ := build(s)
	if b, ok := m.(messages.BinaryPayload); ok {
		reports(b, false, nil, 0)
	}
	m2, err := serializers.ToMessage(m.Marshal())
	if err == nil {
		if b, ok := m2.(messages.BinaryPayload); ok {
			reports(b, false, nil, 0)
		}
	}
}

// C35_Options: arguments with options that name a serializer are still arguments.
func C35_Options() {
	a := arguments()
	o := map[string]any{optSerializer: sym.Uint64("serializer")}
	l := [][]any{
		{uint64(48), uint64(7), o, "some.uri", a},
		{uint64(68), uint64(7), uint64(8), o, a},
		{uint64(70), uint64(7), o, a},
		{uint64(50), uint64(7), o, a},
		{uint64(16), uint64(7), o, "some.uri", a},
		{uint64(36), uint64(7), uint64(8), o, a},
		{uint64(8), uint64(48), uint64(8), o, "some.uri", a}}[sym.Choice("message", 7)]
	m, err := serializers.ToMessage(l)
	sym.Assert(err == nil, "the message is accepted")
	if b, ok := m.(messages.BinaryPayload); ok {
		reports(b, false, nil, 0)
	}
}

// payloadArgs adds binary arguments where the codec can carry them.
func payloadArgs(ser uint64) []any {
	if ser != serializers.JSONSerializerID && sym.Choice("binary", 2) == 1 {
		return []any{sym.Bytes("arg", 2), "x"}
	}
	return arguments()
}

// same2 also compares byte strings.
func same2(a, b any) bool {
	x, ok := a.([]any)
	if !ok || len(x) == 0 {
		return same(a, b)
	}
	y, ok := b.([]any)
	if !ok || len(x) != len(y) {
		return false
	}
	r := true
	for i := range x {
		if bs, ok := x[i].([]byte); ok {
			cs, ok := y[i].([]byte)
			r = sym.And(r, ok && sym.Eq(bs, cs))
		} else {
			r = sym.And(r, same(x[i], y[i]))
		}
	}
	return r
}

func serializerID() uint64 { return uint64(1 + sym.Choice("serializer", 3)) }

// C36_Roundtrip: what is encoded with a serializer ID decodes with it.
func C36_Roundtrip() {
	ser := serializerID()
	a, k := payloadArgs(ser), keywords()
	b, err := serializers.SerializePayload(ser, a, k)
	sym.Assert(err == nil, "arguments can be encoded")
	a2, k2, err := serializers.DeserializePayload(ser, b)
	sym.Assert(err == nil, "encoded arguments can be decoded")
	sym.Assert(same2(a, a2), "arguments survive")
	sym.Assert(same(k, k2), "keyword arguments survive")
}

// C36_Functions: the per-codec functions are those of the IDs.
func C36_Functions() {
	ser := serializerID()
	a, k := payloadArgs(ser), keywords()
	enc := []func([]any, map[string]any) ([]byte, error){serializers.JSONEncodePayload, serializers.MsgPackEncodePayload, serializers.CBOREncodePayload}[ser-1]
	dec := []func([]byte) ([]any, map[string]any, error){serializers.JSONDecodePayload, serializers.MsgPackDecodePayload, serializers.CBORDecodePayload}[ser-1]
	var b []byte
	var a2 []any
	var k2 map[string]any
	var err error
	if sym.Choice("by function", 2) == 1 {
		b, err = enc(a, k)
		sym.Assert(err == nil, "arguments can be encoded")
		a2, k2, err = serializers.DeserializePayload(ser, b)
	} else {
		b, err = serializers.SerializePayload(ser, a, k)
		sym.Assert(err == nil, "arguments can be encoded")
		a2, k2, err = dec(b)
	}
	sym.Assert(err == nil, "encoded arguments can be decoded")
	sym.Assert(same2(a, a2), "arguments survive")
	sym.Assert(same(k, k2), "keyword arguments survive")
}

// C36_CBOR: the CBOR pair of arguments.
func C36_CBOR() {
	a, k := payloadArgs(serializers.CBORSerializerID), keywords()
	b, err := serializers.EncodeCBOR(a, k)
	sym.Assert(err == nil, "arguments can be encoded")
	a2, k2, err := serializers.DecodeCBOR(b)
	sym.Assert(err == nil, "encoded arguments can be decoded")
	sym.Assert(same2(a, a2), "arguments survive")
	sym.Assert(same(k, k2), "keyword arguments survive")
	a2, k2, err = serializers.CBORDecodePayload(b)
	sym.Assert(err == nil && sym.And(same2(a, a2), same(k, k2)), "both CBOR decoders read the pair")
}

// C36_Format: an ID names its format.
func C36_Format() {
	c := sym.Choice("codec", 3)
	a := []any{sym.Str("arg", 1), nil}
	l := []any{a}
	k := keywords()
	if k != nil {
		l = append(l, k)
	}
	b, _ := encode(c, l)
	ser := []uint64{serializers.JSONSerializerID, serializers.MsgPackSerializerID, serializers.CBORSerializerID}[c]
	sym.Assert(ser == uint64(c+1), "the IDs are 1, 2 and 3")
	a2, k2, err := serializers.DeserializePayload(ser, b)
	sym.Assert(err == nil, "a payload in the ID's format is decoded")
	sym.Assert(sym.And(same2(a, a2), same(k, k2)), "to its arguments")
}

// C36_Shapes: what is not a list of arguments and keywords is refused.
func C36_Shapes() {
	c := sym.Choice("codec", 3)
	n := sym.Choice("length", 5)
	var v any
	good := n > 0 && n < 3
	if n == 4 {
		v = sym.OneOf("value", true, uint64(5), "x", map[string]any{}, map[string]any{"k": "v"}, 1.5)
	} else {
		l := []any{}
		for i := 0; i < n; i++ {
			e := sym.OneOf("element", nil, []any{}, []any{"a"}, map[string]any{}, map[string]any{"k": "v"}, "x", true, uint64(5), 1.5)
			if i == 0 {
				_, ok := e.([]any)
				good = good && ok
			} else {
				_, ok := e.(map[string]any)
				good = good && ok
			}
			l = append(l, e)
		}
		v = l
	}
	b, err := encode(c, v)
	sym.Assert(err == nil, "a value can be encoded")
	a, k, err := serializers.DeserializePayload(uint64(c+1), b)
	if n > 0 {
		sym.Assert((err == nil) == good, "exactly lists of arguments and keywords are decoded")
	}
	if err != nil {
		sym.Assert(a == nil && k == nil, "a refused payload has no arguments")
	} else if good {
		l := v.([]any)
		sym.Assert(same2(l[0], a), "to the arguments")
		if n == 2 {
			sym.Assert(same(l[1], k), "to the keywords")
		} else {
			sym.Assert(len(k) == 0, "to no keywords")
		}
	}
	if c == 2 {
		a, k, err = serializers.DecodeCBOR(b)
		sym.Assert((err == nil) == (good && n == 2), "exactly pairs of arguments and keywords are decoded")
		if err == nil && good && n == 2 {
			l := v.([]any)
			sym.Assert(sym.And(same2(l[0], a), same(l[1], k)), "to both")
		}
	}
}

// C36_Bytes: bytes that encode nothing.
func C36_Bytes() {
	bad := [][]byte{nil, {}, {0}, {0x80}, {0xc0}, {0xc1}, {0xff}, {0xf6}, {0xf7}, {0x90}, {0x91}, {0xdc, 0xff, 0xff}, {0x9f}, {0x9f, 0xff},
		[]byte("null"), []byte("[]"), []byte("[48"), []byte("{}"), []byte("\"x\""), []byte("[null]"), []byte("[1e400]"), []byte("[[],{}]x"),
		{0x91, 0xc0}, {0x81, 0xf6}, {0x82, 0xf6, 0xf6}, {0x82, 0x80, 0xf6}, {0x82, 0x80, 0xa1, 0x01, 0x02}, {0x92, 0x90, 0xc0}, {0x92, 0x90, 0x81, 0x01, 0x02},
		{0xdd, 0xff, 0xff, 0xff, 0xff}, {0x91, 0xdd, 0xff, 0xff, 0xff, 0xff}, {0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}
	b := bad[sym.Choice("bytes", len(bad))]
	a, k, err := serializers.DeserializePayload(serializerID(), b)
	sym.Assert(err == nil || a == nil && k == nil, "a refused payload has no arguments")
	a, k, err = serializers.DecodeCBOR(b)
	sym.Assert(err == nil || a == nil && k == nil, "a refused payload has no arguments")
}

// C36_None: the serializer that is none.
func C36_None() {
	p := payload("payload")
	a, k, err := serializers.DeserializePayload(serializers.NoneSerializerID, p)
	sym.Assert(err == nil && len(k) == 0, "any bytes are a payload")
	if p == nil {
		sym.Assert(len(a) == 0, "no bytes are no arguments")
	} else {
		sym.Assert(len(a) == 1, "bytes are one argument")
		if len(a) == 1 {
			b, ok := a[0].([]byte)
			sym.Assert(ok && sym.Eq(b, p), "bytes are the argument")
		}
	}
	b, err := serializers.SerializePayload(serializers.NoneSerializerID, a, k)
	sym.Assert(err == nil && sym.Eq(b, p), "and are sent as they are")
}

// C36_NoneRefuses: anything but one byte string.
func C36_NoneRefuses() {
	n := sym.Choice("args", 4)
	var a []any
	if n > 0 {
		a = []any{}
	}
	bytes := false
	for i := 1; i < n; i++ {
		e := sym.OneOf("arg", nil, []byte{1, 2}, "x", uint64(5), []any{[]byte{1}}, map[string]any{}, true)
		_, bytes = e.([]byte)
		a = append(a, e)
	}
	k := keywords()
	b, err := serializers.SerializePayload(serializers.NoneSerializerID, a, k)
	want := len(k) == 0 && (len(a) == 0 || len(a) == 1 && bytes)
	sym.Assert((err == nil) == want, "exactly one byte string can be sent without a serializer")
	if err != nil || len(a) == 0 {
		sym.Assert(len(b) == 0, "nothing else is sent")
	}
}

// C36_Unknown: serializers that do not exist.
func C36_Unknown() {
	ser := sym.Uint64("serializer")
	sym.Assume(ser > 3)
	b, err := serializers.SerializePayload(ser, arguments(), keywords())
	sym.Assert(err != nil && len(b) == 0, "unknown serializers are refused")
	a, k, err := serializers.DeserializePayload(ser, payload("payload"))
	sym.Assert(err != nil && a == nil && k == nil, "unknown serializers are refused")
}
