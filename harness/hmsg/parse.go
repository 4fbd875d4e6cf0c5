package hmsg

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// element is anything a decoder can deliver.
func element(name string) any {
	return sym.OneOf(name, nil, true, sym.StrRaw("s", 1), []byte{1}, []any{"x"}, []any{}, map[string]any{"k": "v"}, map[string]any{},
		sym.Uint64("u"), sym.Int64("i"), int8(-1), uint16(700), 1.5, -1.0, 3.0, 1e300, float32(2))
}

// sent is anything that can be sent: through a codec numbers may change type.
func sent(name string) any {
	return sym.OneOf(name, nil, true, sym.Str("s", 1), []byte{1}, []any{"x"}, []any{nil}, map[string]any{"k": "v"}, map[string]any{},
		uint64(5), int64(-5), 1.5, uint64(1)<<63)
}

// answer checks that deserialising gives one of a message and an error.
func answer(m messages.Message, err error) {
	sym.Assert((m != nil) == (err == nil), "a message or an error")
}

// C31_Lists: any list through any serializer.
func C31_Lists() {
	k := sym.Choice("codec", 3)
	n := sym.Choice("length", sym.Bound("list length", 8, 9))
	var l raw
	for i := 0; i < n; i++ {
		if i == 0 {
			s := pick()
			l = append(l, s.code)
			if n > s.max()+1 {
				return // only the length counts
			}
		} else {
			l = append(l, sent("element"))
		}
	}
	b, err := codec(k).Serialize(l)
	sym.Assert(err == nil, "a list can be encoded")
	answer(codec(k).Deserialize(b))
}

// C31_Codes: any first element.
func C31_Codes() {
	k := sym.Choice("codec", 3)
	l := raw{sent("code")}
	if sym.Choice("numeric", 2) == 1 {
		l[0] = uint64(sym.Uint8("code"))
	}
	for i := sym.Choice("more", 6); i > 0; i-- {
		l = append(l, uint64(i))
	}
	b, _ := codec(k).Serialize(l)
	answer(codec(k).Deserialize(b))
	answer(serializers.ToMessage(l))
}

// C31_Values: what is not a list.
func C31_Values() {
	k := sym.Choice("codec", 3)
	v := []any{nil, true, 5, -5, 1.5, "x", map[string]any{"a": 1}, map[string]any{}, []byte{1, 2}, []any(nil), []any{}, [][]any{{}}}
	b, err := encode(k, v[sym.Choice("value", len(v))])
	sym.Assert(err == nil, "a value can be encoded")
	answer(codec(k).Deserialize(b))
}

// C31_Bytes: bytes that are no encoding, or none of this codec.
func C31_Bytes() {
	bad := [][]byte{nil, {}, {0}, {0x80}, {0xc0}, {0xc1}, {0xff}, {0xf6}, {0xf7}, {0x90}, {0x91}, {0xdc, 0xff, 0xff}, {0x9f}, {0x9f, 0xff},
		[]byte("null"), []byte("[]"), []byte("[48"), []byte("{}"), []byte("\"x\""), []byte(" [ ] "), []byte("[null]"), []byte("[1e400]"),
		[]byte("[48,1,{},\"p\"]x"), {0x91, 0xc0}, {0x81, 0xf6}, {0x82, 0x01, 0xa1, 0x01, 0x02}, {0x92, 0x01, 0x81, 0x01, 0x02}, {0xc2, 0x41, 0x01},
		{0x83, 0x01, 0xf7, 0xf7}, {0x93, 0x01, 0xa1, 0x61, 0xc0}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		{0x81, 0xfb, 0x7f, 0xf8, 0, 0, 0, 0, 0, 0}}
	answer(codec(sym.Choice("codec", 3)).Deserialize(bad[sym.Choice("bytes", len(bad))]))
}

// C31_Hello: HELLO with any details.
func C31_Hello() {
	k := sym.Choice("codec", 3)
	d := map[string]any{}
	if sym.Choice("authmethods given", 2) == 1 {
		d["authmethods"] = sym.OneOf("authmethods", nil, "x", 5, []any{}, []any{"a", 5}, []any{nil}, []any{"a"}, map[string]any{}, true)
	}
	for _, n := range []string{"authid", "authextra", "roles"} {
		d[n] = sym.OneOf(n, nil, "x", uint64(5), []any{}, map[string]any{}, map[string]any{"k": nil})
	}
	b, _ := codec(k).Serialize(raw{uint64(1), "realm", d})
	answer(codec(k).Deserialize(b))
}

// C31_Direct: any list of Go values handed to the parsers themselves.
func C31_Direct() {
	s := pick()
	n := sym.Choice("length", s.max()+2)
	var l []any
	for i := 0; i < n; i++ {
		if i == 0 {
			l = append(l, s.code)
		} else {
			l = append(l, element("element"))
		}
	}
	answer(serializers.ToMessage(l))
}

// whole is the value of a number that is a whole number of at most 64 bits.
func whole(v any) (uint64, bool) {
	switch x := v.(type) {
	case uint64:
		return x, true
	case uint16:
		return uint64(x), true
	case int64:
		if x >= 0 {
			return uint64(x), true
		}
	case int8:
		if x >= 0 {
			return uint64(x), true
		}
	case float64:
		if x >= 0 && x < 1<<64 && float64(uint64(x)) == x {
			return uint64(x), true
		}
	case float32:
		return uint64(x), true
	}
	return 0, false
}

func fits(kind byte, v any) bool {
	switch kind {
	case 'I':
		_, ok := whole(v)
		return ok
	case 'S':
		_, ok := v.(string)
		return ok
	case 'M', 'm':
		_, ok := v.(map[string]any)
		return ok
	case 'L', 'l':
		_, ok := v.([]any)
		return ok
	}
	return false
}

// C32_Accept: exactly well-formed lists are messages, and say what the list says.
func C32_Accept() {
	s := pick()
	n := sym.Choice("length", s.max()+2)
	l := []any{s.code}
	if n == 0 {
		l = nil
	}
	for i := 1; i < n; i++ {
		l = append(l, element("element"))
	}
	keep := append([]any(nil), l...)
	m, err := serializers.ToMessage(l)
	want := n >= s.min() && n <= s.max()
	for i := 1; i < n && i <= len(s.kinds) && want; i++ {
		want = fits(s.kinds[i-1], keep[i])
	}
	sym.Assert((err == nil) == want, "exactly well-formed messages are accepted")
	if err != nil || !want {
		return
	}
	sym.Assert(m.Type() == s.code, "as the type the code names")
	f := s.fields(m)
	sym.Assert(len(f) == len(s.kinds), "as that message")
	for i := range f {
		if f[i] == nil {
			continue
		}
		if i+1 >= n {
			sym.Assert(absent(f[i]), "what is absent stays absent")
			continue
		}
		if s.kinds[i] == 'I' {
			w, _ := whole(keep[i+1])
			sym.Assert(sym.Eq(f[i], w), "IDs are those of the list")
		} else {
			sym.Assert(sym.Eq(f[i], keep[i+1]), "fields are those of the list")
		}
	}
}

func absent(v any) bool {
	switch x := v.(type) {
	case []any:
		return x == nil
	case map[string]any:
		return x == nil
	}
	return false
}

// C32_Codes: what the type code says.
func C32_Codes() {
	v := sym.OneOf("code", nil, "x", true, []any{}, map[string]any{}, []byte{48}, sym.Uint64("u"), sym.Int64("i"), int8(sym.Uint8("small")), uint16(64), -48.0, 48.0, 48.5, float32(48.5), 1e300)
	m, err := serializers.ToMessage([]any{v, uint64(7), map[string]any{"a": "b"}, "some.uri"})
	c, ok := whole(v)
	if f, isF := v.(float32); isF {
		ok = float32(uint64(f)) == f
	}
	var s *spec
	if ok {
		for _, x := range specs {
			if sym.Branch(x.code == c) {
				s = x
			}
		}
	}
	if s == nil {
		sym.Assert(err != nil && m == nil, "unknown message types are refused")
		return
	}
	want := s.kinds == "IMS" || s.kinds == "IMSlm"
	sym.Assert((err == nil) == want, "a list is read as the type its code names")
	if err == nil {
		sym.Assert(m.Type() == s.code, "a list is read as the type its code names")
		sym.Assert(sym.Eq(s.fields(m)[0], uint64(7)), "with its fields")
	}
}

// C32_Hello: the details of HELLO.
func C32_Hello() {
	realm := sym.Str("realm", 2)
	d := map[string]any{"other": 1}
	if sym.Choice("odd details", 2) == 1 {
		d = odd.With(d, odd.Dict("authid", "authmethods", "authextra", "roles"))
	}
	var id, methods, extra, roles any
	if sym.Choice("authid given", 2) == 1 {
		id = sym.OneOf("authid", nil, sym.Str("id", 2), uint64(5), []any{})
		d["authid"] = id
	}
	if sym.Choice("authmethods given", 2) == 1 {
		methods = sym.OneOf("authmethods", nil, "x", []any{}, []any{sym.Str("m", 1)}, []any{sym.Str("m", 1), "b"}, []any{"a", uint64(5)}, map[string]any{})
		d["authmethods"] = methods
	}
	if sym.Choice("authextra given", 2) == 1 {
		extra = sym.OneOf("authextra", nil, map[string]any{"k": sym.Str("v", 1)}, map[string]any{}, "x", []any{})
		d["authextra"] = extra
	}
	if sym.Choice("roles given", 2) == 1 {
		roles = sym.OneOf("roles", nil, map[string]any{"caller": map[string]any{}}, "x")
		d["roles"] = roles
	}
	m, err := serializers.ToMessage([]any{uint64(1), realm, d})
	ms, isList := methods.([]any)
	good := true
	if isList {
		for _, x := range ms {
			if _, ok := x.(string); !ok {
				good = false
			}
		}
	}
	sym.Assert((err == nil) == good, "HELLO is accepted unless an authmethod is not a string")
	if err != nil || !good {
		return
	}
	h, ok := m.(*messages.Hello)
	sym.Assert(ok, "as HELLO")
	if !ok {
		return
	}
	sym.Assert(sym.Eq(h.Realm(), realm), "the realm is read")
	if s, ok := id.(string); ok {
		sym.Assert(sym.Eq(h.AuthID(), s), "the authid is read")
	} else {
		sym.Assert(h.AuthID() == "", "an absent authid stays absent")
	}
	sym.Assert(len(h.AuthMethods()) == len(ms), "the authmethods are read")
	for i, x := range h.AuthMethods() {
		if i < len(ms) {
			sym.Assert(sym.Eq(x, ms[i]), "the authmethods are read in order")
		}
	}
	if e, ok := extra.(map[string]any); ok {
		sym.Assert(sym.Eq(h.AuthExtra(), e), "the authextra is read")
	} else {
		sym.Assert(len(h.AuthExtra()) == 0, "an absent authextra stays absent")
	}
	if r, ok := roles.(map[string]any); ok {
		sym.Assert(sym.Eq(h.Roles(), r), "the roles are read")
	} else {
		sym.Assert(len(h.Roles()) == 0, "absent roles stay absent")
	}
}
