package hmsg

import (
	"math"

	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

const maxID = 1 << 53

func id(name string) uint64 {
	x := sym.Uint64(name)
	sym.Assume(x <= maxID)
	return x
}

// options is an options or details dictionary; given tells what it means.
func options() (m map[string]any) {
	switch sym.Choice("options", 4) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	case 2:
		return map[string]any{"s": sym.Str("option", 2), "b": sym.Bool("flag")}
	}
	return map[string]any{"n": id("number"), "l": []any{sym.Str("item", 1), nil}, "m": map[string]any{"k": sym.Bool("flag")}}
}

func arguments() []any {
	switch sym.Choice("args", 4) {
	case 0:
		return nil
	case 1:
		return []any{}
	case 2:
		return []any{sym.Str("arg", 2)}
	}
	return []any{id("arg"), sym.Bool("flag"), []any{sym.Str("item", 1), nil}}
}

func keywords() map[string]any {
	switch sym.Choice("kwargs", 3) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	}
	return map[string]any{"k": sym.Str("kwarg", 1), "n": id("kwarg")}
}

// build makes any message with the constructors; list is what it must be on
// the wire, where nil stands for an absent element.
func build(s *spec) (m messages.Message, list []any) {
	switch s.name {
	case "HELLO":
		realm, aid := sym.Str("realm", 2), sym.Str("authid", 2)
		extra, roles := options(), map[string]any{"caller": map[string]any{}}
		ms := [][]string{nil, {}, {"anonymous"}, {sym.Str("method", 1), "ticket"}}[sym.Choice("authmethods", 4)]
		if sym.Choice("roles", 2) == 1 {
			roles = nil
		}
		return messages.NewHello(realm, aid, extra, roles, ms), []any{realm, map[string]any{"authid": aid, "authmethods": ms, "authextra": extra, "roles": roles}}
	case "WELCOME":
		i, d := id("session"), options()
		return messages.NewWelcome(i, d), []any{i, d}
	case "ABORT":
		d, u, a, k := options(), sym.Str("reason", 2), arguments(), keywords()
		return messages.NewAbort(d, u, a, k), []any{d, u, a, k}
	case "CHALLENGE":
		u, d := sym.Str("method", 2), options()
		return messages.NewChallenge(u, d), []any{u, d}
	case "AUTHENTICATE":
		u, d := sym.Str("signature", 2), options()
		return messages.NewAuthenticate(u, d), []any{u, d}
	case "GOODBYE":
		d, u := options(), sym.Str("reason", 2)
		return messages.NewGoodBye(u, d), []any{d, u}
	case "ERROR":
		t, i, d, u, a, k := id("type"), id("request"), options(), sym.Str("uri", 2), arguments(), keywords()
		return messages.NewError(t, i, d, u, a, k), []any{t, i, d, u, a, k}
	case "PUBLISH":
		i, d, u, a, k := id("request"), options(), sym.Str("uri", 2), arguments(), keywords()
		return messages.NewPublish(i, d, u, a, k), []any{i, d, u, a, k}
	case "PUBLISHED":
		i, j := id("request"), id("publication")
		return messages.NewPublished(i, j), []any{i, j}
	case "SUBSCRIBE":
		i, d, u := id("request"), options(), sym.Str("uri", 2)
		return messages.NewSubscribe(i, d, u), []any{i, d, u}
	case "SUBSCRIBED":
		i, j := id("request"), id("subscription")
		return messages.NewSubscribed(i, j), []any{i, j}
	case "UNSUBSCRIBE":
		i, j := id("request"), id("subscription")
		return messages.NewUnsubscribe(i, j), []any{i, j}
	case "UNSUBSCRIBED":
		i := id("request")
		return messages.NewUnsubscribed(i), []any{i}
	case "EVENT":
		i, j, d, a, k := id("subscription"), id("publication"), options(), arguments(), keywords()
		return messages.NewEvent(i, j, d, a, k), []any{i, j, d, a, k}
	case "CALL":
		i, d, u, a, k := id("request"), options(), sym.Str("uri", 2), arguments(), keywords()
		return messages.NewCall(i, d, u, a, k), []any{i, d, u, a, k}
	case "CANCEL":
		i, d := id("request"), options()
		return messages.NewCancel(i, d), []any{i, d}
	case "RESULT":
		i, d, a, k := id("request"), options(), arguments(), keywords()
		return messages.NewResult(i, d, a, k), []any{i, d, a, k}
	case "REGISTER":
		i, d, u := id("request"), options(), sym.Str("uri", 2)
		return messages.NewRegister(i, d, u), []any{i, d, u}
	case "REGISTERED":
		i, j := id("request"), id("registration")
		return messages.NewRegistered(i, j), []any{i, j}
	case "UNREGISTER":
		i, j := id("request"), id("registration")
		return messages.NewUnregister(i, j), []any{i, j}
	case "UNREGISTERED":
		i := id("request")
		return messages.NewUnregistered(i), []any{i}
	case "INVOCATION":
		i, j, d, a, k := id("request"), id("registration"), options(), arguments(), keywords()
		return messages.NewInvocation(i, j, d, a, k), []any{i, j, d, a, k}
	case "INTERRUPT":
		i, d := id("request"), options()
		return messages.NewInterrupt(i, d), []any{i, d}
	case "YIELD":
		i, d, a, k := id("request"), options(), arguments(), keywords()
		return messages.NewYield(i, d, a, k), []any{i, d, a, k}
	}
	panic(s.name)
}

// same compares values up to number types, and absent with empty containers.
// The values of odd dictionaries are no numbers or containers.
func same(a, b any) bool {
	switch x := a.(type) {
	case nil:
		switch y := b.(type) {
		case []any:
			return len(y) == 0
		case []string:
			return len(y) == 0
		case map[string]any:
			return len(y) == 0
		}
		return b == nil
	case []any:
		if y, ok := b.([]string); ok {
			return same(y, x)
		}
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return b == nil && len(x) == 0
		}
		r := true
		for i := range x {
			r = sym.And(r, same(x[i], y[i]))
		}
		return r
	case []string:
		if y, ok := b.([]string); ok {
			if len(x) != len(y) {
				return false
			}
			r := true
			for i := range x {
				r = sym.And(r, sym.Eq(x[i], y[i]))
			}
			return r
		}
		y, ok := b.([]any)
		if !ok {
			return b == nil && len(x) == 0
		}
		if len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = sym.And(r, same(x[i], y[i]))
		}
		return r
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return b == nil && len(x) == 0
		}
		r := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			if _, ok := x["x.odd"]; !ok {
				r = sym.And(r, same(v, w))
			} else {
				r = sym.And(r, sym.Eq(v, w))
			}
		}
		return r
	case string:
		y, ok := b.(string)
		return ok && sym.Eq(x, y)
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	x, ok1 := number(a)
	y, ok2 := number(b)
	return ok1 && ok2 && x == y
}

func number(v any) (uint64, bool) {
	switch x := v.(type) {
	case uint64:
		return x, true
	case uint32:
		return uint64(x), true
	case uint16:
		return uint64(x), true
	case uint8:
		return uint64(x), true
	case uint:
		return uint64(x), true
	case int64:
		return uint64(x), x >= 0
	case int32:
		return uint64(x), x >= 0
	case int16:
		return uint64(x), x >= 0
	case int8:
		return uint64(x), x >= 0
	case int:
		return uint64(x), x >= 0
	case float64:
		return uint64(x), float64(uint64(x)) == x
	}
	return 0, false
}

// check compares a message with what it was built from.
func check(s *spec, m messages.Message, list []any) {
	sym.Assert(m.Type() == s.code, "the message keeps its type")
	if s.name == "HELLO" {
		h, ok := m.(*messages.Hello)
		sym.Assert(ok, "the message keeps its type")
		if !ok {
			return
		}
		d := list[1].(map[string]any)
		sym.Assert(sym.Eq(h.Realm(), list[0]) && sym.Eq(h.AuthID(), d["authid"]), "strings survive")
		ms := d["authmethods"].([]string)
		sym.Assert(len(ms) == len(h.AuthMethods()), "authmethods survive")
		for i, x := range h.AuthMethods() {
			sym.Assert(i < len(ms) && sym.Eq(x, ms[i]), "authmethods survive")
		}
		sym.Assert(same(h.AuthExtra(), d["authextra"]) && same(h.Roles(), d["roles"]), "dictionaries survive")
		return
	}
	f := s.fields(m)
	sym.Assert(len(f) == len(list), "the message keeps its type")
	if len(f) != len(list) {
		return
	}
	for i := range f {
		switch s.kinds[i] {
		case 'I':
			sym.Assert(sym.Eq(f[i], list[i]), "IDs survive")
		case 'S':
			sym.Assert(sym.Eq(f[i], list[i]), "strings survive")
		case 'M':
			sym.Assert(same(f[i], list[i]), "dictionaries survive")
		case 'l':
			sym.Assert(same(f[i], list[i]), "arguments survive")
		case 'm':
			sym.Assert(same(f[i], list[i]), "keyword arguments survive")
		}
	}
}

// C33_Roundtrip.
func C33_Roundtrip() {
	s := pick()
	k := sym.Choice("codec", 3)
	m, list := build(s)
	b, err := codec(k).Serialize(m)
	sym.Assert(err == nil, "a message can be encoded")
	m2, err := codec(k).Deserialize(b)
	sym.Assert(err == nil && m2 != nil, "an encoded message can be decoded")
	if err != nil || m2 == nil {
		return
	}
	check(s, m2, list)
}

// C33_Marshal: the wire format.
func C33_Marshal() {
	s := pick()
	m, list := build(s)
	check(s, m, list)
	l := m.Marshal()
	sym.Assert(len(l) >= s.min() && len(l) <= s.max(), "the list has the protocol's length")
	sym.Assert(same(l[0], s.code), "the type code comes first")
	for i, x := range list {
		if i+1 < len(l) {
			sym.Assert(same(l[i+1], x), "the fields come in the protocol's order")
			if l[i+1] != nil {
				sym.Assert(fits2(s.kinds[i], l[i+1]), "each of its type")
			}
		} else {
			sym.Assert(s.kinds[i] >= 'a' && (s.kinds[i] == 'l' && len(x.([]any)) == 0 || s.kinds[i] == 'm' && len(x.(map[string]any)) == 0), "only absent arguments are left out")
		}
	}
	m2, err := serializers.ToMessage(l)
	if s.name != "HELLO" {
		sym.Assert(err == nil, "a message can be parsed back")
		if err == nil {
			check(s, m2, list)
		}
	}
}

func fits2(kind byte, v any) bool {
	switch kind {
	case 'S':
		_, ok := v.(string)
		return ok
	case 'M', 'm':
		x, ok := v.(map[string]any)
		return ok && x != nil
	case 'l':
		x, ok := v.([]any)
		return ok && x != nil
	}
	_, ok := number(v)
	return ok
}

// C33_Odd: dictionaries with every key the code knows, single elements, and
// containers as long as the code's lengths.
func C33_Odd() {
	s := pick()
	k := sym.Choice("codec", 3)
	m, list := oddMessage(s)
	if m == nil {
		return
	}
	b, err := codec(k).Serialize(m)
	sym.Assert(err == nil, "a message can be encoded")
	m2, err := codec(k).Deserialize(b)
	sym.Assert(err == nil && m2 != nil, "an encoded message can be decoded")
	if err != nil || m2 == nil {
		return
	}
	check(s, m2, list)
	l := m.Marshal()
	for i, x := range list {
		if s.name != "HELLO" && i+1 < len(l) {
			sym.Assert(same(l[i+1], x), "the fields come in the protocol's order")
		}
	}
}

func oddMessage(s *spec) (messages.Message, []any) {
	d, u := map[string]any(nil), "uri"
	var a []any
	var k map[string]any
	args := false
	for _, c := range s.kinds {
		args = args || c == 'l'
	}
	switch sym.Choice("odd", 4) {
	case 0:
		d = odd.Dict()
		if args && sym.Choice("odd keywords", 2) == 1 {
			k = odd.Dict()
		}
	case 1:
		u = odd.Text()
	case 2:
		if !args {
			return nil, nil
		}
		switch sym.Choice("element", 3) {
		case 0:
			a = []any{sym.OneOf("element", nil, true, "", "s")}
		case 1:
			a = []any{[]any{}}
		case 2:
			a = []any{map[string]any{}}
		}
		k = []map[string]any{nil, {}, {"": nil}}[sym.Choice("keywords", 3)]
	case 3:
		if !args {
			return nil, nil
		}
		for i := odd.Size(sym.Bound("argument list", 20, 40)); i > 0; i-- {
			a = append(a, true)
		}
	}
	return make1(s, d, u, a, k)
}

func make1(s *spec, d map[string]any, u string, a []any, k map[string]any) (messages.Message, []any) {
	i, j := uint64(3), uint64(4)
	switch s.name {
	case "HELLO":
		aid := u
		if sym.Choice("no authid", 2) == 1 {
			aid = ""
		}
		ms := []string{"anonymous", u, ""}[:sym.Choice("authmethods", 4)]
		return messages.NewHello(u, aid, d, d, ms), []any{u, map[string]any{"authid": aid, "authmethods": ms, "authextra": d, "roles": d}}
	case "WELCOME":
		return messages.NewWelcome(i, d), []any{i, d}
	case "ABORT":
		return messages.NewAbort(d, u, a, k), []any{d, u, a, k}
	case "CHALLENGE":
		return messages.NewChallenge(u, d), []any{u, d}
	case "AUTHENTICATE":
		return messages.NewAuthenticate(u, d), []any{u, d}
	case "GOODBYE":
		return messages.NewGoodBye(u, d), []any{d, u}
	case "ERROR":
		return messages.NewError(i, j, d, u, a, k), []any{i, j, d, u, a, k}
	case "PUBLISH":
		return messages.NewPublish(i, d, u, a, k), []any{i, d, u, a, k}
	case "SUBSCRIBE":
		return messages.NewSubscribe(i, d, u), []any{i, d, u}
	case "EVENT":
		return messages.NewEvent(i, j, d, a, k), []any{i, j, d, a, k}
	case "CALL":
		return messages.NewCall(i, d, u, a, k), []any{i, d, u, a, k}
	case "CANCEL":
		return messages.NewCancel(i, d), []any{i, d}
	case "RESULT":
		return messages.NewResult(i, d, a, k), []any{i, d, a, k}
	case "REGISTER":
		return messages.NewRegister(i, d, u), []any{i, d, u}
	case "INVOCATION":
		return messages.NewInvocation(i, j, d, a, k), []any{i, j, d, a, k}
	case "INTERRUPT":
		return messages.NewInterrupt(i, d), []any{i, d}
	case "YIELD":
		return messages.NewYield(i, d, a, k), []any{i, d, a, k}
	}
	return nil, nil
}

// C34_Types: IDs and type codes in every numeric type.
func C34_Types() {
	x := sym.Uint64("id")
	sym.Assume(x <= maxID)
	v, ok := typed(x, sym.Choice("type", 12))
	sym.Assume(ok) // the type can hold it
	s := pick()
	l := []any{s.code}
	for _, k := range s.kinds {
		switch k {
		case 'I':
			l = append(l, v)
		case 'S':
			l = append(l, "uri")
		case 'M':
			l = append(l, map[string]any{})
		}
	}
	m, err := serializers.ToMessage(l)
	sym.Assert(err == nil, "IDs of every numeric type are accepted")
	if err != nil {
		return
	}
	for i, f := range s.fields(m) {
		if s.kinds[i] == 'I' {
			sym.Assert(sym.Eq(f, x), "an ID is read with its value")
		}
	}
}

// C34_Floats: IDs of any size in floating point, given by their exponent and
// fraction.
func C34_Floats() {
	exps := []int{0, 1, 15, 22, 23, 24, 30, 31, 32, 40, 47, 51, 52}
	e := exps[sym.Choice("exponent", len(exps))]
	wide := sym.Choice("type", 2) == 1
	bits := 23
	if wide {
		bits = 52
	}
	frac := uint64(sym.Uint8("fraction")) << uint(bits-8)
	if e >= bits {
		frac |= uint64(sym.Uint8("low fraction"))
	}
	x := frac | 1<<uint(bits)
	if e < bits {
		sym.Assume(frac&(1<<uint(bits-e)-1) == 0) // a whole number
		x >>= uint(bits - e)
	} else {
		x <<= uint(e - bits)
	}
	var v any = math.Float32frombits(uint32(frac) | uint32(e+127)<<23)
	if wide {
		v = math.Float64frombits(frac | uint64(e+1023)<<52)
	}
	m, err := serializers.ToMessage([]any{uint64(messages.MessageTypeRegistered), v, uint64(1)})
	sym.Assert(err == nil, "IDs of every numeric type are accepted")
	if err != nil {
		return
	}
	r, ok := m.(*messages.Registered)
	sym.Assert(ok && r.RequestID() == x, "an ID is read with its value")
}

// typed gives x in a numeric type and whether that type can hold it.
func typed(x uint64, t int) (any, bool) {
	switch t {
	case 0:
		return x, true
	case 1:
		return int64(x), true
	case 2:
		return int(x), true
	case 3:
		return uint(x), true
	case 4:
		return uint32(x), uint64(uint32(x)) == x
	case 5:
		return int32(x), x < 1<<31
	case 6:
		return uint16(x), uint64(uint16(x)) == x
	case 7:
		return int16(x), x < 1<<15
	case 8:
		return uint8(x), uint64(uint8(x)) == x
	case 9:
		return int8(x), x < 1<<7
	case 10:
		return float64(x), true
	}
	return float32(x), x <= 1<<24
}

// C34_Codes: type codes likewise.
func C34_Codes() {
	s := pick()
	v, ok := typed(s.code, sym.Choice("type", 12))
	sym.Assume(ok)
	l := []any{v}
	for _, k := range s.kinds {
		switch k {
		case 'I':
			l = append(l, uint64(7))
		case 'S':
			l = append(l, "uri")
		case 'M':
			l = append(l, map[string]any{})
		}
	}
	m, err := serializers.ToMessage(l)
	sym.Assert(err == nil, "a type code of any numeric type is understood")
	if err == nil {
		sym.Assert(m.Type() == s.code && len(s.fields(m)) == len(s.kinds), "as that type")
	}
}

// C34_Refuse: what is no number is no ID.
func C34_Refuse() {
	s := pick()
	bad := sym.Choice("at", len(s.kinds))
	if s.kinds[bad] != 'I' {
		return
	}
	l := []any{s.code}
	for i, k := range s.kinds {
		switch k {
		case 'I':
			if i == bad {
				l = append(l, sym.OneOf("id", nil, "5", true, false, []any{1}, map[string]any{}, []byte{5}, struct{}{}, "x"))
			} else {
				l = append(l, uint64(7))
			}
		case 'S':
			l = append(l, "uri")
		case 'M':
			l = append(l, map[string]any{})
		}
	}
	m, err := serializers.ToMessage(l)
	sym.Assert(err != nil && m == nil, "an ID that is no number is refused")
}
