package hmisc

import (
	"math"

	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/util"
)

type otherT struct{ A int }

// numeric gives one value of every numeric type, as the value, as signed and
// unsigned 64-bit (for integers) and as float64.
func numeric() (v any, isInt, signed bool, s int64, u uint64, f float64) {
	switch sym.Choice("type", 12) {
	case 0:
		x := sym.Int("v")
		return x, true, true, int64(x), uint64(x), float64(x)
	case 1:
		x := int8(sym.Uint8("v"))
		return x, true, true, int64(x), uint64(x), float64(x)
	case 2:
		x := int16(sym.Uint16("v"))
		return x, true, true, int64(x), uint64(x), float64(x)
	case 3:
		x := int32(sym.Uint32("v"))
		return x, true, true, int64(x), uint64(x), float64(x)
	case 4:
		x := sym.Int64("v")
		return x, true, true, x, uint64(x), float64(x)
	case 5:
		x := uint(sym.Uint64("v"))
		return x, true, false, int64(x), uint64(x), float64(x)
	case 6:
		x := sym.Uint8("v")
		return x, true, false, int64(x), uint64(x), float64(x)
	case 7:
		x := sym.Uint16("v")
		return x, true, false, int64(x), uint64(x), float64(x)
	case 8:
		x := sym.Uint32("v")
		return x, true, false, int64(x), uint64(x), float64(x)
	case 9:
		x := sym.Uint64("v")
		return x, true, false, int64(x), uint64(x), float64(x)
	case 10:
		x := sym.Float32("v")
		return x, false, true, 0, 0, float64(x)
	}
	x := sym.Float64("v")
	return x, false, true, 0, 0, x
}

func notNumeric() any {
	switch sym.Choice("other", 9) {
	case 0:
		return nil
	case 1:
		return sym.StrRaw("s", 2)
	case 2:
		return sym.Bool("b")
	case 3:
		return []any{1}
	case 4:
		return map[string]any{"a": 1}
	case 5:
		return []byte{1}
	case 6:
		return &otherT{}
	case 7:
		return otherT{1}
	}
	return struct{}{}
}

// C42_Int: AsInt of any numeric value.
func C42_Int() {
	v, isInt, signed, s, u, f := numeric()
	r, ok := util.AsInt(v)
	sym.Observe("int", r)
	sym.Observe("ok", ok)
	if isInt {
		fits := sym.Or(signed, u <= math.MaxInt64)
		sym.Assert(sym.Iff(ok, fits), "AsInt succeeds exactly in range")
		sym.Assert(sym.Implies(ok, int64(r) == s), "AsInt keeps the value")
		sym.Assert(sym.Implies(sym.Not(ok), r == 0), "AsInt gives zero on failure")
		return
	}
	fits := sym.And(f >= -9223372036854775808.0, f < 9223372036854775808.0)
	sym.Assert(sym.Iff(ok, fits), "AsInt succeeds exactly for floats in range")
	if !ok {
		sym.Assert(r == 0, "AsInt gives zero on failure")
		return
	}
	sym.Assert(int64(r) == int64(f), "AsInt truncates toward zero")
}

// C42_Uint: AsUInt64 of any numeric value.
func C42_Uint() {
	v, isInt, signed, s, u, f := numeric()
	r, ok := util.AsUInt64(v)
	sym.Observe("ok", ok)
	sym.Assert(ok, "AsUInt64 accepts every numeric type")
	if isInt {
		fits := sym.Or(sym.Not(signed), s >= 0)
		sym.Assert(sym.Implies(fits, r == u), "AsUInt64 keeps the value")
		return
	}
	if f >= 0 && f < 18446744073709551616.0 {
		sym.Observe("uint", r)
		sym.Assert(r == uint64(f), "AsUInt64 truncates toward zero")
	}
}

// C42_Float: AsFloat64 of any numeric value.
func C42_Float() {
	v, _, _, _, _, f := numeric()
	r, ok := util.AsFloat64(v)
	sym.Assert(ok, "AsFloat64 accepts every numeric type")
	sym.Assert(sym.Or(r == f, sym.And(r != r, f != f)), "AsFloat64 keeps the value")
}

// C42_Other: values that are not numeric are refused by the numeric conversions.
func C42_Other() {
	v := notNumeric()
	a, ok1 := util.AsInt(v)
	b, ok2 := util.AsUInt64(v)
	c, ok3 := util.AsFloat64(v)
	sym.Assert(sym.And(sym.Not(ok1), a == 0), "AsInt refuses what is not a number")
	sym.Assert(sym.And(sym.Not(ok2), b == 0), "AsUInt64 refuses what is not a number")
	sym.Assert(sym.And(sym.Not(ok3), c == 0), "AsFloat64 refuses what is not a number")
}

// C42_BoolString: bool and string conversions of any value.
func C42_BoolString() {
	var v any
	isB, isS := false, false
	b, s := false, ""
	switch sym.Choice("kind", 4) {
	case 0:
		v, _, _, _, _, _ = numeric()
	case 1:
		isB = true
		b = sym.Bool("bool")
		v = b
	case 2:
		isS = true
		s = sym.StrRaw("str", sym.Choice("strlen", 4))
		v = s
	default:
		switch sym.Choice("other", 6) {
		case 0:
			v = nil
		case 1:
			v = []any{"x"}
		case 2:
			v = map[string]any{}
		case 3:
			v = []byte("x")
		case 4:
			v = &otherT{}
		case 5:
			v = otherT{}
		}
	}
	rb, okb := util.AsBool(v)
	rs, oks := util.AsString(v)
	sym.Assert(sym.And(okb == isB, rb == b), "AsBool")
	sym.Assert(sym.And(oks == isS, rs == s), "AsString")
	sym.Assert(util.ToBool(v) == b, "ToBool")
	sym.Assert(util.ToString(v) == s, "ToString")
}

// C42_Strings: AnysToStrings succeeds exactly for lists of strings.
func C42_Strings() {
	n := sym.Choice("n", 4)
	in := make([]any, n)
	want := make([]string, n)
	all := true
	for i := range in {
		if sym.Choice("kind", 2) == 0 {
			want[i] = sym.StrRaw("e", 2)
			in[i] = want[i]
		} else {
			all = false
			in[i] = sym.OneOf("bad", nil, 1, true, []any{}, 2.5)
		}
	}
	out, err := util.AnysToStrings(in)
	sym.Assert((err == nil) == all, "AnysToStrings accepts exactly strings")
	if err == nil {
		sym.Assert(len(out) == n, "AnysToStrings keeps the length")
		for i := range out {
			sym.Assert(out[i] == want[i], "AnysToStrings keeps the elements")
		}
	}
}
