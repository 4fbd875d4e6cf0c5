package main

// Abstract models of encoding/json, fxamacker/cbor and vmihailenco/msgpack.
// Encoding a value gives opaque bytes that remember the value; decoding gives
// the value as that codec documents it (number types, nil containers, byte
// strings). Every model is checked against the real codecs by native replay.

import (
	"fmt"
	"go/types"
	"unicode/utf8"
)

type blob struct {
	codec string // json cbor msgpack
	v     Value  // Iface: normalised value
	bad   bool   // not a valid encoding
	id    int
}

type blobByte struct {
	b *blob
	i int
}

const blobLen = 6

func (p *Path) blobBytes(b *blob) []Value {
	r := make([]Value, blobLen)
	for i := range r {
		r[i] = &blobByte{b, i}
	}
	return r
}

func wholeBlob(bs []Value) (*blob, bool) {
	if len(bs) != blobLen {
		return nil, false
	}
	f, ok := bs[0].(*blobByte)
	if !ok {
		return nil, false
	}
	for i, x := range bs {
		y, ok := x.(*blobByte)
		if !ok || y.b != f.b || y.i != i {
			return nil, false
		}
	}
	return f.b, true
}

// eqBlob: encodings are equal exactly when the encoded values are.
func (p *Path) eqBlob(a, b *blob) *Term {
	if a.codec != b.codec {
		panic(unsupported("comparison of encodings of different codecs"))
	}
	return p.deepEq(a.v, b.v)
}

// eqBlobByte: only what every encoding of a kind has in common is known.
func (p *Path) eqBlobByte(x *blobByte, y uint64) *Term {
	if x.b.codec == "json" && !x.b.bad && (x.i == 0 || x.i == blobLen-1) && isSpace(y) {
		return p.c.False
	}
	if v, ok := x.b.v.(Iface); ok && x.b.codec == "json" && !x.b.bad && v.t != nil && (x.i == 0 || x.i == blobLen-1) {
		ends := ""
		switch {
		case sameType(v.t, tAnySlice) && v.v.([]Value) != nil:
			ends = "[]"
		case sameType(v.t, tMapSA):
			ends = "{}"
		}
		if ends != "" {
			return p.c.Bool(uint64(ends[min(x.i, 1)]) == y)
		}
	}
	panic(unsupported("comparison with encoded (opaque) bytes"))
}

var (
	tAny      = types.Universe.Lookup("any").Type()
	tAnySlice = types.NewSlice(types.NewInterfaceType(nil, nil))
	tByteSl   = types.NewSlice(types.Typ[types.Uint8])
	tMapSA    = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
	tMapAA    = types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
)

type codecErr struct{ msg string }

// encode normalises v (of static type t) to what decoding will give back.
func (p *Path) encode(codec string, t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		switch x := v.(type) {
		case Iface:
			if x.t == nil {
				return Iface{}
			}
			return p.encode(codec, x.t, x.v)
		case *SymIface:
			var out SymIface
			for i, a := range x.alts {
				c := x.conds[i]
				if k, ok := p.knownTruth(c); ok && !k {
					continue
				}
				var e Value
				if a.t == nil {
					e = Iface{}
				} else {
					e = p.encodeGuarded(codec, a.t, a.v, c)
				}
				switch e := e.(type) {
				case Iface:
					out.conds = append(out.conds, c)
					out.alts = append(out.alts, e)
				case *SymIface:
					for j := range e.alts {
						out.conds = append(out.conds, p.c.And(c, e.conds[j]))
						out.alts = append(out.alts, e.alts[j])
					}
				}
			}
			if len(out.alts) == 1 {
				return out.alts[0]
			}
			return &out
		}
		panic(unsupported(fmt.Sprintf("encoding of %T", v)))
	}
	return p.encodeGuarded(codec, t, v, p.c.True)
}

func mkI(t types.Type, v Value) Iface { return Iface{t, v} }

// guardFail raises an encoding error when guard ∧ bad is possible.
func (p *Path) guardFail(guard, bad *Term, msg string) {
	if p.branch(p.val(p.c.And(guard, bad))) {
		panic(codecErr{msg})
	}
}

func (p *Path) checkUTF8(v Value, guard *Term) {
	switch s := v.(type) {
	case string:
		if !utf8.ValidString(s) {
			panic(unsupported("non-UTF-8 text through a codec"))
		}
	case *SymStr:
		for _, b := range s.b {
			if t, ok := b.(*Term); ok {
				hi := p.c.Bin(OUlt, t, p.c.BV(0x80, 8))
				if k, ok := p.knownTruth(hi); ok && k {
					continue
				}
				p.note("text through a codec is taken to be ASCII")
				p.assume(p.val(hi))
			} else if bb, ok := b.(*blobByte); ok && bb.b.codec == "json" && !bb.b.bad {
				continue // JSON is text
			} else if _, ok := b.(uint64); !ok {
				panic(unsupported("opaque bytes as text through a codec"))
			} else if b.(uint64) >= 0x80 {
				panic(unsupported("non-ASCII text mixed with symbolic bytes"))
			}
		}
	}
}

func (p *Path) encodeGuarded(codec string, t types.Type, v Value, guard *Term) Value {
	u := t.Underlying()
	if n, ok := t.(*types.Named); ok {
		if _, isB := u.(*types.Basic); !isB {
			if ms := p.prg.prog.MethodSets.MethodSet(n); ms.Len() > 0 {
				for _, m := range []string{"MarshalJSON", "MarshalCBOR", "EncodeMsgpack", "MarshalMsgpack", "MarshalText", "MarshalBinary"} {
					if ms.Lookup(nil, m) != nil {
						panic(unsupported("custom marshaller on " + t.String()))
					}
				}
			}
		}
	}
	switch u := u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkI(types.Typ[types.Bool], v)
		case u.Info()&types.IsString != 0:
			if _, ok := v.(*OpaqueStr); !ok {
				p.checkUTF8(v, guard)
			}
			return mkI(types.Typ[types.String], v)
		case u.Info()&types.IsInteger != 0:
			return p.encodeInt(codec, t, u, v)
		case u.Kind() == types.Float64 || u.Kind() == types.Float32:
			return p.encodeFloat(codec, u, v, guard)
		}
	case *types.Slice:
		s, _ := v.([]Value)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			return p.encodeBytes(codec, s)
		}
		if s == nil {
			return Iface{}
		}
		out := make([]Value, len(s))
		for i := range s {
			p.access(&s[i], false)
			out[i] = p.encodeElem(codec, u.Elem(), s[i], guard)
		}
		return mkI(tAnySlice, out)
	case *types.Array:
		s := v.(Array)
		out := make([]Value, len(s))
		for i := range s {
			out[i] = p.encodeElem(codec, u.Elem(), s[i], guard)
		}
		return mkI(tAnySlice, out)
	case *types.Map:
		m, _ := v.(*MapVal)
		if m == nil {
			return Iface{}
		}
		if !isString(u.Key()) {
			panic(unsupported("map with non-string keys through a codec"))
		}
		out := newMap()
		p.accessMap(m, false)
		for _, e := range m.ents {
			p.checkUTF8(e.k, guard)
			out.add(e.k, p.encodeElem(codec, u.Elem(), e.v, guard))
		}
		return mkI(tMapSA, out)
	case *types.Pointer:
		ptr, _ := v.(*Value)
		if ptr == nil {
			return Iface{}
		}
		return p.encodeGuarded(codec, u.Elem(), *ptr, guard)
	case *types.Signature, *types.Chan:
		panic(codecErr{"unsupported type"})
	case *types.Struct:
		if st, ok := v.(Struct); ok {
			return p.encodeStruct(codec, u, st, guard)
		}
	}
	panic(unsupported("encoding of " + t.String()))
}

func (p *Path) encodeElem(codec string, t types.Type, v Value, guard *Term) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return p.encode(codec, t, v)
	}
	return p.encodeGuarded(codec, t, v, guard)
}

func (p *Path) encodeBytes(codec string, s []Value) Value {
	switch codec {
	case "json":
		if s == nil {
			return Iface{}
		}
		return mkI(types.Typ[types.String], mkStr(p.b64enc(s)))
	default:
		if s == nil {
			return Iface{}
		}
		return mkI(tByteSl, append([]Value{}, s...))
	}
}

func (p *Path) encodeFloat(codec string, u *types.Basic, v Value, guard *Term) Value {
	f := p.term(v)
	switch codec {
	case "json":
		p.guardFail(guard, p.c.Or(p.c.FUn(OFIsNaN, f, boolSort), p.c.FUn(OFIsInf, f, boolSort)), "json: unsupported value")
		// shortest text that round-trips at the source precision
		if f.sort.K == SF32 {
			// a float32 text decoded as float64 is not exactly the float32
			if f.isConst() {
				return mkI(types.Typ[types.Float64], jsonF32(v.(float32)))
			}
			p.note("float32 through JSON is taken to keep its value")
			return mkI(types.Typ[types.Float64], p.val(p.c.FUn(OFCvt, f, f64Sort)))
		}
		return mkI(types.Typ[types.Float64], p.val(f))
	case "cbor":
		return mkI(types.Typ[types.Float64], p.val(p.c.FUn(OFCvt, f, f64Sort)))
	default:
		return mkI(types.Typ[u.Kind()], v)
	}
}

func (p *Path) encodeInt(codec string, t types.Type, u *types.Basic, v Value) Value {
	w, signed, _ := intInfo(u)
	x := p.c.Resize(p.bv(v, w), 64, signed)
	c := p.c
	switch codec {
	case "json":
		op := OFFromU
		if signed {
			op = OFFromS
		}
		return mkI(types.Typ[types.Float64], p.val(c.FUn(op, x, f64Sort)))
	case "cbor":
		if !signed {
			return mkI(types.Typ[types.Uint64], p.val(x))
		}
		neg := c.Bin(OSlt, x, c.BV(0, 64))
		return p.guarded([]*Term{c.Not(neg), neg}, []Iface{
			mkI(types.Typ[types.Uint64], p.val(x)), mkI(types.Typ[types.Int64], p.val(x))})
	}
	// msgpack
	k := u.Kind()
	plain := t == types.Type(u) // named types take the reflect path, same encoding
	_ = plain
	fix := func(kind types.BasicKind) Value {
		fw, _, _ := intInfo(types.Typ[kind])
		return mkI(types.Typ[kind], p.val(c.Resize(x, fw, false)))
	}
	switch k {
	case types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
		return fix(k)
	}
	// int and uint are encoded compactly
	le := func(n uint64) *Term { return c.Bin(OUle, x, c.BV(n, 64)) }
	var conds []*Term
	var alts []Iface
	rest := c.True
	add := func(cond *Term, kind types.BasicKind) {
		fw, _, _ := intInfo(types.Typ[kind])
		conds = append(conds, c.And(rest, cond))
		alts = append(alts, mkI(types.Typ[kind], p.val(c.Resize(x, fw, false))))
		rest = c.And(rest, c.Not(cond))
	}
	if signed {
		neg := c.Bin(OSlt, x, c.BV(0, 64))
		ge := func(n int64) *Term { return c.And(neg, c.Bin(OSle, c.BV(uint64(n), 64), x)) }
		add(ge(-128), types.Int8)
		add(ge(-32768), types.Int16)
		add(ge(-2147483648), types.Int32)
		add(neg, types.Int64)
	}
	add(le(127), types.Int8)
	add(le(255), types.Uint8)
	add(le(65535), types.Uint16)
	add(le(4294967295), types.Uint32)
	add(c.True, types.Uint64)
	return p.guarded(conds, alts)
}

// guarded builds a union, dropping impossible alternatives.
func (p *Path) guarded(conds []*Term, alts []Iface) Value {
	var s SymIface
	for i, c := range conds {
		if v, ok := p.knownTruth(c); ok {
			if v {
				return alts[i]
			}
			continue
		}
		s.conds = append(s.conds, c)
		s.alts = append(s.alts, alts[i])
	}
	if len(s.alts) == 1 {
		return s.alts[0]
	}
	return &s
}

// Marshal: returns bytes or an error message.
func (p *Path) marshal(codec string, v Value) (res []Value, err string) {
	defer func() {
		if r := recover(); r != nil {
			ce, ok := r.(codecErr)
			if !ok {
				panic(r)
			}
			err = ce.msg
		}
	}()
	n := p.encode(codec, tAny, v)
	return p.blobBytes(&blob{codec: codec, v: n}), ""
}

// unmarshal stores the decoded value through ptr of element type t.
func (p *Path) unmarshal(codec string, data Value, target Value, mapAA bool) string {
	bs, _ := data.([]Value)
	tg, ok := target.(Iface)
	if !ok || tg.t == nil {
		return "unmarshal target"
	}
	pt, ok := tg.t.Underlying().(*types.Pointer)
	if !ok {
		return "unmarshal target is not a pointer"
	}
	ptr := tg.v.(*Value)
	if codec == "json" {
		bs = trimJSON(bs)
	}
	b, whole := wholeBlob(bs)
	if !whole {
		if len(bs) == 0 {
			return codec + ": unexpected end of input"
		}
		if cb, ok := concBytes(bs); ok {
			v, ok := nativeDecode(codec, cb, mapAA)
			if !ok {
				return codec + ": invalid encoding"
			}
			b = &blob{codec: codec, v: p.fromNative(v)}
		} else {
			p.note("bytes that no encoder produced are taken to be refused by the codec")
			return codec + ": malformed"
		}
	} else if b.codec != codec || b.bad {
		if b.codec != codec {
			p.note("an encoding of one codec is taken to be refused by the others")
		}
		return codec + ": malformed"
	}
	v := b.v
	if mapAA {
		v = p.mapsToAA(v)
	}
	switch et := pt.Elem().Underlying().(type) {
	case *types.Interface:
		*ptr = p.freshCopy(v)
		return ""
	case *types.Slice:
		if _, ok := et.Elem().Underlying().(*types.Interface); !ok {
			panic(unsupported("decoding into " + pt.Elem().String()))
		}
		var x Iface
		switch y := v.(type) {
		case Iface:
			x = y
		case *SymIface:
			x = p.pickIface(y)
		}
		if x.t == nil {
			*ptr = []Value(nil)
			return ""
		}
		if !sameType(x.t, tAnySlice) {
			return codec + ": not an array"
		}
		*ptr = p.freshCopy(x).(Iface).v
		return ""
	case *types.Map:
		x, ok := v.(Iface)
		if !ok {
			x = p.pickIface(v.(*SymIface))
		}
		if x.t == nil {
			return ""
		}
		if !sameType(x.t, pt.Elem()) {
			return codec + ": not a map"
		}
		*ptr = p.freshCopy(x).(Iface).v
		return ""
	}
	panic(unsupported("decoding into " + pt.Elem().String()))
}

// freshCopy deep-copies decoded containers so that each decode is independent.
func (p *Path) freshCopy(v Value) Value {
	switch x := v.(type) {
	case Iface:
		switch y := x.v.(type) {
		case []Value:
			if y == nil {
				return x
			}
			n := make([]Value, len(y))
			for i := range y {
				n[i] = p.freshCopy(y[i])
			}
			return Iface{x.t, n}
		case *MapVal:
			if y == nil {
				return x
			}
			n := newMap()
			for _, e := range y.ents {
				n.add(e.k, p.freshCopy(e.v))
			}
			return Iface{x.t, n}
		}
		return x
	case *SymIface:
		n := &SymIface{conds: x.conds}
		for _, a := range x.alts {
			n.alts = append(n.alts, p.freshCopy(a).(Iface))
		}
		return n
	}
	return v
}

func (p *Path) mapsToAA(v Value) Value {
	switch x := v.(type) {
	case Iface:
		switch y := x.v.(type) {
		case []Value:
			if !sameType(x.t, tAnySlice) {
				return x
			}
			n := make([]Value, len(y))
			for i := range y {
				n[i] = p.mapsToAA(y[i])
			}
			return Iface{x.t, n}
		case *MapVal:
			n := newMap()
			for _, e := range y.ents {
				k := e.k
				if _, ok := k.(Iface); !ok {
					k = mkI(types.Typ[types.String], k)
				}
				n.add(k, p.mapsToAA(e.v))
			}
			return Iface{tMapAA, n}
		}
		return x
	case *SymIface:
		n := &SymIface{conds: x.conds}
		for _, a := range x.alts {
			n.alts = append(n.alts, p.mapsToAA(a).(Iface))
		}
		return n
	}
	return v
}

// deepEq is reflect.DeepEqual as a term.
func (p *Path) deepEq(a, b Value) *Term {
	c := p.c
	switch x := a.(type) {
	case Iface:
		if y, ok := b.(*SymIface); ok {
			return p.deepEq(y, x)
		}
		y, ok := b.(Iface)
		if !ok {
			return c.False
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !sameType(x.t, y.t) {
			return c.False
		}
		return p.deepEq(x.v, y.v)
	case *SymIface:
		r := c.False
		for i := range x.alts {
			g := x.conds[i]
			if k, ok := p.knownTruth(g); ok && !k {
				continue
			}
			r = c.Or(r, c.And(g, p.deepEq(x.alts[i], b)))
		}
		return r
	case []Value:
		y, ok := b.([]Value)
		if !ok || (x == nil) != (y == nil) || len(x) != len(y) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, p.deepEq(x[i], y[i]))
		}
		return r
	case Array:
		return p.deepEq([]Value(x), []Value(b.(Array)))
	case Struct:
		y := b.(Struct)
		r := c.True
		for i := range x {
			r = c.And(r, p.deepEq(x[i], y[i]))
		}
		return r
	case *MapVal:
		y, ok := b.(*MapVal)
		if !ok || (x == nil) != (y == nil) {
			return c.False
		}
		if x == nil || x == y {
			return c.True
		}
		if x.live != y.live {
			return c.False
		}
		r := c.True
		for _, e := range x.ents {
			f := p.mapFind(y, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, p.deepEq(e.v, f.v))
		}
		return r
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return c.False
		}
		if x == y {
			return c.True
		}
		if x == nil || y == nil {
			return c.False
		}
		return p.deepEq(*x, *y)
	case *Closure:
		y, _ := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	}
	return p.eqVals(a, b)
}
