package main

// Encoders and decoders over writers and readers, and the text-encoding
// functions that work on buffers.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type streamEnc struct {
	codec string
	w     Value
}

type streamDec struct {
	codec string
	r     Value
	bs    []Value
	read  bool
	aa    bool
}

func (p *Path) invoke(fr *Frame, recv Value, name string, args ...Value) Value {
	ifc, ok := recv.(Iface)
	if !ok {
		panic(unsupported("writer of unknown kind"))
	}
	if ifc.t == nil {
		nilDeref()
	}
	sel := p.prg.prog.MethodSets.MethodSet(ifc.t).Lookup(nil, name)
	if sel == nil {
		panic(unsupported("method " + name + " of " + ifc.t.String()))
	}
	return p.call(fr.th, fr, p.prg.prog.MethodValue(sel), append([]Value{copyVal(ifc.v)}, args...), nil)
}

// readAll is what a reader in memory still has to give.
func (p *Path) readAll(r Value) []Value {
	ifc, ok := r.(Iface)
	if !ok || ifc.t == nil {
		panic(unsupported("decoder over another reader"))
	}
	switch ifc.t.String() {
	case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
		st, ok := (*ifc.v.(*Value)).(Struct)
		if !ok {
			break
		}
		off, ok := st[1].(uint64)
		if !ok {
			break
		}
		return toBytesOrNil(st[0])[off:]
	}
	panic(unsupported("decoder over " + ifc.t.String()))
}

func toBytesOrNil(v Value) []Value {
	if v == nil {
		return nil
	}
	return toBytes(v)
}

func (p *Path) encodeTo(fr *Frame, e *streamEnc, v Value) Value {
	b, msg := p.marshal(e.codec, v)
	if msg != "" {
		return p.mkError(msg)
	}
	if e.codec == "json" {
		b = append(b, uint64('\n'))
	}
	r := p.invoke(fr, e.w, "Write", b)
	return r.(Tuple)[1]
}

func isSpace(v Value) bool {
	u, ok := v.(uint64)
	return ok && (u == ' ' || u == '\t' || u == '\n' || u == '\r')
}

// trimJSON drops the white space around a JSON text.
func trimJSON(bs []Value) []Value {
	for len(bs) > 0 && isSpace(bs[0]) {
		bs = bs[1:]
	}
	for len(bs) > 0 && isSpace(bs[len(bs)-1]) {
		bs = bs[:len(bs)-1]
	}
	return bs
}

func (p *Path) decodeFrom(d *streamDec, target Value) Value {
	if !d.read {
		d.read = true
		d.bs = append([]Value(nil), p.readAll(d.r)...)
	}
	if d.codec == "json" {
		d.bs = trimJSON(d.bs)
	}
	if len(d.bs) == 0 {
		return p.eof()
	}
	first := d.bs
	if len(first) > blobLen {
		if _, whole := wholeBlob(first[:blobLen]); whole {
			first = first[:blobLen]
		} else if b, ok := concBytes(first); ok && d.codec == "json" {
			if n := jsonValueLen(b); n > 0 {
				first = first[:n]
			}
		}
	}
	if e := p.unmarshal(d.codec, first, target, d.aa); e != "" {
		return p.mkError(e)
	}
	d.bs = d.bs[len(first):]
	return Iface{}
}

func init() {
	reg := func(name string, f func(fr *Frame, a []Value) Value) {
		intrinsics[name] = func(fr *Frame, _ *fnInfo, a []Value) Value { return f(fr, a) }
	}
	const cb = "github.com/fxamacker/cbor/v2"
	const mp = "github.com/vmihailenco/msgpack/v5"
	newEnc := func(codec string, at int) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			v := new(Value)
			*v = Struct{}
			fr.p.side[v] = &streamEnc{codec: codec, w: a[at]}
			return v
		}
	}
	enc := func(fr *Frame, a Value) *streamEnc {
		ptr, _ := a.(*Value)
		if ptr == nil {
			nilDeref()
		}
		e, _ := fr.p.side[ptr].(*streamEnc)
		if e == nil {
			panic(unsupported("encoder of unknown origin"))
		}
		return e
	}
	newDec := func(codec string, at int, aa bool) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			if at == 1 {
				m, ok := fr.p.side[a[0].(*Value)].(bool)
				if !ok {
					panic(unsupported("cbor decode mode"))
				}
				aa = m
			}
			v := new(Value)
			*v = Struct{}
			fr.p.side[v] = &streamDec{codec: codec, r: a[at], aa: aa}
			return v
		}
	}
	dec := func(fr *Frame, a Value) *streamDec {
		ptr, _ := a.(*Value)
		if ptr == nil {
			nilDeref()
		}
		d, _ := fr.p.side[ptr].(*streamDec)
		if d == nil {
			panic(unsupported("decoder of unknown origin"))
		}
		return d
	}
	encode := func(fr *Frame, a []Value) Value { return fr.p.encodeTo(fr, enc(fr, a[0]), a[1]) }
	decode := func(fr *Frame, a []Value) Value { return fr.p.decodeFrom(dec(fr, a[0]), a[1]) }
	none := func(fr *Frame, a []Value) Value { return nil }

	reg("encoding/json.NewEncoder", newEnc("json", 0))
	reg("(*encoding/json.Encoder).Encode", encode)
	reg("(*encoding/json.Encoder).SetEscapeHTML", none)
	reg("encoding/json.NewDecoder", newDec("json", 0, false))
	reg("(*encoding/json.Decoder).Decode", decode)
	reg("(*encoding/json.Decoder).DisallowUnknownFields", none)
	reg("(*encoding/json.Decoder).More", func(fr *Frame, a []Value) Value {
		d := dec(fr, a[0])
		if !d.read {
			d.read = true
			d.bs = append([]Value(nil), fr.p.readAll(d.r)...)
		}
		bs := trimJSON(d.bs)
		if len(bs) == 0 {
			return false
		}
		if _, ok := bs[0].(*blobByte); ok {
			return true
		}
		c := fr.p.c
		t := fr.p.bv(bs[0], 8)
		return fr.p.val(c.Not(c.Or(c.Eq(t, c.BV(']', 8)), c.Eq(t, c.BV('}', 8)))))
	})

	reg(cb+".NewEncoder", newEnc("cbor", 0))
	reg("(*"+cb+".encMode).NewEncoder", newEnc("cbor", 1))
	reg("(*"+cb+".Encoder).Encode", encode)
	reg(cb+".NewDecoder", newDec("cbor", 0, true))
	reg("(*"+cb+".decMode).NewDecoder", newDec("cbor", 1, true))
	reg("(*"+cb+".Decoder).Decode", decode)
	wellFormed := func(codec string) func(fr *Frame, a []Value) bool {
		return func(fr *Frame, a []Value) bool {
			bs := toBytesOrNil(a[len(a)-1])
			b, whole := wholeBlob(bs)
			if !whole {
				fr.p.note("bytes that no encoder produced are taken to be refused by the codec")
			}
			return whole && b.codec == codec && !b.bad
		}
	}
	for _, n := range []string{cb + ".Wellformed", cb + ".Valid", "(*" + cb + ".decMode).Wellformed", "(*" + cb + ".decMode).Valid"} {
		reg(n, func(fr *Frame, a []Value) Value {
			if wellFormed("cbor")(fr, a) {
				return Iface{}
			}
			return fr.p.mkError("cbor: malformed")
		})
	}

	reg(mp+".NewEncoder", newEnc("msgpack", 0))
	reg(mp+".GetEncoder", func(fr *Frame, a []Value) Value { return newEnc("msgpack", 0)(fr, []Value{Iface{}}) })
	reg(mp+".PutEncoder", none)
	reg("(*"+mp+".Encoder).Reset", func(fr *Frame, a []Value) Value { enc(fr, a[0]).w = a[1]; return nil })
	reg("(*"+mp+".Encoder).SetSortMapKeys", func(fr *Frame, a []Value) Value { return a[0] })
	reg("(*"+mp+".Encoder).SetOmitEmpty", none)
	reg("(*"+mp+".Encoder).SetCustomStructTag", none)
	reg("(*"+mp+".Encoder).Encode", encode)
	reg("(*"+mp+".Encoder).EncodeMulti", func(fr *Frame, a []Value) Value {
		for _, v := range a[1].([]Value) {
			if e := fr.p.encodeTo(fr, enc(fr, a[0]), v).(Iface); e.t != nil {
				return e
			}
		}
		return Iface{}
	})

	// ---- text encodings over buffers ----
	put := func(dst Value, src []Value) {
		d, _ := dst.([]Value)
		if len(d) < len(src) {
			panic(goPanic{mkRTError("index out of range")})
		}
		copy(d, src)
	}
	app := func(dst Value, src []Value) []Value {
		d, _ := dst.([]Value)
		return append(d[:len(d):len(d)], src...)
	}
	reg("encoding/hex.Encode", func(fr *Frame, a []Value) Value {
		out := fr.p.hexEnc(toBytesOrNil(a[1]))
		put(a[0], out)
		return uint64(len(out))
	})
	reg("encoding/hex.AppendEncode", func(fr *Frame, a []Value) Value { return app(a[0], fr.p.hexEnc(toBytesOrNil(a[1]))) })
	reg("encoding/hex.Decode", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.hexDec(toBytesOrNil(a[1]))
		if !ok {
			return Tuple{uint64(0), fr.p.mkError("encoding/hex: invalid")}
		}
		put(a[0], out)
		return Tuple{uint64(len(out)), Iface{}}
	})
	reg("encoding/hex.AppendDecode", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.hexDec(toBytesOrNil(a[1]))
		if !ok {
			return Tuple{a[0], fr.p.mkError("encoding/hex: invalid")}
		}
		return Tuple{app(a[0], out), Iface{}}
	})
	const b64 = "(*encoding/base64.Encoding)."
	reg(b64+"EncodeToString", func(fr *Frame, a []Value) Value {
		return mkStr(fr.p.b64As(fr.p.b64Kind(a[0]), toBytesOrNil(a[1])))
	})
	reg(b64+"Encode", func(fr *Frame, a []Value) Value {
		put(a[1], fr.p.b64As(fr.p.b64Kind(a[0]), toBytesOrNil(a[2])))
		return nil
	})
	reg(b64+"AppendEncode", func(fr *Frame, a []Value) Value {
		return app(a[1], fr.p.b64As(fr.p.b64Kind(a[0]), toBytesOrNil(a[2])))
	})
	reg(b64+"DecodeString", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.b64From(fr.p.b64Kind(a[0]), mustStr(a[1]))
		if !ok {
			return Tuple{[]Value{}, fr.p.mkError("illegal base64 data")}
		}
		return Tuple{out, Iface{}}
	})
	reg(b64+"Decode", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.b64From(fr.p.b64Kind(a[0]), toBytesOrNil(a[2]))
		if !ok {
			return Tuple{uint64(0), fr.p.mkError("illegal base64 data")}
		}
		put(a[1], out)
		return Tuple{uint64(len(out)), Iface{}}
	})
	reg(b64+"AppendDecode", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.b64From(fr.p.b64Kind(a[0]), toBytesOrNil(a[2]))
		if !ok {
			return Tuple{a[1], fr.p.mkError("illegal base64 data")}
		}
		return Tuple{app(a[1], out), Iface{}}
	})

	// ---- formatted output ----
	sprint := func(ln bool) func(fr *Frame, xs []Value) Value {
		return func(fr *Frame, xs []Value) Value {
			var r Value = ""
			prevStr := true
			for i, x := range xs {
				s := fr.p.sprintf(fr, "%v", []Value{x}, false)
				if _, ok := strBytes(s); !ok {
					return s
				}
				ifc, _ := x.(Iface)
				isStr := ifc.t != nil && isString(ifc.t)
				if i > 0 && (ln || !isStr && !prevStr) {
					r = fr.p.concat(r, " ")
				}
				prevStr = isStr
				r = fr.p.concat(r, s)
			}
			if ln {
				r = fr.p.concat(r, "\n")
			}
			return r
		}
	}
	text := map[string]func(fr *Frame, a []Value) Value{
		"f": func(fr *Frame, a []Value) Value {
			f, ok := a[0].(string)
			if !ok {
				return &OpaqueStr{desc: "sprintf"}
			}
			return fr.p.sprintf(fr, f, anys(a[1]), false)
		},
		"":   func(fr *Frame, a []Value) Value { return sprint(false)(fr, anys(a[0])) },
		"ln": func(fr *Frame, a []Value) Value { return sprint(true)(fr, anys(a[0])) },
	}
	for k, f := range text {
		reg("fmt.Print"+k, func(fr *Frame, a []Value) Value { return Tuple{uint64(0), Iface{}} })
		reg("fmt.Sprint"+k, f)
		reg("fmt.Fprint"+k, func(fr *Frame, a []Value) Value {
			if w, ok := a[0].(Iface); ok && w.t != nil && w.t.String() == "*os.File" {
				return Tuple{uint64(0), Iface{}}
			}
			b, ok := strBytes(f(fr, a[1:]))
			if !ok {
				panic(unsupported("unknown text written to a writer"))
			}
			return fr.p.invoke(fr, a[0], "Write", append([]Value(nil), b...))
		})
		reg("fmt.Append"+k, func(fr *Frame, a []Value) Value {
			b, ok := strBytes(f(fr, a[1:]))
			if !ok {
				panic(unsupported("unknown text appended"))
			}
			return app(a[0], b)
		})
	}
}

func anys(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

type b64Kind struct{ url, raw bool }

func (p *Path) b64Kind(enc Value) b64Kind {
	ptr, _ := enc.(*Value)
	if ptr == nil {
		nilDeref()
	}
	for name, k := range map[string]b64Kind{"StdEncoding": {}, "URLEncoding": {url: true}, "RawStdEncoding": {raw: true},
		"RawURLEncoding": {url: true, raw: true}} {
		if *p.global(p.prg.pkgs["encoding/base64"].Members[name].(*ssa.Global)) == Value(ptr) {
			return k
		}
	}
	panic(unsupported("custom base64 encoding"))
}

// swap exchanges the two characters that differ between the alphabets.
func (p *Path) swap(s []Value, from, to string) []Value {
	c := p.c
	out := make([]Value, len(s))
	for i, v := range s {
		t := p.bv(v, 8)
		out[i] = p.val(c.Ite(c.Eq(t, c.BV(uint64(from[0]), 8)), c.BV(uint64(to[0]), 8),
			c.Ite(c.Eq(t, c.BV(uint64(from[1]), 8)), c.BV(uint64(to[1]), 8), t)))
	}
	return out
}

func (k b64Kind) String() string {
	return strings.TrimSpace("b64" + map[bool]string{true: "url"}[k.url] + map[bool]string{true: "raw"}[k.raw])
}

func (p *Path) b64As(k b64Kind, b []Value) []Value {
	out := p.b64enc(b)
	if k == (b64Kind{}) {
		return out
	}
	if k.raw {
		for len(out) > 0 && out[len(out)-1] == Value(uint64('=')) {
			out = out[:len(out)-1]
		}
	}
	if k.url {
		out = p.swap(out, "+/", "-_")
	}
	if len(out) > 0 {
		p.remember(k.String(), out, b)
	}
	return out
}

func (p *Path) b64From(k b64Kind, s []Value) ([]Value, bool) {
	if k == (b64Kind{}) {
		return p.b64dec(s)
	}
	if d, ok := p.recall(k.String(), s); ok {
		return d, true
	}
	c := p.c
	bad := c.False
	for _, v := range s {
		t := p.bv(v, 8)
		if k.url {
			bad = c.OrN(bad, c.Eq(t, c.BV('+', 8)), c.Eq(t, c.BV('/', 8)))
		}
		if k.raw {
			bad = c.Or(bad, c.Eq(t, c.BV('=', 8)))
		}
	}
	if p.branch(p.val(bad)) {
		return nil, false
	}
	if k.url {
		s = p.swap(s, "-_", "+/")
	}
	if k.raw {
		if len(s)%4 == 1 {
			return nil, false
		}
		s = append([]Value(nil), s...)
		for len(s)%4 != 0 {
			s = append(s, uint64('='))
		}
	}
	return p.b64dec(s)
}

// encodeStruct gives the map that a struct is written as.
func (p *Path) encodeStruct(codec string, u *types.Struct, v Struct, guard *Term) Value {
	out := newMap()
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Embedded() {
			panic(unsupported("encoding of embedded fields"))
		}
		if !f.Exported() {
			continue
		}
		tags := reflect.StructTag(u.Tag(i))
		tag := tags.Get(codec)
		if codec == "cbor" && tag == "" {
			tag = tags.Get("json")
		}
		name, opts, _ := strings.Cut(tag, ",")
		if tag == "-" {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		if opts == "omitempty" {
			e, ok := isEmpty(v[i])
			if !ok {
				panic(unsupported("omitempty of a symbolic value"))
			}
			if e {
				continue
			}
		} else if opts != "" {
			panic(unsupported("struct tag " + tag))
		}
		out.add(name, p.encodeElem(codec, f.Type(), v[i], guard))
	}
	return mkI(tMapSA, out)
}

func isEmpty(v Value) (empty, known bool) {
	switch x := v.(type) {
	case nil:
		return true, true
	case bool:
		return !x, true
	case uint64:
		return x == 0, true
	case string:
		return x == "", true
	case *SymStr:
		return len(x.b) == 0, true
	case []Value:
		return len(x) == 0, true
	case *MapVal:
		return x == nil || x.live == 0, true
	case Iface:
		return x.t == nil, true
	case *Value:
		return x == nil, true
	}
	return false, false
}

// errorsAs is errors.As.
func (p *Path) errorsAs(fr *Frame, err, target Value) bool {
	tg, _ := target.(Iface)
	pt, ok := tg.t.(*types.Pointer)
	if tg.t == nil || !ok || tg.v.(*Value) == nil {
		panic(goPanic{mkRTError("errors: target must be a non-nil pointer")})
	}
	want := pt.Elem()
	iface, isI := want.Underlying().(*types.Interface)
	var walk func(e Value) bool
	walk = func(e Value) bool {
		for {
			if s, ok := e.(*SymIface); ok {
				e = p.pickIface(s)
			}
			x, _ := e.(Iface)
			if x.t == nil {
				return false
			}
			if isI && p.prg.implements(x.t, iface) {
				p.store(tg.v, x)
				return true
			}
			if !isI && sameType(x.t, want) {
				p.store(tg.v, copyVal(x.v))
				return true
			}
			ms := p.prg.prog.MethodSets.MethodSet(x.t)
			if sel := ms.Lookup(nil, "As"); sel != nil {
				if sg := sel.Type().(*types.Signature); sg.Params().Len() == 1 && sg.Results().Len() == 1 {
					if p.branch(p.invoke(fr, x, "As", target)) {
						return true
					}
				}
			}
			sel := ms.Lookup(nil, "Unwrap")
			if sel == nil {
				return false
			}
			r := p.invoke(fr, x, "Unwrap")
			if many, ok := r.([]Value); ok {
				for _, e := range many {
					if walk(e) {
						return true
					}
				}
				return false
			}
			e = r
		}
	}
	return walk(err)
}

func init() {
	intrinsics["errors.As"] = func(fr *Frame, _ *fnInfo, a []Value) Value { return fr.p.errorsAs(fr, a[0], a[1]) }
}
