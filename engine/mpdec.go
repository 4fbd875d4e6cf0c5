package main

// A model of msgpack.Decoder reading an encoded value piece by piece.

import "go/types"

type mpDec struct {
	bs      []Value
	started bool
	bad     bool
	pending []Value // what is still to be read, next one last
}

func init() {
	const mp = "github.com/vmihailenco/msgpack/v5"
	reg := func(name string, f func(fr *Frame, a []Value) Value) {
		intrinsics[name] = func(fr *Frame, _ *fnInfo, a []Value) Value { return f(fr, a) }
	}
	reg(mp+".NewDecoder", func(fr *Frame, a []Value) Value {
		bs := fr.p.readAll(a[0])
		v := new(Value)
		*v = Struct{}
		fr.p.side[v] = &mpDec{bs: bs}
		return v
	})
	at := func(fr *Frame, a Value) *mpDec {
		ptr, _ := a.(*Value)
		if ptr == nil {
			nilDeref()
		}
		d, _ := fr.p.side[ptr].(*mpDec)
		if d == nil {
			panic(unsupported("msgpack decoder of unknown origin"))
		}
		if !d.started {
			d.started = true
			b, whole := wholeBlob(d.bs)
			if !whole || b.codec != "msgpack" || b.bad {
				fr.p.note("bytes that no encoder produced are taken to be refused by the codec")
				d.bad = true
			} else {
				d.pending = []Value{b.v}
			}
		}
		return d
	}
	pop := func(d *mpDec) Value {
		v := d.pending[len(d.pending)-1]
		d.pending = d.pending[:len(d.pending)-1]
		return v
	}
	reg("(*"+mp+".Decoder).PeekCode", func(fr *Frame, a []Value) Value {
		d := at(fr, a[0])
		if d.bad || len(d.pending) == 0 {
			return Tuple{uint64(0), fr.p.eof()}
		}
		top := &d.pending[len(d.pending)-1]
		if s, ok := (*top).(*SymIface); ok {
			*top = fr.p.sameCode(s)
		}
		return Tuple{mpCode(*top), Iface{}}
	})
	reg("(*"+mp+".Decoder).Skip", func(fr *Frame, a []Value) Value {
		d := at(fr, a[0])
		if d.bad || len(d.pending) == 0 {
			return fr.p.eof()
		}
		pop(d)
		return Iface{}
	})
	length := func(isMap bool) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			d := at(fr, a[0])
			if d.bad || len(d.pending) == 0 {
				return Tuple{uint64(0), fr.p.eof()}
			}
			v := pop(d)
			if s, ok := v.(*SymIface); ok {
				v = fr.p.pickIface(s)
			}
			x := v.(Iface)
			if x.t == nil {
				return Tuple{^uint64(0), Iface{}}
			}
			switch y := x.v.(type) {
			case []Value:
				if !isMap && sameType(x.t, tAnySlice) {
					for i := len(y) - 1; i >= 0; i-- {
						d.pending = append(d.pending, y[i])
					}
					return Tuple{uint64(len(y)), Iface{}}
				}
			case *MapVal:
				if isMap {
					n := 0
					for i := len(y.ents) - 1; i >= 0; i-- {
						n++
						d.pending = append(d.pending, y.ents[i].v)
						k := y.ents[i].k
						if _, ok := k.(Iface); !ok {
							k = mkI(types.Typ[types.String], k)
						}
						d.pending = append(d.pending, k)
					}
					return Tuple{uint64(n), Iface{}}
				}
			}
			d.bad = true
			return Tuple{uint64(0), fr.p.mkError("msgpack: invalid code decoding a length")}
		}
	}
	reg("(*"+mp+".Decoder).DecodeArrayLen", length(false))
	reg("(*"+mp+".Decoder).DecodeMapLen", length(true))
	reg("(*"+mp+".Decoder).Decode", func(fr *Frame, a []Value) Value {
		d := at(fr, a[0])
		if len(a) != 2 || d.bad || len(d.pending) != 1 {
			panic(unsupported("msgpack decoder: Decode of a part"))
		}
		vs := a[1].([]Value)
		if len(vs) != 1 {
			panic(unsupported("msgpack decoder: Decode of several values"))
		}
		pop(d)
		if e := fr.p.unmarshal("msgpack", d.bs, vs[0], false); e != "" {
			return fr.p.mkError(e)
		}
		return Iface{}
	})
	whole := func(kind types.Type) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			d := at(fr, a[0])
			if d.bad {
				return Tuple{zero(kind), fr.p.eof()}
			}
			if len(d.pending) != 1 {
				panic(unsupported("msgpack decoder: Decode of a part"))
			}
			pop(d)
			v := new(Value)
			*v = zero(kind)
			if e := fr.p.unmarshal("msgpack", d.bs, Iface{t: types.NewPointer(kind), v: v}, false); e != "" {
				return Tuple{zero(kind), fr.p.mkError(e)}
			}
			return Tuple{*v, Iface{}}
		}
	}
	reg("(*"+mp+".Decoder).DecodeInterface", whole(tAny))
	reg("(*"+mp+".Decoder).DecodeSlice", whole(tAnySlice))
	reg("(*"+mp+".Decoder).DecodeMap", whole(tMapSA))
	reg(mp+".PutDecoder", func(fr *Frame, a []Value) Value { return nil })
	reg(mp+".GetDecoder", func(fr *Frame, a []Value) Value {
		v := new(Value)
		*v = Struct{}
		fr.p.side[v] = &mpDec{bad: true, started: true}
		return v
	})
	reset := func(fr *Frame, a []Value) Value {
		d, _ := fr.p.side[a[0].(*Value)].(*mpDec)
		if d == nil {
			panic(unsupported("msgpack decoder of unknown origin"))
		}
		*d = mpDec{bs: fr.p.readAll(a[1])}
		return nil
	}
	reg("(*"+mp+".Decoder).Reset", reset)
	reg("(*"+mp+".Decoder).ResetReader", reset)
}

// sameCode narrows alternatives to those of one MessagePack type code.
func (p *Path) sameCode(s *SymIface) Value {
	var codes []uint64
	by := map[uint64][]int{}
	for i, a := range s.alts {
		c := mpCode(a)
		if by[c] == nil {
			codes = append(codes, c)
		}
		by[c] = append(by[c], i)
	}
	var conds []*Term
	for _, c := range codes {
		t := p.c.False
		for _, i := range by[c] {
			t = p.c.Or(t, s.conds[i])
		}
		conds = append(conds, t)
	}
	k := 0
	if len(codes) > 1 {
		k = p.decide(conds)
	}
	r := &SymIface{}
	for _, i := range by[codes[k]] {
		r.conds = append(r.conds, s.conds[i])
		r.alts = append(r.alts, s.alts[i])
	}
	if len(r.alts) == 1 {
		return r.alts[0]
	}
	return r
}

// mpCode is a type code for a value; all scalars get one of their own size.
func mpCode(v Value) uint64 {
	x, ok := v.(Iface)
	if !ok {
		return mpCode(v.(*SymIface).alts[0])
	}
	switch y := x.v.(type) {
	case []Value:
		if sameType(x.t, tAnySlice) && len(y) < 16 {
			return 0x90 | uint64(len(y))
		} else if sameType(x.t, tAnySlice) {
			return 0xdc
		}
	case *MapVal:
		if y.live < 16 {
			return 0x80 | uint64(y.live)
		}
		return 0xde
	}
	return 0xc0
}
