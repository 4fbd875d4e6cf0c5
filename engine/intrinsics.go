package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"

	mathrand "math/rand"

	exprand "golang.org/x/exp/rand"
	"golang.org/x/tools/go/ssa"
)

func stackTrace() string { return string(debug.Stack()) }

const symPkg = "github.com/xconnio/wampproto-go/internal/zzverif/sym."

var intrinsics map[string]intrinsic

func conc(v Value, what string) uint64 {
	u, ok := v.(uint64)
	if !ok {
		panic(unsupported("symbolic " + what))
	}
	return u
}
func concInt(v Value, what string) int { return int(int64(conc(v, what))) }
func concStr(v Value, what string) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic " + what))
	}
	return s
}

func (p *Path) mkError(msg Value) Iface {
	pk := p.prg.pkgs["errors"]
	t := types.NewPointer(pk.Pkg.Scope().Lookup("errorString").Type())
	v := new(Value)
	*v = Struct{msg}
	return Iface{t: t, v: v}
}

func (p *Path) input(kind, name string, s Sort) *Term {
	t := p.freshVar(s)
	p.inputs = append(p.inputs, Input{Kind: kind, Name: name, T: t})
	return t
}

func nilErr() Value { return Iface{} }

func init() {
	in := map[string]intrinsic{}
	intrinsics = in
	reg := func(name string, f func(fr *Frame, a []Value) Value) {
		in[name] = func(fr *Frame, _ *fnInfo, a []Value) Value { return f(fr, a) }
	}
	sym := func(name string, f func(p *Path, a []Value) Value) {
		in[symPkg+name] = func(fr *Frame, _ *fnInfo, a []Value) Value { return f(fr.p, a) }
	}
	// ---- sym ----
	in[symPkg+"init"] = func(fr *Frame, _ *fnInfo, a []Value) Value { return nil }
	sym("Uint64", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(64)) })
	sym("Int64", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(64)) })
	sym("Int", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(64)) })
	sym("Uint32", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(32)) })
	sym("Uint16", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(16)) })
	sym("Uint8", func(p *Path, a []Value) Value { return p.input("u64", concStr(a[0], "name"), bvSort(8)) })
	sym("Bool", func(p *Path, a []Value) Value { return p.input("bool", concStr(a[0], "name"), boolSort) })
	sym("Float64", func(p *Path, a []Value) Value {
		return p.c.FBits(p.input("f64", concStr(a[0], "name"), bvSort(64)))
	})
	sym("Float32", func(p *Path, a []Value) Value {
		return p.c.FBits(p.input("f32", concStr(a[0], "name"), bvSort(32)))
	})
	str := func(p *Path, a []Value) []Value {
		n := concInt(a[1], "length")
		b := make([]Value, n)
		for i := range b {
			b[i] = p.freshVar(bvSort(8))
		}
		p.inputs = append(p.inputs, Input{Kind: "str", Name: concStr(a[0], "name"), B: b})
		return b
	}
	sym("Str", func(p *Path, a []Value) Value {
		b := str(p, a)
		for _, x := range b { // printable ASCII
			t := x.(*Term)
			p.addPC(p.c.And(p.c.Bin(OUle, p.c.BV(0x20, 8), t), p.c.Bin(OUlt, t, p.c.BV(0x7f, 8))))
		}
		return mkStr(b)
	})
	sym("StrRaw", func(p *Path, a []Value) Value { return mkStr(str(p, a)) })
	sym("StrOver", func(p *Path, a []Value) Value {
		b := str(p, a)
		al := concStr(a[2], "alphabet")
		for _, x := range b {
			c := p.c.False
			for i := 0; i < len(al); i++ {
				c = p.c.Or(c, p.c.Eq(x.(*Term), p.c.BV(uint64(al[i]), 8)))
			}
			p.addPC(c)
		}
		return mkStr(b)
	})
	sym("Bytes", func(p *Path, a []Value) Value { return append([]Value{}, str(p, a)...) })
	sym("Choice", func(p *Path, a []Value) Value {
		n := concInt(a[1], "choice")
		k := p.choose(n)
		p.inputs = append(p.inputs, Input{Kind: "choice", Name: concStr(a[0], "name"), C: k})
		return uint64(k)
	})
	sym("OneOf", func(p *Path, a []Value) Value {
		alts := a[1].([]Value)
		sel := p.input("sel", concStr(a[0], "name"), bvSort(8))
		p.addPC(p.c.Bin(OUlt, sel, p.c.BV(uint64(len(alts)), 8)))
		s := &SymIface{}
		for i, x := range alts {
			c := p.c.Eq(sel, p.c.BV(uint64(i), 8))
			switch x := x.(type) {
			case Iface:
				s.conds = append(s.conds, c)
				s.alts = append(s.alts, x)
			case *SymIface:
				for j := range x.alts {
					s.conds = append(s.conds, p.c.And(c, x.conds[j]))
					s.alts = append(s.alts, x.alts[j])
				}
			}
		}
		return s
	})
	sym("Assume", func(p *Path, a []Value) Value { p.assume(a[0]); return nil })
	sym("Assert", func(p *Path, a []Value) Value { p.assert(a[0], concStr(a[1], "label"), ""); return nil })
	sym("Known", func(p *Path, a []Value) Value {
		// Known(id, applies, ok, label)
		id, label := concStr(a[0], "id"), concStr(a[3], "label")
		ap, ok := p.term(a[1]), p.term(a[2])
		p.assert(p.val(p.c.Or(ap, ok)), label, "")
		p.assert(p.val(p.c.Or(p.c.Not(ap), ok)), label+" [known "+id+"]", id)
		return nil
	})
	sym("Possible", func(p *Path, a []Value) Value { p.possible(a[0], concStr(a[1], "label")); return nil })
	sym("Varies", func(p *Path, a []Value) Value { p.varies(a[0], concStr(a[1], "label")); return nil })
	sym("Havoc", func(p *Path, a []Value) Value { return p.havoc(a[0].(Iface), concStr(a[1], "name")) })
	sym("Cover", func(p *Path, a []Value) Value { p.covers[concStr(a[0], "label")]++; return nil })
	sym("And", func(p *Path, a []Value) Value {
		r := p.c.True
		for _, x := range a[0].([]Value) {
			r = p.c.And(r, p.term(x))
		}
		return p.val(r)
	})
	sym("Or", func(p *Path, a []Value) Value {
		r := p.c.False
		for _, x := range a[0].([]Value) {
			r = p.c.Or(r, p.term(x))
		}
		return p.val(r)
	})
	sym("Not", func(p *Path, a []Value) Value { return p.val(p.c.Not(p.term(a[0]))) })
	sym("Implies", func(p *Path, a []Value) Value {
		return p.val(p.c.Or(p.c.Not(p.term(a[0])), p.term(a[1])))
	})
	sym("Iff", func(p *Path, a []Value) Value { return p.val(p.c.Eq(p.term(a[0]), p.term(a[1]))) })
	sym("IteU64", func(p *Path, a []Value) Value {
		return p.val(p.c.Ite(p.term(a[0]), p.bv(a[1], 64), p.bv(a[2], 64)))
	})
	sym("IteU8", func(p *Path, a []Value) Value {
		return p.val(p.c.Ite(p.term(a[0]), p.bv(a[1], 8), p.bv(a[2], 8)))
	})
	sym("Eq", func(p *Path, a []Value) Value { return p.val(p.deepEq(a[0], a[1])) })
	sym("SameF64", func(p *Path, a []Value) Value { return p.val(p.c.Eq(p.term(a[0]), p.term(a[1]))) })
	sym("Concretize", func(p *Path, a []Value) Value {
		lo, hi := concInt(a[1], "lo"), concInt(a[2], "hi")
		if u, ok := a[0].(uint64); ok {
			return u
		}
		return uint64(p.concretizeRange(a[0].(*Term), int64(lo), int64(hi)))
	})
	for i, name := range []string{"Keys", "Words", "Sizes"} {
		sym(name, func(p *Path, a []Value) Value {
			var ls [3][]string
			ls[0], ls[1], ls[2] = p.prg.vocab()
			p.inputs = append(p.inputs, Input{Kind: "words", Name: strings.Join(ls[i], " ")})
			r := []Value{}
			for _, s := range ls[i] {
				if i == 2 {
					n, _ := strconv.Atoi(s)
					r = append(r, uint64(n))
				} else {
					r = append(r, s)
				}
			}
			return r
		})
	}
	sym("Branch", func(p *Path, a []Value) Value { return p.branch(a[0]) })
	sym("IsNil", func(p *Path, a []Value) Value { return p.val(p.eqVals(a[0], Iface{})) })
	sym("Observe", func(p *Path, a []Value) Value {
		p.observes = append(p.observes, obs{concStr(a[0], "label"), p.snapshot(a[1])})
		return nil
	})
	sym("Thorough", func(p *Path, a []Value) Value { return p.w.ex.thorough })
	sym("Bound", func(p *Path, a []Value) Value {
		v := conc(a[1], "bound")
		if p.w.ex.thorough {
			v = conc(a[2], "bound")
		}
		p.bounds[concStr(a[0], "name")] = int(int64(v))
		return v
	})
	sym("Symbolic", func(p *Path, a []Value) Value { return true })
	sym("EnvNondet", func(p *Path, a []Value) Value { p.envND = true; return nil })
	sym("Note", func(p *Path, a []Value) Value { p.note(concStr(a[0], "note")); return nil })
	sym("MapOrder", func(p *Path, a []Value) Value { p.mapOrder = concInt(a[0], "order"); return nil })
	in[symPkg+"Go"] = func(fr *Frame, _ *fnInfo, a []Value) Value { fr.p.spawn(fr, a[0], nil); return nil }
	in[symPkg+"Join"] = func(fr *Frame, _ *fnInfo, a []Value) Value {
		p, th := fr.p, fr.th
		th.block = func() bool {
			for _, t := range p.threads {
				if t != th && !t.done {
					return false
				}
			}
			return true
		}
		th.what = "join"
		p.schedPoint(th)
		for _, t := range p.threads {
			th.vc = joinVC(th.vc, t.vc)
		}
		return nil
	}
	sym("LocksHeld", func(p *Path, a []Value) Value { return uint64(p.heldLocks) })
	// UF(name, outLen, injective, args...) []byte: an uninterpreted function on byte strings
	sym("UF", func(p *Path, a []Value) Value {
		var ins [][]Value
		for _, x := range a[3].([]Value) {
			ins = append(ins, append([]Value(nil), x.([]Value)...))
		}
		return p.uf(concStr(a[0], "uf"), concInt(a[1], "uf length"), a[2].(bool), ins)
	})
	sym("FreshBytes", func(p *Path, a []Value) Value { return p.freshRandom(concInt(a[0], "length")) })
	sym("FreshBelow", func(p *Path, a []Value) Value { return p.freshBelow(p.bv(a[0], 64)) })
	sym("FreshInt64", func(p *Path, a []Value) Value { p.envND = true; return p.freshVar(bvSort(64)) })
	sym("Unsupported", func(p *Path, a []Value) Value { panic(unsupported(concStr(a[0], "msg"))) })

	// ---- sync ----
	for _, ty := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+ty+").Lock", func(fr *Frame, a []Value) Value { fr.p.lock(fr.th, a[0], false); return nil })
		reg("(*sync."+ty+").Unlock", func(fr *Frame, a []Value) Value { fr.p.unlock(fr.th, a[0], false); return nil })
		reg("(*sync."+ty+").TryLock", func(fr *Frame, a []Value) Value { return fr.p.tryLock(fr.th, a[0], false) })
	}
	reg("(*sync.RWMutex).RLock", func(fr *Frame, a []Value) Value { fr.p.lock(fr.th, a[0], true); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, a []Value) Value { fr.p.unlock(fr.th, a[0], true); return nil })
	reg("(*sync.RWMutex).TryRLock", func(fr *Frame, a []Value) Value { return fr.p.tryLock(fr.th, a[0], true) })
	sm := func(fr *Frame, ptr Value) *MapVal {
		k := ptr.(*Value)
		if k == nil {
			nilDeref()
		}
		fr.p.syncVar(fr.th, k)
		m, _ := fr.p.side[k].(*MapVal)
		if m == nil {
			m = newMap()
			fr.p.side[k] = m
		}
		return m
	}
	loadSM := func(fr *Frame, m *MapVal, k Value) (Value, Value) {
		if e := fr.p.mapFind(m, k); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	reg("(*sync.Map).Load", func(fr *Frame, a []Value) Value {
		v, ok := loadSM(fr, sm(fr, a[0]), a[1])
		return Tuple{v, ok}
	})
	reg("(*sync.Map).Store", func(fr *Frame, a []Value) Value { fr.p.mapSet(sm(fr, a[0]), a[1], a[2]); return nil })
	reg("(*sync.Map).Clear", func(fr *Frame, a []Value) Value { *sm(fr, a[0]) = MapVal{}; return nil })
	reg("(*sync.Map).Delete", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			m.remove(e)
		}
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		e := fr.p.mapFind(m, a[1])
		if e == nil {
			return Tuple{Iface{}, false}
		}
		m.remove(e)
		return Tuple{e.v, true}
	})
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		fr.p.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Swap", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			o := e.v
			e.v = a[2]
			return Tuple{o, true}
		}
		fr.p.mapSet(m, a[1], a[2])
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).CompareAndSwap", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		e := fr.p.mapFind(m, a[1])
		if e == nil || !fr.p.branch(fr.p.val(fr.p.eqVals(e.v, a[2]))) {
			return false
		}
		e.v = a[3]
		return true
	})
	reg("(*sync.Map).CompareAndDelete", func(fr *Frame, a []Value) Value {
		m := sm(fr, a[0])
		e := fr.p.mapFind(m, a[1])
		if e == nil || !fr.p.branch(fr.p.val(fr.p.eqVals(e.v, a[2]))) {
			return false
		}
		m.remove(e)
		return true
	})
	reg("(*sync.Map).Range", func(fr *Frame, a []Value) Value {
		p := fr.p
		m := sm(fr, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !p.branch(p.callValue(fr, a[1], []Value{e.k, e.v})) {
				break
			}
			p.syncVar(fr.th, a[0].(*Value))
		}
		return nil
	})
	reg("(*sync.Once).Do", func(fr *Frame, a []Value) Value {
		k := a[0].(*Value)
		fr.p.syncVar(fr.th, k)
		if fr.p.side[k] == nil {
			fr.p.side[k] = true
			fr.p.callValue(fr, a[1], nil)
			fr.p.syncVar(fr.th, k)
		}
		return nil
	})
	type wg struct{ n int64 }
	wgOf := func(fr *Frame, a Value) *wg {
		k := a.(*Value)
		w, _ := fr.p.side[k].(*wg)
		if w == nil {
			w = &wg{}
			fr.p.side[k] = w
		}
		return w
	}
	reg("(*sync.WaitGroup).Add", func(fr *Frame, a []Value) Value {
		w := wgOf(fr, a[0])
		fr.p.syncVar(fr.th, [2]any{a[0], "wg"})
		w.n += int64(conc(a[1], "waitgroup delta"))
		if w.n < 0 {
			panic(goPanic{mkRTError("sync: negative WaitGroup counter")})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, a []Value) Value {
		w := wgOf(fr, a[0])
		fr.p.syncVar(fr.th, [2]any{a[0], "wg"})
		w.n--
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, a []Value) Value {
		w := wgOf(fr, a[0])
		fr.th.block = func() bool { return w.n <= 0 }
		fr.th.what = "WaitGroup"
		fr.p.schedPoint(fr.th)
		fr.p.syncVar(fr.th, [2]any{a[0], "wg"})
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *Frame, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		if f, ok := s[len(s)-1].(*Closure); ok && f != nil {
			return fr.p.callValue(fr, f, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(fr *Frame, a []Value) Value { return nil })
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg("sync/atomic.Load"+ty, func(fr *Frame, a []Value) Value {
			fr.p.syncVar(fr.th, a[0])
			return copyVal(*a[0].(*Value))
		})
		reg("sync/atomic.Store"+ty, func(fr *Frame, a []Value) Value {
			fr.p.syncVar(fr.th, a[0])
			*a[0].(*Value) = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+ty, func(fr *Frame, a []Value) Value {
			fr.p.syncVar(fr.th, a[0])
			o := *a[0].(*Value)
			*a[0].(*Value) = a[1]
			return o
		})
		reg("sync/atomic.Add"+ty, func(fr *Frame, a []Value) Value {
			fr.p.syncVar(fr.th, a[0])
			ptr := a[0].(*Value)
			*ptr = fr.p.intBin(token.ADD, w, false, nil, *ptr, a[1])
			return *ptr
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(fr *Frame, a []Value) Value {
			fr.p.syncVar(fr.th, a[0])
			ptr := a[0].(*Value)
			if fr.p.branch(fr.p.val(fr.p.eqVals(*ptr, a[1]))) {
				*ptr = a[2]
				return true
			}
			return false
		})
	}
	// ---- errors / fmt ----
	reg("fmt.Errorf", func(fr *Frame, a []Value) Value {
		p := fr.p
		args := a[1].([]Value)
		f, _ := a[0].(string)
		msg := p.sprintf(fr, f, args, true)
		var wrapped []Value
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.[]", f[i]) >= 0 {
				i++
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if f[i] == 'w' && ai < len(args) {
				wrapped = append(wrapped, args[ai])
			}
			ai++
		}
		if len(wrapped) == 1 {
			pk := p.prg.pkgs["fmt"]
			t := types.NewPointer(pk.Pkg.Scope().Lookup("wrapError").Type())
			v := new(Value)
			*v = Struct{msg, wrapped[0]}
			return Iface{t: t, v: v}
		}
		return p.mkError(msg)
	})
	reg("(*errors.joinError).Error", func(fr *Frame, a []Value) Value { return &OpaqueStr{desc: "joined errors"} })
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		reg(n, func(fr *Frame, a []Value) Value { return nil })
	}
	reg("reflect.DeepEqual", func(fr *Frame, a []Value) Value { return fr.p.val(fr.p.deepEq(a[0], a[1])) })
	reg("reflect.ValueOf", func(fr *Frame, a []Value) Value {
		x := a[0]
		if s, ok := x.(*SymIface); ok {
			x = fr.p.pickIface(s)
		}
		return Struct{x, (*Value)(nil), uint64(0)}
	})
	rv := func(a Value) Iface { return a.(Struct)[0].(Iface) }
	reg("(reflect.Value).Uint", func(fr *Frame, a []Value) Value {
		i := rv(a[0])
		w, signed, ok := intInfo(i.t)
		if !ok || signed {
			panic(goPanic{mkRTError("reflect: call of Value.Uint on " + i.t.String())})
		}
		return fr.p.val(fr.p.c.Resize(fr.p.bv(i.v, w), 64, false))
	})
	reg("(reflect.Value).Int", func(fr *Frame, a []Value) Value {
		i := rv(a[0])
		w, signed, ok := intInfo(i.t)
		if !ok || !signed {
			panic(goPanic{mkRTError("reflect: call of Value.Int on " + i.t.String())})
		}
		return fr.p.val(fr.p.c.Resize(fr.p.bv(i.v, w), 64, true))
	})
	reg("(reflect.Value).Float", func(fr *Frame, a []Value) Value {
		i := rv(a[0])
		if _, ok := isFloat(i.t); !ok {
			panic(goPanic{mkRTError("reflect: call of Value.Float")})
		}
		return fr.p.convert(i.t, types.Typ[types.Float64], i.v)
	})
	reg("(reflect.Value).Bool", func(fr *Frame, a []Value) Value { return rv(a[0]).v })
	reg("(reflect.Value).String", func(fr *Frame, a []Value) Value {
		i := rv(a[0])
		if i.t != nil && isString(i.t) {
			return i.v
		}
		return &OpaqueStr{desc: "reflect"}
	})
	reg("(reflect.Value).Interface", func(fr *Frame, a []Value) Value { return rv(a[0]) })
	reg("(reflect.Value).IsValid", func(fr *Frame, a []Value) Value { return rv(a[0]).t != nil })
	reg("(reflect.Value).IsNil", func(fr *Frame, a []Value) Value {
		switch x := rv(a[0]).v.(type) {
		case *Value:
			return x == nil
		case []Value:
			return x == nil
		case *MapVal:
			return x == nil
		case *Closure:
			return x == nil
		}
		panic(goPanic{mkRTError("reflect: IsNil")})
	})
	reg("(reflect.Value).Len", func(fr *Frame, a []Value) Value {
		switch x := rv(a[0]).v.(type) {
		case []Value:
			return uint64(len(x))
		case *MapVal:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case string, *SymStr:
			return uint64(strLen(x))
		}
		panic(unsupported("reflect Len"))
	})
	reg("(reflect.Value).Kind", func(fr *Frame, a []Value) Value { return kindOf(rv(a[0]).t) })
	reg("(reflect.Kind).String", func(fr *Frame, a []Value) Value { return &OpaqueStr{desc: "kind"} })
	reg("reflect.TypeOf", func(fr *Frame, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok {
			i = fr.p.pickIface(a[0].(*SymIface))
		}
		if i.t == nil {
			return Iface{}
		}
		// an opaque reflect.Type; only identity is modelled
		v := new(Value)
		*v = Struct{}
		k := [2]any{"rtype", tid(i.t)}
		if o, ok := fr.p.side[k]; ok {
			v = o.(*Value)
		} else {
			fr.p.side[k] = v
		}
		return Iface{t: types.NewPointer(fr.p.prg.pkgs["reflect"].Pkg.Scope().Lookup("rtype").Type()), v: v}
	})

	// ---- codecs ----
	marsh := func(codec string) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			b, e := fr.p.marshal(codec, a[len(a)-1])
			if e != "" {
				return Tuple{[]Value(nil), fr.p.mkError(e)}
			}
			return Tuple{b, Iface{}}
		}
	}
	unm := func(codec string, aa bool) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			e := fr.p.unmarshal(codec, a[0], a[1], aa)
			if e != "" {
				return fr.p.mkError(e)
			}
			return Iface{}
		}
	}
	reg("encoding/json.Marshal", marsh("json"))
	reg("encoding/json.Unmarshal", unm("json", false))
	const cb = "github.com/fxamacker/cbor/v2"
	const mp = "github.com/vmihailenco/msgpack/v5"
	reg(cb+".Marshal", marsh("cbor"))
	reg(cb+".Unmarshal", unm("cbor", true))
	reg(mp+".Marshal", marsh("msgpack"))
	reg(mp+".Unmarshal", unm("msgpack", false))
	reg("encoding/json.Valid", func(fr *Frame, a []Value) Value {
		b, ok := wholeBlob(a[0].([]Value))
		return ok && b.codec == "json" && !b.bad
	})
	mode := func(fr *Frame, pkgType string, cfg Value) Iface {
		v := new(Value)
		*v = Struct{}
		fr.p.side[v] = cfg
		return Iface{t: types.NewPointer(fr.p.prg.pkgs[cb].Pkg.Scope().Lookup(pkgType).Type()), v: v}
	}
	reg("("+cb+".DecOptions).DecMode", func(fr *Frame, a []Value) Value {
		st := fr.p.prg.pkgs[cb].Pkg.Scope().Lookup("DecOptions").Type().Underlying().(*types.Struct)
		aa := true
		for i := 0; i < st.NumFields(); i++ {
			v := a[0].(Struct)[i]
			z := zero(st.Field(i).Type())
			if st.Field(i).Name() == "DefaultMapType" {
				if t, ok := v.(Iface); ok && t.t != nil {
					if t.v == fr.p.side[[2]any{"rtype", tid(tMapSA)}] {
						aa = false
					} else {
						panic(unsupported("cbor DefaultMapType"))
					}
				}
				continue
			}
			if k, ok := v.(uint64); ok && k == z {
				continue
			}
			if t, ok := v.(Iface); ok && t.t == nil {
				continue
			}
			if ptr, ok := v.(*Value); ok && ptr == nil {
				continue
			}
			panic(unsupported("cbor option " + st.Field(i).Name()))
		}
		return Tuple{mode(fr, "decMode", aa), Iface{}}
	})
	reg("(*"+cb+".decMode).Unmarshal", func(fr *Frame, a []Value) Value {
		aa, ok := fr.p.side[a[0].(*Value)].(bool)
		if !ok {
			panic(unsupported("cbor decode mode"))
		}
		e := fr.p.unmarshal("cbor", a[1], a[2], aa)
		if e != "" {
			return fr.p.mkError(e)
		}
		return Iface{}
	})
	reg("("+cb+".EncOptions).EncMode", func(fr *Frame, a []Value) Value {
		for _, v := range a[0].(Struct) {
			if k, ok := v.(uint64); !ok || k != 0 {
				panic(unsupported("cbor encode options"))
			}
		}
		return Tuple{mode(fr, "encMode", true), Iface{}}
	})
	reg("(*"+cb+".encMode).Marshal", marsh("cbor"))

	// ---- text encodings ----
	reg("encoding/hex.EncodeToString", func(fr *Frame, a []Value) Value { return mkStr(fr.p.hexEnc(a[0].([]Value))) })
	reg("encoding/hex.DecodeString", func(fr *Frame, a []Value) Value {
		out, ok := fr.p.hexDec(mustStr(a[0]))
		if !ok {
			return Tuple{[]Value{}, fr.p.mkError("encoding/hex: invalid")}
		}
		return Tuple{out, Iface{}}
	})
	// ---- byte and string helpers ----
	reg("strings.Index", func(fr *Frame, a []Value) Value { return fr.p.index(mustStr(a[0]), mustStr(a[1])) })
	reg("strings.Join", func(fr *Frame, a []Value) Value {
		var r Value = ""
		for i, x := range a[0].([]Value) {
			if i > 0 {
				r = fr.p.concat(r, a[1])
			}
			r = fr.p.concat(r, x)
		}
		return r
	})
	reg("strings.Contains", func(fr *Frame, a []Value) Value {
		if o, ok := a[0].(*OpaqueStr); ok {
			if s, ok := a[1].(string); ok {
				for _, k := range o.known {
					if strings.Contains(k, s) {
						return true
					}
				}
			}
		}
		return fr.p.val(fr.p.containsT(mustStr(a[0]), mustStr(a[1])))
	})
	reg("bytes.Index", func(fr *Frame, a []Value) Value { return fr.p.index(a[0].([]Value), a[1].([]Value)) })
	idxByte := func(fr *Frame, a []Value) Value { return fr.p.index(toBytes(a[0]), []Value{a[1]}) }
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString",
		"internal/stringslite.IndexByte"} {
		reg(n, idxByte)
	}
	for _, n := range []string{"internal/stringslite.Index", "internal/bytealg.IndexString", "internal/bytealg.Index"} {
		reg(n, func(fr *Frame, a []Value) Value { return fr.p.index(toBytes(a[0]), toBytes(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(fr *Frame, a []Value) Value {
			p := fr.p
			t := p.c.BV(0, 64)
			for _, x := range toBytes(a[0]) {
				t = p.c.Bin(OAdd, t, p.c.Ite(p.eqVals(x, a[1]), p.c.BV(1, 64), p.c.BV(0, 64)))
			}
			return p.val(t)
		})
	}
	cmpf := func(fr *Frame, a []Value) Value {
		p := fr.p
		x, y := toBytes(a[0]), toBytes(a[1])
		return p.val(p.c.Ite(p.ltBytes(x, y), p.c.BV(mask(64), 64), p.c.Ite(p.eqBytes(x, y), p.c.BV(0, 64), p.c.BV(1, 64))))
	}
	for _, n := range []string{"bytes.Compare", "strings.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "runtime.cmpstring"} {
		reg(n, cmpf)
	}
	reg("bytes.Equal", func(fr *Frame, a []Value) Value { return fr.p.val(fr.p.eqBytes(toBytes(a[0]), toBytes(a[1]))) })
	reg("crypto/subtle.ConstantTimeCompare", func(fr *Frame, a []Value) Value {
		p := fr.p
		return p.val(p.c.Ite(p.eqBytes(toBytes(a[0]), toBytes(a[1])), p.c.BV(1, 64), p.c.BV(0, 64)))
	})
	reg("crypto/hmac.Equal", func(fr *Frame, a []Value) Value { return fr.p.val(fr.p.eqBytes(toBytes(a[0]), toBytes(a[1]))) })
	reg("(*strings.Builder).copyCheck", func(fr *Frame, a []Value) Value { return nil })
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, a []Value) Value {
		n := concInt(a[0], "size")
		r := make([]Value, n)
		for i := range r {
			r[i] = uint64(0)
		}
		return r
	})
	reg("unicode/utf8.ValidString", func(fr *Frame, a []Value) Value {
		p := fr.p
		t := p.c.True
		for _, b := range mustStr(a[0]) {
			t = p.c.And(t, p.c.Bin(OUlt, p.bv(b, 8), p.c.BV(0x80, 8)))
		}
		if t.isConst() {
			if s, ok := a[0].(string); ok {
				return validUTF8(s)
			}
		}
		if p.branch(p.val(t)) {
			return true
		}
		panic(unsupported("symbolic non-ASCII text"))
	})
	for name, f := range map[string]func(float64) float64{"Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Exp": math.Exp,
		"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Round": math.Round, "RoundToEven": math.RoundToEven, "Exp2": math.Exp2} {
		name, f := name, f
		op, exact := map[string]Op{"Floor": OFFloor, "Ceil": OFCeil, "Trunc": OFTrunc, "Round": OFRound, "RoundToEven": OFEven, "Sqrt": OFSqrt}[name]
		reg("math."+name, func(fr *Frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if name == "Log2" {
				return fr.p.log2(a[0].(*Term))
			}
			if exact {
				t := fr.p.term(a[0])
				return fr.p.val(fr.p.c.FUn(op, t, t.sort))
			}
			panic(unsupported("symbolic math." + name))
		})
	}
	reg("math.Modf", func(fr *Frame, a []Value) Value {
		x := fr.p.term(a[0])
		whole := fr.p.c.FUn(OFTrunc, x, x.sort)
		return Tuple{fr.p.val(whole), fr.p.val(fr.p.c.FBin(OFSub, x, whole))}
	})
	reg("math.Mod", func(fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			if y, ok := a[1].(float64); ok {
				return math.Mod(x, y)
			}
		}
		if y, ok := a[1].(float64); ok && y == 1 {
			x := fr.p.term(a[0])
			return fr.p.val(fr.p.c.FBin(OFSub, x, fr.p.c.FUn(OFTrunc, x, x.sort)))
		}
		panic(unsupported("symbolic math.Mod"))
	})
	reg("math.IsInf", func(fr *Frame, a []Value) Value {
		p, c := fr.p, fr.p.c
		x, sign := p.term(a[0]), p.bv(a[1], 64)
		up := c.And(c.Not(c.Bin(OSlt, sign, c.BV(0, 64))), c.FBin(OFLt, c.F64(math.MaxFloat64), x))
		down := c.And(c.Not(c.Bin(OSlt, c.BV(0, 64), sign)), c.FBin(OFLt, x, c.F64(-math.MaxFloat64)))
		return p.val(c.Or(up, down))
	})
	reg("math.Signbit", func(fr *Frame, a []Value) Value {
		p, c := fr.p, fr.p.c
		x := p.term(a[0])
		return p.val(c.Or(c.FBin(OFLt, x, c.F64(0)), c.And(c.FBin(OFEq, x, c.F64(0)), c.FBin(OFLt, c.FBin(OFDiv, c.F64(1), x), c.F64(0)))))
	})
	for name, less := range map[string]bool{"Max": false, "Min": true} {
		name, less := name, less
		reg("math."+name, func(fr *Frame, a []Value) Value {
			p, c := fr.p, fr.p.c
			x, y := p.term(a[0]), p.term(a[1])
			first := c.FBin(OFLt, y, x)
			if less {
				first = c.FBin(OFLt, x, y)
			}
			nan := c.Or(c.FUn(OFIsNaN, x, boolSort), c.FUn(OFIsNaN, y, boolSort))
			return p.val(c.Ite(nan, c.F64(math.NaN()), c.Ite(first, x, y)))
		})
	}
	reg("math.Pow", func(fr *Frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		panic(unsupported("symbolic math.Pow"))
	})
	reg("math.IsNaN", func(fr *Frame, a []Value) Value {
		return fr.p.val(fr.p.c.FUn(OFIsNaN, fr.p.term(a[0]), boolSort))
	})
	reg("math.Abs", func(fr *Frame, a []Value) Value { t := fr.p.term(a[0]); return fr.p.val(fr.p.c.FUn(OFAbs, t, t.sort)) })
	reg("math.Float64bits", func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.Float64bits(x)
		case *Term:
			if x.op == OFFromBits {
				return x.args[0]
			}
			b := fr.p.freshVar(bvSort(64))
			fr.p.addPC(fr.p.c.Eq(fr.p.c.FBits(b), x))
			return b
		}
		panic(unsupported("symbolic Float64bits"))
	})
	reg("math.Float64frombits", func(fr *Frame, a []Value) Value { return fr.p.val(fr.p.c.FBits(fr.p.bv(a[0], 64))) })
	reg("math.Float32frombits", func(fr *Frame, a []Value) Value { return fr.p.val(fr.p.c.FBits(fr.p.bv(a[0], 32))) })
	// leading/trailing zero counts: branch-free
	bitsLen := func(w int) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			p := fr.p
			t := p.bv(a[0], w)
			r := p.c.BV(0, 64)
			for i := 0; i < w; i++ {
				r = p.c.Ite(p.c.Eq(p.c.Resize(p.c.Bin(OLShr, t, p.c.BV(uint64(i), w)), 1, false), p.c.BV(1, 1)), p.c.BV(uint64(i+1), 64), r)
			}
			return p.val(r)
		}
	}
	reg("math/bits.Len64", bitsLen(64))
	reg("math/bits.Len", bitsLen(64))
	reg("math/bits.Len32", bitsLen(32))
	tz := func(w int) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			p := fr.p
			t := p.bv(a[0], w)
			r := p.c.BV(uint64(w), 64)
			for i := w - 1; i >= 0; i-- {
				r = p.c.Ite(p.c.Eq(p.c.Resize(p.c.Bin(OLShr, t, p.c.BV(uint64(i), w)), 1, false), p.c.BV(1, 1)), p.c.BV(uint64(i), 64), r)
			}
			return p.val(r)
		}
	}
	reg("math/bits.TrailingZeros64", tz(64))
	reg("math/bits.TrailingZeros", tz(64))
	reg("math/bits.TrailingZeros32", tz(32))
	oc := func(fr *Frame, a []Value) Value {
		p := fr.p
		t := p.bv(a[0], 64)
		r := p.c.BV(0, 64)
		for i := 0; i < 64; i++ {
			r = p.c.Bin(OAdd, r, p.c.Resize(p.c.Resize(p.c.Bin(OLShr, t, p.c.BV(uint64(i), 64)), 1, false), 64, false))
		}
		return p.val(r)
	}
	reg("math/bits.OnesCount64", oc)
	reg("math/bits.OnesCount", oc)
	// environment
	reg("os.Getenv", func(fr *Frame, a []Value) Value { return "" })
	reg("runtime.KeepAlive", func(fr *Frame, a []Value) Value { return nil })
	reg("runtime.Gosched", func(fr *Frame, a []Value) Value { fr.p.schedPoint(fr.th); return nil })
	reg("time.Sleep", func(fr *Frame, a []Value) Value { fr.p.schedPoint(fr.th); return nil })
	// zone-related
	registerTime(reg)
}

// pkgIntrinsic gives whole packages an environment model.
func pkgIntrinsic(pkg, name string, fn *ssa.Function) intrinsic {
	switch pkg {
	case "golang.org/x/exp/rand", "math/rand", "math/rand/v2":
		base := fn.Name()
		if pkg == "golang.org/x/exp/rand" && fn.Signature.Recv() == nil && base == "Seed" {
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				fr.p.seedGlobalRand(a[0])
				return nil
			}
		}
		switch base {
		case "Intn", "Int63n", "Int31n", "Int64N", "IntN", "Uint64n", "Uint64N", "N", "Int32N", "Uint32N", "UintN":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				n := a[len(a)-1]
				w, signed, _ := intInfo(fn.Signature.Results().At(0).Type())
				t := fr.p.bv(n, w)
				if signed {
					if fr.p.branch(fr.p.val(fr.p.c.Bin(OSle, t, fr.p.c.BV(0, w)))) {
						panic(goPanic{mkRTError("invalid argument to " + base)})
					}
				} else if fr.p.branch(fr.p.val(fr.p.c.Eq(t, fr.p.c.BV(0, w)))) {
					panic(goPanic{mkRTError("invalid argument to " + base)})
				}
				if g := fr.p.generator(pkg, fn, a); g != nil && t.isConst() {
					if n, ok := draw(g, base, t.val); ok {
						return fr.p.drawn(fn, base, n, w)
					}
				}
				v := fr.p.rnd(pkg, fn, w)
				fr.p.addPC(fr.p.c.Bin(OUlt, v, t))
				return fr.p.val(v)
			}
		case "Uint64", "Int63", "Int", "Uint32", "Int31", "Int64", "Int32", "Uint":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				w, _, _ := intInfo(fn.Signature.Results().At(0).Type())
				if g := fr.p.generator(pkg, fn, a); g != nil {
					if n, ok := draw(g, base, 0); ok {
						return fr.p.drawn(fn, base, n, w)
					}
				}
				v := fr.p.rnd(pkg, fn, w)
				if base != "Uint64" && base != "Uint32" && base != "Uint" {
					fr.p.addPC(fr.p.c.Bin(OSle, fr.p.c.BV(0, w), v))
				}
				return v
			}
		case "Float64":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				c := fr.p.c
				fr.p.generator(pkg, fn, a)
				v := fr.p.rnd(pkg, fn, 64)
				fr.p.addPC(c.Bin(OUlt, v, c.BV(1<<53, 64)))
				return fr.p.val(c.FBin(OFDiv, c.FUn(OFFromU, v, f64Sort), c.F64(1<<53)))
			}
		case "Read":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				b := a[len(a)-1].([]Value)
				copy(b, fr.p.freshRandom(len(b)))
				return Tuple{uint64(len(b)), Iface{}}
			}
		case "Perm":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				n := concInt(a[len(a)-1], "perm")
				r := make([]Value, n)
				for i := range r {
					r[i] = uint64(i)
				}
				for i := n - 1; i > 0; i-- {
					j := fr.p.choose(i + 1)
					r[i], r[j] = r[j], r[i]
				}
				fr.p.envND = true
				return r
			}
		case "Shuffle":
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				n := concInt(a[len(a)-2], "shuffle")
				for i := n - 1; i > 0; i-- {
					j := fr.p.choose(i + 1)
					if i != j {
						fr.p.callValue(fr, a[len(a)-1], []Value{uint64(i), uint64(j)})
					}
				}
				fr.p.envND = true
				return nil
			}
		case "init":
			return func(fr *Frame, fi *fnInfo, a []Value) Value { return nil }
		}
		if in := randObject(pkg, fn); in != nil {
			return in
		}
		// constructors, seeds: opaque
		if fn.Signature.Results().Len() <= 1 {
			return func(fr *Frame, fi *fnInfo, a []Value) Value {
				rs := fn.Signature.Results()
				if rs.Len() == 0 {
					return nil
				}
				rt := rs.At(0).Type()
				if pt, ok := rt.Underlying().(*types.Pointer); ok {
					v := new(Value)
					*v = zero(pt.Elem())
					return v
				}
				return zero(rt)
			}
		}
	}
	return nil
}

// drawn is a number that a constant seed determines.
func (p *Path) drawn(fn *ssa.Function, base string, n uint64, w int) Value {
	t := p.c.BV(n, w)
	if fn.Signature.Recv() == nil { // replays draw it again
		p.inputs = append(p.inputs, Input{Kind: "rnd", Name: base, T: t})
	}
	return p.val(t)
}

// prng is a generator with a known state.
type prng interface {
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Int63() int64
	Int31() int32
	Int() int
	Uint64() uint64
	Uint32() uint32
}

func draw(g prng, base string, n uint64) (uint64, bool) {
	switch base {
	case "Int63n":
		return uint64(g.Int63n(int64(n))), true
	case "Int31n":
		return uint64(g.Int31n(int32(n))), true
	case "Intn":
		return uint64(g.Intn(int(n))), true
	case "Uint64n":
		if g, ok := g.(*exprand.Rand); ok {
			return g.Uint64n(n), true
		}
	case "Uint64":
		return g.Uint64(), true
	case "Int63":
		return uint64(g.Int63()), true
	case "Int":
		return uint64(g.Int()), true
	case "Uint32":
		return uint64(g.Uint32()), true
	case "Int31":
		return uint64(g.Int31()), true
	}
	return 0, false
}

// rng is what is known of a source or generator that the code made: its state,
// if the seed is constant, and whether it may be shared by goroutines.
type rng struct {
	state  prng
	locked bool
}

type rngKey struct{ x *Value }

func newPRNG(pkg string, seed Value) prng {
	n, ok := seed.(uint64)
	switch {
	case !ok:
		return nil
	case pkg == "golang.org/x/exp/rand":
		return exprand.New(exprand.NewSource(n))
	case pkg == "math/rand":
		return mathrand.New(mathrand.NewSource(int64(n)))
	}
	return nil
}

// randObject models sources and generators of the code's own.
func randObject(pkg string, fn *ssa.Function) intrinsic {
	rs := fn.Signature.Results()
	switch {
	case fn.Name() == "NewSource" && fn.Signature.Recv() == nil && pkg != "math/rand/v2":
		name := "PCGSource"
		if pkg == "math/rand" {
			name = "rngSource"
		}
		obj := fn.Pkg.Pkg.Scope().Lookup(name)
		if obj == nil {
			return nil
		}
		return func(fr *Frame, fi *fnInfo, a []Value) Value {
			x := new(Value)
			*x = zero(obj.Type())
			fr.p.side[rngKey{x}] = &rng{state: newPRNG(pkg, a[0])}
			return Iface{types.NewPointer(obj.Type()), x}
		}
	case fn.Name() == "New" && fn.Signature.Recv() == nil && rs.Len() == 1:
		pt, ok := rs.At(0).Type().Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return func(fr *Frame, fi *fnInfo, a []Value) Value {
			x := new(Value)
			*x = zero(pt.Elem())
			r := &rng{}
			if i, ok := a[0].(Iface); ok && i.t != nil {
				if src, ok := i.v.(*Value); ok {
					if known, ok := fr.p.side[rngKey{src}].(*rng); ok {
						r = known
					}
				}
				if strings.HasSuffix(i.t.String(), "LockedSource") || !strings.Contains(i.t.String(), "/rand.") {
					r = &rng{locked: true} // or not known
				}
			}
			fr.p.side[rngKey{x}] = r
			return x
		}
	case fn.Name() == "Seed" && fn.Signature.Recv() != nil:
		return func(fr *Frame, fi *fnInfo, a []Value) Value {
			if x, ok := a[0].(*Value); ok {
				if r, ok := fr.p.side[rngKey{x}].(*rng); ok {
					r.state = newPRNG(pkg, a[1])
					if !r.locked {
						fr.p.access(x, true)
					}
				}
			}
			return nil
		}
	}
	return nil
}

// generator is what the random function or method draws from, if its state is
// known. Drawing from a generator of the code's own changes it.
func (p *Path) generator(pkg string, fn *ssa.Function, a []Value) prng {
	if fn.Signature.Recv() == nil {
		if g := p.globalRand(pkg, fn); g != nil {
			return g
		}
		return nil
	}
	if len(a) == 0 {
		return nil
	}
	x, ok := a[0].(*Value)
	if !ok {
		return nil
	}
	r, ok := p.side[rngKey{x}].(*rng)
	if !ok {
		return nil
	}
	if !r.locked {
		p.access(x, true)
	}
	return r.state
}

type grand struct {
	seeded bool
	r      *exprand.Rand
}

func (p *Path) seedGlobalRand(seed Value) {
	s := &grand{seeded: true}
	if n, ok := seed.(uint64); ok {
		s = &grand{r: exprand.New(exprand.NewSource(n))}
	}
	p.side["global rand"] = s
}

// globalRand is the global source of x/exp/rand while it has a constant seed;
// its first seed is 1.
func (p *Path) globalRand(pkg string, fn *ssa.Function) *exprand.Rand {
	if pkg != "golang.org/x/exp/rand" || fn.Signature.Recv() != nil {
		return nil
	}
	for _, pk := range p.prg.prog.AllPackages() {
		if pp := pk.Pkg.Path(); (pp == repoMod || strings.HasPrefix(pp, repoMod+"/")) && !strings.Contains(pp, zz) {
			p.initPkg(pk) // one of them may set the seed
		}
	}
	g, _ := p.side["global rand"].(*grand)
	if g == nil {
		g = &grand{r: exprand.New(exprand.NewSource(1))}
		p.side["global rand"] = g
	}
	if g.seeded {
		return nil
	}
	return g.r
}

// rnd is a random number drawn by the code under test. Replays only repeat
// those of the functions of x/exp/rand.
func (p *Path) rnd(pkg string, fn *ssa.Function, w int) *Term {
	if pkg != "golang.org/x/exp/rand" || fn.Signature.Recv() != nil {
		p.envND = true
		return p.freshVar(bvSort(w))
	}
	return p.input("rnd", fn.Name(), bvSort(w))
}

func toBytes(v Value) []Value {
	if b, ok := v.([]Value); ok {
		return b
	}
	return mustStr(v)
}

func validUTF8(s string) bool {
	for _, r := range s {
		if r == 0xFFFD {
			return strings.ToValidUTF8(s, "") == s
		}
	}
	return true
}

// index is the position of the first occurrence of sub, or -1.
func (p *Path) index(s, sub []Value) Value {
	var conds []*Term
	none := p.c.True
	for i := 0; i+len(sub) <= len(s); i++ {
		t := p.eqBytes(s[i:i+len(sub)], sub)
		conds = append(conds, p.c.And(none, t))
		none = p.c.And(none, p.c.Not(t))
		if t == p.c.True {
			break
		}
	}
	r := p.c.BV(mask(64), 64)
	for i := len(conds) - 1; i >= 0; i-- {
		r = p.c.Ite(conds[i], p.c.BV(uint64(i), 64), r)
	}
	if r.isConst() {
		return r.val
	}
	// positions usually end up as slice bounds: fork now
	k := p.decide(append(conds, none))
	if k == len(conds) {
		return mask(64)
	}
	return uint64(k)
}

func (p *Path) containsT(s, sub []Value) *Term {
	r := p.c.False
	for i := 0; i+len(sub) <= len(s); i++ {
		r = p.c.Or(r, p.eqBytes(s[i:i+len(sub)], sub))
	}
	return r
}

// uf is an uninterpreted function over byte strings; injective ones never
// collide (the idealisation of a hash or signature).
func (p *Path) uf(name string, n int, inj bool, in [][]Value) Value {
	c := p.c
	key := fmt.Sprintf("%s/%d", name, n)
	out := make([]Value, n)
	var same []*Term
	for _, e := range p.ufs[key] {
		eq := c.True
		if len(e.in) != len(in) {
			eq = c.False
		} else {
			for i := range in {
				eq = c.And(eq, p.eqBytes(e.in[i], in[i]))
			}
		}
		if v, ok := p.knownTruth(eq); ok && v {
			return append([]Value(nil), e.out...)
		}
		same = append(same, eq)
	}
	for i := range out {
		out[i] = p.freshVar(bvSort(8))
	}
	for i, e := range p.ufs[key] {
		oe := p.eqBytes(e.out, out)
		if inj {
			p.addPC(c.Eq(same[i], oe))
		} else {
			p.addPC(c.Or(c.Not(same[i]), oe))
		}
	}
	cp := make([][]Value, len(in))
	for i := range in {
		cp[i] = append([]Value(nil), in[i]...)
	}
	p.ufs[key] = append(p.ufs[key], ufEntry{cp, out})
	p.envND = true
	return append([]Value(nil), out...)
}

// freshRandom is n random bytes, different from earlier ones.
func (p *Path) freshRandom(n int) []Value {
	b := make([]Value, n)
	for i := range b {
		b[i] = p.freshVar(bvSort(8))
	}
	p.inputs = append(p.inputs, Input{Kind: "rndb", Name: "rand", B: b})
	if n >= 16 {
		for _, o := range p.rands {
			if len(o) == n {
				p.addPC(p.c.Not(p.eqBytes(o, b)))
			}
		}
		p.rands = append(p.rands, b)
	}
	return append([]Value(nil), b...)
}

func (p *Path) freshBelow(n *Term) Value {
	p.envND = true
	v := p.freshVar(bvSort(64))
	p.addPC(p.c.Bin(OUlt, v, n))
	return v
}

// log2 contract: exact for powers of two; between powers strictly between the
// exponents for arguments below 2^49; -Inf at 0 and NaN below.
func (p *Path) log2(x *Term) Value {
	c := p.c
	if x.op == OFFromS && x.args[0].sort.W == 64 {
		return p.log2int(x.args[0])
	}
	if !p.branch(p.val(c.FBin(OFLe, c.F64(1), x))) {
		if p.branch(p.val(c.FBin(OFEq, x, c.F64(0)))) {
			return math.Inf(-1)
		}
		if p.branch(p.val(c.FBin(OFLt, x, c.F64(0)))) {
			return math.NaN()
		}
		panic(unsupported("math.Log2 of a symbolic fraction"))
	}
	var conds []*Term
	for k := 0; k < 48; k++ {
		lo, hi := c.F64(math.Ldexp(1, k)), c.F64(math.Ldexp(1, k+1))
		conds = append(conds, c.And(c.FBin(OFLe, lo, x), c.FBin(OFLt, x, hi)))
	}
	conds = append(conds, c.Not(c.FBin(OFLt, x, c.F64(math.Ldexp(1, 48)))))
	k := p.decide(conds)
	if k == 48 {
		panic(unsupported("math.Log2 of a large symbolic value"))
	}
	if p.branch(p.val(c.FBin(OFEq, x, c.F64(math.Ldexp(1, k))))) {
		return float64(k)
	}
	v := c.FBits(p.freshVar(bvSort(64)))
	p.addPC(c.And(c.FBin(OFLt, c.F64(float64(k)), v), c.FBin(OFLt, v, c.F64(float64(k+1)))))
	return v
}

// log2int is log2 of a converted signed integer: the conversion is exact below
// 2^53, so the cases are integer comparisons.
func (p *Path) log2int(t *Term) Value {
	c := p.c
	if p.branch(p.val(c.Bin(OSlt, t, c.BV(0, 64)))) {
		return math.NaN()
	}
	if p.branch(p.val(c.Eq(t, c.BV(0, 64)))) {
		return math.Inf(-1)
	}
	var conds []*Term
	for k := 0; k < 48; k++ {
		conds = append(conds, c.And(c.Bin(OUle, c.BV(1<<k, 64), t), c.Bin(OUlt, t, c.BV(1<<(k+1), 64))))
	}
	conds = append(conds, c.Bin(OUle, c.BV(1<<48, 64), t))
	k := p.decide(conds)
	if k == 48 {
		panic(unsupported("math.Log2 of a large symbolic value"))
	}
	if p.branch(p.val(c.Eq(t, c.BV(1<<k, 64)))) {
		return float64(k)
	}
	v := c.FBits(p.freshVar(bvSort(64)))
	p.addPC(c.And(c.FBin(OFLt, c.F64(float64(k)), v), c.FBin(OFLt, v, c.F64(float64(k+1)))))
	return v
}

// ---- hex and base64 over symbolic bytes ----

func (p *Path) rng(t *Term, lo, hi byte) *Term {
	w := int(t.sort.W)
	return p.c.And(p.c.Bin(OUle, p.c.BV(uint64(lo), w), t), p.c.Bin(OUle, t, p.c.BV(uint64(hi), w)))
}

// ascii marks a digit of an encoding as what it is by construction.
func (p *Path) ascii(t *Term) Value {
	p.addFact(p.c.Bin(OUlt, t, p.c.BV(0x80, 8)), true)
	return p.val(t)
}

func (p *Path) hexEnc(b []Value) []Value {
	c := p.c
	var out []Value
	nib := func(t *Term) Value {
		// t: 8-bit value below 16
		return p.ascii(c.Ite(c.Bin(OUlt, t, c.BV(10, 8)), c.Bin(OAdd, t, c.BV('0', 8)), c.Bin(OAdd, t, c.BV('a'-10, 8))))
	}
	for _, x := range b {
		t := p.bv(x, 8)
		out = append(out, nib(c.Bin(OLShr, t, c.BV(4, 8))), nib(c.Bin(OBAnd, t, c.BV(15, 8))))
	}
	// remember the inverse so that decoding gives back the same terms
	if len(out) > 0 {
		p.remember("hex", out, b)
	}
	return out
}

type inv struct{ enc, dec []Value }

func (p *Path) remember(k string, enc, dec []Value) {
	if _, ok := concBytes(enc); ok {
		return
	}
	l, _ := p.side["inv-"+k].([]inv)
	p.side["inv-"+k] = append(l, inv{append([]Value(nil), enc...), append([]Value(nil), dec...)})
}

func sameTerms(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (p *Path) recall(k string, enc []Value) ([]Value, bool) {
	l, _ := p.side["inv-"+k].([]inv)
	for _, e := range l {
		if sameTerms(e.enc, enc) {
			return append([]Value{}, e.dec...), true
		}
	}
	return nil, false
}

func (p *Path) hexDec(s []Value) ([]Value, bool) {
	c := p.c
	// a concatenation of remembered pieces decodes piecewise
	if l, _ := p.side["inv-hex"].([]inv); len(l) > 0 {
		var out []Value
		i := 0
	outer:
		for i < len(s) {
			for _, e := range l {
				if i+len(e.enc) <= len(s) && sameTerms(e.enc, s[i:i+len(e.enc)]) {
					out = append(out, e.dec...)
					i += len(e.enc)
					continue outer
				}
			}
			break
		}
		if i == len(s) && len(s) > 0 {
			return out, true
		}
	}
	valid := c.Bool(len(s)%2 == 0)
	dig := func(x Value) *Term {
		t := p.bv(x, 8)
		d, lc, uc := p.rng(t, '0', '9'), p.rng(t, 'a', 'f'), p.rng(t, 'A', 'F')
		valid = c.And(valid, c.OrN(d, lc, uc))
		return c.Ite(d, c.Bin(OSub, t, c.BV('0', 8)), c.Ite(lc, c.Bin(OSub, t, c.BV('a'-10, 8)), c.Bin(OSub, t, c.BV('A'-10, 8))))
	}
	out := []Value{}
	for i := 0; i+1 < len(s); i += 2 {
		h, l := dig(s[i]), dig(s[i+1])
		out = append(out, p.val(c.Bin(OBOr, c.Bin(OShl, h, c.BV(4, 8)), l)))
	}
	if !p.branch(p.val(valid)) {
		return nil, false
	}
	return out, true
}

func (p *Path) b64enc(b []Value) []Value {
	c := p.c
	var out []Value
	ch := func(t *Term) Value { // 8-bit value below 64
		r := c.Ite(c.Bin(OUlt, t, c.BV(26, 8)), c.Bin(OAdd, t, c.BV('A', 8)),
			c.Ite(c.Bin(OUlt, t, c.BV(52, 8)), c.Bin(OAdd, t, c.BV('a'-26, 8)),
				c.Ite(c.Bin(OUlt, t, c.BV(62, 8)), c.Bin(OAdd, t, c.BV(256+'0'-52, 8)),
					c.Ite(c.Eq(t, c.BV(62, 8)), c.BV('+', 8), c.BV('/', 8)))))
		return p.ascii(r)
	}
	for i := 0; i < len(b); i += 3 {
		z := c.BV(0, 8)
		x, y, w := p.bv(b[i], 8), z, z
		n := len(b) - i
		if n > 1 {
			y = p.bv(b[i+1], 8)
		}
		if n > 2 {
			w = p.bv(b[i+2], 8)
		}
		shl := func(t *Term, k uint64) *Term { return c.Bin(OShl, t, c.BV(k, 8)) }
		shr := func(t *Term, k uint64) *Term { return c.Bin(OLShr, t, c.BV(k, 8)) }
		m := c.BV(63, 8)
		out = append(out, ch(shr(x, 2)), ch(c.Bin(OBAnd, c.Bin(OBOr, shl(x, 4), shr(y, 4)), m)))
		if n > 1 {
			out = append(out, ch(c.Bin(OBAnd, c.Bin(OBOr, shl(y, 2), shr(w, 6)), m)))
		} else {
			out = append(out, uint64('='))
		}
		if n > 2 {
			out = append(out, ch(c.Bin(OBAnd, w, m)))
		} else {
			out = append(out, uint64('='))
		}
	}
	if len(out) > 0 {
		p.remember("b64", out, b)
	}
	return out
}

func (p *Path) b64dec(s []Value) ([]Value, bool) {
	c := p.c
	if d, ok := p.recall("b64", s); ok {
		return d, true
	}
	if len(s)%4 != 0 {
		// newlines are skipped by the real decoder
		for _, x := range s {
			if t, ok := x.(*Term); ok {
				nl := c.Or(c.Eq(t, c.BV('\n', 8)), c.Eq(t, c.BV('\r', 8)))
				if p.branch(p.val(nl)) {
					panic(unsupported("newline in symbolic base64"))
				}
			} else if x.(uint64) == '\n' || x.(uint64) == '\r' {
				panic(unsupported("newline in base64"))
			}
		}
		return nil, false
	}
	valid := c.True
	nlAny := c.False
	dig := func(x Value) *Term {
		t := p.bv(x, 8)
		up, lo, d := p.rng(t, 'A', 'Z'), p.rng(t, 'a', 'z'), p.rng(t, '0', '9')
		pl, sl := c.Eq(t, c.BV('+', 8)), c.Eq(t, c.BV('/', 8))
		valid = c.And(valid, c.OrN(up, lo, d, pl, sl))
		nlAny = c.OrN(nlAny, c.Eq(t, c.BV('\n', 8)), c.Eq(t, c.BV('\r', 8)))
		return c.Ite(up, c.Bin(OSub, t, c.BV('A', 8)), c.Ite(lo, c.Bin(OSub, t, c.BV('a'-26, 8)),
			c.Ite(d, c.Bin(OAdd, t, c.BV(52-'0'+256, 8)), c.Ite(pl, c.BV(62, 8), c.BV(63, 8)))))
	}
	// padding layout
	pad := 0
	if n := len(s); n > 0 {
		isPad := func(x Value) *Term { return p.eqVals(x, uint64('=')) }
		if p.branch(p.val(isPad(s[n-1]))) {
			pad = 1
			if p.branch(p.val(isPad(s[n-2]))) {
				pad = 2
			}
		}
	}
	var ds []*Term
	for _, x := range s[:len(s)-pad] {
		ds = append(ds, dig(x))
	}
	out := []Value{}
	shl := func(t *Term, k uint64) *Term { return c.Bin(OShl, t, c.BV(k, 8)) }
	shr := func(t *Term, k uint64) *Term { return c.Bin(OLShr, t, c.BV(k, 8)) }
	for i := 0; i < len(ds); i += 4 {
		n := min(4, len(ds)-i)
		if n >= 2 {
			out = append(out, p.val(c.Bin(OBOr, shl(ds[i], 2), shr(ds[i+1], 4))))
		}
		if n >= 3 {
			out = append(out, p.val(c.Bin(OBOr, shl(ds[i+1], 4), shr(ds[i+2], 2))))
		}
		if n >= 4 {
			out = append(out, p.val(c.Bin(OBOr, shl(ds[i+2], 6), ds[i+3])))
		}
	}
	if !p.branch(p.val(valid)) {
		if p.branch(p.val(nlAny)) {
			panic(unsupported("newline in symbolic base64"))
		}
		return nil, false
	}
	return out, true
}

// ---- fmt ----

// concPart is the longest run of known bytes.
func concPart(b []Value) string {
	best, cur := "", []byte(nil)
	for _, x := range append(append([]Value(nil), b...), nil) {
		if u, ok := x.(uint64); ok {
			cur = append(cur, byte(u))
			continue
		}
		if len(cur) > len(best) {
			best = string(cur)
		}
		cur = nil
	}
	return best
}

// sprintf formats; lazy avoids forking on symbolic numbers (error texts).
func (p *Path) sprintf(fr *Frame, f string, args []Value, lazy bool) Value {
	var out []Value
	opaque := false
	var known []string
	start := 0
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uint64(f[i]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, bytesOf("%!(NOVERB)")...)
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j
		if verb == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if strings.ContainsAny(spec, "[]*") {
			opaque = true
			continue
		}
		if ai >= len(args) {
			out = append(out, bytesOf("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[ai]
		ai++
		s, ok := p.fmtArg(fr, spec, verb, a, lazy)
		if !ok {
			opaque = true
			known = append(known, concPart(out[start:]))
			start = len(out)
			continue
		}
		out = append(out, s...)
	}
	if opaque || ai < len(args) {
		return &OpaqueStr{f, append(known, concPart(out[start:]))}
	}
	return mkStr(out)
}

func (p *Path) fmtArg(fr *Frame, spec string, verb byte, a Value, lazy bool) ([]Value, bool) {
	if s, ok := a.(*SymIface); ok {
		if lazy {
			return nil, false
		}
		a = p.pickIface(s)
	}
	ifc := a.(Iface)
	if ifc.t == nil {
		if verb == 'v' || verb == 'T' {
			return bytesOf("<nil>"), true
		}
		return bytesOf(fmt.Sprintf(spec, nil)), true
	}
	if verb == 'T' {
		return bytesOf(types.TypeString(ifc.t, func(p *types.Package) string { return p.Name() })), true
	}
	// error / Stringer
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if sel := p.prg.prog.MethodSets.MethodSet(ifc.t).Lookup(nil, m); sel != nil {
				sig := sel.Obj().Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
					if ptr, ok := ifc.v.(*Value); ok && ptr == nil {
						return bytesOf("<nil>"), true
					}
					if lazy && m == "String" {
						return nil, false
					}
					fn := p.prg.prog.MethodValue(sel)
					r := p.call(fr.th, fr, fn, []Value{ifc.v}, nil)
					if b, ok := strBytes(r); ok {
						return b, true
					}
					return nil, false
				}
			}
		}
	}
	if isString(ifc.t) && (verb == 's' || verb == 'v') && len(spec) == 2 {
		if b, ok := strBytes(ifc.v); ok {
			return b, true
		}
		return nil, false
	}
	if w, signed, ok := intInfo(ifc.t); ok {
		if t, isT := ifc.v.(*Term); isT {
			if lazy || (verb != 'd' && verb != 'v') {
				return nil, false
			}
			return p.decimal(t, w, signed, spec)
		}
		u := ifc.v.(uint64)
		if signed {
			return bytesOf(fmt.Sprintf(spec, sext(u, w))), true
		}
		return bytesOf(fmt.Sprintf(spec, u)), true
	}
	switch v := ifc.v.(type) {
	case string:
		return bytesOf(fmt.Sprintf(spec, v)), true
	case bool:
		return bytesOf(fmt.Sprintf(spec, v)), true
	case float64:
		return bytesOf(fmt.Sprintf(spec, v)), true
	case float32:
		return bytesOf(fmt.Sprintf(spec, v)), true
	case *Term:
		if v.sort.K == SBool && !lazy {
			return bytesOf(fmt.Sprintf(spec, p.branch(v))), true
		}
	case []Value:
		if b, ok := concBytes(v); ok && sameType(ifc.t, tByteSl) {
			return bytesOf(fmt.Sprintf(spec, b)), true
		}
		if verb == 's' && sameType(ifc.t.Underlying(), tByteSl) {
			return v, true
		}
	}
	return nil, false
}

// decimal text of a symbolic integer: forks on the number of digits.
func (p *Path) decimal(t *Term, w int, signed bool, spec string) ([]Value, bool) {
	c := p.c
	width, zeroPad := 0, false
	body := spec[1 : len(spec)-1]
	if strings.HasPrefix(body, "0") {
		zeroPad = true
		body = body[1:]
	}
	if body != "" {
		n, err := strconv.Atoi(body)
		if err != nil {
			return nil, false
		}
		width = n
	}
	neg := false
	x := c.Resize(t, 64, signed)
	if d, ok := p.side[digitsOf{t}].([]Value); ok && zeroPad && width == len(d) {
		return d, true
	}
	if signed && p.branch(p.val(c.Bin(OSlt, x, c.BV(0, 64)))) {
		neg = true
		x = c.Neg(x)
	}
	digits := 1
	for k := uint64(10); digits < 20; k *= 10 {
		if p.branch(p.val(c.Bin(OUlt, x, c.BV(k, 64)))) {
			break
		}
		digits++
		if digits == 20 {
			break
		}
	}
	out := make([]Value, digits)
	for i := digits - 1; i >= 0; i-- {
		d := c.Resize(c.Bin(OURem, x, c.BV(10, 64)), 8, false)
		out[i] = p.val(c.Bin(OAdd, d, c.BV('0', 8)))
		x = c.Bin(OUDiv, x, c.BV(10, 64))
	}
	total := digits
	if neg {
		total++
	}
	var pre []Value
	if zeroPad {
		if neg {
			pre = append(pre, uint64('-'))
		}
		for ; total < width; total++ {
			pre = append(pre, uint64('0'))
		}
	} else {
		for ; total < width; total++ {
			pre = append(pre, uint64(' '))
		}
		if neg {
			pre = append(pre, uint64('-'))
		}
	}
	return append(pre, out...), true
}

func kindOf(t types.Type) Value {
	if t == nil {
		return uint64(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := u.Kind()
		if k >= types.Bool && k <= types.Complex128 {
			return uint64(k)
		}
		if k == types.String {
			return uint64(24)
		}
		return uint64(26)
	case *types.Array:
		return uint64(17)
	case *types.Chan:
		return uint64(18)
	case *types.Signature:
		return uint64(19)
	case *types.Interface:
		return uint64(20)
	case *types.Map:
		return uint64(21)
	case *types.Pointer:
		return uint64(22)
	case *types.Slice:
		return uint64(23)
	case *types.Struct:
		return uint64(25)
	}
	panic(unsupported("reflect kind"))
}

// ---- native values ----

func jsonF32(f float32) float64 {
	b, _ := json.Marshal(f)
	var v float64
	json.Unmarshal(b, &v)
	return v
}

func nativeDecode(codec string, b []byte, aa bool) (any, bool) {
	if codec != "json" {
		return nil, false
	}
	var v any
	if json.Unmarshal(b, &v) != nil {
		return nil, false
	}
	return v, true
}

// jsonValueLen is the length of the first JSON value in b.
func jsonValueLen(b []byte) int {
	d := json.NewDecoder(bytes.NewReader(b))
	var v any
	if d.Decode(&v) != nil {
		return 0
	}
	return int(d.InputOffset())
}

func (p *Path) fromNative(v any) Value {
	switch v := v.(type) {
	case nil:
		return Iface{}
	case bool:
		return mkI(types.Typ[types.Bool], v)
	case float64:
		return mkI(types.Typ[types.Float64], v)
	case string:
		return mkI(types.Typ[types.String], v)
	case []any:
		out := make([]Value, len(v))
		for i := range v {
			out[i] = p.fromNative(v[i])
		}
		return mkI(tAnySlice, out)
	case map[string]any:
		m := newMap()
		for _, k := range sortedKeys(v) {
			m.add(k, p.fromNative(v[k]))
		}
		return mkI(tMapSA, m)
	}
	panic(unsupported("native value"))
}

var _ = filepath.Base

// havoc gives the only integer in a struct an arbitrary value; it tells
// whether there is exactly one.
func (p *Path) havoc(x Iface, name string) Value {
	ptr, ok := x.v.(*Value)
	pt, ok2 := x.t.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		panic(unsupported("Havoc of something else than a pointer"))
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	at := -1
	atomic := -1
	for i := 0; i < st.NumFields(); i++ {
		if k, ok := atomicWord(st.Field(i).Type()); ok {
			if at >= 0 {
				return false
			}
			at, atomic = i, k
			continue
		}
		if w, _, ok := intInfo(st.Field(i).Type()); ok {
			if at >= 0 || w != 64 {
				return false
			}
			at = i
		} else if n, ok := st.Field(i).Type().(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
			return false
		}
	}
	if at < 0 {
		return false
	}
	if atomic >= 0 {
		(*ptr).(Struct)[at].(Struct)[atomic] = p.input("u64", name, bvSort(64))
		return true
	}
	(*ptr).(Struct)[at] = p.input("u64", name, bvSort(64))
	return true
}

// atomicWord tells where sync/atomic's 64-bit integers keep their value.
func atomicWord(t types.Type) (int, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return 0, false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if w, _, ok := intInfo(st.Field(i).Type()); ok && w == 64 {
			return i, true
		}
	}
	return 0, false
}
