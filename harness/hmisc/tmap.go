package hmisc

import (
	"errors"

	"github.com/xconnio/wampproto-go/internal"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

type ent struct {
	k uint64
	v any
}

// refMap is a plain association list without branches on symbolic keys.
type refMap struct{ e []ent }

// C44_Uint: any sequence of operations on Map[uint64, uint64].
func C44_Uint() {
	var m internal.Map[uint64, uint64]
	ref := map[uint64]uint64{}
	n := sym.Bound("operations", 5, 7)
	for i := 0; i < n; i++ {
		op := sym.Choice("op", 6)
		if op == 5 && i < n-1 {
			continue // Range is looked at last, and shorter sequences come for free
		}
		if op == 5 {
			break
		}
		k := sym.Uint64("key")
		v := sym.Uint64("value")
		switch op {
		case 0:
			m.Store(k, v)
			ref[k] = v
		case 1:
			m.Delete(k)
			delete(ref, k)
		case 2:
			got, ok := m.Load(k)
			want, wok := ref[k]
			sym.Assert(sym.And(got == want, ok == wok), "Load")
		case 3:
			got, ok := m.LoadAndDelete(k)
			want, wok := ref[k]
			delete(ref, k)
			sym.Assert(sym.And(got == want, ok == wok), "LoadAndDelete")
		case 4:
			got, ok := m.LoadOrStore(k, v)
			want, wok := ref[k]
			if !wok {
				ref[k] = v
				want = v
			}
			sym.Assert(sym.And(got == want, ok == wok), "LoadOrStore")
		}
	}
	count := 0
	m.Range(func(k, v uint64) bool {
		count++
		w, ok := ref[k]
		sym.Assert(sym.And(ok, v == w), "Range gives stored pairs")
		return true
	})
	sym.Assert(count == len(ref), "Range gives every pair once")
	if len(ref) > 0 {
		count = 0
		m.Range(func(k, v uint64) bool { count++; return false })
		sym.Assert(count == 1, "Range stops when asked")
	}
}

// C44_Types: values of pointer and interface types, including nil.
func C44_Types() {
	var p internal.Map[string, *otherT]
	x := &otherT{A: sym.Int("a")}
	if sym.Choice("nilptr", 2) == 1 {
		x = nil
	}
	k := sym.Str("k", 2)
	q := sym.Str("q", 2)
	p.Store(k, x)
	got, ok := p.Load(q)
	if k == q {
		sym.Assert(ok && got == x, "pointer value")
	} else {
		sym.Assert(!ok && got == nil, "absent pointer value")
	}
	var a internal.Map[uint64, any]
	var v any
	switch sym.Choice("any", 3) {
	case 0:
		v = sym.Uint64("u")
	case 1:
		v = sym.Str("s", 2)
	}
	id := sym.Uint64("id")
	r, loaded := a.LoadOrStore(id, v)
	sym.Assert(!loaded && sym.Eq(r, v), "LoadOrStore of an interface value")
	r, loaded = a.Load(id)
	sym.Assert(loaded && sym.Eq(r, v), "Load of an interface value")
	n := 0
	a.Range(func(k uint64, w any) bool {
		n++
		sym.Assert(sym.And(k == id, sym.Eq(w, v)), "Range of an interface value")
		return true
	})
	sym.Assert(n == 1, "Range of an interface value visits it")
	r, loaded = a.LoadAndDelete(id)
	sym.Assert(loaded && sym.Eq(r, v), "LoadAndDelete of an interface value")
	_, loaded = a.Load(id)
	sym.Assert(!loaded, "deleted")
}

// sequence compares a map with a plain one over a sequence of operations.
func sequence[K comparable, V any](m *internal.Map[K, V], n int, keys []K, vals []V, eq func(a, b V) bool) {
	ref := map[K]V{}
	var zero V
	same := func(what string, got V, ok bool, want V, wok bool) {
		sym.Assert(ok == wok && eq(got, want), what)
	}
	for i := 0; i < n; i++ {
		k := keys[sym.Choice("key", len(keys))]
		switch sym.Choice("op", 5) {
		case 0:
			v := vals[sym.Choice("value", len(vals))]
			m.Store(k, v)
			ref[k] = v
		case 1:
			m.Delete(k)
			delete(ref, k)
		case 2:
			got, ok := m.Load(k)
			want, wok := ref[k]
			same("Load", got, ok, want, wok)
		case 3:
			got, ok := m.LoadAndDelete(k)
			want, wok := ref[k]
			delete(ref, k)
			same("LoadAndDelete", got, ok, want, wok)
		case 4:
			v := vals[sym.Choice("value", len(vals))]
			got, ok := m.LoadOrStore(k, v)
			want, wok := ref[k]
			if !wok {
				ref[k], want = v, v
			}
			same("LoadOrStore", got, ok, want, wok)
		}
	}
	count := 0
	m.Range(func(k K, v V) bool {
		count++
		w, ok := ref[k]
		same("Range gives stored pairs", v, true, w, ok)
		return true
	})
	sym.Assert(count == len(ref), "Range gives every pair once")
	for _, k := range keys {
		got, ok := m.Load(k)
		want, wok := ref[k]
		if !wok {
			want = zero
		}
		same("Load at the end", got, ok, want, wok)
	}
}

// C44_Sequences: sequences of operations on maps of other types, with values
// that are nil, zero or empty.
func C44_Sequences() {
	n := sym.Bound("operations", 3, 4)
	u, s := sym.Uint64("u"), sym.Str("s", 1)
	switch sym.Choice("type", 6) {
	case 0:
		sequence(&internal.Map[string, any]{}, n, []string{"", "k"}, []any{nil, u, "", []any{s}, (*otherT)(nil)}, func(a, b any) bool { return sym.Eq(a, b) })
	case 1:
		x := &otherT{A: 1}
		sequence(&internal.Map[uint64, *otherT]{}, n, []uint64{0, 7}, []*otherT{nil, x, {A: 1}}, func(a, b *otherT) bool { return a == b })
	case 2:
		sequence(&internal.Map[uint64, struct{}]{}, n, []uint64{0, 7, 1 << 63}, []struct{}{{}}, func(a, b struct{}) bool { return true })
	case 3:
		sequence(&internal.Map[int, []byte]{}, n, []int{-1, 0}, [][]byte{nil, {}, []byte(s)}, func(a, b []byte) bool { return (a == nil) == (b == nil) && sym.Eq(string(a), string(b)) })
	case 4:
		sequence(&internal.Map[any, error]{}, n, []any{nil, "", uint64(0), 0}, []error{nil, errOne}, func(a, b error) bool { return a == b })
	case 5:
		sequence(&internal.Map[bool, bool]{}, n, []bool{false, true}, []bool{false, true}, func(a, b bool) bool { return a == b })
	}
}

var errOne = errors.New("one")
