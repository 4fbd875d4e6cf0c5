package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	bool | uint64 (any integer, masked to its width) | float64 | float32 | complex128
//	string | *SymStr | *OpaqueStr
//	*Term (symbolic bool, integer or float)
//	*Value (pointer) | *SymPtr | Struct | Array | []Value (slice) | *MapVal
//	Iface | *SymIface | *Closure | *ssa.Builtin | *ChanVal | Tuple | *rangeIter
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

// SymIface is a guarded union of interface values; exactly one cond holds.
type SymIface struct {
	conds []*Term
	alts  []Iface
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type SymStr struct{ b []Value }

// OpaqueStr is text whose content is not modelled (formatted messages).
type OpaqueStr struct {
	desc  string
	known []string // texts it is known to contain
}

// knownParts is the text of v that is known.
func knownParts(v Value) []string {
	switch x := v.(type) {
	case *OpaqueStr:
		return x.known
	case string:
		return []string{x}
	}
	return nil
}

// SymPtr is a pointer to base[idx] with symbolic idx (known in range).
type SymPtr struct {
	base []Value
	idx  *Term
}

// SliceData is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct{ b []Value }

type mapEnt struct {
	k, v Value
	dead bool
}

type MapVal struct {
	ents   []*mapEnt
	live   int
	conc   map[any]*mapEnt // index of entries with concrete keys
	symk   int             // entries with symbolic keys
	static bool            // created during package initialisation
}

type ChanVal struct {
	closed       bool
	cap          int
	buf          []Value
	sendq, recvq []chanWait
}

type rangeIter struct {
	ents []*mapEnt
	i    int
	str  []Value
	isS  bool
}

var tidMu sync.Mutex
var tidMap typeutil.Map
var tidNext int
var tidCache sync.Map

func tid(t types.Type) int {
	if v, ok := tidCache.Load(t); ok {
		return v.(int)
	}
	tidMu.Lock()
	defer tidMu.Unlock()
	var id int
	if v := tidMap.At(t); v != nil {
		id = v.(int)
	} else {
		tidNext++
		id = tidNext
		tidMap.Set(t, id)
	}
	tidCache.Store(t, id)
	return id
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return tid(a) == tid(b)
}

// intInfo describes integer types.
func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (bits int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Kind() == types.Float32:
			return float32(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Named, *types.Alias, *types.TypeParam:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Chan:
		return (*ChanVal)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("zero value of %v (%T)", t, t)))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, e := range v {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, e := range v {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

func strBytes(v Value) ([]Value, bool) {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r, true
	case *SymStr:
		return v.b, true
	}
	return nil, false
}

func mustStr(v Value) []Value {
	b, ok := strBytes(v)
	if !ok {
		panic(unsupported(fmt.Sprintf("content of formatted text (%T)", v)))
	}
	return b
}

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(uint64))
		}
		return string(bs)
	}
	return &SymStr{append([]Value(nil), b...)}
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported("length of formatted text"))
}

func bytesOf(s string) []Value {
	b, _ := strBytes(s)
	return b
}

// concBytes gives the concrete bytes of a slice, if all are concrete.
func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(u)
	}
	return r, true
}

type ckT struct {
	t int
	v any
}

// concKey maps a concrete comparable value to a Go map key.
func concKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, *Value, *MapVal, *ChanVal:
		return v, true
	case float64:
		if math.IsNaN(v) {
			return nil, false
		}
		if v == 0 {
			v = 0
		}
		return v, true
	case float32:
		if v != v {
			return nil, false
		}
		return v, true
	case Iface:
		if v.t == nil {
			return ckT{}, true
		}
		k, ok := concKey(v.v)
		if !ok {
			return nil, false
		}
		return ckT{tid(v.t), k}, true
	case Struct:
		var sb strings.Builder
		for _, f := range v {
			switch f.(type) {
			case bool, uint64, string:
				fmt.Fprintf(&sb, "%T:%q,", f, fmt.Sprint(f))
			default:
				return nil, false
			}
		}
		return ckT{-1, sb.String()}, true
	case Array:
		k, ok := concKey(Struct(v))
		return k, ok
	}
	return nil, false
}

func newMap() *MapVal { return &MapVal{} }

func (m *MapVal) add(k, v Value) *mapEnt {
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := concKey(k); ok {
		if m.conc == nil {
			m.conc = map[any]*mapEnt{}
		}
		m.conc[ck] = e
	} else {
		m.symk++
	}
	return e
}

func (m *MapVal) remove(e *mapEnt) {
	if e.dead {
		return
	}
	e.dead = true
	m.live--
	if ck, ok := concKey(e.k); ok {
		delete(m.conc, ck)
	} else {
		m.symk--
	}
	for i, x := range m.ents {
		if x == e {
			n := make([]*mapEnt, 0, len(m.ents)-1)
			n = append(n, m.ents[:i]...)
			n = append(n, m.ents[i+1:]...)
			m.ents = n
			break
		}
	}
}

// ---- engine-level control flow ----

type endKind int

const (
	endOK endKind = iota
	endAssume
	endViolation
	endUnsupported
	endSteps
	endKilled
	endBudget
	endUnknown
)

var endNames = []string{"completed", "assumption-infeasible", "violation", "unsupported", "step-bound", "killed", "budget", "solver-unknown"}

// pathEnd unwinds the interpreter of one path.
type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{endUnsupported, msg} }

// goPanic is a panic of the interpreted program.
type goPanic struct{ v Value }
