package main

// Canonical text of values under the path model; the native sym package
// renders real values the same way, so that the two can be compared.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

const opaqueMark = "\x01?\x01"

// snapshot copies what may change later.
func (p *Path) snapshot(v Value) Value { return p.snap(v, 0) }

func (p *Path) snap(v Value, d int) Value {
	if d > 7 {
		return v
	}
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, p.snap(x.v, d+1)}
	case *SymIface:
		n := &SymIface{conds: x.conds}
		for _, a := range x.alts {
			n.alts = append(n.alts, p.snap(a, d).(Iface))
		}
		return n
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = p.snap(x[i], d+1)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = p.snap(x[i], d+1)
		}
		return n
	case []Value:
		if x == nil {
			return x
		}
		n := make([]Value, len(x))
		for i := range x {
			n[i] = p.snap(x[i], d+1)
		}
		return n
	case *MapVal:
		if x == nil {
			return x
		}
		n := newMap()
		for _, e := range x.ents {
			n.add(e.k, p.snap(e.v, d+1))
		}
		return n
	case *Value:
		if x == nil {
			return x
		}
		n := new(Value)
		*n = p.snap(*x, d+1)
		return n
	}
	return v
}

func (p *Path) cval(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		p.c.evGen++
		return p.evalRaw(x)
	}
	panic(fmt.Sprintf("cval %T", v))
}

var tError = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func typeName(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()].Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) render(v Value, d int) string {
	switch x := v.(type) {
	case *SymIface:
		p.c.evGen++
		for i, c := range x.conds {
			if p.evalRaw(c) == 1 {
				return p.render(x.alts[i], d)
			}
		}
		return opaqueMark
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return p.renderT(x.t, x.v, d)
	}
	return opaqueMark
}

func (p *Path) renderT(t types.Type, v Value, d int) string {
	if d > 7 {
		return "..."
	}
	if si, ok := v.(*SymIface); ok {
		return p.render(si, d)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return p.render(v, d)
	}
	if types.Implements(t, tError) {
		if ptr, ok := v.(*Value); ok && ptr == nil {
			return "nil"
		}
		return "error"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isBool(t):
			b, ok := v.(bool)
			if !ok {
				b = p.cval(v) == 1
			}
			return fmt.Sprint(b)
		case isString(t):
			switch s := v.(type) {
			case *OpaqueStr:
				return opaqueMark
			default:
				b := make([]byte, 0, 16)
				for _, y := range mustStr(s) {
					if _, ok := y.(*blobByte); ok {
						return opaqueMark
					}
					b = append(b, byte(p.cval(y)))
				}
				return fmt.Sprintf("%q", string(b))
			}
		}
		if w, signed, ok := intInfo(t); ok {
			n := p.cval(v)
			if signed {
				return fmt.Sprintf("%s:%d", typeName(t), sext(n, w))
			}
			return fmt.Sprintf("%s:%d", typeName(t), n)
		}
		if bitsN, ok := isFloat(t); ok {
			var f float64
			switch y := v.(type) {
			case float64:
				f = y
			case float32:
				f = float64(y)
			case *Term:
				n := p.cval(y)
				if bitsN == 32 {
					f = float64(math.Float32frombits(uint32(n)))
				} else {
					f = math.Float64frombits(n)
				}
			}
			if f != f {
				return typeName(t) + ":nan"
			}
			return fmt.Sprintf("%s:%x", typeName(t), math.Float64bits(f))
		}
	case *types.Pointer:
		ptr, ok := v.(*Value)
		if !ok {
			return opaqueMark
		}
		if ptr == nil {
			return "nil"
		}
		return "&" + p.renderT(u.Elem(), *ptr, d+1)
	case *types.Struct:
		s := v.(Struct)
		var sb strings.Builder
		sb.WriteString(typeName(t) + "{")
		for i := range s {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(p.renderT(u.Field(i).Type(), s[i], d+1))
		}
		sb.WriteString("}")
		return sb.String()
	case *types.Slice, *types.Array:
		var el types.Type
		var s []Value
		switch u := u.(type) {
		case *types.Slice:
			el = u.Elem()
			s, _ = v.([]Value)
			if s == nil {
				return "[nil]"
			}
		case *types.Array:
			el = u.Elem()
			s = []Value(v.(Array))
		}
		if w, _, ok := intInfo(el); ok && w == 8 {
			b := make([]byte, 0, len(s))
			for _, y := range s {
				if _, ok := y.(*blobByte); ok {
					return opaqueMark
				}
				b = append(b, byte(p.cval(y)))
			}
			return "0x" + hex.EncodeToString(b)
		}
		var parts []string
		for _, e := range s {
			parts = append(parts, p.renderT(el, e, d+1))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case *types.Map:
		m, _ := v.(*MapVal)
		if m == nil {
			return "map(nil)"
		}
		var parts []string
		for _, e := range m.ents {
			parts = append(parts, p.renderT(u.Key(), e.k, d+1)+"="+p.renderT(u.Elem(), e.v, d+1))
		}
		sort.Strings(parts)
		return "map(" + strings.Join(parts, ",") + ")"
	case *types.Signature:
		if c, ok := v.(*Closure); ok && c == nil {
			return "nil"
		}
		return "func"
	case *types.Chan:
		return "chan"
	}
	return opaqueMark
}

// matchRender compares a rendering that may have opaque parts with a native one.
func matchRender(sym, nat string) bool {
	parts := strings.Split(sym, opaqueMark)
	if len(parts) == 1 {
		return sym == nat
	}
	if !strings.HasPrefix(nat, parts[0]) {
		return false
	}
	nat = nat[len(parts[0]):]
	for _, q := range parts[1:] {
		i := strings.Index(nat, q)
		if i < 0 {
			return false
		}
		nat = nat[i+len(q):]
	}
	return true
}
