// Package odd makes unusual dictionaries, strings and sizes out of the
// vocabulary of the code under test: whatever strings and lengths its current
// source gives a meaning.
package odd

import "github.com/xconnio/wampproto-go/internal/zzverif/sym"

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Dict has every key the code looks up, except those in skip; each has any of
// the strings the code compares with, or a boolean, or nil.
func Dict(skip ...string) map[string]any {
	vals := []any{nil, true, false, "", "other"}
	for _, w := range sym.Words() {
		vals = append(vals, w)
	}
	d := map[string]any{"x.odd": sym.Bool("odd")}
	for _, k := range sym.Keys() {
		if !in(skip, k) {
			d[k] = sym.OneOf(k, vals...)
		}
	}
	return d
}

// One has one key, with a value of another kind.
func One(skip ...string) map[string]any {
	var ks []string
	for _, k := range sym.Keys() {
		if !in(skip, k) {
			ks = append(ks, k)
		}
	}
	n := sym.Uint64("number")
	sym.Assume(n <= 1<<53)
	return map[string]any{ks[sym.Choice("key", len(ks))]: sym.OneOf("value", n, []any{n}, map[string]any{"k": true}, []any{"x"})}
}

// Opts is nil, a Dict or a One.
func Opts(skip ...string) map[string]any {
	switch sym.Choice("odd options", 3) {
	case 0:
		return nil
	case 1:
		return Dict(skip...)
	}
	return One(skip...)
}

// With adds the entries of d to m.
func With(m, d map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range d {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Text is any of the code's strings, alone or with something before or after.
func Text() string {
	l := append(append([]string{}, sym.Words()...), sym.Keys()...)
	s := l[sym.Choice("word", len(l))]
	switch sym.Choice("with", 3) {
	case 1:
		return s + ".x"
	case 2:
		return "x." + s
	}
	return s
}

// Size is one of the code's lengths, or one more or less, up to max.
func Size(max int) int {
	var ok []int
	seen := map[int]bool{}
	for _, n := range sym.Sizes() {
		for d := -1; d <= 1; d++ {
			if m := n + d; m >= 0 && m <= max && !seen[m] {
				seen[m] = true
				ok = append(ok, m)
			}
		}
	}
	return ok[sym.Choice("size", len(ok))]
}

// Copy is a deep copy.
func Copy(v any) any {
	switch x := v.(type) {
	case []any:
		if x == nil {
			return x
		}
		r := make([]any, len(x))
		for i := range x {
			r[i] = Copy(x[i])
		}
		return r
	case map[string]any:
		if x == nil {
			return x
		}
		r := map[string]any{}
		for k, v := range x {
			r[k] = Copy(v)
		}
		return r
	case []byte:
		if x == nil {
			return x
		}
		return append([]byte{}, x...)
	case []uint64:
		return append([]uint64{}, x...)
	case []string:
		return append([]string{}, x...)
	}
	return v
}
