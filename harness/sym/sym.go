// Package sym is the interface between harnesses and the checker. The symbolic
// engine gives these functions their symbolic meaning; this file is their
// native meaning, used to replay one concrete instance on the compiled code.
package sym

import (
	"bufio"
	crand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

type entry struct {
	K string `json:"k"`
	N string `json:"n"`
	V string `json:"v"`
}

type obsTxt struct {
	L string `json:"l"`
	V string `json:"v"`
}

type request struct {
	Fn       string  `json:"fn"`
	Trace    []entry `json:"trace"`
	Thorough bool    `json:"thorough"`
	Sched    []int   `json:"sched"`
	UseSched bool    `json:"usesched"`
}

type result struct {
	Panic  string   `json:"panic"`
	Failed []string `json:"failed"`
	Known  []string `json:"known"`

	Possible map[string]bool   `json:"possible"`
	Varies   map[string]string `json:"varies"`
	Assumed  bool              `json:"assumed"`
	Diverged string            `json:"diverged"`
	Obs      []obsTxt          `json:"obs"`
	Asserts  int               `json:"asserts"`
	Deadlock bool              `json:"deadlock"`
}

var (
	cur     request
	pos     int
	res     result
	running bool
)

type stop struct{}

func diverge(msg string) {
	if res.Diverged == "" {
		res.Diverged = msg
	}
}

func next(kind, name string) string {
	lock()
	defer unlock()
	for pos < len(cur.Trace) && (cur.Trace[pos].K == "rnd" || cur.Trace[pos].K == "rndb") && kind != "rnd" && kind != "rndb" {
		pos++ // a random value the real code did not ask for
	}
	if pos >= len(cur.Trace) {
		return ""
	}
	e := cur.Trace[pos]
	if e.K != kind || e.N != name {
		diverge(fmt.Sprintf("input %d is %s %s, asked for %s %s", pos, e.K, e.N, kind, name))
		return ""
	}
	pos++
	return e.V
}

func num(kind, name string) uint64 {
	v := next(kind, name)
	if v == "" {
		return 0
	}
	n, _ := strconv.ParseUint(v, 10, 64)
	return n
}

func Uint64(name string) uint64 { return num("u64", name) }
func Int64(name string) int64   { return int64(num("u64", name)) }
func Int(name string) int       { return int(num("u64", name)) }
func Uint32(name string) uint32 { return uint32(num("u64", name)) }
func Uint16(name string) uint16 { return uint16(num("u64", name)) }
func Uint8(name string) uint8   { return uint8(num("u64", name)) }
func Bool(name string) bool     { return num("bool", name) == 1 }
func Float64(name string) float64 {
	return math.Float64frombits(num("f64", name))
}
func Float32(name string) float32 {
	return math.Float32frombits(uint32(num("f32", name)))
}

func str(name string, n int, def byte) []byte {
	v := next("str", name)
	b, _ := hex.DecodeString(v)
	for len(b) < n {
		b = append(b, def)
	}
	return b[:n]
}

// Str is a string of n printable ASCII bytes.
func Str(name string, n int) string { return string(str(name, n, ' ')) }

// StrRaw is a string of n arbitrary bytes.
func StrRaw(name string, n int) string { return string(str(name, n, 0)) }

// StrOver is a string of n bytes of the alphabet.
func StrOver(name string, n int, alphabet string) string { return string(str(name, n, alphabet[0])) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte { return str(name, n, 0) }

// Choice is one of 0..n-1; every value is its own path.
func Choice(name string, n int) int {
	v := next("choice", name)
	if v == "" {
		return 0
	}
	k, _ := strconv.Atoi(v)
	return k
}

// OneOf is one of the alternatives, chosen by a symbolic selector.
func OneOf(name string, alts ...any) any {
	k := int(num("sel", name))
	if k >= len(alts) {
		k = 0
	}
	return alts[k]
}

// Keys are the strings the code under test looks maps up with, Words those it
// compares strings with, and Sizes the integers it compares lengths with. All
// come from its current source.
func Keys() []string  { return strings.Fields(next("words", "")) }
func Words() []string { return strings.Fields(next("words", "")) }
func Sizes() (r []int) {
	for _, s := range Keys() {
		n, _ := strconv.Atoi(s)
		r = append(r, n)
	}
	return r
}

func Assume(b bool) {
	if !b {
		lock()
		res.Assumed = true
		unlock()
		panic(stop{})
	}
}

func Assert(b bool, label string) {
	lock()
	defer unlock()
	res.Asserts++
	if !b {
		res.Failed = append(res.Failed, label)
	}
}

// Known asserts ok, except that a failure when applies holds is the known
// finding id.
func Known(id string, applies, ok bool, label string) {
	lock()
	defer unlock()
	res.Asserts++
	if !ok {
		if applies {
			res.Known = append(res.Known, id)
		} else {
			res.Failed = append(res.Failed, label)
		}
	}
}

func Cover(label string) {}

// Possible asserts that some run through this point makes b true.
func Possible(b bool, label string) {
	lock()
	defer unlock()
	if res.Possible == nil {
		res.Possible = map[string]bool{}
	}
	res.Possible[label] = res.Possible[label] || b
}

// Varies asserts that x is not the same in every process.
func Varies(x uint64, label string) {
	lock()
	defer unlock()
	if res.Varies == nil {
		res.Varies = map[string]string{}
	}
	res.Varies[label] = strconv.FormatUint(x, 10)
}

// Havoc gives the only integer in a struct an arbitrary value; it tells whether
// there is exactly one beside the fields of package sync.
func Havoc(ptr any, name string) bool {
	v := reflect.ValueOf(ptr).Elem()
	if v.Kind() != reflect.Struct {
		return false
	}
	at, inner := -1, -1
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i).Type
		switch f.Kind() {
		case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr:
			if at >= 0 {
				return false
			}
			at = i
		default:
			if k, ok := atomicWord(f); ok {
				if at >= 0 {
					return false
				}
				at, inner = i, k
				continue
			}
			if !strings.HasPrefix(f.String(), "sync.") && !strings.HasPrefix(f.String(), "vsync.") {
				return false
			}
		}
	}
	if at < 0 {
		return false
	}
	f := v.Field(at)
	if inner >= 0 {
		f = f.Field(inner)
	}
	n := num("u64", name)
	p := unsafe.Pointer(f.UnsafeAddr())
	*(*uint64)(p) = n
	return true
}

// atomicWord tells where an atomic 64-bit integer keeps its value.
func atomicWord(t reflect.Type) (int, bool) {
	if t.Kind() != reflect.Struct || !strings.HasPrefix(t.String(), "atomic.") && !strings.HasPrefix(t.String(), "vatomic.") {
		return 0, false
	}
	for i := 0; i < t.NumField(); i++ {
		switch t.Field(i).Type.Kind() {
		case reflect.Int64, reflect.Uint64:
			return i, true
		}
	}
	return 0, false
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// Eq is reflect.DeepEqual.
func Eq(a, b any) bool { return reflect.DeepEqual(a, b) }

// SameF64 is equality that also holds between two NaNs.
func SameF64(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

// Concretize splits into one path per value of v in lo..hi.
func Concretize(v, lo, hi int) int { return v }

// Branch splits into a path where b holds and one where it does not.
func Branch(b bool) bool { return b }

func IsNil(v any) bool { return v == nil }

// Observe records a value for comparison with the symbolic run.
func Observe(label string, v any) {
	lock()
	defer unlock()
	res.Obs = append(res.Obs, obsTxt{label, render(reflect.ValueOf(v), 0)})
}

func Thorough() bool { return cur.Thorough }

// Bound is a named bound, by tier.
func Bound(name string, quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}

// Symbolic tells a harness whether it runs in the engine.
func Symbolic() bool { return false }

// EnvNondet declares that the native run may differ in environment values.
func EnvNondet()         {}
func Note(s string)      {}
func MapOrder(n int)     {}
func Unsupported(string) {}

// UF, FreshBytes, FreshBelow and FreshInt64 exist only in the engine.
func UF(name string, n int, injective bool, args ...[]byte) []byte { panic("sym.UF in a native run") }
func FreshBytes(n int) []byte                                      { panic("sym.FreshBytes in a native run") }
func FreshBelow(n uint64) uint64                                   { panic("sym.FreshBelow in a native run") }
func FreshInt64() int64                                            { panic("sym.FreshInt64 in a native run") }

// RandHook gives replayed random values to the code under test.
func RandHook(name string) (uint64, bool) {
	lock()
	defer unlock()
	if !running || pos >= len(cur.Trace) || cur.Trace[pos].K != "rnd" {
		return 0, false
	}
	n, _ := strconv.ParseUint(cur.Trace[pos].V, 10, 64)
	pos++
	return n, true
}

type hookReader struct{ r io.Reader }

func (h hookReader) Read(b []byte) (int, error) {
	lock()
	if running && pos < len(cur.Trace) && cur.Trace[pos].K == "rndb" {
		v, _ := hex.DecodeString(cur.Trace[pos].V)
		if len(v) == len(b) {
			pos++
			copy(b, v)
			unlock()
			return len(b), nil
		}
	}
	unlock()
	return h.r.Read(b)
}

// ReplayMain serves replay requests on stdin.
func ReplayMain(fns map[string]func()) {
	crand.Reader = hookReader{crand.Reader}
	debug.SetMaxStack(64 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		cur, pos, res = request{}, 0, result{}
		if err := json.Unmarshal(line, &cur); err != nil {
			return
		}
		fn := fns[cur.Fn]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						res.Panic = fmt.Sprint(r) + " @ " + where()
					}
				}
			}()
			running = true
			runFn(fn)
		}()
		lock()
		running = false
		b, _ := json.Marshal(res)
		unlock()
		out.WriteString("\x02R")
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
	}
}

// where is the innermost frames of the panic in the repository.
func where() string {
	var r []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "zzverif/sym/") && !strings.Contains(l, "runtime/debug") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			r = append(r, l)
			if len(r) == 6 {
				break
			}
		}
	}
	return strings.Join(r, " < ")
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func render(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 7 {
		return "..."
	}
	t := v.Type()
	if t.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem(), d)
	}
	if t.Implements(errType) {
		if t.Kind() == reflect.Pointer && v.IsNil() {
			return "nil"
		}
		return "error"
	}
	switch t.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%s:%d", t.String(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%s:%d", t.String(), v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f != f {
			return t.String() + ":nan"
		}
		return fmt.Sprintf("%s:%x", t.String(), math.Float64bits(f))
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem(), d+1)
	case reflect.Struct:
		var sb strings.Builder
		sb.WriteString(t.String() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(render(v.Field(i), d+1))
		}
		sb.WriteString("}")
		return sb.String()
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return "[nil]"
		}
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return "0x" + hex.EncodeToString(b)
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, render(v.Index(i), d+1))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "map(nil)"
		}
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, render(k, d+1)+"="+render(v.MapIndex(k), d+1))
		}
		sort.Strings(parts)
		return "map(" + strings.Join(parts, ",") + ")"
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "func"
	case reflect.Chan:
		return "chan"
	}
	return "?"
}
