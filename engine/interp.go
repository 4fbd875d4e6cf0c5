package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded SSA of the code under test and the harness.
type Program struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	fns        sync.Map // *ssa.Function -> *fnInfo
	repoMod    string
	redirect   map[string]*ssa.Function
	randReader types.Type // of the value of crypto/rand.Reader
	meth       sync.Map   // methKey -> *ssa.Function
	impl       sync.Map   // [2]int -> bool
	rtErr      types.Type
}

type operand struct {
	kind byte // 0 none 1 slot 2 const 3 global
	idx  int
	val  Value
	glob *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int // slot or -1
}

type cblock struct {
	b      *ssa.BasicBlock
	phis   []cinstr
	ins    []cinstr
	weight int
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	nslots    int
	blocks    []*cblock
	hasDefer  bool
	recover   int // block index or -1
	intrinsic intrinsic
	redir     *ssa.Function
	inRepo    bool
	inHarness bool
	paramSlot []int
	freeSlot  []int
	id        int
	noBody    bool
}

type intrinsic func(fr *Frame, fi *fnInfo, args []Value) Value

var fnIDs struct {
	sync.Mutex
	n int
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := pr.compile(fn)
	v, loaded := pr.fns.LoadOrStore(fn, fi)
	if !loaded {
		fnIDs.Lock()
		fi.id = fnIDs.n
		fnIDs.n++
		fnIDs.Unlock()
	}
	return v.(*fnInfo)
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Prog.Package(fn.Object().Pkg())
	}
	return nil
}

// fnKey names a function independent of instantiation.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (pr *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnKey(fn), recover: -1}
	if pk := fnPkg(fn); pk != nil {
		path := pk.Pkg.Path()
		if strings.HasPrefix(path, pr.repoMod) {
			if strings.Contains(path, "/internal/zzverif/") {
				fi.inHarness = true
			} else {
				fi.inRepo = true
			}
		}
	}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intrinsic = in
		return fi
	}
	if r, ok := pr.redirect[fi.name]; ok && r != fn {
		fi.redir = r
		return fi
	}
	if pk := fnPkg(fn); pk != nil {
		if in := pkgIntrinsic(pk.Pkg.Path(), fi.name, fn); in != nil {
			fi.intrinsic = in
			return fi
		}
	}
	if len(fn.Blocks) == 0 {
		fi.noBody = true
		return fi
	}
	slots := map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		s := fi.nslots
		slots[v] = s
		fi.nslots++
		return s
	}
	for _, p := range fn.Params {
		fi.paramSlot = append(fi.paramSlot, slot(p))
	}
	for _, f := range fn.FreeVars {
		fi.freeSlot = append(fi.freeSlot, slot(f))
	}
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{}
		case *ssa.Const:
			return operand{kind: 2, val: constVal(v)}
		case *ssa.Global:
			return operand{kind: 3, glob: v}
		case *ssa.Function:
			return operand{kind: 2, val: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{kind: 2, val: v}
		}
		return operand{kind: 1, idx: slot(v)}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b, weight: len(b.Instrs)}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			for _, op := range in.Operands(nil) {
				if op == nil {
					ci.ops = append(ci.ops, operand{})
					continue
				}
				ci.ops = append(ci.ops, mkop(*op))
			}
			switch in.(type) {
			case *ssa.Phi:
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDefer = true
			}
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
		fi.hasDefer = true
	}
	return fi
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	}
	if bitsN, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(c.Value)
		if bitsN == 32 {
			return float32(f)
		}
		return f
	}
	if isBool(t) {
		return constant.BoolVal(c.Value)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	return unsupportedConst{t.String()}
}

type unsupportedConst struct{ t string }

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type Frame struct {
	p         *Path
	th        *Thread
	fi        *fnInfo
	env       []Value
	caller    *Frame
	block     int
	prev      int
	ip        int
	defers    []deferred
	result    Value
	panicking bool
	panicV    Value
	recovered bool
	depth     int
}

func (fr *Frame) pos() token.Pos {
	if fr.block < len(fr.fi.blocks) {
		cb := fr.fi.blocks[fr.block]
		for i := min(fr.ip, len(cb.ins)-1); i >= 0; i-- {
			if p := cb.ins[i].in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return fr.fi.fn.Pos()
}

func (fr *Frame) get(o *operand) Value {
	switch o.kind {
	case 1:
		return fr.env[o.idx]
	case 2:
		return o.val
	case 3:
		return fr.p.global(o.glob)
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	v := new(Value)
	*v = zero(g.Type().(*types.Pointer).Elem())
	p.globals[g] = v
	// lazily initialise the package on first access
	if g.Pkg != nil && g.Name() != "init$guard" {
		p.initPkg(g.Pkg)
		if g.Name() == "Reader" && g.Pkg.Pkg.Path() == "crypto/rand" {
			obj := new(Value)
			*obj = Struct{}
			*v = Iface{t: types.NewPointer(p.prg.randReader), v: obj}
		}
	}
	return v
}

// eof is io.EOF.
func (p *Path) eof() Value {
	if pkg := p.prg.prog.ImportedPackage("io"); pkg != nil {
		if g, ok := pkg.Members["EOF"].(*ssa.Global); ok {
			return copyVal(*p.global(g))
		}
	}
	return p.mkError("EOF")
}

func (p *Path) initPkg(pkg *ssa.Package) {
	if p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	switch pkg.Pkg.Path() {
	case "runtime", "reflect", "os", "syscall", "internal/poll", "time", "crypto/rand", "math/rand",
		"golang.org/x/exp/rand", "math/rand/v2", "encoding/json", "github.com/fxamacker/cbor/v2",
		"github.com/vmihailenco/msgpack/v5", "internal/godebug", "testing", "net", "fmt",
		"crypto/sha256", "crypto/hmac", "crypto/ed25519", "hash", "unique", "internal/cpu",
		"crypto/internal/fips140/sha256", "internal/bytealg":
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	p.initMode++
	th := p.cur
	p.call(th, th.top, fn, nil, nil)
	p.initMode--
}

// call runs fn with args.
func (p *Path) call(th *Thread, caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := p.prg.info(fn)
	for fi.redir != nil {
		fi = p.prg.info(fi.redir)
	}
	if fi.inRepo {
		p.w.cover(fi)
	}
	if fi.intrinsic != nil {
		fr := &Frame{p: p, th: th, fi: fi, caller: caller}
		return fi.intrinsic(fr, fi, args)
	}
	if fi.noBody {
		panic(unsupported("function without body: " + fi.name))
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && caller != nil && caller.fi.fn.Name() == "init" && p.initMode > 0 {
		// import initialisers: packages initialise lazily, except that repo
		// packages with explicit init functions must run
		if !fi.inRepo && !fi.inHarness {
			return nil
		}
		if p.inited[fn.Pkg] {
			return nil
		}
		p.inited[fn.Pkg] = true
	}
	fr := &Frame{p: p, th: th, fi: fi, caller: caller, env: make([]Value, fi.nslots)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 400 {
			panic(pathEnd{endSteps, "call depth"})
		}
	}
	for i, s := range fi.paramSlot {
		fr.env[s] = args[i]
	}
	for i, s := range fi.freeSlot {
		fr.env[s] = env[i]
	}
	th.top = fr
	if fi.hasDefer {
		p.runDeferFrame(fr)
	} else {
		p.run(fr)
	}
	th.top = caller
	return fr.result
}

func (p *Path) runDeferFrame(fr *Frame) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(goPanic)
				if !ok {
					panic(r)
				}
				fr.th.top = fr
				fr.panicking = true
				fr.panicV = gp.v
				p.runDefers(fr)
				// recovered
				fr.recovered = true
			}
		}()
		p.run(fr)
	}()
	if fr.recovered {
		if fr.fi.recover >= 0 {
			fr.block = fr.fi.recover
			fr.prev = -1
			p.run(fr)
		} else {
			fr.result = zero(resultTuple(fr.fi.fn))
		}
	}
}

func resultTuple(fn *ssa.Function) types.Type { return fn.Signature.Results() }

func (p *Path) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(goPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = gp.v
					fr.th.top = fr
				}
			}()
			p.callValue(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(goPanic{fr.panicV})
	}
}

func (p *Path) callValue(fr *Frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			panic(goPanic{mkRTError("invalid memory address or nil pointer dereference")})
		}
		return p.call(fr.th, fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, nil)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func mkRTError(msg string) Value {
	return Iface{t: types.Typ[types.String], v: "runtime error: " + msg}
}

func nilDeref() { panic(goPanic{mkRTError("invalid memory address or nil pointer dereference")}) }

func (p *Path) run(fr *Frame) {
	for {
		cb := fr.fi.blocks[fr.block]
		p.steps += cb.weight
		if p.steps > p.maxSteps {
			panic(pathEnd{endSteps, "step bound in " + fr.fi.name})
		}
		if fr.fi.inRepo {
			p.w.coverBlock(fr.fi, fr.block)
		}
		if len(cb.phis) > 0 {
			k := -1
			for i, pr := range cb.b.Preds {
				if pr.Index == fr.prev {
					k = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.env[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[k])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(&cb.phis[i].ops[k])
				}
				for i := range cb.phis {
					fr.env[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		next := -1
		for i := range cb.ins {
			fr.ip = i
			ci := &cb.ins[i]
			switch in := ci.in.(type) {
			case *ssa.If:
				if p.branch(fr.get(&ci.ops[0])) {
					next = cb.b.Succs[0].Index
				} else {
					next = cb.b.Succs[1].Index
				}
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range t {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				panic(goPanic{fr.get(&ci.ops[0])})
			default:
				p.exec(fr, in, ci)
			}
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (p *Path) exec(fr *Frame, in ssa.Instruction, ci *cinstr) {
	op := func(i int) Value { return fr.get(&ci.ops[i]) }
	set := func(v Value) { fr.env[ci.dst] = v }
	switch in := in.(type) {
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(in.Type().Underlying().(*types.Pointer).Elem())
		set(v)
	case *ssa.UnOp:
		set(p.unop(fr, in, op(0)))
	case *ssa.BinOp:
		set(p.binop(in.Op, in.X.Type(), in.Y.Type(), op(0), op(1)))
	case *ssa.Call:
		set(p.callInstr(fr, in.Common(), ci))
	case *ssa.Store:
		p.store(op(0), op(1))
	case *ssa.FieldAddr:
		ptr, ok := op(0).(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address of %T", op(0))))
		}
		if ptr == nil {
			nilDeref()
		}
		s, ok := (*ptr).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address in %T", *ptr)))
		}
		set(&s[in.Field])
	case *ssa.Field:
		set(op(0).(Struct)[in.Field])
	case *ssa.IndexAddr:
		set(p.indexAddr(op(0), op(1), in.Index.Type()))
	case *ssa.Index:
		switch x := op(0).(type) {
		case Array:
			w, _, _ := intInfo(in.Type())
			set(p.loadIdx([]Value(x), p.checkIdx(op(1), in.Index.Type(), len(x)), w))
		case string, *SymStr, *OpaqueStr:
			b := mustStr(x)
			set(p.loadIdx(b, p.checkIdx(op(1), in.Index.Type(), len(b)), 8))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", x)))
		}
	case *ssa.Lookup:
		set(p.lookup(in, op(0), op(1)))
	case *ssa.MapUpdate:
		m, _ := op(0).(*MapVal)
		p.accessMap(m, true)
		p.mapSet(m, op(1), copyVal(op(2)))
	case *ssa.MakeMap:
		m := newMap()
		m.static = p.initMode > 0
		set(m)
	case *ssa.MakeSlice:
		n := p.concLen(op(0), in.Len.Type())
		c := p.concLen(op(1), in.Cap.Type())
		if c < n {
			panic(goPanic{mkRTError("makeslice: cap out of range")})
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		for i := range s {
			s[i] = zero(el)
		}
		set(s[:n])
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i := range env {
			env[i] = op(i + 1)
		}
		set(&Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		set(Iface{t: in.X.Type(), v: copyVal(op(0))})
	case *ssa.ChangeInterface:
		set(op(0))
	case *ssa.ChangeType:
		set(op(0))
	case *ssa.Convert:
		set(p.convert(in.X.Type(), in.Type(), op(0)))
	case *ssa.MultiConvert:
		set(p.convert(in.X.Type(), in.Type(), op(0)))
	case *ssa.SliceToArrayPointer:
		s := op(0).([]Value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(goPanic{mkRTError("cannot convert slice to array pointer")})
		}
		v := new(Value)
		*v = Array(s[:n:n])
		set(v)
	case *ssa.TypeAssert:
		set(p.typeAssert(in, op(0)))
	case *ssa.Extract:
		set(op(0).(Tuple)[in.Index])
	case *ssa.Slice:
		set(p.sliceOp(in, op(0), op(1), op(2), op(3)))
	case *ssa.Range:
		set(p.rangeInit(fr, op(0)))
	case *ssa.Next:
		set(p.rangeNext(in, op(0).(*rangeIter)))
	case *ssa.Defer:
		fv, args := p.prepCall(fr, in.Common(), ci)
		if in.DeferStack != nil {
			// range-over-func defer: find the frame owning the stack
			if owner, ok := op(len(ci.ops) - 1).(*Frame); ok {
				owner.defers = append(owner.defers, deferred{fn: fv, args: args, in: in})
				break
			}
		}
		fr.defers = append(fr.defers, deferred{fn: fv, args: args, in: in})
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.Go:
		fv, args := p.prepCall(fr, in.Common(), ci)
		p.spawn(fr, fv, args)
	case *ssa.MakeChan:
		n := p.concLen(op(0), types.Typ[types.Int])
		set(&ChanVal{cap: n})
	case *ssa.Select:
		set(p.selectOp(fr, in, op))
	case *ssa.Send:
		ch, _ := op(0).(*ChanVal)
		p.chanSend(fr.th, ch, op(1))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (p *Path) concLen(v Value, t types.Type) int {
	switch x := v.(type) {
	case uint64:
		w, signed, _ := intInfo(t)
		if signed {
			n := sext(x, w)
			if n < 0 {
				panic(goPanic{mkRTError("makeslice: len out of range")})
			}
			if n > 1<<20 {
				panic(unsupported("large allocation"))
			}
			return int(n)
		}
		if x > 1<<20 {
			panic(unsupported("large allocation"))
		}
		return int(x)
	case *Term:
		w := int(x.sort.W)
		if _, signed, _ := intInfo(t); signed {
			if p.branch(p.val(p.c.Bin(OSlt, x, p.c.BV(0, w)))) {
				panic(goPanic{mkRTError("makeslice: len out of range")})
			}
		}
		if p.branch(p.val(p.c.Bin(OUlt, p.c.BV(64, w), x))) {
			panic(unsupported("symbolic allocation beyond 64 elements"))
		}
		return int(p.concretizeRange(x, 0, 64))
	}
	panic(unsupported("length"))
}

// checkIdx does the bounds check; the result is int or *Term.
func (p *Path) checkIdx(i Value, t types.Type, n int) Value {
	w, signed, _ := intInfo(t)
	switch x := i.(type) {
	case uint64:
		var bad bool
		if signed {
			s := sext(x, w)
			bad = s < 0 || s >= int64(n)
		} else {
			bad = x >= uint64(n)
		}
		if bad {
			panic(goPanic{mkRTError(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n))})
		}
		return int(x)
	case *Term:
		x = p.c.Resize(x, 64, signed)
		if !p.branch(p.val(p.c.Bin(OUlt, x, p.c.BV(uint64(n), 64)))) {
			panic(goPanic{mkRTError(fmt.Sprintf("index out of range with length %d", n))})
		}
		if n == 1 {
			return 0
		}
		return x
	}
	panic(unsupported("index"))
}

// loadIdx reads b[i]; w is the element width for integers, 0 otherwise.
func (p *Path) loadIdx(b []Value, i Value, w int) Value {
	switch i := i.(type) {
	case int:
		return copyVal(b[i])
	case *Term:
		if w > 0 {
			return p.iteChain(b, i, w)
		}
		k := p.concretizeRange(i, 0, int64(len(b)-1))
		return copyVal(b[k])
	}
	panic("loadIdx")
}

func (p *Path) iteChain(b []Value, i *Term, w int) Value {
	t := p.bv(b[len(b)-1], w)
	for k := len(b) - 2; k >= 0; k-- {
		if b[k] == b[k+1] {
			continue // i <= k+1 already yields this value
		}
		t = p.c.Ite(p.c.Bin(OUle, i, p.c.BV(uint64(k), 64)), p.bv(b[k], w), t)
	}
	return p.val(t)
}

func (p *Path) indexAddr(x, i Value, it types.Type) Value {
	var base []Value
	switch x := x.(type) {
	case []Value:
		base = x
	case *Value:
		if x == nil {
			nilDeref()
		}
		base = []Value((*x).(Array))
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	switch k := p.checkIdx(i, it, len(base)).(type) {
	case int:
		return &base[k]
	case *Term:
		for _, e := range base {
			switch e.(type) {
			case uint64, *Term:
			default:
				return &base[p.concretizeRange(k, 0, int64(len(base)-1))]
			}
		}
		return &SymPtr{base, k}
	}
	panic("indexAddr")
}

func (p *Path) load(ptr Value, t types.Type) Value {
	switch x := ptr.(type) {
	case *Value:
		if x == nil {
			nilDeref()
		}
		p.access(x, false)
		return copyVal(*x)
	case *SymPtr:
		w, _, ok := intInfo(t)
		if !ok {
			return p.loadIdx(x.base, x.idx, 0)
		}
		return p.iteChain(x.base, x.idx, w)
	}
	panic(unsupported(fmt.Sprintf("load through %T", ptr)))
}

func (p *Path) store(ptr, v Value) {
	switch x := ptr.(type) {
	case *Value:
		if x == nil {
			nilDeref()
		}
		p.access(x, true)
		// keep the identity of aggregate storage so that field pointers stay valid
		switch nv := v.(type) {
		case Struct:
			if old, ok := (*x).(Struct); ok && len(old) == len(nv) {
				for i := range nv {
					p.storeInto(&old[i], nv[i])
				}
				return
			}
		case Array:
			if old, ok := (*x).(Array); ok && len(old) == len(nv) {
				for i := range nv {
					p.storeInto(&old[i], nv[i])
				}
				return
			}
		}
		*x = copyVal(v)
	case *SymPtr:
		for i := range x.base {
			w := 64
			if t, ok := x.base[i].(*Term); ok {
				w = int(t.sort.W)
			} else if t, ok := v.(*Term); ok {
				w = int(t.sort.W)
			} else {
				panic(unsupported("store at symbolic index"))
			}
			x.base[i] = p.val(p.c.Ite(p.c.Eq(x.idx, p.c.BV(uint64(i), 64)), p.bv(v, w), p.bv(x.base[i], w)))
		}
	default:
		panic(unsupported(fmt.Sprintf("store through %T", ptr)))
	}
}

func (p *Path) storeInto(dst *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*dst).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				p.storeInto(&old[i], nv[i])
			}
			return
		}
	case Array:
		if old, ok := (*dst).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				p.storeInto(&old[i], nv[i])
			}
			return
		}
	}
	*dst = copyVal(v)
}

func (p *Path) unop(fr *Frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return p.load(x, in.Type())
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return p.val(p.c.Not(x))
		}
	case token.SUB:
		if w, _, ok := intInfo(in.Type()); ok {
			if u, ok := x.(uint64); ok {
				return -u & mask(w)
			}
			return p.val(p.c.Neg(x.(*Term)))
		}
		switch x := x.(type) {
		case float64:
			return -x
		case float32:
			return -x
		case complex128:
			return -x
		case *Term:
			return p.val(p.c.FUn(OFNeg, x, x.sort))
		}
	case token.XOR:
		w, _, _ := intInfo(in.Type())
		if u, ok := x.(uint64); ok {
			return ^u & mask(w)
		}
		return p.val(p.c.BNot(x.(*Term)))
	case token.ARROW:
		ch, _ := x.(*ChanVal)
		v, ok := p.chanRecv(fr.th, ch, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("unary %v on %T", in.Op, x)))
}

func (p *Path) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return p.val(p.eqT(xt, yt, x, y))
	case token.NEQ:
		return p.val(p.c.Not(p.eqT(xt, yt, x, y)))
	}
	if w, signed, ok := intInfo(xt); ok {
		return p.intBin(op, w, signed, yt, x, y)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return p.concat(x, y)
		}
		a, b := mustStr(x), mustStr(y)
		var t *Term
		switch op {
		case token.LSS:
			t = p.ltBytes(a, b)
		case token.GTR:
			t = p.ltBytes(b, a)
		case token.LEQ:
			t = p.c.Not(p.ltBytes(b, a))
		case token.GEQ:
			t = p.c.Not(p.ltBytes(a, b))
		}
		return p.val(t)
	}
	if bitsN, ok := isFloat(xt); ok {
		_ = bitsN
		a, b := p.term(x), p.term(y)
		var t *Term
		switch op {
		case token.ADD:
			t = p.c.FBin(OFAdd, a, b)
		case token.SUB:
			t = p.c.FBin(OFSub, a, b)
		case token.MUL:
			t = p.c.FBin(OFMul, a, b)
		case token.QUO:
			t = p.c.FBin(OFDiv, a, b)
		case token.LSS:
			t = p.c.FBin(OFLt, a, b)
		case token.LEQ:
			t = p.c.FBin(OFLe, a, b)
		case token.GTR:
			t = p.c.FBin(OFLt, b, a)
		case token.GEQ:
			t = p.c.FBin(OFLe, b, a)
		}
		return p.val(t)
	}
	panic(unsupported(fmt.Sprintf("binary %v on %v", op, xt)))
}

func (p *Path) concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	a, ok1 := strBytes(x)
	b, ok2 := strBytes(y)
	if !ok1 || !ok2 {
		return &OpaqueStr{"concat", append(append([]string(nil), knownParts(x)...), knownParts(y)...)}
	}
	return mkStr(append(append([]Value(nil), a...), b...))
}

func (p *Path) eqT(xt, yt types.Type, x, y Value) *Term {
	// a comparison of an interface with a concrete operand
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		y = Iface{yt, y}
	} else if yi && !xi {
		x = Iface{xt, x}
	}
	return p.eqVals(x, y)
}

func (p *Path) intBin(op token.Token, w int, signed bool, yt types.Type, x, y Value) Value {
	m := mask(w)
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if op == token.SHL || op == token.SHR {
		yw, ysigned, _ := intInfo(yt)
		if ok2 {
			if ysigned && sext(b, yw) < 0 {
				panic(goPanic{mkRTError("negative shift amount")})
			}
			if ok1 {
				if op == token.SHL {
					if b >= uint64(w) {
						return uint64(0)
					}
					return (a << b) & m
				}
				if signed {
					if b > 63 {
						b = 63
					}
					return uint64(sext(a, w)>>b) & m
				}
				if b >= uint64(w) {
					return uint64(0)
				}
				return a >> b
			}
			t := p.bv(x, w)
			if b >= uint64(w) {
				if op == token.SHR && signed {
					b = uint64(w - 1)
				} else {
					return uint64(0)
				}
			}
			sh := p.c.BV(b, w)
			switch {
			case op == token.SHL:
				return p.val(p.c.Bin(OShl, t, sh))
			case signed:
				return p.val(p.c.Bin(OAShr, t, sh))
			}
			return p.val(p.c.Bin(OLShr, t, sh))
		}
		ty := y.(*Term)
		if ysigned {
			if p.branch(p.val(p.c.Bin(OSlt, ty, p.c.BV(0, yw)))) {
				panic(goPanic{mkRTError("negative shift amount")})
			}
		}
		t := p.bv(x, w)
		// clamp the amount into the width
		var big *Term
		if yw > 8 || uint64(w) <= mask(yw) {
			big = p.c.Bin(OUle, p.c.BV(uint64(w), yw), ty)
		} else {
			big = p.c.False
		}
		sh := p.c.Resize(ty, w, false)
		var r, ov *Term
		switch {
		case op == token.SHL:
			r, ov = p.c.Bin(OShl, t, sh), p.c.BV(0, w)
		case signed:
			r, ov = p.c.Bin(OAShr, t, sh), p.c.Bin(OAShr, t, p.c.BV(uint64(w-1), w))
		default:
			r, ov = p.c.Bin(OLShr, t, sh), p.c.BV(0, w)
		}
		return p.val(p.c.Ite(big, ov, r))
	}
	if op == token.QUO || op == token.REM {
		if ok2 {
			if b == 0 {
				panic(goPanic{mkRTError("integer divide by zero")})
			}
		} else if p.branch(p.val(p.c.Eq(p.bv(y, w), p.c.BV(0, w)))) {
			panic(goPanic{mkRTError("integer divide by zero")})
		}
	}
	var bop Op
	swap, neg := false, false
	switch op {
	case token.ADD:
		bop = OAdd
	case token.SUB:
		bop = OSub
	case token.MUL:
		bop = OMul
	case token.QUO:
		bop = OUDiv
		if signed {
			bop = OSDiv
		}
	case token.REM:
		bop = OURem
		if signed {
			bop = OSRem
		}
	case token.AND:
		bop = OBAnd
	case token.OR:
		bop = OBOr
	case token.XOR:
		bop = OBXor
	case token.AND_NOT:
		if ok1 && ok2 {
			return a &^ b
		}
		return p.val(p.c.Bin(OBAnd, p.bv(x, w), p.c.BNot(p.bv(y, w))))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		bop = OUlt
		if signed {
			bop = OSlt
		}
		swap = op == token.GTR || op == token.LEQ
		neg = op == token.LEQ || op == token.GEQ
	default:
		panic(unsupported("int op " + op.String()))
	}
	if ok1 && ok2 {
		if swap {
			a, b = b, a
		}
		r := bvBin(bop, a, b, w)
		if bop >= OUlt && bop <= OSle {
			return (r == 1) != neg
		}
		return r
	}
	tx, ty := p.bv(x, w), p.bv(y, w)
	if swap {
		tx, ty = ty, tx
	}
	t := p.c.Bin(bop, tx, ty)
	if neg {
		t = p.c.Not(t)
	}
	return p.val(t)
}

func (p *Path) lookup(in *ssa.Lookup, x, k Value) Value {
	switch x := x.(type) {
	case *MapVal:
		p.accessMap(x, false)
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
			panic(goPanic{mkRTError("hash of unhashable type " + i.t.String())})
		}
		e := p.mapFind(x, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(vt)
		}
		if in.CommaOk {
			return Tuple{v, e != nil}
		}
		return v
	default:
		b := mustStr(x)
		return p.loadIdx(b, p.checkIdx(k, in.Index.Type(), len(b)), 8)
	}
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x Value) Value {
	at := in.AssertedType
	iface, isI := at.Underlying().(*types.Interface)
	match := func(a Iface) bool {
		if a.t == nil {
			return false
		}
		if isI {
			return p.prg.implements(a.t, iface)
		}
		return sameType(a.t, at)
	}
	fail := func(what string) Value {
		if in.CommaOk {
			return Tuple{zero(at), false}
		}
		panic(goPanic{mkRTError(fmt.Sprintf("interface conversion: interface is %s, not %s", what, at))})
	}
	ok := func(v Value) Value {
		if in.CommaOk {
			return Tuple{v, true}
		}
		return v
	}
	switch x := x.(type) {
	case Iface:
		if !match(x) {
			w := "nil"
			if x.t != nil {
				w = x.t.String()
			}
			return fail(w)
		}
		if isI {
			return ok(x)
		}
		return ok(copyVal(x.v))
	case *SymIface:
		cond := p.c.False
		var cs []*Term
		var as []Iface
		for i, a := range x.alts {
			if match(a) {
				cond = p.c.Or(cond, x.conds[i])
				cs = append(cs, x.conds[i])
				as = append(as, a)
			}
		}
		if !p.branch(p.val(cond)) {
			return fail("other")
		}
		if isI {
			if len(as) == 1 {
				return ok(as[0])
			}
			return ok(&SymIface{cs, as})
		}
		vals := make([]Value, len(as))
		for i := range as {
			vals[i] = as[i].v
		}
		if v, merged := p.mergeT(at, cs, vals); merged {
			return ok(v)
		}
		return ok(copyVal(vals[p.decide(cs)]))
	}
	panic(unsupported(fmt.Sprintf("type assertion on %T", x)))
}

func (pr *Program) implements(t types.Type, i *types.Interface) bool {
	if i.NumMethods() == 0 {
		return true
	}
	k := [2]int{tid(t), tid(i)}
	if v, ok := pr.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	pr.impl.Store(k, r)
	return r
}

func (p *Path) bound(v Value, t types.Type, def int, max int, what string) int {
	switch x := v.(type) {
	case nil:
		return def
	case uint64:
		w, signed, _ := intInfo(t)
		n := int64(x)
		if signed {
			n = sext(x, w)
		} else if x > 1<<40 {
			n = 1 << 40
		}
		if n < 0 || n > int64(max) {
			panic(goPanic{mkRTError(fmt.Sprintf("slice bounds out of range [%s %d] with capacity %d", what, n, max))})
		}
		return int(n)
	case *Term:
		_, signed, _ := intInfo(t)
		x = p.c.Resize(x, 64, signed)
		if !p.branch(p.val(p.c.Bin(OUle, x, p.c.BV(uint64(max), 64)))) {
			panic(goPanic{mkRTError("slice bounds out of range")})
		}
		return int(p.concretizeRange(x, 0, int64(max)))
	}
	panic(unsupported("slice bound"))
}

func (p *Path) sliceOp(in *ssa.Slice, x, lo, hi, mx Value) Value {
	tOf := func(v ssa.Value) types.Type {
		if v == nil {
			return types.Typ[types.Int]
		}
		return v.Type()
	}
	switch x := x.(type) {
	case string, *SymStr, *OpaqueStr:
		b := mustStr(x)
		h := p.bound(hi, tOf(in.High), len(b), len(b), ":")
		l := p.bound(lo, tOf(in.Low), 0, h, "")
		return mkStr(b[l:h])
	case []Value:
		m := p.bound(mx, tOf(in.Max), cap(x), cap(x), "::")
		h := p.bound(hi, tOf(in.High), len(x), m, ":")
		l := p.bound(lo, tOf(in.Low), 0, h, "")
		if x == nil {
			return []Value(nil)
		}
		return x[l:h:m]
	case *Value:
		if x == nil {
			nilDeref()
		}
		a := []Value((*x).(Array))
		m := p.bound(mx, tOf(in.Max), len(a), len(a), "::")
		h := p.bound(hi, tOf(in.High), len(a), m, ":")
		l := p.bound(lo, tOf(in.Low), 0, h, "")
		return a[l:h:m]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (p *Path) rangeInit(fr *Frame, x Value) Value {
	switch x := x.(type) {
	case *MapVal:
		it := &rangeIter{}
		if x == nil {
			return it
		}
		p.accessMap(x, false)
		it.ents = append(it.ents, x.ents...)
		if p.mapOrder > 0 && !x.static && fr.fi.inRepo && len(it.ents) >= 2 {
			n := len(it.ents)
			if n <= p.mapOrder {
				// all permutations, by successive choice
				for i := 0; i < n-1; i++ {
					k := i + p.choose(n-i)
					e := it.ents[k]
					copy(it.ents[i+1:k+1], it.ents[i:k])
					it.ents[i] = e
				}
			} else if p.choose(2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
			p.envND = true
		}
		return it
	default:
		return &rangeIter{isS: true, str: mustStr(x)}
	}
}

func (p *Path) rangeNext(in *ssa.Next, it *rangeIter) Value {
	if it.isS {
		if it.i >= len(it.str) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		i := it.i
		r, n := p.decodeRune(it.str[i:])
		it.i += n
		return Tuple{true, uint64(i), r}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

func (p *Path) decodeRune(b []Value) (Value, int) {
	if t, ok := b[0].(*Term); ok {
		if !p.branch(p.val(p.c.Bin(OUlt, t, p.c.BV(0x80, 8)))) {
			panic(unsupported("symbolic non-ASCII rune"))
		}
		return p.val(p.c.Resize(t, 32, false)), 1
	}
	if u := b[0].(uint64); u < 0x80 {
		return u, 1
	}
	var bs []byte
	for i := 0; i < len(b) && i < 4; i++ {
		u, ok := b[i].(uint64)
		if !ok {
			break
		}
		bs = append(bs, byte(u))
	}
	for i, r := range string(bs) {
		_ = i
		n := len(string(r))
		if r == 0xFFFD && !(len(bs) >= 3 && bs[0] == 0xEF && bs[1] == 0xBF && bs[2] == 0xBD) {
			n = 1
		}
		return uint64(uint32(r)), n
	}
	return uint64(0xFFFD), 1
}

// ---- calls ----

func (p *Path) prepCall(fr *Frame, c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	n := len(c.Args)
	if c.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		var ifc Iface
		switch r := recv.(type) {
		case Iface:
			ifc = r
		case *SymIface:
			ifc = p.pickIface(r)
		default:
			panic(unsupported(fmt.Sprintf("method call on %T", recv)))
		}
		if ifc.t == nil {
			nilDeref()
		}
		fn := p.prg.method(ifc.t, c.Method)
		if fn == nil {
			panic(unsupported(fmt.Sprintf("method %s of %s", c.Method.Name(), ifc.t)))
		}
		args := make([]Value, n+1)
		args[0] = copyVal(ifc.v)
		for i := 0; i < n; i++ {
			args[i+1] = copyVal(fr.get(&ci.ops[i+1]))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, n)
	for i := 0; i < n; i++ {
		args[i] = copyVal(fr.get(&ci.ops[i+1]))
	}
	return fr.get(&ci.ops[0]), args
}

type methKey struct {
	t    int
	name string
}

func (pr *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{tid(t), m.Id()}
	if v, ok := pr.meth.Load(k); ok {
		return v.(*ssa.Function)
	}
	fn := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	pr.meth.Store(k, fn)
	return fn
}

func (p *Path) callInstr(fr *Frame, c *ssa.CallCommon, ci *cinstr) Value {
	fv, args := p.prepCall(fr, c, ci)
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			nilDeref()
		}
		return p.call(fr.th, fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, c)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (p *Path) builtin(fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []Value:
			return uint64(len(x))
		case *MapVal:
			if x == nil {
				return uint64(0)
			}
			p.accessMap(x, false)
			return uint64(x.live)
		case string, *SymStr:
			return uint64(strLen(x))
		case *OpaqueStr:
			panic(unsupported("length of formatted text"))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *ChanVal:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *ChanVal:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "append":
		dst := args[0].([]Value)
		if len(args) == 1 {
			return dst
		}
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		default:
			src = mustStr(s)
		}
		if len(src) == 0 {
			return dst
		}
		for _, e := range dst[len(dst):min(cap(dst), len(dst)+len(src))] {
			_ = e
		}
		n := len(dst) + len(src)
		if n <= cap(dst) {
			r := dst[:n]
			for i, e := range src {
				p.access(&r[len(dst)+i], true)
				r[len(dst)+i] = copyVal(e)
			}
			return r
		}
		nc := 2 * cap(dst)
		if nc < n {
			nc = n
		}
		r := make([]Value, n, nc)
		copy(r, dst)
		for i, e := range src {
			r[len(dst)+i] = copyVal(e)
		}
		// elements beyond n stay nil until written (never readable before)
		full := r[:nc]
		if nc > n {
			z := zeroLike(r[n-1], c, b)
			for i := n; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		default:
			src = mustStr(s)
		}
		n := min(len(dst), len(src))
		tmp := append([]Value(nil), src[:n]...)
		for i := 0; i < n; i++ {
			p.access(&dst[i], true)
			dst[i] = copyVal(tmp[i])
		}
		return uint64(n)
	case "delete":
		m := args[0].(*MapVal)
		if m == nil {
			return nil
		}
		p.accessMap(m, true)
		if e := p.mapFind(m, args[1]); e != nil {
			m.remove(e)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapVal:
			if x != nil {
				p.accessMap(x, true)
				for _, e := range x.ents {
					e.dead = true
				}
				*x = MapVal{static: x.static}
			}
		case []Value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			lt := p.binop(token.LSS, t, t, a, r)
			if b.Name() == "max" {
				lt = p.binop(token.LSS, t, t, r, a)
			}
			if l, ok := lt.(bool); ok {
				if l {
					r = a
				}
				continue
			}
			if v, ok := p.mergeT(t, []*Term{lt.(*Term), p.c.Not(lt.(*Term))}, []Value{a, r}); ok {
				r = v
			} else if p.branch(lt) {
				r = a
			}
		}
		return r
	case "close":
		ch := args[0].(*ChanVal)
		if ch == nil {
			panic(goPanic{mkRTError("close of nil channel")})
		}
		if ch.closed {
			panic(goPanic{mkRTError("close of closed channel")})
		}
		p.chanClose(p.cur, ch)
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// the deferred function's caller frame is the panicking one
		f := fr.caller
		if f != nil && f.panicking {
			f.panicking = false
			return f.panicV
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(*Value); ok && ptr == nil {
			nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := int(args[1].(uint64))
		switch d := args[0].(type) {
		case *DataPtr:
			return mkStr(d.b[:n])
		case *Value:
			if n == 0 {
				return ""
			}
		}
	case "StringData":
		return &DataPtr{mustStr(args[0])}
	case "SliceData":
		return &DataPtr{args[0].([]Value)}
	case "Slice": // unsafe.Slice
		if d, ok := args[0].(*DataPtr); ok {
			return append([]Value(nil), d.b[:int(args[1].(uint64))]...)
		}
	case "real", "imag", "complex":
	}
	panic(unsupported("builtin " + b.Name()))
}

func zeroLike(v Value, c *ssa.CallCommon, b *ssa.Builtin) Value {
	if c != nil {
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return zero(s.Elem())
		}
	}
	switch v.(type) {
	case uint64:
		return uint64(0)
	case string:
		return ""
	}
	return v
}

// ---- conversions ----

func (p *Path) convert(from, to types.Type, x Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	switch {
	case fi && ti:
		switch v := x.(type) {
		case uint64:
			if fs {
				return uint64(sext(v, fw)) & mask(tw)
			}
			return v & mask(tw)
		case *Term:
			return p.val(p.c.Resize(v, tw, fs))
		case *blobByte:
			if fw == 8 && tw == 8 {
				return v
			}
			panic(unsupported("arithmetic on encoded (opaque) bytes"))
		case *Value, *DataPtr:
			return v
		}
	case fi:
		if tb, ok := isFloat(to); ok {
			s := f64Sort
			if tb == 32 {
				s = f32Sort
			}
			t := p.bv(x, fw)
			if fs {
				return p.val(p.c.FUn(OFFromS, t, s))
			}
			return p.val(p.c.FUn(OFFromU, t, s))
		}
		if isString(to) {
			if u, ok := x.(uint64); ok {
				return string(rune(sext(u, fw)))
			}
			t := x.(*Term)
			if p.branch(p.val(p.c.Bin(OUlt, t, p.c.BV(0x80, fw)))) {
				return mkStr([]Value{p.val(p.c.Resize(t, 8, false))})
			}
			panic(unsupported("symbolic rune to string"))
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x
		}
	case ti:
		if fb, ok := isFloat(from); ok {
			return p.floatToInt(x, fb, tw, ts)
		}
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x
		}
	}
	if _, ok := isFloat(from); ok {
		if tb, ok := isFloat(to); ok {
			s := f64Sort
			if tb == 32 {
				s = f32Sort
			}
			t := p.term(x)
			if (t.op == OFFromU || t.op == OFFromS) && t.sort.K == SF32 && s.K == SF64 {
				// exact, so the same as converting the integer itself
				if _, ok := p.exactInt(t); ok {
					return p.val(p.c.FUn(t.op, t.args[0], f64Sort))
				}
			}
			return p.val(p.c.FUn(OFCvt, t, s))
		}
	}
	if isString(from) {
		if s, ok := ut.(*types.Slice); ok {
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				if bs, ok := x.(string); ok {
					return bytesOf(bs)
				}
				return append(make([]Value, 0, 8), mustStr(x)...)
			}
			b := mustStr(x)
			var out []Value = []Value{}
			for i := 0; i < len(b); {
				r, n := p.decodeRune(b[i:])
				out = append(out, r)
				i += n
			}
			return out
		}
		if isString(to) {
			return x
		}
	}
	if s, ok := uf.(*types.Slice); ok && isString(to) {
		b, _ := x.([]Value)
		ew, _, _ := intInfo(s.Elem())
		if ew == 8 {
			return mkStr(b)
		}
		var sb []Value
		for _, r := range b {
			v := p.convert(types.Typ[types.Int32], types.Typ[types.String], r)
			sb = append(sb, mustStr(v)...)
		}
		return mkStr(sb)
	}
	switch ut.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Struct, *types.Array, *types.Chan, *types.Interface:
		return x
	}
	if b, ok := ut.(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Info()&types.IsBoolean != 0) {
		return x
	}
	panic(unsupported(fmt.Sprintf("conversion %v to %v", from, to)))
}

// exactInt gives the 64-bit integer a float was converted from, when the float
// holds it exactly.
func (p *Path) exactInt(t *Term) (*Term, bool) {
	if t.op != OFFromU && t.op != OFFromS {
		return nil, false
	}
	c := p.c
	m := uint64(1 << 53)
	if t.sort.K == SF32 {
		m = 1 << 24
	}
	n := c.Resize(t.args[0], 64, t.op == OFFromS)
	var in *Term
	if t.op == OFFromU {
		in = c.Bin(OUle, n, c.BV(m, 64))
	} else {
		in = c.And(c.Bin(OSle, c.BV(^m+1, 64), n), c.Bin(OSle, n, c.BV(m, 64)))
	}
	k, ok := p.knownTruth(in)
	if !ok {
		k = p.query(c.Not(in), false) == "unsat"
		if k {
			p.addFact(in, true)
		}
	}
	return n, k
}

// floatToInt follows the amd64 code Go generates.
func (p *Path) floatToInt(x Value, fb, tw int, ts bool) Value {
	switch v := x.(type) {
	case float32:
		return f2i(float64(v), tw, ts)
	case float64:
		return f2i(v, tw, ts)
	}
	t := x.(*Term)
	c := p.c
	// an integer that the float holds exactly comes back as it was
	if n, ok := p.exactInt(t); ok && (ts || tw == 64) {
		neg := t.op == OFFromS && !ts
		if neg {
			neg = p.query(c.Bin(OSlt, n, c.BV(0, 64)), false) != "unsat"
		}
		if !neg {
			return p.val(c.Resize(n, tw, false))
		}
	}
	f := t
	if t.sort.K == SF32 {
		f = c.FUn(OFCvt, t, f64Sort)
	}
	lim := c.F64(9223372036854775808.0)
	nlim := c.F64(-9223372036854775808.0)
	s64 := func(f *Term) *Term {
		in := c.And(c.FBin(OFLe, nlim, f), c.FBin(OFLt, f, lim))
		return c.Ite(in, c.FUn(OFToS, f, bvSort(64)), c.BV(1<<63, 64))
	}
	var r *Term
	if tw == 64 && !ts {
		// x < 2^63: signed conversion; else convert x-2^63 and flip the top bit
		hi := c.Bin(OBXor, s64(c.FBin(OFSub, f, lim)), c.BV(1<<63, 64))
		r = c.Ite(c.FBin(OFLt, f, lim), s64(f), hi)
	} else {
		// narrower conversions go through 64 (or 32) bits and truncate
		r = c.Resize(s64(f), tw, true)
	}
	return p.val(r)
}

func f2i(f float64, tw int, ts bool) Value {
	s64 := func(f float64) uint64 {
		if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
			return uint64(int64(f))
		}
		return 1 << 63
	}
	if tw == 64 && !ts {
		if f < 9223372036854775808.0 {
			return s64(f)
		}
		return s64(f-9223372036854775808.0) ^ (1 << 63)
	}
	return s64(f) & mask(tw)
}
