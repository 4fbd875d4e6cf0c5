package main

// Hash-consed SMT terms (Bool, bit-vectors up to 64 bits, IEEE floats) with
// constant folding, an SMT-LIB printer and a concrete evaluator.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SF32
	SF64
)

type Sort struct {
	K SortKind
	W uint8
}

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SF32:
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

var boolSort = Sort{K: SBool}

func bvSort(w int) Sort { return Sort{K: SBV, W: uint8(w)} }

var f32Sort = Sort{K: SF32, W: 32}
var f64Sort = Sort{K: SF64, W: 64}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFFromBits
	OFFromS
	OFFromU
	OFToS // valid only in range
	OFToU
	OFCvt
	OFAbs
	OFFloor
	OFCeil
	OFTrunc
	OFRound
	OFEven
	OFSqrt
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args [3]*Term
	n    uint8
	val  uint64
	name string
	vs   []int32
	def  bool // already defined in the solver
	// evaluation memo
	evGen uint64
	ev    uint64
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c int
	val     uint64
	name    string
}

// Ctx owns terms of one worker.
type Ctx struct {
	tab     map[tkey]*Term
	next    int
	True    *Term
	False   *Term
	evGen   uint64
	varList []*Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, next: 1}
	c.True = c.mk(OConst, boolSort, 1, "")
	c.False = c.mk(OConst, boolSort, 0, "")
	return c
}

func (c *Ctx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, sort: s, val: val, name: name}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, sort: s, val: val, name: name, n: uint8(len(args))}
	copy(t.args[:], args)
	c.next++
	c.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) BV(v uint64, w int) *Term { return c.mk(OConst, bvSort(w), v&mask(w), "") }
func (c *Ctx) F64(f float64) *Term {
	return c.mk(OConst, f64Sort, canonF64(math.Float64bits(f)), "")
}
func (c *Ctx) F32(f float32) *Term {
	return c.mk(OConst, f32Sort, uint64(canonF32(math.Float32bits(f))), "")
}
func (c *Ctx) Var(name string, s Sort) *Term {
	t := c.mk(OVar, s, 0, name)
	if t.vs == nil {
		t.vs = []int32{int32(len(c.varList))}
		c.varList = append(c.varList, t)
	}
	return t
}

var noVars = []int32{}

// vars is the sorted indices of the variables in t.
func (t *Term) vars() []int32 {
	if t.vs != nil {
		return t.vs
	}
	if t.n == 0 {
		t.vs = noVars
		return t.vs
	}
	r := t.args[0].vars()
	for i := 1; i < int(t.n); i++ {
		r = mergeVars(r, t.args[i].vars())
	}
	t.vs = r
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(append(r, a[i:]...), b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func canonF64(b uint64) uint64 {
	if f := math.Float64frombits(b); f != f {
		return 0x7ff8000000000000
	}
	return b
}
func canonF32(b uint32) uint32 {
	if f := math.Float32frombits(b); f != f {
		return 0x7fc00000
	}
	return b
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, boolSort, 0, "", a)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.False
	}
	return c.mk(OAnd, boolSort, 0, "", a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.True
	}
	return c.mk(OOr, boolSort, 0, "", a, b)
}
func (c *Ctx) AndN(ts ...*Term) *Term {
	r := c.True
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}
func (c *Ctx) OrN(ts ...*Term) *Term {
	r := c.False
	for _, t := range ts {
		r = c.Or(r, t)
	}
	return r
}

// Eq is SMT equality (for floats: identity; use FEq for ==).
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.sort.K == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	// ite(c, k1, k2) == k
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.isConst() && a.op == OZExt {
		iw := int(a.args[0].sort.W)
		if b.val > mask(iw) {
			return c.False
		}
		return c.Eq(a.args[0], c.BV(b.val, iw))
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, boolSort, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort.K == SBool {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	return c.mk(OIte, a.sort, 0, "", cond, a, b)
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := int(a.sort.W)
	res := a.sort
	if op >= OUlt && op <= OSle {
		res = boolSort
	}
	if a.isConst() && b.isConst() {
		return c.mk(OConst, res, bvBin(op, a.val, b.val, w), "")
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return c.Bin(OAdd, a.args[0], c.BV(a.args[1].val+b.val, w))
		}
	case OSub:
		if b.isConst() {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
		if a == b {
			return c.BV(0, w)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.BV(0, w)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) && op != OAShr {
			return c.BV(0, w)
		}
		if op == OLShr && b.isConst() && a.op == OZExt && b.val >= uint64(a.args[0].sort.W) {
			return c.BV(0, w)
		}
	case OUlt:
		if a == b {
			return c.False
		}
		if b.isConst() && b.val == 0 {
			return c.False
		}
		if a.isConst() && a.val == mask(w) {
			return c.False
		}
		if b.isConst() && a.op == OZExt && b.val > mask(int(a.args[0].sort.W)) {
			return c.True
		}
	case OUle:
		if a == b {
			return c.True
		}
		if a.isConst() && a.val == 0 {
			return c.True
		}
		if b.isConst() && b.val == mask(w) {
			return c.True
		}
		if b.isConst() && a.op == OZExt && b.val >= mask(int(a.args[0].sort.W)) {
			return c.True
		}
	case OSlt:
		if a == b {
			return c.False
		}
	case OSle:
		if a == b {
			return c.True
		}
	case OUDiv:
		if b.isConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLShr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OURem:
		if b.isConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, c.BV(b.val-1, w))
		}
	}
	return c.mk(op, res, 0, "", a, b)
}

func bvBin(op Op, a, b uint64, w int) uint64 {
	m := mask(w)
	bl := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		s := sext(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(s>>b) & m
	case OUlt:
		return bl(a < b)
	case OUle:
		return bl(a <= b)
	case OSlt:
		return bl(sext(a, w) < sext(b, w))
	case OSle:
		return bl(sext(a, w) <= sext(b, w))
	}
	panic("bvBin")
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, int(a.sort.W))
	}
	return c.mk(OBNot, a.sort, 0, "", a)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.val, int(a.sort.W))
	}
	return c.mk(ONeg, a.sort, 0, "", a)
}

// Resize converts a bit-vector to width w.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	aw := int(a.sort.W)
	if aw == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.BV(uint64(sext(a.val, aw)), w)
		}
		return c.BV(a.val, w)
	}
	if w < aw {
		if (a.op == OZExt || a.op == OSExt) && int(a.args[0].sort.W) >= w {
			return c.Resize(a.args[0], w, false)
		}
		if a.op == OZExt && int(a.args[0].sort.W) < w {
			return c.Resize(a.args[0], w, false)
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
		}
		return c.mk(OExtract, bvSort(w), uint64(w-1)<<8, "", a)
	}
	if signed {
		if a.op == OZExt {
			return c.mk(OZExt, bvSort(w), 0, "", a.args[0])
		}
		return c.mk(OSExt, bvSort(w), 0, "", a)
	}
	if a.op == OZExt {
		a = a.args[0]
	}
	return c.mk(OZExt, bvSort(w), 0, "", a)
}

func (c *Ctx) isF32(s Sort) bool { return s.K == SF32 }

func (c *Ctx) FConst(s Sort, f float64) *Term {
	if s.K == SF32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

// FBits reinterprets a bit-vector as a float.
func (c *Ctx) FBits(a *Term) *Term {
	s := f64Sort
	if a.sort.W == 32 {
		s = f32Sort
	}
	if a.isConst() {
		if s.K == SF32 {
			return c.mk(OConst, s, uint64(canonF32(uint32(a.val))), "")
		}
		return c.mk(OConst, s, canonF64(a.val), "")
	}
	return c.mk(OFFromBits, s, 0, "", a)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	s := a.sort
	if op == OFLt || op == OFLe || op == OFEq {
		s = boolSort
	}
	if a.isConst() && b.isConst() {
		return c.mk(OConst, s, fBin(op, a.sort, a.val, b.val), "")
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return c.Ite(a.args[0], c.FBin(op, a.args[1], b.args[1]), c.FBin(op, a.args[2], b.args[2]))
	}
	if a.op == OIte && b.isConst() && hasConstLeaf(a) {
		return c.Ite(a.args[0], c.FBin(op, a.args[1], b), c.FBin(op, a.args[2], b))
	}
	if b.op == OIte && a.isConst() && hasConstLeaf(b) {
		return c.Ite(b.args[0], c.FBin(op, a, b.args[1]), c.FBin(op, a, b.args[2]))
	}
	if s == boolSort {
		if t := c.fCmpInt(op, a, b); t != nil {
			return t
		}
	}
	return c.mk(op, s, 0, "", a, b)
}

func hasConstLeaf(t *Term) bool {
	for t.op == OIte {
		if t.args[1].isConst() || t.args[2].isConst() {
			return true
		}
		if t.args[1].op == OIte && hasConstLeaf(t.args[1]) {
			return true
		}
		t = t.args[2]
	}
	return false
}

// fCmpInt simplifies comparisons of integers converted to floats.
func (c *Ctx) fCmpInt(op Op, a, b *Term) *Term {
	fromInt := func(t *Term) bool { return t.op == OFFromS || t.op == OFFromU }
	if op == OFEq && fromInt(a) && fromInt(b) {
		if a == b {
			return c.True
		}
		if a.op == OFFromU {
			a, b = b, a
		}
		if a.op == OFFromS && b.op == OFFromU && a.sort == b.sort {
			// the same bits read as signed and as unsigned
			y, z := a.args[0], b.args[0]
			if z.sort.W >= y.sort.W && c.Resize(y, int(z.sort.W), true) == z {
				return c.Not(c.Bin(OSlt, y, c.BV(0, int(y.sort.W))))
			}
		}
		return nil
	}
	zero := func(t *Term) bool { return t.isConst() && fval(t.sort, t.val) == 0 }
	if fromInt(a) && zero(b) {
		x := a.args[0]
		z := c.BV(0, int(x.sort.W))
		switch {
		case op == OFEq:
			return c.Eq(x, z)
		case op == OFLt && a.op == OFFromS:
			return c.Bin(OSlt, x, z)
		case op == OFLt:
			return c.False
		case op == OFLe && a.op == OFFromS:
			return c.Bin(OSle, x, z)
		case op == OFLe:
			return c.Eq(x, z)
		}
	}
	if fromInt(b) && zero(a) {
		x := b.args[0]
		z := c.BV(0, int(x.sort.W))
		switch {
		case op == OFEq:
			return c.Eq(x, z)
		case op == OFLt && b.op == OFFromS:
			return c.Bin(OSlt, z, x)
		case op == OFLt:
			return c.Not(c.Eq(x, z))
		case op == OFLe && b.op == OFFromS:
			return c.Bin(OSle, z, x)
		case op == OFLe:
			return c.True
		}
	}
	return nil
}

func fval(s Sort, v uint64) float64 {
	if s.K == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fenc(s Sort, f float64) uint64 {
	if s.K == SF32 {
		return uint64(canonF32(math.Float32bits(float32(f))))
	}
	return canonF64(math.Float64bits(f))
}

func fBin(op Op, s Sort, a, b uint64) uint64 {
	bl := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	x, y := fval(s, a), fval(s, b)
	if s.K == SF32 {
		fx, fy := float32(x), float32(y)
		switch op {
		case OFAdd:
			return fenc(s, float64(fx+fy))
		case OFSub:
			return fenc(s, float64(fx-fy))
		case OFMul:
			return fenc(s, float64(fx*fy))
		case OFDiv:
			return fenc(s, float64(fx/fy))
		}
	}
	switch op {
	case OFAdd:
		return fenc(s, x+y)
	case OFSub:
		return fenc(s, x-y)
	case OFMul:
		return fenc(s, x*y)
	case OFDiv:
		return fenc(s, x/y)
	case OFLt:
		return bl(x < y)
	case OFLe:
		return bl(x <= y)
	case OFEq:
		return bl(x == y)
	}
	panic("fBin")
}

func (c *Ctx) FUn(op Op, a *Term, out Sort) *Term {
	if a.isConst() {
		return c.mk(OConst, out, fUn(op, a.sort, out, a.val), "")
	}
	if op == OFCvt && a.sort == out {
		return a
	}
	if a.op == OIte && hasConstLeaf(a) {
		return c.Ite(a.args[0], c.FUn(op, a.args[1], out), c.FUn(op, a.args[2], out))
	}
	switch {
	case op == OFFromU && a.op == OZExt:
		return c.FUn(OFFromU, a.args[0], out)
	case op == OFFromS && a.op == OZExt && a.sort.W > a.args[0].sort.W:
		return c.FUn(OFFromU, a.args[0], out)
	case op == OFFromS && a.op == OSExt:
		return c.FUn(OFFromS, a.args[0], out)
	}
	return c.mk(op, out, 0, "", a)
}

func fUn(op Op, in, out Sort, v uint64) uint64 {
	switch op {
	case OFNeg:
		return fenc(out, -fval(in, v))
	case OFAbs:
		return fenc(out, math.Abs(fval(in, v)))
	case OFFloor:
		return fenc(out, math.Floor(fval(in, v)))
	case OFCeil:
		return fenc(out, math.Ceil(fval(in, v)))
	case OFTrunc:
		return fenc(out, math.Trunc(fval(in, v)))
	case OFRound:
		return fenc(out, math.Round(fval(in, v)))
	case OFEven:
		return fenc(out, math.RoundToEven(fval(in, v)))
	case OFSqrt:
		return fenc(out, math.Sqrt(fval(in, v)))
	case OFIsNaN:
		if f := fval(in, v); f != f {
			return 1
		}
		return 0
	case OFIsInf:
		if math.IsInf(fval(in, v), 0) {
			return 1
		}
		return 0
	case OFFromBits:
		if out.K == SF32 {
			return uint64(canonF32(uint32(v)))
		}
		return canonF64(v)
	case OFFromS:
		if out.K == SF32 {
			return uint64(math.Float32bits(float32(sext(v, int(in.W)))))
		}
		return math.Float64bits(float64(sext(v, int(in.W))))
	case OFFromU:
		if out.K == SF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFToS:
		f := fval(in, v)
		if f != f || f >= 9.3e18 || f <= -9.3e18 {
			return 0
		}
		return uint64(int64(f)) & mask(int(out.W))
	case OFToU:
		f := fval(in, v)
		if f != f || f >= 1.85e19 || f <= -1 {
			return 0
		}
		if f < 9.2e18 {
			return uint64(int64(f)) & mask(int(out.W))
		}
		return uint64(f) & mask(int(out.W))
	case OFCvt:
		return fenc(out, fval(in, v))
	}
	panic("fUn")
}

// ---- evaluation under a model ----

func (c *Ctx) eval(t *Term, m func(*Term) uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == c.evGen {
		return t.ev
	}
	var r uint64
	a := func(i int) uint64 { return c.eval(t.args[i], m) }
	switch t.op {
	case OVar:
		r = m(t)
	case ONot:
		r = 1 - a(0)
	case OAnd:
		r = a(0) & a(1)
	case OOr:
		r = a(0) | a(1)
	case OEq:
		if a(0) == a(1) {
			r = 1
		}
	case OIte:
		if a(0) == 1 {
			r = a(1)
		} else {
			r = a(2)
		}
	case OBNot:
		r = ^a(0) & mask(int(t.sort.W))
	case ONeg:
		r = -a(0) & mask(int(t.sort.W))
	case OExtract:
		lo := t.val & 0xff
		r = (a(0) >> lo) & mask(int(t.sort.W))
	case OZExt:
		r = a(0)
	case OSExt:
		r = uint64(sext(a(0), int(t.args[0].sort.W))) & mask(int(t.sort.W))
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = fBin(t.op, t.args[0].sort, a(0), a(1))
	case OFNeg, OFIsNaN, OFIsInf, OFFromBits, OFFromS, OFFromU, OFToS, OFToU, OFCvt, OFAbs, OFFloor, OFCeil, OFTrunc, OFRound, OFEven, OFSqrt:
		r = fUn(t.op, t.args[0].sort, t.sort, a(0))
	default:
		r = bvBin(t.op, a(0), a(1), int(t.args[0].sort.W))
	}
	t.evGen = c.evGen
	t.ev = r
	return r
}

// ---- printing ----

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
	OFIsInf: "fp.isInfinite", OFAbs: "fp.abs",
	OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP", OFTrunc: "fp.roundToIntegral RTZ",
	OFRound: "fp.roundToIntegral RNA", OFEven: "fp.roundToIntegral RNE", OFSqrt: "fp.sqrt RNE",
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			if t.sort.W%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.sort.W/4, t.val)
			}
			return fmt.Sprintf("#b%0*b", t.sort.W, t.val)
		case SF32:
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		default:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	fp := func(s Sort) string {
		if s.K == SF32 {
			return "8 24"
		}
		return "11 53"
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.W-t.args[0].sort.W)
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.W-t.args[0].sort.W)
	case OFFromBits:
		fmt.Fprintf(&sb, "(_ to_fp %s)", fp(t.sort))
	case OFFromS, OFCvt:
		fmt.Fprintf(&sb, "(_ to_fp %s) RNE", fp(t.sort))
	case OFFromU:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", fp(t.sort))
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort.W)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort.W)
	default:
		sb.WriteString(opName[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.args[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

// emit writes the definitions t needs (once per solver) to sb.
func (t *Term) emit(sb *strings.Builder) {
	if t.def || t.op == OConst {
		return
	}
	t.def = true
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, t.sort)
		return
	}
	for i := 0; i < int(t.n); i++ {
		t.args[i].emit(sb)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, t.sort, t.body())
}
