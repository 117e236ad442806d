package main

// Hash-consed SMT terms with constant folding, and their evaluation under a model.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SFP // w = 32 or 64
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OBvNot
	OBvNeg
	OBvAnd
	OBvOr
	OBvXor
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OExtract // c = lo ; w = width
	OZext
	OSext
	OConcat
	OFpFromBits
	OFpAdd
	OFpSub
	OFpMul
	OFpDiv
	OFpNeg
	OFpAbs
	OFpSqrt
	OFpLt
	OFpLe
	OFpEq
	OFpIsNaN
	OFpFromU
	OFpFromS
	OFpToS // to signed w bits, round toward zero; meaningful only in range
	OFpToU
	OFpToFp
	OFpRTI // c = rounding mode 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
)

type Term struct {
	id     int
	op     Op
	sort   Sort
	w      uint8
	c      uint64
	a      []*Term
	name   string
	h1, h2 uint64 // structural hash, equal across paths
}

type tkey struct {
	op         Op
	sort       Sort
	w          uint8
	c          uint64
	a0, a1, a2 int
	name       string
}

type TermCtx struct {
	tab  map[tkey]*Term
	n    int
	vars []*Term
}

// Small constants are shared by all contexts.
var smallBV [65][]*Term
var constFalse, constTrue *Term
var reservedIDs int

func init() {
	n := 0
	mkc := func(s Sort, w uint8, c uint64) *Term {
		n++
		t := &Term{id: n, op: OConst, sort: s, w: w, c: c}
		t.setHash()
		return t
	}
	constFalse, constTrue = mkc(SBool, 1, 0), mkc(SBool, 1, 1)
	for _, w := range []int{1, 8, 16, 32, 64} {
		for c := 0; c < 300 && uint64(c) <= mask(uint8(w)); c++ {
			smallBV[w] = append(smallBV[w], mkc(SBV, uint8(w), uint64(c)))
		}
	}
	reservedIDs = n
}

func newTermCtx() *TermCtx { return &TermCtx{tab: map[tkey]*Term{}, n: reservedIDs} }

func (x *TermCtx) mk(op Op, s Sort, w uint8, c uint64, name string, a ...*Term) *Term {
	k := tkey{op: op, sort: s, w: w, c: c, name: name, a0: -1, a1: -1, a2: -1}
	if len(a) > 0 {
		k.a0 = a[0].id
	}
	if len(a) > 1 {
		k.a1 = a[1].id
	}
	if len(a) > 2 {
		k.a2 = a[2].id
	}
	if t, ok := x.tab[k]; ok {
		return t
	}
	x.n++
	t := &Term{id: x.n, op: op, sort: s, w: w, c: c, a: a, name: name}
	t.setHash()
	x.tab[k] = t
	if op == OVar {
		x.vars = append(x.vars, t)
	}
	return t
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	return h ^ h>>31
}

func (t *Term) setHash() {
	k := uint64(t.op)<<16 | uint64(t.sort)<<8 | uint64(t.w)
	t.h1, t.h2 = mix(1, k), mix(0x51ed270b, k)
	t.h1, t.h2 = mix(t.h1, t.c), mix(t.h2, t.c)
	for i := 0; i < len(t.name); i++ {
		t.h1, t.h2 = mix(t.h1, uint64(t.name[i])), mix(t.h2, uint64(t.name[i]))
	}
	for _, a := range t.a {
		if a.h1 == 0 {
			a.setHash()
		}
		t.h1, t.h2 = mix(t.h1, a.h1), mix(t.h2, a.h2)
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (x *TermCtx) Bool(b bool) *Term {
	if b {
		return constTrue
	}
	return constFalse
}
func (x *TermCtx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < uint64(len(smallBV[w])) {
		return smallBV[w][v]
	}
	return x.mk(OConst, SBV, w, v, "")
}
func (x *TermCtx) FP(f float64) *Term { return x.mk(OConst, SFP, 64, math.Float64bits(f), "") }
func (x *TermCtx) FP32(f float32) *Term {
	return x.mk(OConst, SFP, 32, uint64(math.Float32bits(f)), "")
}
func (x *TermCtx) VarBV(name string, w uint8) *Term { return x.mk(OVar, SBV, w, 0, name) }
func (x *TermCtx) VarBool(name string) *Term        { return x.mk(OVar, SBool, 1, 0, name) }

func (t *Term) isC() bool    { return t.op == OConst }
func (t *Term) isTrue() bool { return t.op == OConst && t.sort == SBool && t.c == 1 }
func (t *Term) isFalse() bool {
	return t.op == OConst && t.sort == SBool && t.c == 0
}
func (t *Term) f64() float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}

func (x *TermCtx) Not(a *Term) *Term {
	if a.isC() {
		return x.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	switch a.op {
	case OUlt:
		return x.Ule(a.a[1], a.a[0])
	case OUle:
		return x.Ult(a.a[1], a.a[0])
	case OSlt:
		return x.Sle(a.a[1], a.a[0])
	case OSle:
		return x.Slt(a.a[1], a.a[0])
	}
	return x.mk(ONot, SBool, 1, 0, "", a)
}
func (x *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return x.Bool(false)
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return x.Bool(false)
	}
	return x.mk(OAnd, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return x.Bool(true)
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return x.Bool(true)
	}
	return x.mk(OOr, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) Eq(a, b *Term) *Term { // identity of values (for FP: SMT =, i.e. all NaN equal)
	if a == b {
		return x.Bool(true)
	}
	if a.sort != b.sort || a.w != b.w {
		panic(fmt.Sprintf("Eq sort mismatch %v/%d %v/%d", a.sort, a.w, b.sort, b.w))
	}
	if a.isC() && b.isC() {
		if a.sort == SFP && math.IsNaN(a.f64()) && math.IsNaN(b.f64()) {
			return x.Bool(true)
		}
		return x.Bool(a.c == b.c)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.sort == SBool && b.isC() {
		if b.c == 1 {
			return a
		}
		return x.Not(a)
	}
	if b.isC() && b.sort == SFP && exactInt(a) {
		if f := b.f64(); math.IsNaN(f) || f == 0 && math.Signbit(f) {
			return x.Bool(false)
		}
		return x.FpCmp(OFpEq, a, b)
	}
	if a.op == OBvXor && b.op == OBvXor && a.a[1].isC() && b.a[1].isC() {
		return x.Eq(x.Bin(OBvXor, a.a[0], x.BV(a.a[1].c^b.a[1].c, a.w)), b.a[0])
	}
	if b.isC() {
		if a.op == OIte {
			// push through when a branch is constant
			if a.a[1].isC() || a.a[2].isC() {
				return x.BIte(a.a[0], x.Eq(a.a[1], b), x.Eq(a.a[2], b))
			}
		}
		if a.op == OConcat {
			lw := a.a[1].w
			return x.And(x.Eq(a.a[0], x.BV(b.c>>lw, a.a[0].w)), x.Eq(a.a[1], x.BV(b.c, lw)))
		}
		if a.op == OZext {
			in := a.a[0]
			if b.c&^mask(in.w) != 0 {
				return x.Bool(false)
			}
			return x.Eq(in, x.BV(b.c, in.w))
		}
		if a.op == OBvXor && a.a[1].isC() {
			return x.Eq(a.a[0], x.BV(b.c^a.a[1].c, a.w))
		}
		if a.op == OAdd && a.a[1].isC() {
			return x.Eq(a.a[0], x.BV(b.c-a.a[1].c, a.w))
		}
		if a.op == OBvNot {
			return x.Eq(a.a[0], x.BV(^b.c, a.w))
		}
	}
	if a.sort == SBV && a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return x.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) BIte(c, a, b *Term) *Term { // Bool ite
	if c.isC() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.isTrue() {
		return x.Or(c, b)
	}
	if a.isFalse() {
		return x.And(x.Not(c), b)
	}
	if b.isTrue() {
		return x.Or(x.Not(c), a)
	}
	if b.isFalse() {
		return x.And(c, a)
	}
	return x.mk(OIte, SBool, 1, 0, "", c, a, b)
}
func (x *TermCtx) Ite(c, a, b *Term) *Term {
	if a.sort == SBool {
		return x.BIte(c, a, b)
	}
	if c.isC() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return x.mk(OIte, a.sort, a.w, 0, "", c, a, b)
}
func (x *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return x.Bool(false)
	}
	if a.isC() && b.isC() {
		return x.Bool(a.c < b.c)
	}
	if b.isC() {
		if b.c == 0 {
			return x.Bool(false)
		}
		if a.op == OZext {
			in := a.a[0]
			if b.c > mask(in.w) {
				return x.Bool(true)
			}
			return x.Ult(in, x.BV(b.c, in.w))
		}
	}
	if a.isC() {
		if a.c == mask(a.w) {
			return x.Bool(false)
		}
		if b.op == OZext {
			in := b.a[0]
			if a.c >= mask(in.w) {
				return x.Bool(false)
			}
			return x.Ult(x.BV(a.c, in.w), in)
		}
	}
	return x.mk(OUlt, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return x.Bool(true)
	}
	if a.isC() && b.isC() {
		return x.Bool(a.c <= b.c)
	}
	if b.isC() {
		if b.c == mask(b.w) {
			return x.Bool(true)
		}
		return x.Ult(a, x.BV(b.c+1, b.w))
	}
	if a.isC() {
		if a.c == 0 {
			return x.Bool(true)
		}
		return x.Ult(x.BV(a.c-1, a.w), b)
	}
	return x.mk(OUle, SBool, 1, 0, "", a, b)
}

// nonneg reports whether the sign bit of a is certainly zero.
func nonneg(a *Term) bool {
	switch a.op {
	case OConst:
		return sx(a.c, a.w) >= 0
	case OZext:
		return true
	case OLshr:
		return a.a[1].isC() && a.a[1].c > 0
	case OBvAnd:
		return nonneg(a.a[0]) || nonneg(a.a[1])
	case OBvOr, OBvXor:
		return nonneg(a.a[0]) && nonneg(a.a[1])
	case OIte:
		return nonneg(a.a[1]) && nonneg(a.a[2])
	case OAdd:
		// small sums of zero extensions
		return ubits(a) < int(a.w)
	}
	return false
}

// ubits gives an upper bound on the number of significant bits of the unsigned value.
func ubits(a *Term) int {
	switch a.op {
	case OConst:
		return bits.Len64(a.c)
	case OZext:
		return ubits(a.a[0])
	case OBvAnd:
		return min(ubits(a.a[0]), ubits(a.a[1]))
	case OBvOr, OBvXor:
		return max(ubits(a.a[0]), ubits(a.a[1]))
	case OIte:
		return max(ubits(a.a[1]), ubits(a.a[2]))
	case OAdd:
		return min(int(a.w), max(ubits(a.a[0]), ubits(a.a[1]))+1)
	case OMul:
		return min(int(a.w), ubits(a.a[0])+ubits(a.a[1]))
	}
	return int(a.w)
}
func (x *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return x.Bool(false)
	}
	if a.isC() && b.isC() {
		return x.Bool(sx(a.c, a.w) < sx(b.c, b.w))
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return x.Ult(a, b)
	}
	if na && b.isC() { // b negative
		return x.Bool(false)
	}
	if nb && a.isC() {
		return x.Bool(true)
	}
	return x.mk(OSlt, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return x.Bool(true)
	}
	if a.isC() && b.isC() {
		return x.Bool(sx(a.c, a.w) <= sx(b.c, b.w))
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return x.Ule(a, b)
	}
	if na && b.isC() {
		return x.Bool(false)
	}
	if nb && a.isC() {
		return x.Bool(true)
	}
	return x.mk(OSle, SBool, 1, 0, "", a, b)
}
func (x *TermCtx) BvNot(a *Term) *Term {
	if a.isC() {
		return x.BV(^a.c, a.w)
	}
	return x.Bin(OBvXor, a, x.BV(mask(a.w), a.w))
}
func (x *TermCtx) Neg(a *Term) *Term {
	if a.isC() {
		return x.BV(-a.c, a.w)
	}
	return x.mk(OBvNeg, SBV, a.w, 0, "", a)
}

func foldBin(op Op, a, b uint64, w uint8) uint64 {
	switch op {
	case OBvAnd:
		return a & b
	case OBvOr:
		return a | b
	case OBvXor:
		return a ^ b
	case OAdd:
		return a + b
	case OSub:
		return a - b
	case OMul:
		return a * b
	case OUdiv:
		if b == 0 {
			return ^uint64(0)
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return ^uint64(0)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w) >> b)
	}
	panic("foldBin")
}

func (x *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w || a.sort != SBV || b.sort != SBV {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isC() && b.isC() {
		return x.BV(foldBin(op, a.c, b.c, w), w)
	}
	switch op {
	case OBvAnd, OBvOr, OBvXor, OAdd, OMul:
		if a.isC() {
			a, b = b, a
		} else if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.isC() {
		switch op {
		case OBvAnd:
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if a.op == OBvAnd && a.a[1].isC() {
				return x.Bin(OBvAnd, a.a[0], x.BV(a.a[1].c&b.c, w))
			}
			if a.op == OZext && b.c&mask(a.a[0].w) == mask(a.a[0].w) {
				return a
			}
			if b.c&(b.c+1) == 0 { // the low bits
				k := uint8(bits.Len64(b.c))
				return x.Zext(x.Extract(a, 0, k), w)
			}
		case OBvOr:
			if b.c == 0 {
				return a
			}
			if b.c == mask(w) {
				return b
			}
		case OBvXor, OAdd, OSub, OShl, OLshr, OAshr:
			if b.c == 0 {
				return a
			}
			if op == OSub {
				return x.Bin(OAdd, a, x.BV(-b.c, w))
			}
			if op == OAdd && a.op == OAdd && a.a[1].isC() {
				return x.Bin(OAdd, a.a[0], x.BV(a.a[1].c+b.c, w))
			}
			if op == OBvXor && a.op == OBvXor && a.a[1].isC() {
				return x.Bin(OBvXor, a.a[0], x.BV(a.a[1].c^b.c, w))
			}
			if (op == OShl || op == OLshr) && b.c >= uint64(w) {
				return x.BV(0, w)
			}
			if op == OLshr {
				k := uint8(b.c)
				return x.Zext(x.Extract(a, k, w-k), w)
			}
		case OMul:
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		case OUdiv, OSdiv:
			if b.c == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OBvAnd, OBvOr:
			return a
		case OBvXor, OSub:
			return x.BV(0, w)
		}
	}
	if a.isC() && a.c == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUdiv, OUrem:
			if op == OUdiv || op == OUrem {
				break
			}
			return a
		}
	}
	if (op == OBvOr || op == OAdd || op == OBvXor) && !b.isC() {
		if t := x.merge(a, b); t != nil {
			return t
		}
	}
	if b.isC() && (op == OShl || op == OLshr) && (a.op == OConcat || a.op == OZext) {
		if t := x.shiftSegs(op, a, uint8(b.c)); t != nil {
			return t
		}
	}
	// xor: constants outermost, and (a ^ b) ^ b = a
	if op == OBvXor && !b.isC() {
		if a.op == OBvXor && a.a[1].isC() {
			return x.Bin(OBvXor, x.Bin(OBvXor, a.a[0], b), a.a[1])
		}
		if b.op == OBvXor && b.a[1].isC() {
			return x.Bin(OBvXor, x.Bin(OBvXor, a, b.a[0]), b.a[1])
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op == OBvXor {
				if p[0].a[0] == p[1] {
					return p[0].a[1]
				}
				if p[0].a[1] == p[1] {
					return p[0].a[0]
				}
			}
		}
	}
	return x.mk(op, SBV, w, 0, "", a, b)
}

// A seg is a piece of a bit vector, from the most significant one down: t, or zeros if t is nil.
type seg struct {
	t *Term
	w uint8
}

// segs takes a concatenation apart; other terms are one piece.
func segs(t *Term) []seg {
	switch {
	case t.op == OConcat:
		return append(segs(t.a[0]), segs(t.a[1])...)
	case t.op == OZext:
		return append([]seg{{nil, t.w - t.a[0].w}}, segs(t.a[0])...)
	case t.isC() && t.c == 0:
		return []seg{{nil, t.w}}
	}
	return []seg{{t, t.w}}
}

func (x *TermCtx) fromSegs(ss []seg) *Term {
	var l []seg
	for _, s := range ss {
		if s.w == 0 {
			continue
		}
		if n := len(l); n > 0 && s.t == nil && l[n-1].t == nil {
			l[n-1].w += s.w
			continue
		}
		l = append(l, s)
	}
	var r *Term
	for i := len(l) - 1; i >= 0; i-- {
		t := l[i].t
		switch {
		case r == nil && t == nil:
			r = x.BV(0, l[i].w)
		case r == nil:
			r = t
		case t == nil && i == 0:
			r = x.Zext(r, r.w+l[i].w)
		case t == nil:
			r = x.mk(OConcat, SBV, r.w+l[i].w, 0, "", x.BV(0, l[i].w), r)
		default:
			r = x.mk(OConcat, SBV, r.w+t.w, 0, "", t, r)
		}
	}
	return r
}

// merge is a|b (and a+b, a^b) when no bit can be set in both; nil if that is not evident.
func (x *TermCtx) merge(a, b *Term) *Term {
	sa, sb := segs(a), segs(b)
	if len(sa) == 1 || len(sb) == 1 {
		return nil
	}
	var r []seg
	i, j := 0, 0
	var ra, rb uint8 // bits of the current pieces already used
	for i < len(sa) && j < len(sb) {
		p, q := sa[i], sb[j]
		wa, wb := p.w-ra, q.w-rb
		w := min(wa, wb)
		switch {
		case p.t == nil && q.t == nil:
			r = append(r, seg{nil, w})
		case p.t == nil && w == q.w:
			r = append(r, q)
		case q.t == nil && w == p.w:
			r = append(r, p)
		default:
			return nil
		}
		if ra += w; ra == p.w {
			i, ra = i+1, 0
		}
		if rb += w; rb == q.w {
			j, rb = j+1, 0
		}
	}
	return x.fromSegs(r)
}

// shiftSegs shifts by k bits when that drops or keeps whole pieces only.
func (x *TermCtx) shiftSegs(op Op, a *Term, k uint8) *Term {
	ss := segs(a)
	drop := func(s seg, keepLow bool, n uint8) seg { // n bits of s stay
		if s.t == nil {
			return seg{nil, n}
		}
		if keepLow {
			return seg{x.Extract(s.t, 0, n), n}
		}
		return seg{x.Extract(s.t, s.w-n, n), n}
	}
	left := k
	if op == OShl {
		for len(ss) > 0 && left > 0 {
			if ss[0].w <= left {
				left -= ss[0].w
				ss = ss[1:]
				continue
			}
			ss[0] = drop(ss[0], true, ss[0].w-left)
			left = 0
		}
		return x.fromSegs(append(ss, seg{nil, k}))
	}
	for len(ss) > 0 && left > 0 {
		n := len(ss) - 1
		if ss[n].w <= left {
			left -= ss[n].w
			ss = ss[:n]
			continue
		}
		ss[n] = drop(ss[n], false, ss[n].w-left)
		left = 0
	}
	return x.fromSegs(append([]seg{{nil, k}}, ss...))
}

func (x *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isC() {
		return x.BV(a.c>>lo, w)
	}
	switch a.op {
	case OConcat:
		low := a.a[1]
		if lo >= low.w {
			return x.Extract(a.a[0], lo-low.w, w)
		}
		if lo+w <= low.w {
			return x.Extract(low, lo, w)
		}
		return x.fromSegs([]seg{{x.Extract(a.a[0], 0, lo+w-low.w), lo + w - low.w}, {x.Extract(low, lo, low.w-lo), low.w - lo}})
	case OZext:
		in := a.a[0]
		if lo >= in.w {
			return x.BV(0, w)
		}
		if lo+w <= in.w {
			return x.Extract(in, lo, w)
		}
		if lo == 0 {
			return x.Zext(in, w)
		}
	case OSext:
		in := a.a[0]
		if lo+w <= in.w {
			return x.Extract(in, lo, w)
		}
		if lo == 0 {
			return x.Sext(in, w)
		}
	case OExtract:
		return x.Extract(a.a[0], lo+uint8(a.c), w)
	case OBvAnd, OBvOr, OBvXor:
		return x.Bin(a.op, x.Extract(a.a[0], lo, w), x.Extract(a.a[1], lo, w))
	case OBvNot:
		return x.BvNot(x.Extract(a.a[0], lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return x.Bin(a.op, x.Extract(a.a[0], 0, w), x.Extract(a.a[1], 0, w))
		}
	case OShl:
		if a.a[1].isC() {
			k := uint8(a.a[1].c)
			if lo >= k {
				return x.Extract(a.a[0], lo-k, w)
			}
			if lo+w <= k {
				return x.BV(0, w)
			}
		}
	case OLshr:
		if a.a[1].isC() {
			k := uint8(a.a[1].c)
			if int(lo)+int(w)+int(k) <= int(a.w) {
				return x.Extract(a.a[0], lo+k, w)
			}
		}
	case OIte:
		if a.a[1].isC() || a.a[2].isC() {
			return x.Ite(a.a[0], x.Extract(a.a[1], lo, w), x.Extract(a.a[2], lo, w))
		}
	}
	return x.mk(OExtract, SBV, w, uint64(lo), "", a)
}
func (x *TermCtx) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isC() {
		return x.BV(a.c, w)
	}
	if a.op == OZext {
		return x.Zext(a.a[0], w)
	}
	return x.mk(OZext, SBV, w, 0, "", a)
}
func (x *TermCtx) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isC() {
		return x.BV(uint64(sx(a.c, a.w)), w)
	}
	if nonneg(a) {
		return x.Zext(a, w)
	}
	if a.op == OSext {
		return x.Sext(a.a[0], w)
	}
	return x.mk(OSext, SBV, w, 0, "", a)
}
func (x *TermCtx) B2BV(b *Term, w uint8) *Term { return x.Ite(b, x.BV(1, w), x.BV(0, w)) }

// ---- floating point

func (x *TermCtx) fpc(f float64, w uint8) *Term {
	if w == 32 {
		return x.FP32(float32(f))
	}
	return x.FP(f)
}
func (x *TermCtx) FpFromBits(a *Term) *Term {
	if a.isC() {
		return x.mk(OConst, SFP, a.w, a.c, "")
	}
	return x.mk(OFpFromBits, SFP, a.w, 0, "", a)
}
func (x *TermCtx) FpBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.mk(OConst, SFP, a.w, evalFpBin(op, a.w, a.c, b.c), "")
	}
	if (op == OFpMul || op == OFpDiv) && b.isC() && b.f64() == 1 {
		return a
	}
	if (op == OFpAdd || op == OFpMul) && a.isC() {
		a, b = b, a
	}
	return x.mk(op, SFP, a.w, 0, "", a, b)
}
func (x *TermCtx) FpUn(op Op, a *Term) *Term {
	if a.isC() {
		return x.mk(OConst, SFP, a.w, evalFpUn(op, a.w, a.c, 0), "")
	}
	return x.mk(op, SFP, a.w, 0, "", a)
}
func (x *TermCtx) FpRTI(a *Term, mode uint64) *Term {
	if a.isC() {
		return x.mk(OConst, SFP, a.w, evalFpUn(OFpRTI, a.w, a.c, mode), "")
	}
	if a.op == OFpFromU || a.op == OFpFromS {
		return a
	}
	return x.mk(OFpRTI, SFP, a.w, mode, "", a)
}

func exactInt(a *Term) bool {
	if a.op != OFpFromU && a.op != OFpFromS {
		return false
	}
	lim := 53
	if a.w == 32 {
		lim = 24
	}
	return int(a.a[0].w) <= lim || (a.op == OFpFromU && ubits(a.a[0]) <= lim)
}

// never NaN
func notNaN(a *Term) bool {
	switch a.op {
	case OConst:
		return !math.IsNaN(a.f64())
	case OFpFromU, OFpFromS:
		return true
	case OIte:
		return notNaN(a.a[1]) && notNaN(a.a[2])
	case OFpNeg, OFpAbs, OFpRTI:
		return notNaN(a.a[0])
	case OFpDiv, OFpMul:
		return exactInt(a.a[0]) && a.a[1].isC() && notNaN(a.a[1]) && a.a[1].f64() != 0 && !math.IsInf(a.a[1].f64(), 0)
	}
	return false
}
func (x *TermCtx) FpIsNaN(a *Term) *Term {
	if a.isC() {
		return x.Bool(math.IsNaN(a.f64()))
	}
	if notNaN(a) {
		return x.Bool(false)
	}
	return x.mk(OFpIsNaN, SBool, 1, 0, "", a)
}
func (x *TermCtx) FpCmp(op Op, a, b *Term) *Term { // OFpLt OFpLe OFpEq
	if a.isC() && b.isC() {
		return x.Bool(evalFpCmp(op, a.f64(), b.f64()))
	}
	if a == b && notNaN(a) {
		return x.Bool(op != OFpLt)
	}
	if a.op == OIte && b.isC() {
		return x.BIte(a.a[0], x.FpCmp(op, a.a[1], b), x.FpCmp(op, a.a[2], b))
	}
	if b.op == OIte && a.isC() {
		return x.BIte(b.a[0], x.FpCmp(op, a, b.a[1]), x.FpCmp(op, a, b.a[2]))
	}
	if b.isC() && exactInt(a) {
		f := b.f64()
		if !math.IsNaN(f) {
			return x.intCmp(op, a, f, false)
		}
		return x.Bool(false)
	}
	if a.isC() && exactInt(b) {
		f := a.f64()
		if !math.IsNaN(f) {
			return x.intCmp(op, b, f, true)
		}
		return x.Bool(false)
	}
	if exactInt(a) && exactInt(b) && a.op == b.op && a.a[0].w == b.a[0].w {
		u := a.op == OFpFromU
		p, q := a.a[0], b.a[0]
		switch {
		case op == OFpEq:
			return x.Eq(p, q)
		case op == OFpLt && u:
			return x.Ult(p, q)
		case op == OFpLe && u:
			return x.Ule(p, q)
		case op == OFpLt:
			return x.Slt(p, q)
		default:
			return x.Sle(p, q)
		}
	}
	return x.mk(op, SBool, 1, 0, "", a, b)
}

// intCmp compares an exactly converted integer with a constant: v op f, or f op v if rev.
func (x *TermCtx) intCmp(op Op, v *Term, f float64, rev bool) *Term {
	in := v.a[0]
	w := in.w
	signed := v.op == OFpFromS
	lo, hi := 0.0, math.Ldexp(1, int(w))-1
	if signed {
		lo, hi = -math.Ldexp(1, int(w)-1), math.Ldexp(1, int(w)-1)-1
	}
	cst := func(g float64) *Term { return x.BV(uint64(int64(g)), w) }
	le := func(a, b *Term) *Term {
		if signed {
			return x.Sle(a, b)
		}
		return x.Ule(a, b)
	}
	switch op {
	case OFpEq:
		if f != math.Trunc(f) || f < lo || f > hi {
			return x.Bool(false)
		}
		return x.Eq(in, cst(f))
	case OFpLt, OFpLe:
		if !rev { // v < f  <=> v <= ceil(f)-1 ; v <= f <=> v <= floor(f)
			g := math.Floor(f)
			if op == OFpLt {
				g = math.Ceil(f) - 1
			}
			if g < lo {
				return x.Bool(false)
			}
			if g >= hi {
				return x.Bool(true)
			}
			return le(in, cst(g))
		}
		g := math.Ceil(f)
		if op == OFpLt {
			g = math.Floor(f) + 1
		}
		if g > hi {
			return x.Bool(false)
		}
		if g <= lo {
			return x.Bool(true)
		}
		return le(cst(g), in)
	}
	panic("intCmp")
}
func (x *TermCtx) FpFromInt(a *Term, signed bool, w uint8) *Term {
	if a.isC() {
		if signed {
			if w == 32 {
				return x.FP32(float32(sx(a.c, a.w)))
			}
			return x.FP(float64(sx(a.c, a.w)))
		}
		if w == 32 {
			return x.FP32(float32(a.c))
		}
		return x.FP(float64(a.c))
	}
	if signed && nonneg(a) {
		signed = false
	}
	if a.op == OZext {
		a = a.a[0]
		signed = false
	}
	if signed && a.op == OSext {
		a = a.a[0]
	}
	if signed {
		return x.mk(OFpFromS, SFP, w, 0, "", a)
	}
	return x.mk(OFpFromU, SFP, w, 0, "", a)
}

// FpToInt is Go's conversion on amd64: truncation, 0x8000.. for out of range / NaN at the
// width the hardware converts to (64 bits, or 32 for results up to 32 bits signed/16 unsigned).
func (x *TermCtx) FpToInt(a *Term, w uint8, signed bool) *Term {
	if a.isC() {
		return x.BV(goF2I(a.f64(), w, signed), w)
	}
	if a.op == OIte {
		return x.Ite(a.a[0], x.FpToInt(a.a[1], w, signed), x.FpToInt(a.a[2], w, signed))
	}
	if exactInt(a) {
		in := a.a[0]
		if a.op == OFpFromU {
			if in.w <= w {
				return x.Zext(in, w)
			}
			return x.Extract(in, 0, w)
		}
		if in.w <= w {
			return x.Sext(in, w)
		}
		return x.Extract(in, 0, w)
	}
	hw := uint8(64)
	if w < 32 || (w == 32 && signed) {
		hw = 32
	}
	lo := x.fpc(-math.Ldexp(1, int(hw)-1), a.w)
	hi := x.fpc(math.Ldexp(1, int(hw)-1), a.w)
	var inr *Term
	if hw == 32 && a.w == 64 {
		lo = x.fpc(-math.Ldexp(1, 31)-1, a.w)
		inr = x.And(x.FpCmp(OFpLt, lo, a), x.FpCmp(OFpLt, a, hi))
	} else {
		inr = x.And(x.FpCmp(OFpLe, lo, a), x.FpCmp(OFpLt, a, hi))
	}
	v := x.Ite(inr, x.mk(OFpToS, SBV, hw, 0, "", a), x.BV(uint64(1)<<(hw-1), hw))
	if w == 64 && !signed {
		// Go: values >= 2^63 are converted after subtracting 2^63
		big := x.FpCmp(OFpLe, hi, a)
		d := x.FpBin(OFpSub, a, hi)
		inr2 := x.FpCmp(OFpLt, d, hi)
		v2 := x.Ite(inr2, x.mk(OFpToS, SBV, 64, 0, "", d), x.BV(1<<63, 64))
		v = x.Ite(big, x.Bin(OBvXor, v2, x.BV(1<<63, 64)), v)
	}
	return x.Extract(v, 0, w)
}
func goF2I(f float64, w uint8, signed bool) uint64 {
	if w == 64 && !signed {
		return uint64(f)
	}
	if w < 32 || (w == 32 && signed) {
		return uint64(int32(f)) & mask(w)
	}
	return uint64(int64(f)) & mask(w)
}
func (x *TermCtx) FpToFp(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.fpc(a.f64(), w)
	}
	return x.mk(OFpToFp, SFP, w, 0, "", a)
}

func toF(c uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(c)))
	}
	return math.Float64frombits(c)
}
func fromF(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func evalFpBin(op Op, w uint8, a, b uint64) uint64 {
	x, y := toF(a, w), toF(b, w)
	var r float64
	switch op {
	case OFpAdd:
		r = x + y
	case OFpSub:
		r = x - y
	case OFpMul:
		r = x * y
	case OFpDiv:
		r = x / y
	}
	return fromF(r, w)
}
func evalFpUn(op Op, w uint8, a uint64, mode uint64) uint64 {
	x := toF(a, w)
	var r float64
	switch op {
	case OFpNeg:
		if w == 32 {
			return a ^ (1 << 31)
		}
		return a ^ (1 << 63)
	case OFpAbs:
		r = math.Abs(x)
	case OFpSqrt:
		r = math.Sqrt(x)
	case OFpRTI:
		switch mode {
		case 0:
			r = math.RoundToEven(x)
		case 1:
			r = math.Round(x)
		case 2:
			r = math.Ceil(x)
		case 3:
			r = math.Floor(x)
		case 4:
			r = math.Trunc(x)
		}
	}
	return fromF(r, w)
}
func evalFpCmp(op Op, x, y float64) bool {
	switch op {
	case OFpLt:
		return x < y
	case OFpLe:
		return x <= y
	case OFpEq:
		return x == y
	}
	panic("fpcmp")
}

// ---- evaluation under a model (variables not in the model are 0)

type Model map[string]uint64

type evalCtx struct {
	m    Model
	memo map[int]uint64
}

func (e *evalCtx) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.op == OVar {
		return e.m[t.name] & mask(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case OIte:
		if e.eval(t.a[0]) == 1 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OAnd:
		r = e.eval(t.a[0])
		if r == 1 {
			r = e.eval(t.a[1])
		}
	case OOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case ONot:
		r = 1 - e.eval(t.a[0])
	case OEq:
		x, y := e.eval(t.a[0]), e.eval(t.a[1])
		if t.a[0].sort == SFP {
			w := t.a[0].w
			r = b2(x == y || (math.IsNaN(toF(x, w)) && math.IsNaN(toF(y, w))))
		} else {
			r = b2(x == y)
		}
	case OUlt:
		r = b2(e.eval(t.a[0]) < e.eval(t.a[1]))
	case OUle:
		r = b2(e.eval(t.a[0]) <= e.eval(t.a[1]))
	case OSlt:
		r = b2(sx(e.eval(t.a[0]), t.a[0].w) < sx(e.eval(t.a[1]), t.a[0].w))
	case OSle:
		r = b2(sx(e.eval(t.a[0]), t.a[0].w) <= sx(e.eval(t.a[1]), t.a[0].w))
	case OBvNot:
		r = ^e.eval(t.a[0])
	case OBvNeg:
		r = -e.eval(t.a[0])
	case OBvAnd, OBvOr, OBvXor, OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OShl, OLshr, OAshr:
		r = foldBin(t.op, e.eval(t.a[0]), e.eval(t.a[1]), t.w)
	case OExtract:
		r = e.eval(t.a[0]) >> t.c
	case OZext:
		r = e.eval(t.a[0])
	case OSext:
		r = uint64(sx(e.eval(t.a[0]), t.a[0].w))
	case OConcat:
		r = e.eval(t.a[0])<<t.a[1].w | e.eval(t.a[1])
	case OFpFromBits:
		r = e.eval(t.a[0])
	case OFpAdd, OFpSub, OFpMul, OFpDiv:
		r = evalFpBin(t.op, t.w, e.eval(t.a[0]), e.eval(t.a[1]))
	case OFpNeg, OFpAbs, OFpSqrt, OFpRTI:
		r = evalFpUn(t.op, t.w, e.eval(t.a[0]), t.c)
	case OFpLt, OFpLe, OFpEq:
		w := t.a[0].w
		r = b2(evalFpCmp(t.op, toF(e.eval(t.a[0]), w), toF(e.eval(t.a[1]), w)))
	case OFpIsNaN:
		r = b2(math.IsNaN(toF(e.eval(t.a[0]), t.a[0].w)))
	case OFpFromU:
		v := e.eval(t.a[0])
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OFpFromS:
		v := sx(e.eval(t.a[0]), t.a[0].w)
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OFpToS:
		f := toF(e.eval(t.a[0]), t.a[0].w)
		if t.w == 32 {
			r = uint64(int32(f))
		} else {
			r = uint64(int64(f))
		}
	case OFpToFp:
		r = fromF(toF(e.eval(t.a[0]), t.a[0].w), t.w)
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	if t.sort == SBV {
		r &= mask(t.w)
	}
	e.memo[t.id] = r
	return r
}

// ---- SMT-LIB text

func sortStr(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	if t.w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}
func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBvNot: "bvnot", OBvNeg: "bvneg", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OFpAdd: "fp.add RNE", OFpSub: "fp.sub RNE", OFpMul: "fp.mul RNE", OFpDiv: "fp.div RNE", OFpNeg: "fp.neg", OFpAbs: "fp.abs", OFpSqrt: "fp.sqrt RNE",
	OFpLt: "fp.lt", OFpLe: "fp.leq", OFpEq: "fp.eq", OFpIsNaN: "fp.isNaN"}

var rmName = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

func constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.c == 1 {
			return "true"
		}
		return "false"
	case SBV:
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.c)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.c)
	}
	if t.w == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c)
	}
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, t.a[0].ref())
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OFpFromBits:
		fmt.Fprintf(&sb, "((_ to_fp %s) %s)", fpSort(t.w), t.a[0].ref())
	case OFpFromS:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpSort(t.w), t.a[0].ref())
	case OFpFromU:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned %s) RNE %s)", fpSort(t.w), t.a[0].ref())
	case OFpToS:
		fmt.Fprintf(&sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, t.a[0].ref())
	case OFpToU:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, t.a[0].ref())
	case OFpToFp:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpSort(t.w), t.a[0].ref())
	case OFpRTI:
		fmt.Fprintf(&sb, "(fp.roundToIntegral %s %s)", rmName[t.c], t.a[0].ref())
	default:
		n, ok := opName[t.op]
		if !ok {
			panic(fmt.Sprintf("body op %d", t.op))
		}
		sb.WriteString("(" + n)
		for _, a := range t.a {
			sb.WriteString(" " + a.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}
