package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term operator.  Width 0 denotes the Bool sort, otherwise a bit-vector.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpBAnd
	OpBOr
	OpBNot
	OpZExt
	OpSExt
	OpExtract // val = lo ; width gives size
	OpConcat  // a high, b low
	OpFEq
	OpFLt
	OpFLe
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpF2F
	OpSI2F
	OpUI2F
	OpF2SI
	OpF2UI
)

var opNames = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpIte: "ite", OpBAnd: "and", OpBOr: "or", OpBNot: "not",
	OpConcat: "concat",
}

// Term is a hash-consed expression.
type Term struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	id      uint32
	name    string
	hasVar  bool

	evGen uint64
	evVal uint64
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

// Ctx owns one hash-consing table.  One per worker.
type Ctx struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	nextID uint32
	smallC [65][]*Term
	True   *Term
	False  *Term
	gen    uint64
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, vars: map[string]*Term{}, nextID: 1}
	c.False = c.mk(termKey{op: OpConst, w: 0, val: 0}, nil, nil, nil)
	c.True = c.mk(termKey{op: OpConst, w: 0, val: 1}, nil, nil, nil)
	for _, w := range []uint8{8, 16, 32, 64} {
		s := make([]*Term, 257)
		for i := range s {
			s[i] = c.mk(termKey{op: OpConst, w: w, val: uint64(i) & mask(w)}, nil, nil, nil)
		}
		c.smallC[w] = s
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(k termKey, a, b, d *Term) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, val: k.val, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	t.hasVar = k.op == OpVar || (a != nil && a.hasVar) || (b != nil && b.hasVar) || (d != nil && d.hasVar)
	c.tab[k] = t
	return t
}

func (c *Ctx) node(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	return c.mk(termKey{op, w, val, tid(a), tid(b), tid(d)}, a, b, d)
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	if v <= 256 {
		if s := c.smallC[w]; s != nil {
			return s[v]
		}
	}
	return c.mk(termKey{op: OpConst, w: w, val: v}, nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("variable width mismatch " + name)
		}
		return t
	}
	t := &Term{op: OpVar, w: w, id: c.nextID, name: name, hasVar: true}
	c.nextID++
	c.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext(v uint64, w uint8) int64 {
	if w == 0 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Term) signed() int64 { return sext(t.val, t.w) }

// ---- boolean ----

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.node(OpBNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return c.False
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return c.False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpBAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return c.True
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return c.True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpBOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.isConst() {
			if a.val != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == OpBNot {
		return c.Ite(cond.a, b, a)
	}
	return c.node(OpIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpZExt:
			if b.val>>a.a.w != 0 {
				return c.False
			}
			return c.Eq(a.a, c.BV(a.a.w, b.val))
		case OpSExt:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.a, c.BV(a.a.w, lo))
		case OpConcat:
			lw := a.b.w
			return c.And(c.Eq(a.a, c.BV(a.a.w, b.val>>lw)), c.Eq(a.b, c.BV(lw, b.val)))
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.BV(a.w, b.val-a.b.val))
			}
		case OpXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.BV(a.w, b.val^a.b.val))
			}
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpConcat && b.op == OpConcat && a.b.w == b.b.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpEq, 0, 0, a, b, nil)
}

// range of unsigned values cheaply known
func ubound(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpZExt:
		return ubound(t.a)
	case OpConcat:
		if t.a.isConst() {
			return t.a.val<<t.b.w | ubound(t.b)
		}
	case OpAnd:
		x, y := ubound(t.a), ubound(t.b)
		if x < y {
			return x
		}
		return y
	case OpIte:
		x, y := ubound(t.b), ubound(t.c)
		if x > y {
			return x
		}
		return y
	case OpURem:
		if t.b.isConst() && t.b.val > 0 {
			return t.b.val - 1
		}
	case OpUDiv:
		if t.b.isConst() && t.b.val > 0 {
			return ubound(t.a) / t.b.val
		}
	case OpAdd:
		x, y := ubound(t.a), ubound(t.b)
		s := x + y
		if s >= x && s <= mask(t.w) {
			return s
		}
	case OpMul:
		x, y := ubound(t.a), ubound(t.b)
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(t.w) {
			return lo
		}
	}
	return mask(t.w)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return c.False
		}
		if ubound(a) < b.val {
			return c.True
		}
		if a.op == OpZExt && b.val <= mask(a.a.w) {
			return c.Ult(a.a, c.BV(a.a.w, b.val))
		}
	}
	if a.isConst() {
		if ubound(b) <= a.val {
			return c.False
		}
		if b.op == OpZExt {
			return c.Ult(c.BV(b.a.w, a.val), b.a)
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.node(OpUlt, 0, 0, a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

// nonneg reports that the sign bit of t is known zero.
func nonneg(t *Term) bool { return ubound(t) < uint64(1)<<(t.w-1) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.signed() < b.signed())
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if nonneg(a) && b.isConst() && b.signed() <= 0 {
		return c.False
	}
	if a.isConst() && a.signed() < 0 && nonneg(b) {
		return c.True
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OpSExt && b.isConst() {
		s := b.signed()
		lo := -(int64(1) << (a.a.w - 1))
		hi := int64(1)<<(a.a.w-1) - 1
		if s > hi {
			return c.True
		}
		if s <= lo {
			return c.False
		}
		return c.Slt(a.a, c.BV(a.a.w, uint64(s)))
	}
	if b.op == OpSExt && a.isConst() {
		s := a.signed()
		lo := -(int64(1) << (b.a.w - 1))
		hi := int64(1)<<(b.a.w-1) - 1
		if s >= hi {
			return c.False
		}
		if s < lo {
			return c.True
		}
		return c.Slt(c.BV(b.a.w, uint64(s)), b.a)
	}
	return c.node(OpSlt, 0, 0, a, b, nil)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- bit-vectors ----

func (c *Ctx) Extract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return c.BV(w, t.val>>lo)
	case OpZExt:
		if lo >= t.a.w {
			return c.BV(w, 0)
		}
		if lo+w <= t.a.w {
			return c.Extract(t.a, lo, w)
		}
		return c.ZExt(c.Extract(t.a, lo, t.a.w-lo), w)
	case OpSExt:
		if lo+w <= t.a.w {
			return c.Extract(t.a, lo, w)
		}
		if lo == 0 {
			return c.SExt(t.a, w)
		}
	case OpExtract:
		return c.Extract(t.a, lo+uint8(t.val), w)
	case OpConcat:
		lw := t.b.w
		if lo >= lw {
			return c.Extract(t.a, lo-lw, w)
		}
		if lo+w <= lw {
			return c.Extract(t.b, lo, w)
		}
		return c.Concat(c.Extract(t.a, 0, lo+w-lw), c.Extract(t.b, lo, lw-lo))
	case OpAnd, OpOr, OpXor:
		x, y := c.Extract(t.a, lo, w), c.Extract(t.b, lo, w)
		switch t.op {
		case OpAnd:
			return c.BAnd(x, y)
		case OpOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case OpNot:
		return c.BNot(c.Extract(t.a, lo, w))
	case OpIte:
		if t.b.isConst() || t.c.isConst() {
			return c.Ite(t.a, c.Extract(t.b, lo, w), c.Extract(t.c, lo, w))
		}
	case OpAdd, OpSub, OpMul, OpNeg:
		if lo == 0 {
			x := c.Extract(t.a, 0, w)
			if t.op == OpNeg {
				return c.Neg(x)
			}
			y := c.Extract(t.b, 0, w)
			switch t.op {
			case OpAdd:
				return c.Add(x, y)
			case OpSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	return c.node(OpExtract, w, uint64(lo), t, nil, nil)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return c.BV(w, hi.val<<lo.w|lo.val)
	}
	if hi.isConst() && hi.val == 0 {
		return c.ZExt(lo, w)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.a == lo.a && hi.val == lo.val+uint64(lo.w) {
		return c.Extract(hi.a, uint8(lo.val), w)
	}
	// lo is the low part, already pushed into the operands, of the arithmetic term hi comes from
	if hi.op == OpExtract && hi.val == uint64(lo.w) && (hi.a.op == OpAdd || hi.a.op == OpSub || hi.a.op == OpMul || hi.a.op == OpNeg) &&
		c.Extract(hi.a, 0, lo.w) == lo {
		return c.Extract(hi.a, 0, w)
	}
	if hi.op == OpExtract && lo.op == OpConcat {
		// hi ++ (x ++ y) -> (hi ++ x) ++ y when hi,x merge
		if lo.a.op == OpExtract && hi.a == lo.a.a && hi.val == lo.a.val+uint64(lo.a.w) {
			return c.Concat(c.Concat(hi, lo.a), lo.b)
		}
	}
	if hi.op == OpConcat {
		// normalise to right association: (x ++ y) ++ z => x ++ (y ++ z)
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	if hi.op == OpZExt && lo.w+hi.a.w < w {
		return c.ZExt(c.Concat(hi.a, lo), w)
	}
	if hi.isConst() && lo.op == OpConcat && lo.a.isConst() {
		return c.Concat(c.BV(hi.w+lo.a.w, hi.val<<lo.a.w|lo.a.val), lo.b)
	}
	return c.node(OpConcat, w, 0, hi, lo, nil)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		panic("ZExt shrinks")
	}
	if t.isConst() {
		return c.BV(w, t.val)
	}
	if t.op == OpZExt {
		return c.ZExt(t.a, w)
	}
	return c.node(OpZExt, w, 0, t, nil, nil)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return c.BV(w, uint64(t.signed()))
	}
	if t.op == OpSExt {
		return c.SExt(t.a, w)
	}
	if t.op == OpZExt {
		return c.ZExt(t.a, w)
	}
	return c.node(OpSExt, w, 0, t, nil, nil)
}

// segment decomposition used to turn disjoint ORs into concatenations
type seg struct {
	t *Term // nil = zeros
	w uint8
}

func (c *Ctx) segs(t *Term) []seg { // low to high
	switch t.op {
	case OpConst:
		if t.val == 0 {
			return []seg{{nil, t.w}}
		}
	case OpZExt:
		return append(c.segs(t.a), seg{nil, t.w - t.a.w})
	case OpConcat:
		return append(c.segs(t.b), c.segs(t.a)...)
	}
	return []seg{{t, t.w}}
}

func (c *Ctx) segJoin(s []seg) *Term {
	var r *Term
	for _, x := range s {
		t := x.t
		if t == nil {
			t = c.BV(x.w, 0)
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(t, r)
		}
	}
	return r
}

func hasZeroSeg(s []seg) bool {
	for _, x := range s {
		if x.t == nil {
			return true
		}
	}
	return false
}

func (c *Ctx) orDisjoint(a, b *Term) *Term {
	sa, sb := c.segs(a), c.segs(b)
	if !hasZeroSeg(sa) || !hasZeroSeg(sb) {
		return nil
	}
	var out []seg
	i, j := 0, 0
	var oa, ob uint8 // consumed offsets in current segs
	for i < len(sa) && j < len(sb) {
		w := sa[i].w - oa
		if r := sb[j].w - ob; r < w {
			w = r
		}
		var t *Term
		switch {
		case sa[i].t == nil && sb[j].t == nil:
		case sa[i].t == nil:
			t = c.Extract(sb[j].t, ob, w)
		case sb[j].t == nil:
			t = c.Extract(sa[i].t, oa, w)
		default:
			return nil
		}
		out = append(out, seg{t, w})
		oa += w
		ob += w
		if oa == sa[i].w {
			i++
			oa = 0
		}
		if ob == sb[j].w {
			j++
			ob = 0
		}
	}
	return c.segJoin(out)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val|b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	if r := c.orDisjoint(a, b); r != nil {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.node(OpOr, a.w, 0, a, b, nil)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val&b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		// contiguous mask: extract and place
		v := b.val
		tz := uint8(bits.TrailingZeros64(v))
		n := uint8(bits.Len64(v)) - tz
		if v>>tz == mask(n) {
			r := c.Extract(a, tz, n)
			if tz > 0 {
				r = c.Concat(r, c.BV(tz, 0))
			}
			return c.ZExt(r, a.w)
		}
	}
	if a == b {
		return a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.node(OpAnd, a.w, 0, a, b, nil)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a == b {
		return c.BV(a.w, 0)
	}
	if b.isConst() && b.val == mask(b.w) {
		return c.BNot(a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.node(OpXor, a.w, 0, a, b, nil)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.w, ^a.val)
	}
	if a.op == OpNot {
		return a.a
	}
	return c.node(OpNot, a.w, 0, a, nil, nil)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.w, -a.val)
	}
	if a.op == OpNeg {
		return a.a
	}
	return c.node(OpNeg, a.w, 0, a, nil, nil)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.isConst() {
			return c.Add(a.a, c.BV(a.w, a.b.val+b.val))
		}
		return c.node(OpAdd, a.w, 0, a, b, nil)
	}
	if a.op == OpAdd && a.b.isConst() {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OpAdd && b.b.isConst() {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpAdd, a.w, 0, a, b, nil)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.BV(a.w, -b.val))
	}
	if a.isConst() && a.val == 0 {
		return c.Neg(b)
	}
	return c.node(OpSub, a.w, 0, a, b, nil)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.Shl(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		return c.node(OpMul, a.w, 0, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpMul, a.w, 0, a, b, nil)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		return c.BV(a.w, a.val/b.val)
	}
	if b.isConst() && b.val != 0 {
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.LShr(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OpZExt && b.val <= mask(a.a.w) {
			return c.ZExt(c.UDiv(a.a, c.BV(a.a.w, b.val)), a.w)
		}
		if ubound(a) < b.val {
			return c.BV(a.w, 0)
		}
	}
	return c.node(OpUDiv, a.w, 0, a, b, nil)
}

func (c *Ctx) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		return c.BV(a.w, a.val%b.val)
	}
	if b.isConst() && b.val != 0 {
		if b.val&(b.val-1) == 0 {
			return c.BAnd(a, c.BV(a.w, b.val-1))
		}
		if a.op == OpZExt && b.val <= mask(a.a.w) {
			return c.ZExt(c.URem(a.a, c.BV(a.a.w, b.val)), a.w)
		}
		if ubound(a) < b.val {
			return a
		}
	}
	return c.node(OpURem, a.w, 0, a, b, nil)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := a.signed(), b.signed()
		if y == -1 {
			return c.BV(a.w, uint64(-x))
		}
		return c.BV(a.w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return c.UDiv(a, b)
	}
	return c.node(OpSDiv, a.w, 0, a, b, nil)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := a.signed(), b.signed()
		if y == -1 {
			return c.BV(a.w, 0)
		}
		return c.BV(a.w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return c.URem(a, b)
	}
	return c.node(OpSRem, a.w, 0, a, b, nil)
}

func (c *Ctx) Shl(a, n *Term) *Term { // n same width, value >= w gives 0
	if n.isConst() {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		k := uint8(n.val)
		return c.Concat(c.Extract(a, 0, a.w-k), c.BV(k, 0))
	}
	return c.node(OpShl, a.w, 0, a, n, nil)
}

func (c *Ctx) LShr(a, n *Term) *Term {
	if n.isConst() {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		k := uint8(n.val)
		return c.ZExt(c.Extract(a, k, a.w-k), a.w)
	}
	return c.node(OpLShr, a.w, 0, a, n, nil)
}

func (c *Ctx) AShr(a, n *Term) *Term {
	if n.isConst() {
		if n.val == 0 {
			return a
		}
		k := n.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		return c.SExt(c.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	if nonneg(a) {
		return c.LShr(a, n)
	}
	return c.node(OpAShr, a.w, 0, a, n, nil)
}

// ---- floats (bits in bit-vectors of width 32/64) ----

func fval(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func farith(op Op, w uint8, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = a + b
		case OpFSub:
			r = a - b
		case OpFMul:
			r = a * b
		case OpFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OpFAdd:
		r = a + b
	case OpFSub:
		r = a - b
	case OpFMul:
		r = a * b
	case OpFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func (c *Ctx) FArith(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.w, farith(op, a.w, a.val, b.val))
	}
	return c.node(op, a.w, 0, a, b, nil)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(fcmp(op, a.w, a.val, b.val))
	}
	return c.node(op, 0, 0, a, b, nil)
}

func fcmp(op Op, w uint8, x, y uint64) bool {
	a, b := fval(w, x), fval(w, y)
	switch op {
	case OpFEq:
		return a == b
	case OpFLt:
		return a < b
	}
	return a <= b
}

func f2i(op Op, fw, w uint8, v uint64) uint64 {
	f := fval(fw, v)
	if op == OpF2SI {
		switch w {
		case 8:
			return uint64(int8(f)) & mask(w)
		case 16:
			return uint64(int16(f)) & mask(w)
		case 32:
			return uint64(int32(f)) & mask(w)
		}
		return uint64(int64(f))
	}
	switch w {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

func f2f(w, sw uint8, v uint64) uint64 {
	if sw == w {
		return v
	}
	if w == 64 {
		return math.Float64bits(float64(math.Float32frombits(uint32(v))))
	}
	return uint64(math.Float32bits(float32(math.Float64frombits(v))))
}

func i2f(op Op, w, sw uint8, v uint64) uint64 {
	if op == OpSI2F {
		s := sext(v, sw)
		if w == 32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

func (c *Ctx) FConv(op Op, a *Term, w uint8) *Term {
	if a.isConst() {
		switch op {
		case OpF2F:
			return c.BV(w, f2f(w, a.w, a.val))
		case OpSI2F, OpUI2F:
			return c.BV(w, i2f(op, w, a.w, a.val))
		default:
			return c.BV(w, f2i(op, a.w, w, a.val))
		}
	}
	if op == OpF2F {
		if a.w == w {
			return a
		}
		// float32 -> float64 -> float32 is the identity up to NaN quieting; keep exact node
		if a.op == OpF2F && a.a.w == w && w == 32 {
			return a.a
		}
	}
	return c.node(op, w, 0, a, nil, nil)
}

// ---- evaluation ----

type Model map[string]uint64

func (c *Ctx) newGen() { c.gen++ }

// eval evaluates t under m; caller must bump gen when m changes.
func (c *Ctx) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == c.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = m[t.name] & func() uint64 {
			if t.w == 0 {
				return 1
			}
			return mask(t.w)
		}()
	case OpIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OpBAnd:
		if c.eval(t.a, m) != 0 && c.eval(t.b, m) != 0 {
			r = 1
		}
	case OpBOr:
		if c.eval(t.a, m) != 0 || c.eval(t.b, m) != 0 {
			r = 1
		}
	default:
		x := c.eval(t.a, m)
		var y uint64
		if t.b != nil {
			y = c.eval(t.b, m)
		}
		r = evalOp(t, x, y)
	}
	t.evGen = c.gen
	t.evVal = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, x, y uint64) uint64 {
	w := t.w
	m := mask(w)
	switch t.op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpXor:
		return x ^ y
	case OpNot:
		return ^x & m
	case OpNeg:
		return -x & m
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sext(x, t.a.w) < sext(y, t.a.w))
	case OpSle:
		return b2u(sext(x, t.a.w) <= sext(y, t.a.w))
	case OpBNot:
		return 1 - x
	case OpZExt:
		return x
	case OpSExt:
		return uint64(sext(x, t.a.w)) & m
	case OpExtract:
		return (x >> t.val) & m
	case OpConcat:
		return x<<t.b.w | y
	case OpFEq, OpFLt, OpFLe:
		return b2u(fcmp(t.op, t.a.w, x, y))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return farith(t.op, w, x, y)
	case OpF2F:
		return f2f(w, t.a.w, x)
	case OpSI2F, OpUI2F:
		return i2f(t.op, w, t.a.w, x)
	case OpF2SI, OpF2UI:
		return f2i(t.op, t.a.w, w, x)
	}
	panic(fmt.Sprintf("evalOp %d", t.op))
}

// ---- SMT-LIB printing ----

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpOf(t *Term) string {
	if t.w == 32 {
		return "((_ to_fp 8 24) " + t.ref() + ")"
	}
	return "((_ to_fp 11 53) " + t.ref() + ")"
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) smtBody() string {
	switch t.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.ref())
	case OpFEq:
		return fmt.Sprintf("(fp.eq %s %s)", fpOf(t.a), fpOf(t.b))
	case OpFLt:
		return fmt.Sprintf("(fp.lt %s %s)", fpOf(t.a), fpOf(t.b))
	case OpFLe:
		return fmt.Sprintf("(fp.leq %s %s)", fpOf(t.a), fpOf(t.b))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fpOf(t.a), fpOf(t.b))
	case OpF2F:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), fpOf(t.a))
	case OpSI2F:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OpUI2F:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OpF2SI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fpOf(t.a))
	case OpF2UI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, fpOf(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
