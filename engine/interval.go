package main

import "math/bits"

// Unsigned value ranges of terms under the path condition, used to decide comparisons
// without a solver query.

type iv struct{ lo, hi uint64 }

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

// learn records ranges implied by a path condition conjunct.
func (p *Path) learn(t *Term) {
	neg := false
	if t.op == OpBNot {
		t, neg = t.a, true
	}
	upd := func(x *Term, lo, hi uint64) {
		if x.w == 0 || x.isConst() {
			return
		}
		r, ok := p.ranges[x]
		if !ok {
			r = iv{0, wmask(x.w)}
		}
		n := r
		if lo > n.lo {
			n.lo = lo
		}
		if hi < n.hi {
			n.hi = hi
		}
		if n != r && n.lo <= n.hi {
			if p.ranges == nil {
				p.ranges = map[*Term]iv{}
			}
			p.ranges[x] = n
			p.rmemo = nil
			// the range of a zero extension is the range of its operand
			if x.op == OpZExt && n.hi <= wmask(x.a.w) {
				r2, ok := p.ranges[x.a]
				if !ok {
					r2 = iv{0, wmask(x.a.w)}
				}
				if n.lo > r2.lo {
					r2.lo = n.lo
				}
				if n.hi < r2.hi {
					r2.hi = n.hi
				}
				if r2.lo <= r2.hi {
					p.ranges[x.a] = r2
				}
			}
		}
	}
	a, b := t.a, t.b
	switch t.op {
	case OpEq:
		if a.w == 0 {
			return
		}
		if !neg {
			if a.isConst() {
				upd(b, a.val, a.val)
			} else if b.isConst() {
				upd(a, b.val, b.val)
			}
			return
		}
		// x != const at the end of its range
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			r := p.rng(a)
			if b.val == r.lo && r.lo < r.hi {
				upd(a, r.lo+1, r.hi)
			} else if b.val == r.hi && r.lo < r.hi {
				upd(a, r.lo, r.hi-1)
			}
		}
	case OpUlt, OpUle:
		strict := t.op == OpUlt
		if neg { // !(a<b) = b<=a ; !(a<=b) = b<a
			a, b = b, a
			strict = !strict
		}
		ra, rb := p.rng(a), p.rng(b)
		if strict {
			if rb.hi > 0 {
				upd(a, 0, rb.hi-1)
			}
			if ra.lo < wmask(b.w) {
				upd(b, ra.lo+1, wmask(b.w))
			}
		} else {
			upd(a, 0, rb.hi)
			upd(b, ra.lo, wmask(b.w))
		}
	case OpSlt, OpSle:
		strict := t.op == OpSlt
		if neg {
			a, b = b, a
			strict = !strict
		}
		half := wmask(a.w) >> 1
		ra, rb := p.rng(a), p.rng(b)
		d := uint64(0)
		if strict {
			d = 1
		}
		// 0 <= b's bound known non-negative and a known non-negative
		if ra.hi <= half && rb.hi <= half {
			if rb.hi >= d {
				upd(a, 0, rb.hi-d)
			}
			upd(b, ra.lo+d, half)
		} else if ra.hi <= half { // a non-negative and a<=b: b non-negative
			upd(b, ra.lo+d, half)
		}
	}
}

func (p *Path) rng(t *Term) iv {
	if t.isConst() {
		return iv{t.val, t.val}
	}
	if r, ok := p.rmemo[t]; ok {
		return r
	}
	full := iv{0, wmask(t.w)}
	r := full
	sub := func(x *Term) iv { return p.rng(x) }
	switch t.op {
	case OpZExt:
		r = sub(t.a)
	case OpSExt:
		x := sub(t.a)
		if x.hi <= wmask(t.a.w)>>1 {
			r = x
		}
	case OpConcat:
		x, y := sub(t.a), sub(t.b)
		r = iv{x.lo<<t.b.w | y.lo, x.hi<<t.b.w | y.hi}
		if x.lo != x.hi {
			r = iv{x.lo<<t.b.w + 0, x.hi<<t.b.w | wmask(t.b.w)}
			if y.lo > 0 {
				r.lo |= y.lo
			}
			r.hi = x.hi<<t.b.w | y.hi
			// y may be smaller or larger for other x, but bounds stay valid
		}
	case OpExtract:
		x := sub(t.a)
		lo := x.lo >> t.val
		hi := x.hi >> t.val
		if hi <= wmask(t.w) {
			r = iv{lo, hi}
		}
	case OpAdd:
		x, y := sub(t.a), sub(t.b)
		m := wmask(t.w)
		lo, c1 := addw(x.lo, y.lo, m)
		hi, c2 := addw(x.hi, y.hi, m)
		if c1 == c2 {
			r = iv{lo, hi}
		}
	case OpSub:
		x, y := sub(t.a), sub(t.b)
		if x.lo >= y.hi {
			r = iv{x.lo - y.hi, x.hi - y.lo}
		}
	case OpMul:
		x, y := sub(t.a), sub(t.b)
		h, l := bits.Mul64(x.hi, y.hi)
		if h == 0 && l <= wmask(t.w) {
			r = iv{x.lo * y.lo, l}
		}
	case OpAnd:
		x, y := sub(t.a), sub(t.b)
		r = iv{0, min(x.hi, y.hi)}
	case OpOr:
		x, y := sub(t.a), sub(t.b)
		m := x.hi | y.hi
		r = iv{max(x.lo, y.lo), wmask(uint8(bits.Len64(m)))}
		if m == 0 {
			r.hi = 0
		}
	case OpIte:
		if k, v := p.implied(t.a); k {
			if v {
				r = sub(t.b)
			} else {
				r = sub(t.c)
			}
		} else {
			x, y := sub(t.b), sub(t.c)
			r = iv{min(x.lo, y.lo), max(x.hi, y.hi)}
		}
	case OpUDiv:
		if t.b.isConst() && t.b.val > 0 {
			x := sub(t.a)
			r = iv{x.lo / t.b.val, x.hi / t.b.val}
		}
	case OpURem:
		if t.b.isConst() && t.b.val > 0 {
			x := sub(t.a)
			r = iv{0, t.b.val - 1}
			if x.hi < t.b.val {
				r = x
			}
		}
	case OpLShr:
		x := sub(t.a)
		if t.b.isConst() && t.b.val < 64 {
			r = iv{x.lo >> t.b.val, x.hi >> t.b.val}
		} else {
			r = iv{0, x.hi}
		}
	case OpShl:
		if t.b.isConst() && t.b.val < 64 {
			x := sub(t.a)
			if x.hi<<t.b.val>>t.b.val == x.hi && x.hi<<t.b.val <= wmask(t.w) {
				r = iv{x.lo << t.b.val, x.hi << t.b.val}
			}
		}
	}
	if q, ok := p.ranges[t]; ok {
		r.lo = max(r.lo, q.lo)
		r.hi = min(r.hi, q.hi)
		if r.lo > r.hi { // contradictory path; stay conservative
			r = full
		}
	}
	if p.rmemo == nil {
		p.rmemo = map[*Term]iv{}
	}
	p.rmemo[t] = r
	return r
}

func addw(x, y, m uint64) (uint64, bool) {
	s, c := bits.Add64(x, y, 0)
	if m == ^uint64(0) {
		return s, c != 0
	}
	return s & m, s > m
}

// byRange decides a comparison from the ranges of its operands.
func (p *Path) byRange(t *Term) (known, val bool) {
	switch t.op {
	case OpEq:
		if t.a.w == 0 {
			return false, false
		}
		a, b := p.rng(t.a), p.rng(t.b)
		if a.hi < b.lo || b.hi < a.lo {
			return true, false
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return true, true
		}
	case OpUlt:
		if p.addsTo(t.a, t.b) { // x+y < x
			return true, false
		}
		a, b := p.rng(t.a), p.rng(t.b)
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return true, false
		}
	case OpUle:
		if p.addsTo(t.b, t.a) { // x <= x+y
			return true, true
		}
		a, b := p.rng(t.a), p.rng(t.b)
		if a.hi <= b.lo {
			return true, true
		}
		if a.lo > b.hi {
			return true, false
		}
	case OpSlt, OpSle:
		a, b := p.rng(t.a), p.rng(t.b)
		half := wmask(t.a.w) >> 1
		an, bn := a.lo > half, b.lo > half // surely negative
		ap, bp := a.hi <= half, b.hi <= half
		if an && bp {
			return true, true
		}
		if ap && bn {
			return true, false
		}
		if ap && bp || an && bn {
			if t.op == OpSlt {
				if a.hi < b.lo {
					return true, true
				}
				if a.lo >= b.hi {
					return true, false
				}
			} else {
				if a.hi <= b.lo {
					return true, true
				}
				if a.lo > b.hi {
					return true, false
				}
			}
		}
	}
	return false, false
}

// addsTo tells whether s is x plus something without overflow.
func (p *Path) addsTo(s, x *Term) bool {
	if s.op != OpAdd || s.a != x && s.b != x {
		return false
	}
	a, b := p.rng(s.a), p.rng(s.b)
	_, c := addw(a.hi, b.hi, wmask(s.w))
	return !c
}
