package main

import (
	"fmt"
	"math/bits"
)

// Decimal text of a number that was itself read from decimal text.
//
// lin writes a term as an exact sum of coef*digit, where every digit is (byte - '0') of a byte the path
// condition keeps within '0'..'9'.  Such a sum with the coefficients 1, 10, 100, ... and a leading digit other
// than zero has one decimal representation: those bytes.  FormatInt and FormatUint of it are that text.

type linForm struct {
	at []*Term // digit bytes
	co []uint64
}

type linAcc struct {
	m  map[*Term]uint64
	or []*Term
	k  uint64
}

func (p *Path) linInto(t *Term, mult uint64, a *linAcc, depth int) bool {
	if depth > 60 {
		return false
	}
	switch t.op {
	case OpConst:
		a.k += mult * t.val
		return true
	case OpAdd:
		return p.linInto(t.a, mult, a, depth+1) && p.linInto(t.b, mult, a, depth+1)
	case OpSub:
		return p.linInto(t.a, mult, a, depth+1) && p.linInto(t.b, -mult, a, depth+1)
	case OpNeg:
		return p.linInto(t.a, -mult, a, depth+1)
	case OpMul:
		if t.b.isConst() {
			return p.linInto(t.a, mult*t.b.val, a, depth+1)
		}
		return false
	case OpShl:
		if t.b.isConst() && t.b.val < uint64(t.w) {
			return p.linInto(t.a, mult<<t.b.val, a, depth+1)
		}
		return false
	case OpConcat:
		// low zero bits: a shift
		if t.b.isConst() && t.b.val == 0 && t.a.w <= 64 {
			f, ok := p.lin(t.a)
			if !ok {
				return false
			}
			for i, x := range f.at {
				a.add(x, mult*(f.co[i]<<t.b.w))
			}
			return true
		}
	case OpZExt:
		f, ok := p.lin(t.a)
		if !ok {
			return false
		}
		for i, x := range f.at {
			a.add(x, mult*f.co[i])
		}
		return true
	case OpExtract:
		// the low bits of a sum: the same sum modulo 2^w
		if t.val == 0 {
			return p.linInto(t.a, mult, a, depth+1)
		}
		return false
	}
	if t.w == 8 {
		r := p.rng(t)
		if r.lo >= '0' && r.hi <= '9' {
			a.k += mult * '0'
			a.add(t, mult)
			return true
		}
	}
	return false
}

func (a *linAcc) add(t *Term, co uint64) {
	if _, ok := a.m[t]; !ok {
		a.or = append(a.or, t)
	}
	a.m[t] += co
}

// lin: t equals, as an integer, the sum of co*(at-'0').
func (p *Path) lin(t *Term) (linForm, bool) {
	if t.w == 0 || t.isConst() {
		return linForm{}, false
	}
	if t.op == OpExtract && t.val == 0 && p.rng(t.a).hi <= wmask(t.w) {
		return p.lin(t.a)
	}
	if t.op == OpZExt {
		return p.lin(t.a)
	}
	a := &linAcc{m: map[*Term]uint64{}}
	if !p.linInto(t, 1, a, 0) {
		return linForm{}, false
	}
	m := wmask(t.w)
	if a.k&m != 0 {
		return linForm{}, false
	}
	var f linForm
	max, over := uint64(0), false
	for _, x := range a.or {
		co := a.m[x] & m
		if co == 0 {
			continue
		}
		f.at = append(f.at, x)
		f.co = append(f.co, co)
		hi, lo := bits.Mul64(co, 9)
		var c uint64
		max, c = bits.Add64(max, lo, 0)
		over = over || hi != 0 || c != 0
	}
	if over {
		return linForm{}, false
	}
	if max > m {
		// exact only where the path keeps the true sum within the width
		if !p.decimalShape(f) {
			return linForm{}, false
		}
		c := p.w.ctx
		sum := c.BV(64, 0)
		for i, x := range f.at {
			sum = c.Add(sum, c.Mul(c.ZExt(c.Sub(x, c.BV(8, '0')), 64), c.BV(64, f.co[i])))
		}
		big := c.Ult(c.BV(64, m), sum)
		if k, v := p.implied(big); !(k && !v) {
			switch r, _ := p.solve(big); r {
			case SatYes:
				return linForm{}, false
			case Unknown:
				p.w.run.noteBound("solver-unknown decimal range", nil)
				panic(pathEnd{"unknown", "decimal range"})
			}
		}
	}
	return f, true
}

func (p *Path) decimalShape(f linForm) bool {
	want := uint64(1)
	for range f.co {
		found := false
		for _, c := range f.co {
			found = found || c == want
		}
		if !found {
			return false
		}
		want *= 10
	}
	return len(f.co) > 0
}

// decimalText is the text FormatUint gives for t, when t is a sum of digits.
func (p *Path) decimalText(t *Term, signed bool) *Str {
	if t.isConst() || p.inInit {
		return nil
	}
	f, ok := p.lin(t)
	if !ok || !p.decimalShape(f) || len(f.co) > 18 {
		return nil
	}
	b := make([]*Term, len(f.at))
	for i, co := range f.co {
		k := 0
		for c := co; c > 1; c /= 10 {
			k++
		}
		b[len(b)-1-k] = f.at[i]
	}
	if len(b) > 1 && p.rng(b[0]).lo < '1' {
		return nil
	}
	return strOf(b)
}

func init() {
	// the text of 0..99, without a path for each of them
	externals["internal/strconv.small"] = func(fr *frame, a []value) value {
		p, t := fr.p, a[0].(*Term)
		if t.isConst() || p.inInit {
			return fallThrough{}
		}
		c := p.w.ctx
		if !p.branch(c.Ult(t, c.BV(t.w, 100)), fr) {
			return fallThrough{}
		}
		t = c.Extract(t, 0, 8)
		digit := func(t *Term) *Term { return c.Add(t, c.BV(8, '0')) }
		if p.branch(c.Ult(t, c.BV(8, 10)), fr) {
			return strOf([]*Term{digit(t)})
		}
		return strOf([]*Term{digit(c.UDiv(t, c.BV(8, 10))), digit(c.URem(t, c.BV(8, 10)))})
	}
	for _, pk := range []string{"strconv", "internal/strconv"} {
		for _, fn := range []string{"FormatInt", "FormatUint"} {
			signed := fn == "FormatInt"
			externals[pk+"."+fn] = func(fr *frame, a []value) value {
				if b := a[1].(*Term); b.isConst() && b.val == 10 {
					if s := fr.p.decimalText(a[0].(*Term), signed); s != nil {
						return s
					}
				}
				return fallThrough{}
			}
		}
		externals[pk+".Itoa"] = func(fr *frame, a []value) value {
			if s := fr.p.decimalText(a[0].(*Term), true); s != nil {
				return s
			}
			return fallThrough{}
		}
	}
}

// fallThrough from an external means: run the real body.
type fallThrough struct{}

func (t *Term) str(d int) string {
	if t == nil {
		return "-"
	}
	if t.op == OpVar {
		return t.name
	}
	if t.op == OpConst {
		return fmt.Sprintf("%d:%x", t.w, t.val)
	}
	if d == 0 {
		return "..."
	}
	return fmt.Sprintf("(%d:%d %d %s %s %s)", t.op, t.w, t.val, t.a.str(d-1), t.b.str(d-1), t.c.str(d-1))
}
