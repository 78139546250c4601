package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// gor is one interpreted goroutine; each runs on its own host goroutine and a baton
// is passed so that exactly one executes at a time.
type gor struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool // nil: runnable
	exit  chan struct{}
	num   int // of vfGo
	vc    vclock
	at    *frame // blocked here
}

type lockState struct {
	writer  bool
	readers int
	once    bool
	vc, rvc vclock // of the last unlock and of the unlocks by readers
}

// vclock is a vector clock: for each goroutine the number of its releases that happened before.
type vclock []int

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (a vclock) at(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (p *Path) acquire(v vclock) {
	if p.cur != nil && len(v) > 0 {
		p.cur.vc = p.cur.vc.join(v)
	}
}

func (p *Path) release(v vclock) vclock {
	if p.cur == nil {
		return v
	}
	g := p.cur
	v = v.join(g.vc)
	g.tick()
	return v
}

func (g *gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// atom orders the atomic accesses of a cell.
func (p *Path) atom(fr *frame, a value, write bool) {
	p.yield(fr)
	c, ok := a.(*value)
	if !ok || c == nil || p.shadow == nil {
		return
	}
	l := p.lockOf(c)
	p.acquire(l.vc)
	if write {
		l.vc = p.release(l.vc)
	}
}

// ---- data races ----

// shadow is who accessed a cell last, by which release count and where.
type shadow struct {
	w     access
	reads []access
}
type access struct {
	g, clk int
	loc    string
	set    bool
}

func (p *Path) access(fr *frame, s *shadow, write bool) {
	g := p.cur
	if len(g.vc) <= g.id {
		g.tick()
	}
	before := func(a access) bool { return !a.set || a.g == g.id || g.vc.at(a.g) >= a.clk }
	if !before(s.w) {
		p.race(fr, s.w, true, write)
	}
	me := access{g.id, g.vc[g.id], "", true}
	if write {
		for _, r := range s.reads {
			if !before(r) {
				p.race(fr, r, false, write)
			}
		}
		s.reads = s.reads[:0]
		me.loc = fr.loc()
		s.w = me
		return
	}
	for i := range s.reads {
		if s.reads[i].g == g.id {
			s.reads[i].clk = me.clk
			return
		}
	}
	me.loc = fr.loc()
	s.reads = append(s.reads, me)
}

func (p *Path) race(fr *frame, o access, ow, w bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	panic(pathEnd{"race", fmt.Sprintf("data race: %s at %s and %s at %s", k(w), fr.loc(), k(ow), o.loc)})
}

func (p *Path) touch(fr *frame, c *value, write bool) {
	if p.shadow == nil || p.cur == nil || p.inInit {
		return
	}
	switch v := (*c).(type) {
	case structure:
		for i := range v {
			p.touch(fr, &v[i], write)
		}
		return
	case array:
		for i := range v {
			p.touch(fr, &v[i], write)
		}
		return
	}
	s := p.shadow[c]
	if s == nil {
		s = &shadow{}
		p.shadow[c] = s
	}
	p.access(fr, s, write)
}

func (p *Path) touchMap(fr *frame, m *Map, write bool) {
	if p.mapShadow == nil || p.cur == nil || p.inInit || m == nil {
		return
	}
	s := p.mapShadow[m]
	if s == nil {
		s = &shadow{}
		p.mapShadow[m] = s
	}
	p.access(fr, s, write)
}

// turn is a scheduling point which the native run follows.
func (p *Path) turn(fr *frame) {
	if !p.schedOn || p.cur == nil || p.inInit {
		return
	}
	me := p.cur
	p.switchTo(p.pick(me), me)
	p.went()
}

// went records that the current goroutine goes on.
func (p *Path) went() {
	if p.schedOn && p.cur.num > 0 {
		p.order = append(p.order, p.cur.num)
	}
}

func (p *Path) spawn(fr *frame, fn value, args []value) {
	p.newGor(fr, fn, args)
	p.yield(fr)
}

func (p *Path) newGor(fr *frame, fn value, args []value) *gor {
	g := &gor{id: len(p.gors), wake: make(chan struct{}, 1), exit: make(chan struct{})}
	p.gors = append(p.gors, g)
	g.vc = p.release(nil)
	g.tick()
	go func() {
		defer close(g.exit)
		<-g.wake
		if !p.aborting {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abortG); ok {
							return
						}
						p.natives["pending"] = r
					}
				}()
				p.went()
				root := &frame{p: p, g: g, fn: fr.fn, curInstr: fr.curInstr}
				p.call(root, fn, args)
			}()
		}
		g.done = true
		if p.aborting {
			return
		}
		if p.natives["pending"] != nil {
			p.cur = p.mainG
			p.mainG.wake <- struct{}{}
			return
		}
		// hand the baton on
		n := p.pick(nil)
		if n == nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				for _, g := range p.gors {
					s := fmt.Sprint("goroutine ", g.id, " num ", g.num, " done ", g.done)
					for f := g.at; f != nil && !g.done; f = f.caller {
						s += " <- " + f.fn.String()
						if f.curInstr != nil {
							s += " " + p.w.eng.prog.Fset.Position(f.curInstr.Pos()).String()
						}
					}
					fmt.Fprintln(os.Stderr, s)
				}
				fmt.Fprintln(os.Stderr, p.order)
			}
			p.natives["pending"] = pathEnd{"deadlock", "all goroutines are blocked"}
			n = p.mainG
		}
		p.cur = n
		n.wake <- struct{}{}
	}()
	return g
}

type abortG struct{}

func (p *Path) killAll() {
	p.aborting = true
	for _, g := range p.gors {
		if g == p.mainG || g.done {
			continue
		}
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exit
	}
}

func (p *Path) runnable() []*gor {
	var r []*gor
	for _, g := range p.gors {
		if g.done {
			continue
		}
		if g.ready != nil && !g.ready() {
			continue
		}
		r = append(r, g)
	}
	return r
}

// pick selects the next goroutine; me==nil when the current one has ended or is blocked.
func (p *Path) pick(me *gor) *gor {
	rs := p.runnable()
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 || !p.schedOn {
		if me != nil {
			return me
		}
		return rs[0]
	}
	// symbolic scheduler choice
	order := rs
	if me != nil {
		order = []*gor{me}
		for _, g := range rs {
			if g != me {
				order = append(order, g)
			}
		}
		if p.preempts >= p.maxPre {
			return me
		}
	}
	c := p.w.ctx
	v := p.fresh("sched", 8)
	p.assume(c.Ult(v, c.BV(8, uint64(len(order)))))
	k := int(p.concretize(v, "schedule", nil))
	g := order[k]
	if me != nil && g != me {
		p.preempts++
	}
	return g
}

func (p *Path) switchTo(g *gor, me *gor) {
	if g == me {
		return
	}
	p.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if p.aborting {
		panic(abortG{})
	}
	if r := p.natives["pending"]; r != nil && me == p.mainG {
		delete(p.natives, "pending")
		panic(r)
	}
}

// yield is a possible context switch.
func (p *Path) yield(fr *frame) {
	if !p.schedOn || p.cur == nil || p.inInit || p.w.eng.schedStand {
		return
	}
	me := p.cur
	g := p.pick(me)
	p.switchTo(g, me)
}

// block suspends the current goroutine until cond holds.
func (p *Path) block(fr *frame, cond func() bool, what string) {
	me := p.cur
	for !cond() {
		me.ready, me.at = cond, fr
		n := p.pick(nil)
		if n == nil {
			me.ready = nil
			panic(pathEnd{"deadlock", "blocked forever: " + what})
		}
		if n == me {
			me.ready = nil
			continue
		}
		p.switchTo(n, me)
		me.ready = nil
	}
}

// runOthers lets other goroutines run until they block or end (used at vfJoin).
func (p *Path) lock(fr *frame, m *value) {
	p.yield(fr)
	l := p.lockOf(m)
	if l.writer || l.readers > 0 {
		p.block(fr, func() bool { return !l.writer && l.readers == 0 }, "mutex lock")
		p.went()
	}
	l.writer = true
	p.acquire(l.vc)
	p.acquire(l.rvc)
}

func (p *Path) rlock(fr *frame, m *value) {
	p.yield(fr)
	l := p.lockOf(m)
	if l.writer {
		p.block(fr, func() bool { return !l.writer }, "rwmutex rlock")
		p.went()
	}
	l.readers++
	p.acquire(l.vc)
}

func (p *Path) runlock(fr *frame, m *value) {
	l := p.lockOf(m)
	if l.readers == 0 {
		panic(pathEnd{"stack", "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	l.readers--
	l.rvc = p.release(l.rvc)
	p.yield(fr)
}

func (p *Path) unlock(fr *frame, m *value) {
	l := p.lockOf(m)
	if !l.writer {
		panic(pathEnd{"stack", "fatal error: sync: unlock of unlocked mutex"})
	}
	l.writer = false
	l.vc = p.release(l.vc)
	p.yield(fr)
}

func (p *Path) lockOf(m *value) *lockState {
	l := p.locks[m]
	if l == nil {
		l = &lockState{}
		p.locks[m] = l
	}
	return l
}

// ---- channels ----

func (p *Path) chanSend(fr *frame, ch *Chan, v value) {
	p.yield(fr)
	if ch != nil {
		ch.vc = p.release(ch.vc)
	}
	defer func() {
		if ch != nil {
			p.acquire(ch.vc)
		}
	}()
	if ch == nil {
		p.block(fr, func() bool { return false }, "send on nil channel")
	}
	if ch.closed {
		p.runtimePanic("send on closed channel")
	}
	if ch.cap > 0 {
		p.block(fr, func() bool { return len(ch.buf) < ch.cap || ch.closed }, "channel send")
		if ch.closed {
			p.runtimePanic("send on closed channel")
		}
		ch.buf = append(ch.buf, v)
		return
	}
	s := &chanSend{v: v}
	ch.sendq = append(ch.sendq, s)
	p.block(fr, func() bool { return s.taken || ch.closed }, "channel send")
	if !s.taken {
		p.runtimePanic("send on closed channel")
	}
}

func (ch *Chan) canRecv() bool {
	return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed
}

func (p *Path) chanTake(ch *Chan, et types.Type) (value, bool) {
	p.acquire(ch.vc)
	ch.vc = p.release(ch.vc)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		s.taken = true
		return s.v, true
	}
	return p.w.ctx.zero(et), false
}

func (p *Path) chanRecv(fr *frame, ch *Chan, et types.Type) (value, bool) {
	p.yield(fr)
	if ch == nil {
		p.block(fr, func() bool { return false }, "receive on nil channel")
	}
	ch.recvN++
	p.block(fr, ch.canRecv, "channel receive")
	ch.recvN--
	return p.chanTake(ch, et)
}

func (p *Path) doSelect(fr *frame, instr *ssa.Select) value {
	c := p.w.ctx
	p.yield(fr)
	ready := func() int {
		for i, st := range instr.States {
			ch := fr.get(st.Chan).(*Chan)
			if ch == nil {
				continue
			}
			if st.Dir == types.RecvOnly {
				if ch.canRecv() {
					return i
				}
			} else if ch.closed || (ch.cap > 0 && len(ch.buf) < ch.cap) || (ch.cap == 0 && ch.recvN > 0) {
				return i
			}
		}
		return -1
	}
	k := ready()
	if k < 0 && instr.Blocking {
		waits := func(n int) {
			for _, st := range instr.States {
				if ch := fr.get(st.Chan).(*Chan); ch != nil && st.Dir == types.RecvOnly {
					ch.recvN += n
				}
			}
		}
		waits(1)
		p.block(fr, func() bool { return ready() >= 0 }, "select")
		waits(-1)
		k = ready()
	}
	r := tuple{c.BV(64, uint64(int64(k))), c.False}
	recvOK := false
	for i, st := range instr.States {
		if st.Dir == types.RecvOnly {
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == k {
				v, ok := p.chanTake(fr.get(st.Chan).(*Chan), et)
				recvOK = ok
				r = append(r, v)
			} else {
				r = append(r, c.zero(et))
			}
		} else if i == k {
			p.chanSend(fr, fr.get(st.Chan).(*Chan), copyVal(fr.get(st.Send)))
		}
	}
	r[1] = c.Bool(recvOK)
	return r
}

var _ = fmt.Sprint
