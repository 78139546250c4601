package main

// The harness API.  The engine intercepts these functions; their bodies are used
// when a harness is compiled natively to replay a counterexample or a path.
const apiSrc = `package PKG

import (
	"fmt"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type vfStop struct{}
type vfSkip struct{}

var vfIn map[string]uint64
var vfCnt map[string]int
var vfObsLog []string
var vfFails [][2]string
var vfTierN = 0
var vfReached = map[string]bool{}
var vfTick = make(chan time.Time)

var vfDialHook func(network, addr string) (net.Conn, error)

type vfNoDial struct{}

func (vfNoDial) Error() string { return "vf: no network" }

func vfDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if vfDialHook == nil {
		return nil, vfNoDial{}
	}
	return vfDialHook(network, addr)
}
func vfDial(network, addr string) (net.Conn, error) { return vfDialTimeout(network, addr, 0) }
func vfListen(network, addr string) (net.Listener, error) { return nil, vfNoDial{} }
func vfListenPacket(network, addr string) (net.PacketConn, error) { return nil, vfNoDial{} }

// vfRands is how many random numbers can be anything (all if negative); the ones after them all differ.
var vfRands = 4
var vfRandN uint32

func vfRand32() uint32 {
	if vfRands == 0 {
		vfRandN++
		return 0x5EED0000 + vfRandN
	}
	if vfRands > 0 {
		vfRands--
	}
	return uint32(vfRaw("rand", 32))
}
func vfSleep(d time.Duration) { vfYield() }
func vfNow() time.Time { return time.Time{}.Add(1700000000 * time.Second) }

var vfTickD time.Duration

func vfNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	vfTickD = d
	return &time.Ticker{C: vfTick}
}

func vfRaw(name string, w int) uint64 {
	if vfIn == nil {
		return 0
	}
	n := vfCnt[name]
	vfCnt[name] = n + 1
	k := name
	if n > 0 {
		k += "#" + strconv.Itoa(n)
	}
	return vfIn[k+"/"+strconv.Itoa(w)]
}
func vfConc(x uint64) uint64 { return x }
func vfAssume(b bool) {
	if !b {
		panic(vfSkip{})
	}
}

// vfFailCh tells about a failed assertion whose harness may not end any more, if the code under test holds a lock, say.
var vfFailCh = make(chan struct{}, 1)

func vfFailed(msg, known string) {
	vfFails = append(vfFails, [2]string{msg, known})
	select {
	case vfFailCh <- struct{}{}:
	default:
	}
}
func vfAssert(b bool, msg string) {
	if !b {
		vfFailed(msg, "")
		panic(vfStop{})
	}
}
func vfAssertKnown(id string, region, ok bool, msg string) {
	if !ok {
		k := ""
		if region {
			k = id
		}
		vfFailed(msg, k)
		panic(vfStop{})
	}
}
func vfObsU(name string, x uint64)  { vfObsLog = append(vfObsLog, name+"="+strconv.FormatUint(x, 10)) }
func vfObsS(name string, s string)  { vfObsLog = append(vfObsLog, name+"="+strconv.Quote(s)) }
func vfObsB(name string, b []byte)  { vfObsLog = append(vfObsLog, name+"="+fmt.Sprintf("%x", b)) }
func vfReach(label string)          { vfReached[label] = true }
func vfTier() int                   { return vfTierN }

// Schedules.  The engine picks the next goroutine at every vfYield, vfLock and the like, records the
// order in which goroutines started with vfGo went on there, and hands it to the native run as inputs
// named trace; natively the same functions pass a baton in that order.  The baton is kept out of the race
// detector's sight.
var vfTrace []int32
var vfPos, vfHolder, vfGoN int32
var vfOpen, vfFree bool
var vfGids [64]string
var vfWG *sync.WaitGroup

func vfNewWG() { vfWG = new(sync.WaitGroup) }
var vfFirst any

//go:norace
func vfGid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	i := 10
	for i < n && b[i] != ' ' {
		i++
	}
	return string(b[10:i])
}

//go:norace
func vfMe() int32 {
	if vfGoN == 0 {
		return 0
	}
	id := vfGid()
	for i := int32(1); i <= vfGoN; i++ {
		if vfGids[i] == id {
			return i
		}
	}
	return 0
}

//go:norace
func vfTurn(me int32) {
	if me == 0 {
		return
	}
	if vfHolder == me {
		vfHolder = 0
	}
	t0 := time.Now()
	var mine time.Time
	for !vfFree {
		if vfOpen && int(vfPos) >= len(vfTrace) {
			return
		}
		if vfOpen && vfTrace[vfPos] == me {
			if mine.IsZero() {
				mine = time.Now()
			}
			// a holder that goes on too long is taken to be blocked
			if vfHolder == 0 || time.Since(mine) > 20*time.Millisecond {
				vfHolder = me
				vfPos++
				return
			}
		}
		if time.Since(t0) > time.Second {
			vfFree = true
		}
		runtime.Gosched()
	}
}
func vfYield() { vfTurn(vfMe()) }

// vfSchedule lets the engine choose the order of the goroutines from here to vfJoin, with up to maxPreempt switches away from one that could go on.
func vfSchedule(maxPreempt int) {}

// vfGo starts a goroutine that takes part in the schedule.
func vfGo(f func()) {
	vfGoN++
	me := vfGoN
	vfWG.Add(1)
	go vfGoRun(me, f, vfWG)
}

//go:norace
func vfGoRun(me int32, f func(), wg *sync.WaitGroup) {
	vfGids[me] = vfGid()
	defer vfGoEnd(me, wg)
	vfTurn(me)
	f()
}

//go:norace
func vfGoEnd(me int32, wg *sync.WaitGroup) {
	if r := recover(); r != nil && vfFirst == nil {
		vfFirst = r
	}
	if vfHolder == me {
		vfHolder = 0
	}
	wg.Done()
}

//go:norace
func vfSetOpen() { vfOpen = true }

//go:norace
func vfPanicked() any { return vfFirst }

// vfJoin waits for all goroutines.
func vfJoin() {
	vfSetOpen()
	ch := make(chan bool)
	wg := vfWG
	go func() { wg.Wait(); close(ch) }()
	for t := 0; ; t++ {
		select {
		case <-ch:
		case <-time.After(20 * time.Millisecond):
			if vfPanicked() == nil && t < 500 {
				continue
			}
			if vfPanicked() == nil {
				panic("deadlock: goroutines are blocked")
			}
		}
		break
	}
	if r := vfPanicked(); r != nil {
		panic(r)
	}
}

func vfLock(m *sync.Mutex) {
	vfYield()
	for !m.TryLock() {
		vfBlocked()
	}
}
func vfUnlock(m *sync.Mutex) { m.Unlock() }

// vfBlocked lets the others go on until the turn of this goroutine.
func vfBlocked() { vfTurn(vfMe()); runtime.Gosched() }

func vfRWLock(m *sync.RWMutex) {
	vfYield()
	for !m.TryLock() {
		vfBlocked()
	}
}
func vfRWUnlock(m *sync.RWMutex) { m.Unlock() }
func vfRLock(m *sync.RWMutex) {
	vfYield()
	for !m.TryRLock() {
		vfBlocked()
	}
}
func vfRUnlock(m *sync.RWMutex) { m.RUnlock() }

// vfMutex, vfRWMutex and vfAtomic take the place of the sync types in checks with schedules.
type vfMutex struct{ m sync.Mutex }

func (m *vfMutex) Lock()         { vfLock(&m.m) }
func (m *vfMutex) Unlock()       { vfUnlock(&m.m) }
func (m *vfMutex) TryLock() bool { vfYield(); return m.m.TryLock() }

type vfRWMutex struct{ m sync.RWMutex }

func (m *vfRWMutex) Lock()                 { vfRWLock(&m.m) }
func (m *vfRWMutex) Unlock()               { vfRWUnlock(&m.m) }
func (m *vfRWMutex) RLock()                { vfRLock(&m.m) }
func (m *vfRWMutex) RUnlock()              { vfRUnlock(&m.m) }
func (m *vfRWMutex) TryLock() bool         { vfYield(); return m.m.TryLock() }
func (m *vfRWMutex) TryRLock() bool        { vfYield(); return m.m.TryRLock() }
func (m *vfRWMutex) RLocker() sync.Locker { return (*vfRLocker)(m) }

type vfRLocker vfRWMutex

func (m *vfRLocker) Lock()   { vfRLock(&m.m) }
func (m *vfRLocker) Unlock() { vfRUnlock(&m.m) }

func vfAddUint32(p *uint32, d uint32) uint32      { vfYield(); return atomic.AddUint32(p, d) }
func vfLoadUint32(p *uint32) uint32               { vfYield(); return atomic.LoadUint32(p) }
func vfStoreUint32(p *uint32, v uint32)           { vfYield(); atomic.StoreUint32(p, v) }
func vfCASUint32(p *uint32, o, n uint32) bool     { vfYield(); return atomic.CompareAndSwapUint32(p, o, n) }
func vfAddInt32(p *int32, d int32) int32          { vfYield(); return atomic.AddInt32(p, d) }
func vfLoadInt32(p *int32) int32                  { vfYield(); return atomic.LoadInt32(p) }
func vfStoreInt32(p *int32, v int32)              { vfYield(); atomic.StoreInt32(p, v) }
func vfCASInt32(p *int32, o, n int32) bool        { vfYield(); return atomic.CompareAndSwapInt32(p, o, n) }

type vfAtomicUint32 struct{ v atomic.Uint32 }

func (a *vfAtomicUint32) Load() uint32                        { vfYield(); return a.v.Load() }
func (a *vfAtomicUint32) Store(x uint32)                      { vfYield(); a.v.Store(x) }
func (a *vfAtomicUint32) Add(x uint32) uint32                 { vfYield(); return a.v.Add(x) }
func (a *vfAtomicUint32) Swap(x uint32) uint32                { vfYield(); return a.v.Swap(x) }
func (a *vfAtomicUint32) CompareAndSwap(o, n uint32) bool     { vfYield(); return a.v.CompareAndSwap(o, n) }

type vfAtomicInt32 struct{ v atomic.Int32 }

func (a *vfAtomicInt32) Load() int32                     { vfYield(); return a.v.Load() }
func (a *vfAtomicInt32) Store(x int32)                   { vfYield(); a.v.Store(x) }
func (a *vfAtomicInt32) Add(x int32) int32               { vfYield(); return a.v.Add(x) }
func (a *vfAtomicInt32) Swap(x int32) int32              { vfYield(); return a.v.Swap(x) }
func (a *vfAtomicInt32) CompareAndSwap(o, n int32) bool  { vfYield(); return a.v.CompareAndSwap(o, n) }

type vfAtomicBool struct{ v atomic.Bool }

func (a *vfAtomicBool) Load() bool                    { vfYield(); return a.v.Load() }
func (a *vfAtomicBool) Store(x bool)                  { vfYield(); a.v.Store(x) }
func (a *vfAtomicBool) Swap(x bool) bool              { vfYield(); return a.v.Swap(x) }
func (a *vfAtomicBool) CompareAndSwap(o, n bool) bool { vfYield(); return a.v.CompareAndSwap(o, n) }

// vfSettle lets the other goroutines go on until each waits or has ended.
func vfSettle() {
	buf := make([]byte, 1<<20)
	for i, calm := 0, 0; i < 5000 && calm < 4; i++ {
		time.Sleep(200 * time.Microsecond)
		calm++
		for k, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if k > 0 && (strings.Contains(g, " [running") || strings.Contains(g, " [runnable") || strings.Contains(g, " [sleep")) {
				calm = 0
			}
		}
	}
}
func vfIsSymbolic() bool            { return false }
func vfMapPerm(on bool)             {}
func vfTexts(on bool)               {}

func vfU8(name string) uint8   { return uint8(vfRaw(name, 8)) }
func vfU16(name string) uint16 { return uint16(vfRaw(name, 16)) }
func vfU32(name string) uint32 { return uint32(vfRaw(name, 32)) }
func vfU64(name string) uint64 { return vfRaw(name, 64) }
func vfBool(name string) bool  { return vfRaw(name, 8)&1 == 1 }

// vfInt is a symbolic int in [lo,hi].
func vfInt(name string, lo, hi int) int {
	x := int(int64(vfRaw(name, 64)))
	vfAssume(x >= lo && x <= hi)
	return x
}

// vfPick is a case split: a concrete int in [0,n).
func vfPick(name string, n int) int {
	x := vfRaw(name, 8)
	vfAssume(x < uint64(n))
	return int(vfConc(x))
}
func vfBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vfRaw(name, 8))
	}
	return b
}
func vfStr(name string, n int) string { return string(vfBytes(name, n)) }

// vfNoPanic runs f and tells whether it returned normally.
func vfNoPanic(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vfStop, vfSkip:
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

var _ = fmt.Sprint
`

// runnerSrc is the native entry point (a _test file of the overlay build).
const runnerSrc = `package PKG

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"time"
)

var vfHarness = map[string]func(){
HARNESSES}

type vfCase struct {
	Harness string
	Inputs  map[string]uint64
	Tier    int
}
type vfRes struct {
	Case   int
	Status string
	Text   string
	Fails  [][2]string
	Obs    []string
}

func vfRunCase(c vfCase) (r vfRes) {
	vfIn, vfCnt, vfObsLog, vfFails = c.Inputs, map[string]int{}, nil, nil
	if vfIn == nil {
		vfIn = map[string]uint64{}
	}
	vfTierN = c.Tier
	vfDialHook = nil
	vfRands = 4
	vfRandN = 0
	vfTick = make(chan time.Time)
	vfTrace, vfPos, vfHolder, vfGoN, vfOpen, vfFree, vfFirst = nil, 0, 0, 0, false, false, nil
	vfGids = [64]string{}
	vfNewWG()
	for k := "trace"; ; {
		x, ok := vfIn[k+"/8"]
		if !ok {
			break
		}
		vfTrace = append(vfTrace, int32(x))
		k = "trace#" + fmt.Sprint(len(vfTrace))
	}
	r.Status = "ok"
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case vfSkip:
				r.Status = "skip"
			case vfStop:
				r.Status = "fail"
			default:
				r.Status = "panic"
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				r.Text = fmt.Sprint(x) + "\n" + st
			}
		}
		r.Fails, r.Obs = vfFails, vfObsLog
		vfIn = nil
	}()
	f := vfHarness[c.Harness]
	if f == nil {
		r.Status = "missing"
		return
	}
	f()
	return
}

func TestVFRun(t *testing.T) {
	if os.Getenv("VF_CASES") == "" {
		t.Skip()
	}
	debug.SetMaxStack(128 << 20)
	var cases []vfCase
	b, err := os.ReadFile(os.Getenv("VF_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("VF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	var start int
	fmt.Sscan(os.Getenv("VF_START"), &start)
	w := bufio.NewWriter(out)
	for i := start; i < len(cases); i++ {
		ch := make(chan vfRes, 1)
		go func() { ch <- vfRunCase(cases[i]) }()
		var r vfRes
		hang := false
		select {
		case <-vfFailCh:
		default:
		}
		select {
		case r = <-ch:
		case <-vfFailCh:
			select {
			case r = <-ch:
			case <-time.After(2 * time.Second):
				r.Status, r.Fails = "fail", vfFails
				hang = true
			}
		case <-time.After(20 * time.Second):
			r.Status = "timeout"
			hang = true
		}
		r.Case = i
		j, _ := json.Marshal(r)
		w.Write(j)
		w.WriteByte('\n')
		w.Flush()
		if hang {
			os.Exit(3)
		}
	}
}
`
