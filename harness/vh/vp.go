package main

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/qbeon/webwire-go/vpoint"
)

/* Schedules. The build of the monitors has a delay point around every
   synchronisation operation of the library ("auto:" places, made by instr) and
   the ones of the sources. A seed decides which goroutines yield or sleep at
   them. Holds delay a goroutine at some place until everything else has come
   to rest (or for a moment if the workload doesn't wait for that). Gates do
   that for as long as the workload wants.

   The race detector must not see synchronisation that isn't there without the
   delay points, so "at" doesn't use any. */

type vplace struct {
	name string
	auto bool
	held bool // most likely a lock is held
	id   int32
	n    int64
}

var (
	vpPlaces = map[string]*vplace{} // constant after init
	vpAll    []*vplace
	vpSeed   uint64 // 0: no delays
	vpCount  uint64
	vpBudget int64 // microseconds left to sleep at automatic places
	vpGate   atomic.Value
	vpHold   atomic.Value

	// switches between goroutines: a place passed by one directly after a
	// place passed by another. That of the last one is told by its stack
	// (near ones may be taken for the same)
	vpLast      int32
	vpLastStack uintptr
	vpSwitches  []uint8

	holdMu      sync.Mutex
	holdWake    = make(chan struct{})
	holdActive  int64
	holdEntries int64
	holdKinds   = map[string]int64{}
)

// Gate blocks the first Limit goroutines arriving at Place until released
type Gate struct {
	Place   string
	Limit   int64
	arrived int64
	ch      chan struct{}
	once    sync.Once
}

type gateBox struct{ g *Gate }

// hold delays the goroutines of some arrivals at a place
type hold struct {
	place string
	from  int64 // first arrival
	limit int64
	n     int64
	quiet bool // no other delays
}

type holdBox struct{ h *hold }

const maxHold = 40 * time.Millisecond

// SetGate installs a gate, there is at most one at a time
func SetGate(place string, limit int) *Gate {
	g := &Gate{Place: place, Limit: int64(limit), ch: make(chan struct{})}
	vpGate.Store(gateBox{g})
	return g
}

// Release opens the gate
func (g *Gate) Release() {
	g.once.Do(func() { close(g.ch) })
	vpGate.Store(gateBox{nil})
}

// Arrived returns how many goroutines have been blocked by the gate
func (g *Gate) Arrived() int {
	n := atomic.LoadInt64(&g.arrived)
	if n > g.Limit {
		n = g.Limit
	}
	return int(n)
}

// SetDelays installs a delay schedule
func SetDelays(seed uint64) {
	var h *hold
	if seed != 0 {
		h = newHold(NewRng(seed))
	}
	vpHold.Store(holdBox{h})
	resetBudget()
	atomic.StoreUint64(&vpSeed, seed)
}

//go:norace
func resetBudget() { vpBudget = 8000 }

//go:norace
func nap(us uint64) {
	// a sleep takes longer than it should
	if vpBudget > 0 {
		vpBudget -= int64(us) + 60
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

//go:norace
func newHold(r *Rng) *hold {
	k := r.N(4)
	if k == 0 || len(vpAll) == 0 {
		return nil
	}
	var seen []*vplace
	for _, p := range vpAll {
		if p.n > 0 && p.auto {
			seen = append(seen, p)
		}
	}
	if len(seen) == 0 || r.P(10) {
		seen = vpAll
	}
	p := seen[r.N(len(seen))]
	if p.held && r.P(70) {
		p = seen[r.N(len(seen))]
	}
	if r.P(50) {
		// prefer places that are rarely passed, like those of closures
		for i := 0; i < 3; i++ {
			if q := seen[r.N(len(seen))]; q.n < p.n {
				p = q
			}
		}
	}
	return &hold{place: p.name, from: int64(r.Pick(0, 0, 0, 1, 1, 2, 3, 5)), limit: int64(r.Pick(1, 1, 1, 2, 3)), quiet: k == 1}
}

//go:norace
func noteSwitch(id int32) {
	var b byte
	stack := uintptr(unsafe.Pointer(&b)) >> 13
	if stack != vpLastStack {
		if last := int(vpLast); last < len(vpAll) {
			vpSwitches[last*len(vpAll)+int(id)] = 1
		}
		vpLastStack = stack
	}
	vpLast = id
}

//go:norace
func at(place string) {
	if b, ok := vpGate.Load().(gateBox); ok && b.g != nil && b.g.Place == place {
		if atomic.AddInt64(&b.g.arrived, 1) <= b.g.Limit {
			<-b.g.ch
			return
		}
	}
	s := vpSeed
	p := vpPlaces[place]
	if p != nil && (s != 0 || !p.auto) {
		p.n++
	}
	if s == 0 {
		return
	}
	if b, ok := vpHold.Load().(holdBox); ok && b.h != nil {
		h := b.h
		if h.place == place {
			h.n++
			if h.n > h.from && h.n <= h.from+h.limit {
				holdHere(place)
				return
			}
		}
		if h.quiet {
			return
		}
	}
	vpCount++
	if p != nil && p.auto {
		noteSwitch(p.id)
	}
	x := mix(s ^ mix(vpCount))
	if p != nil && p.auto {
		// there are many of them
		switch x % 64 {
		case 0, 1, 2, 3, 4, 5:
			runtime.Gosched()
		case 6:
			for i := 0; i < 20; i++ {
				runtime.Gosched()
			}
		case 7:
			nap(x >> 8 % 200)
		case 8:
			if x>>20%8 == 0 {
				nap(x >> 8 % 1500)
			}
		}
		return
	}
	switch x % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
	case 4:
		if x>>20%4 == 0 {
			time.Sleep(time.Duration(x>>8%1500) * time.Microsecond)
		}
	}
}

func holdHere(place string) {
	holdMu.Lock()
	holdActive++
	holdEntries++
	holdKinds[place]++
	wake := holdWake
	holdMu.Unlock()
	t := time.NewTimer(maxHold)
	select {
	case <-wake:
		t.Stop()
	case <-t.C:
	}
	holdMu.Lock()
	holdActive--
	holdMu.Unlock()
}

// holds returns the number of goroutines being held and of all ever held
func holds() (active, entries int64) {
	holdMu.Lock()
	defer holdMu.Unlock()
	return holdActive, holdEntries
}

// wakeHeld ends all holds
func wakeHeld() {
	holdMu.Lock()
	if holdActive > 0 {
		close(holdWake)
		holdWake = make(chan struct{})
	}
	holdMu.Unlock()
}

func init() {
	if b, err := os.ReadFile(os.Getenv("VH_PLACES")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" || vpPlaces[l] != nil {
				continue
			}
			p := &vplace{name: l, auto: strings.HasPrefix(l, "auto:"), held: strings.HasSuffix(l, "h")}
			vpPlaces[l] = p
			if p.auto {
				p.id = int32(len(vpAll))
				vpAll = append(vpAll, p)
			}
		}
	}
	vpSwitches = make([]uint8, len(vpAll)*len(vpAll))
	vpoint.Set(at)
}

func collectVpoints() {
	for _, p := range vpPlaces {
		switch {
		case p.n == 0:
		case p.auto:
			ctx.Count("auto_delay_points_passed", p.n)
			ctx.Distinct("auto_places", p.name)
		default:
			ctx.Count("delay_point:"+p.name, p.n)
		}
	}
	for i, n := range vpSwitches {
		if n != 0 {
			ctx.Distinct("goroutine_switches", strconv.Itoa(i/len(vpAll))+">"+strconv.Itoa(i%len(vpAll)))
		}
	}
	holdMu.Lock()
	defer holdMu.Unlock()
	for k, n := range holdKinds {
		ctx.Count("holds", n)
		ctx.Distinct("hold_places", k)
	}
}
