package main

import (
	"encoding/binary"
	"fmt"
	"sync"

	wwr "github.com/qbeon/webwire-go"
)

/* C03 handler concurrency, ordering, independence */

func init() { checks["C03"] = checkC03 }

// gated tracks handlers that block until they are released
type gated struct {
	mu      sync.Mutex
	log     *EventLog
	run     map[uint64]*gatedRun
	entered []uint64       // order of entries
	now     map[int]int    // running handlers per connection
	peak    map[int]int    // highest number per connection
	gateOn  map[uint64]int // messages whose handlers block
	open    bool           // handlers don't block anymore
	onExit  func(c wwr.Connection, t uint64)
}

type gatedRun struct {
	conn    int
	ch      chan struct{}
	entered bool
	exited  bool

	enterSeq, exitSeq int64
}

func newGated(log *EventLog) *gated {
	return &gated{log: log, run: map[uint64]*gatedRun{}, now: map[int]int{}, peak: map[int]int{}, gateOn: map[uint64]int{}}
}

func tokenOf(m wwr.Message) uint64 {
	p := m.Payload()
	if len(p) < 8 {
		return 0
	}
	return binary.BigEndian.Uint64(p)
}

func tokenBytes(t uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, t)
	return b
}

// handle is called by the handlers, it blocks if the message is gated
func (g *gated) handle(c wwr.Connection, m wwr.Message) uint64 {
	conn := c.Info(0).(int)
	t := tokenOf(m)
	g.mu.Lock()
	seq := g.log.Add("conn %d: handler of %d starts", conn, t)
	g.now[conn]++
	if g.now[conn] > g.peak[conn] {
		g.peak[conn] = g.now[conn]
	}
	g.entered = append(g.entered, t)
	r := &gatedRun{conn: conn, ch: make(chan struct{}), entered: true, enterSeq: seq}
	g.run[t] = r
	block := g.gateOn[t] > 0 && !g.open
	g.mu.Unlock()
	if block {
		<-r.ch
	}
	g.mu.Lock()
	f := g.onExit
	g.mu.Unlock()
	if f != nil {
		f(c, t)
	}
	return t
}

func (g *gated) exit(conn int, t uint64) {
	g.mu.Lock()
	g.now[conn]--
	g.run[t].exited = true
	g.run[t].exitSeq = g.log.Add("conn %d: handler of %d returns", conn, t)
	g.mu.Unlock()
}

func (g *gated) impl() *Impl {
	return &Impl{
		Signal: func(c wwr.Connection, m wwr.Message) {
			t := g.handle(c, m)
			g.exit(c.Info(0).(int), t)
		},
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			t := g.handle(c, m)
			g.exit(c.Info(0).(int), t)
			return wwr.Payload{Data: tokenBytes(t)}, nil
		},
	}
}

func (g *gated) gate(t uint64) {
	g.mu.Lock()
	g.gateOn[t] = 1
	g.mu.Unlock()
}

// running returns the tokens of the blocked handlers of a connection (-1: all)
func (g *gated) running(conn int) []uint64 {
	g.mu.Lock()
	defer g.mu.Unlock()
	var out []uint64
	for _, t := range g.entered {
		r := g.run[t]
		if !r.exited && (conn < 0 || r.conn == conn) {
			out = append(out, t)
		}
	}
	return out
}

func (g *gated) enteredOf(conn int) []uint64 {
	g.mu.Lock()
	defer g.mu.Unlock()
	var out []uint64
	for _, t := range g.entered {
		if g.run[t].conn == conn {
			out = append(out, t)
		}
	}
	return out
}

func (g *gated) release(t uint64) {
	g.mu.Lock()
	defer g.mu.Unlock()
	r := g.run[t]
	select {
	case <-r.ch:
	default:
		close(r.ch)
	}
}

// openAll releases every handler, now and in future
func (g *gated) openAll() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.open = true
	for t, r := range g.run {
		if !r.exited && g.gateOn[t] > 0 {
			select {
			case <-r.ch:
			default:
				close(r.ch)
			}
		}
	}
}

func (g *gated) peakOf(conn int) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.peak[conn]
}

// sendNoise sends a message that doesn't start a handler
func sendNoise(cl *Client, r *Rng) string {
	switch r.N(6) {
	case 0, 1:
		cl.Send(encHeartbeat())
		return "heartbeat"
	case 2:
		cl.Send(encCloseSession(cl.NewID()))
		return "close session"
	case 3:
		cl.Send(encRestore(cl.NewID(), "unknown-key"))
		return "restore"
	}
	m := unprocessedMessage(r)
	cl.Send(m)
	return typeName(m[0])
}

// unprocessedMessage is a well-formed message of a type the server ignores
func unprocessedMessage(r *Rng) []byte {
	id := idOf(r.U64())
	switch r.N(8) {
	case 0:
		return encReply(id, r.N(2), r.Bytes(r.N(10)))
	case 1:
		return encReply(id, 2, r.Bytes(2*r.N(6)))
	case 2:
		return encErrorReply(id, []byte("CODE"), []byte("message"))
	case 3:
		return append([]byte{byte(1 + r.N(5))}, id[:]...)
	case 4:
		return append([]byte{tSessCreated}, []byte(`{"k":"x","c":"2020-01-01T00:00:00Z","l":"2020-01-01T00:00:00Z"}`)...)
	case 5:
		return []byte{tSessClosed}
	case 6:
		return encConf(2, 0, 60000, 8192, nil)
	}
	return encErrorReply(id, r.Name(1), nil)
}

func checkC03(c *Ctx) {
	c.Cases("limits", c.Scale(500, 20000), c03Case)
	c.Cases("crowd", c.Scale(16, 1500), crowdLimit)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C03", r) })
}

func c03Case(i int, r *Rng) {
	if r.P(50) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	memch := r.P(50)
	log := &EventLog{}
	g := newGated(log)
	env := NewEnv(EnvOpts{Memchan: memch, Fragment: r.P(40), Impl: g.impl(), Sessions: r.P(60), SM: NewMemSM(), Log: log})
	defer g.openAll()
	limits := []int{r.Pick(-1, 0, 1, 2, 3, 8, -7, 5), r.Pick(-1, 0, 1, 2, 4)}
	var cls []*Client
	for _, l := range limits {
		cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: l})
		if cl == nil {
			return
		}
		cls = append(cls, cl)
	}
	maxOf := func(l int) int {
		if l < 0 {
			return 1 << 30
		}
		if l == 0 {
			return 1
		}
		return l
	}
	var next uint64
	sent := map[int][]uint64{}
	ids := map[uint64][8]byte{}
	send := func(cl *Client, gate bool) {
		next++
		t := next
		if gate {
			g.gate(t)
		}
		sent[cl.id] = append(sent[cl.id], t)
		if r.P(50) {
			cl.Send(encSignal(r.Name(r.N(4)), 0, tokenBytes(t)))
		} else {
			ids[t] = cl.Request(r.Name(r.N(4)), 0, tokenBytes(t))
		}
	}
	checkOrder := func() {
		for k, cl := range cls {
			if maxOf(limits[k]) != 1 {
				continue
			}
			got := g.enteredOf(cl.id)
			for x, t := range got {
				if x >= len(sent[cl.id]) || sent[cl.id][x] != t {
					ctx.Violate("order", log.Dump(), "limit %d: the handlers started in the order %v, the messages were sent in the order %v", limits[k], got, sent[cl.id])
					return
				}
			}
		}
	}
	rounds := r.Range(1, 3)
	for round := 0; round < rounds; round++ {
		// free running messages of all sorts
		noise := map[string]bool{}
		for k := r.Pick(0, 5, 20); k > 0; k-- {
			cl := cls[r.N(len(cls))]
			if r.P(50) {
				send(cl, false)
			} else {
				noise[sendNoise(cl, r)] = true
			}
		}
		if !Settle() {
			return
		}
		checkOrder()
		for k, cl := range cls {
			if n := len(g.enteredOf(cl.id)); n != len(sent[cl.id]) {
				ctx.Violate("not-handled", witnessWithStacks(log), "limit %d: %d of %d messages handled", limits[k], n, len(sent[cl.id]))
				return
			}
			if n := len(g.running(cl.id)); n != 0 {
				ctx.Violate("handler-stuck", witnessWithStacks(log), "%d handlers did not return", n)
				return
			}
		}
		// handlers that block
		pending := map[int]int{}
		target := r.Pick(0, 1, 2) // 2: both connections
		for k, cl := range cls {
			if target != 2 && target != k {
				continue
			}
			l := limits[k]
			n := r.Range(1, 12)
			if l > 0 {
				n = r.Pick(l, l+1, l+3, l-1, 2*l+1)
			}
			if n < 1 {
				n = 1
			}
			for x := 0; x < n; x++ {
				if r.P(25) {
					noise[sendNoise(cl, r)] = true
				}
				send(cl, true)
			}
			pending[k] = n
		}
		check := func(what string) bool {
			if !Settle() {
				return false
			}
			for k, cl := range cls {
				want := pending[k]
				if m := maxOf(limits[k]); want > m {
					want = m
				}
				run := g.running(cl.id)
				ctx.Eval(fmt.Sprintf("%v/%d/%d/%d/%d/%s", memch, limits[k], pending[k], want, len(noise), what))
				if len(run) < want {
					ctx.Violate("capacity-unused", witnessWithStacks(log), "%s: limit %d, %d messages unhandled, but only %d handlers running (after %v)", what, limits[k], pending[k], len(run), noise)
					return false
				}
				if len(run) > want {
					ctx.Violate("limit-exceeded", log.Dump(), "%s: limit %d, %d messages unhandled, %d handlers running", what, limits[k], pending[k], len(run))
					return false
				}
				if p := g.peakOf(cl.id); p > maxOf(limits[k]) {
					ctx.Violate("limit-exceeded", log.Dump(), "limit %d, %d handlers ran at once", limits[k], p)
					return false
				}
			}
			checkOrder()
			return true
		}
		if !check("saturated") {
			return
		}
		// the other connection is served meanwhile
		for k, cl := range cls {
			if pending[k] == 0 {
				send(cl, false)
				t := next
				if id, ok := ids[t]; ok {
					if cl.AwaitReply(id) == nil {
						return
					}
				} else if !Await(log, "handling of a signal while another connection is blocked", func() bool {
					e := g.enteredOf(cl.id)
					return len(e) > 0 && e[len(e)-1] == t
				}) {
					return
				}
			}
		}
		if !Settle() {
			return
		}
		for {
			run := g.running(-1)
			if len(run) == 0 {
				break
			}
			k := 1
			if r.P(30) {
				k = r.Range(1, len(run))
			}
			for ; k > 0; k-- {
				x := r.N(len(run))
				t := run[x]
				run = append(run[:x], run[x+1:]...)
				g.mu.Lock()
				conn := g.run[t].conn
				g.mu.Unlock()
				g.release(t)
				for kk, cl := range cls {
					if cl.id == conn {
						pending[kk]--
					}
				}
			}
			if !check("after release") {
				return
			}
		}
		for t, id := range ids {
			delete(ids, t)
			found := false
			for _, cl := range cls {
				if rs := cl.ReplyTo(id); len(rs) == 1 && string(rs[0].Ref.Payload) == string(tokenBytes(t)) {
					found = true
				}
			}
			if !found {
				ctx.Violate("unanswered", log.Dump(), "request %d was not answered correctly", t)
				return
			}
		}
	}
	ctx.Sample("memchan=%v limits=%v: %d messages handled, most at once %d and %d", memch, limits, next, g.peakOf(cls[0].id), g.peakOf(cls[1].id))
	ctx.Count("handlers", int64(next))
	env.Shutdown()
}
