package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C25: read timeouts and heartbeats */

func init() { checks["C25"] = checkC25 }

func checkC25(c *Ctx) {
	c.Cases("deadlines", c.Scale(640, 12800), func(i int, r *Rng) { c25Deadlines(i, r) })
	c.Cases("heartbeats", c.Scale(240, 4800), func(i int, r *Rng) { c25Heartbeats(r) })
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C25", r) })
	c.Cases("clock", c.Scale(8, 48), func(i int, r *Rng) { c25Clock(r) })
}

// c25Deadlines: the deadline of every read of the server
func c25Deadlines(n int, r *Rng) {
	var T, want time.Duration
	switch n % 8 {
	case 0:
		T, want = 0, 60*time.Second
		// the harness' environment replaces zero, use the smallest value
		T = 1
	case 1:
		T = time.Duration(r.Range(1, 999)) * time.Millisecond
		want = 60 * time.Second
	case 2:
		T, want = time.Second-1, 60*time.Second
	case 3:
		T, want = time.Second, time.Second
	case 4:
		T = -time.Duration(r.Range(1, 100000)) * time.Millisecond
		want = 60 * time.Second
	case 5:
		T = time.Duration(r.Range(1000, 3000)) * time.Millisecond
		want = T
	default:
		T = time.Duration(r.Range(1001, 40000000)) * time.Millisecond
		want = T
	}
	served := int64(0)
	var gone int64
	var goneErr atomic.Value
	im := &Impl{
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			atomic.AddInt64(&served, 1)
			if string(m.Name()) == "slow" {
				time.Sleep(time.Duration(len(m.Payload())) * 100 * time.Microsecond)
			}
			return wwr.Payload{}, nil
		},
		Signal: func(c wwr.Connection, m wwr.Message) { atomic.AddInt64(&served, 1) },
		Disconnected: func(c wwr.Connection, err error) {
			atomic.AddInt64(&gone, 1)
			if err != nil {
				goneErr.Store(err.Error())
			}
		},
	}
	e := NewEnv(EnvOpts{Fragment: r.P(30), Sessions: r.P(70), SM: NewMemSM(), Timeout: T, Impl: im})
	limit := r.Pick(-1, 0, 1, 2, 3)
	dialed := time.Now()
	cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
	other := e.MustDial(wwr.ConnectionOptions{})
	if cl == nil || other == nil {
		return
	}
	Settle()
	conf := cl.Received()
	if len(conf) == 0 || conf[0].Ref == nil || conf[0].Ref.Type != tAcceptConf {
		ctx.Violate("no-configuration", e.Log.Dump(), "the first message isn't the configuration")
		e.Shutdown()
		return
	}
	adv := conf[0].Ref.Timeout
	if d := adv - want; d > time.Millisecond || d < -time.Millisecond {
		ctx.Violate("advertised-timeout", nil, "with a read timeout of %v the server advertises %v instead of %v", T, adv, want)
	}
	s := cl.ft
	// every read's deadline must be one timeout after a moment between the
	// reception of the previous message and the beginning of the read
	verify := func(what string, idx int) bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		if idx >= len(s.deadlines) {
			ctx.Violate("no-read", e.Log.Dump(), "%s: the server doesn't wait for the next message", what)
			return false
		}
		d := s.deadlines[idx]
		lo := dialed
		if idx > 0 {
			lo = s.deadlines[idx-1].received
		}
		// the wall clock may be less exact than the monotonic one
		const slack = 2 * time.Millisecond
		if d.deadline.IsZero() {
			ctx.Violate("no-deadline", nil, "%s: the server reads without deadline (timeout %v)", what, T)
			return false
		}
		if early := lo.Add(want).Sub(d.deadline); early > slack {
			ctx.Violate("early-deadline", nil, "%s (timeout %v): the read would end %v before the timeout since the last message has elapsed", what, want, early)
			return false
		}
		if late := d.deadline.Sub(d.after.Add(want)); late > slack {
			ctx.Violate("late-deadline", nil, "%s (timeout %v): the read would end %v after the timeout has elapsed", what, want, late)
			return false
		}
		return true
	}
	if !verify("first read", 0) {
		e.Shutdown()
		return
	}
	for i := r.Range(3, 12); i > 0; i-- {
		if r.P(40) {
			time.Sleep(time.Duration(r.N(4000)) * time.Microsecond)
		}
		before := len(deadlinesOf(s))
		what := ""
		switch r.N(9) {
		case 0, 1, 2:
			what = "heartbeat"
			cl.Send(encHeartbeat())
		case 3:
			what = "signal"
			cl.Send(encSignal([]byte("s"), 0, []byte("x")))
		case 4:
			what = "request"
			if cl.Call([]byte("r"), 0, []byte("x")) == nil {
				return
			}
		case 5:
			what = "slow request"
			cl.Request([]byte("slow"), 0, make([]byte, r.Range(1, 60)))
		case 6:
			what = "ignored message"
			cl.Send(encReply(cl.NewID(), 0, []byte("x")))
		case 7:
			what = "session closure"
			id := cl.NewID()
			cl.Send(encCloseSession(id))
		default:
			what = "session restoration"
			sendRestore(cl, "unknown")
		}
		if !Settle() {
			return
		}
		after := len(deadlinesOf(s))
		if after != before+1 {
			ctx.Violate("reads", e.Log.Dump(), "after one %s the server has begun %d reads", what, after-before)
			break
		}
		if !verify("read after a "+what, after-1) {
			break
		}
		if other.ServerClosed() || cl.ServerClosed() {
			ctx.Violate("closed", e.Log.Dump(), "a connection was closed after a %s", what)
			break
		}
		ctx.Eval(fmt.Sprintf("deadline after %s limit=%d timeout=%d", what, limit, n%8))
	}
	// the read times out
	g0 := atomic.LoadInt64(&gone)
	s.mu.Lock()
	s.inErr = ftErr{msg: "read timeout"}
	s.cond.Broadcast()
	s.mu.Unlock()
	Settle()
	if !cl.ServerClosed() {
		ctx.Violate("not-closed", e.Log.Dump(), "a connection whose read timed out wasn't closed")
	}
	if k := atomic.LoadInt64(&gone) - g0; k != 1 {
		ctx.Violate("disconnect-hook", e.Log.Dump(), "the disconnected hook ran %d times after a read timed out", k)
	} else if goneErr.Load() == nil {
		ctx.Violate("disconnect-hook", e.Log.Dump(), "the disconnected hook got no error after a read timed out")
	}
	if ref := other.Call([]byte("r"), 0, []byte("x")); ref == nil || ref.Type != tReplyBin {
		ctx.Violate("other-connection", e.Log.Dump(), "another connection isn't served after a read timed out: %v", ref)
	}
	ctx.Eval(fmt.Sprintf("timeout kind=%d limit=%d", n%8, limit))
	e.Shutdown()
}

func deadlinesOf(s *ftSocket) []ftDeadline {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]ftDeadline(nil), s.deadlines...)
}

// c25Heartbeats: heartbeats have no effect but keeping the connection alive
func c25Heartbeats(r *Rng) {
	var mu sync.Mutex
	started := 0
	gate := make(chan struct{})
	var handled int64
	count := func() int { mu.Lock(); defer mu.Unlock(); return started }
	im := &Impl{
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			atomic.AddInt64(&handled, 1)
			mu.Lock()
			started++
			mu.Unlock()
			<-gate
			return wwr.Payload{}, nil
		},
		Signal: func(c wwr.Connection, m wwr.Message) { atomic.AddInt64(&handled, 1) },
	}
	mem := r.P(50)
	e := NewEnv(EnvOpts{Memchan: mem, Impl: im})
	limit := r.Pick(-1, 0, 1, 2, 3, 5)
	cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
	if cl == nil {
		return
	}
	if r.P(50) {
		SetDelays(r.U64())
		defer SetDelays(0)
	}
	capacity := limit
	if limit == 0 {
		capacity = 1
	}
	if limit < 0 {
		capacity = 6
	}
	want := 0
	beats := 0
	beat := func() bool {
		k := r.Range(1, 2*capacity+3)
		Settle()
		h, n := atomic.LoadInt64(&handled), cl.NumReceived()
		at := cl.NumSent()
		for i := 0; i < k; i++ {
			cl.Send(encHeartbeat())
		}
		beats += k
		Settle()
		if h2 := atomic.LoadInt64(&handled); h2 != h {
			ctx.Violate("handler", e.Log.Dump(), "%d heartbeats invoked %d handlers", k, h2-h)
			return false
		}
		if n2 := cl.NumReceived(); n2 != n {
			ctx.Violate("reply", e.Log.Dump(), "%d heartbeats caused %d messages", k, n2-n)
			return false
		}
		if cl.ServerClosed() {
			ctx.Violate("closed", e.Log.Dump(), "heartbeats closed the connection")
			return false
		}
		// a reader that doesn't execute a handler itself receives them at once
		if (want == 0 || limit > 1 || limit < 0) && !cl.Reached(at+k-1) {
			ctx.Violate("not-received", witnessWithStacks(e.Log), "heartbeats aren't received while %d of %d handlers are running", want, capacity)
			return false
		}
		return true
	}
	ok := beat()
	for i := 0; ok && i < capacity; i++ {
		cl.Request([]byte("block"), 0, nil)
		want++
		Settle()
		if count() != want {
			ctx.Violate("capacity", witnessWithStacks(e.Log), "%d of %d requests are handled after %d heartbeats, the limit is %d", count(), want, beats, limit)
			ok = false
			break
		}
		ok = beat()
	}
	phase := r.N(3)
	var down func() bool
	switch {
	case !ok:
	case phase == 1:
		con := cl.Conn()
		Await(e.Log, "return of Close", Go(func() { con.Close() }))
		n := cl.NumReceived()
		cl.Send(encHeartbeat())
		Settle()
		if cl.NumReceived() != n {
			ctx.Violate("reply", e.Log.Dump(), "a heartbeat during the closure of the connection caused a message")
		}
	case phase == 2:
		down = Go(func() { e.Srv.Shutdown() })
		Settle()
		n := cl.NumReceived()
		cl.Send(encHeartbeat())
		Settle()
		if cl.NumReceived() != n {
			ctx.Violate("reply", e.Log.Dump(), "a heartbeat during the shutdown caused a message")
		}
	}
	close(gate)
	if down != nil {
		Await(e.Log, "return of Shutdown although heartbeats were received", down)
	}
	Settle()
	if ok && phase == 0 {
		if ref := cl.Call([]byte("x"), 0, []byte("y")); ref == nil || ref.Type != tReplyBin {
			ctx.Violate("unusable", e.Log.Dump(), "after heartbeats a request isn't answered: %v", ref)
		}
	}
	ctx.Count("heartbeats", int64(beats))
	ctx.Eval(fmt.Sprintf("heartbeats limit=%d memchan=%v phase=%d", limit, mem, phase))
	e.Shutdown()
}

// c25Clock: connections over the in-memory transport against the clock
func c25Clock(r *Rng) {
	const T = time.Second
	const grace = 15 * time.Second
	type life struct {
		sock       wwr.ClientSocket
		begin      time.Time // the connection can't have been read from before
		lastStart  time.Time // of the last successful write
		lastEnd    time.Time
		closedSeen time.Time
		kinds      string
		sent       int
		beats      bool
		never      bool
	}
	var disc int64
	im := &Impl{Disconnected: func(wwr.Connection, error) { atomic.AddInt64(&disc, 1) }}
	e := NewEnv(EnvOpts{Memchan: true, Timeout: T, Impl: im, LogOff: true})
	n := 24
	lives := make([]*life, n)
	var wg sync.WaitGroup
	for i := range lives {
		l := &life{}
		lives[i] = l
		l.begin = time.Now()
		cl, err := e.Dial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 1, 2)})
		if err != nil {
			ctx.Violate("dial-refused", nil, "dial: %v", err)
			return
		}
		l.sock = cl.mc
		l.lastStart, l.lastEnd = l.begin, time.Now()
		rr := r.Fork()
		sends := rr.Range(0, 4)
		l.never = sends == 0
		onlyBeats := rr.P(60)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < sends; k++ {
				time.Sleep(time.Duration(rr.Range(100, 900)) * time.Millisecond)
				raw := encHeartbeat()
				kind := "h"
				if !onlyBeats {
					switch rr.N(4) {
					case 0:
						raw, kind = encSignal([]byte("s"), 0, nil), "s"
					case 1:
						raw, kind = encRequest(idOf(uint64(k+1)), []byte("r"), 0, nil), "r"
					case 2:
						raw, kind = encReply(idOf(uint64(k+1)), 0, []byte("x")), "i"
					}
				}
				t0 := time.Now()
				if err := mcSend(l.sock, raw); err != nil {
					break
				}
				l.lastStart, l.lastEnd = t0, time.Now()
				l.kinds += kind
				l.sent++
			}
			for {
				now := time.Now()
				if !l.sock.IsConnected() {
					l.closedSeen = now
					return
				}
				if now.Sub(l.lastEnd) > T+grace {
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	for _, l := range lives {
		switch {
		case l.closedSeen.IsZero():
			ctx.Violate("not-closed", nil, "a connection is open %v after its last message (%s), the timeout is %v", T+grace, l.kinds, T)
		case l.closedSeen.Sub(l.lastStart) < T-5*time.Millisecond:
			ctx.Violate("closed-early", nil, "a connection was closed %v after its last message (%s), the timeout is %v", l.closedSeen.Sub(l.lastStart), l.kinds, T)
		default:
			ctx.Max("max_ms_after_timeout", int64((l.closedSeen.Sub(l.lastEnd)-T)/time.Millisecond))
		}
		ctx.Eval(fmt.Sprintf("clock messages=%s", l.kinds))
	}
	for i := 0; i < 5000 && atomic.LoadInt64(&disc) < int64(n); i++ {
		time.Sleep(time.Millisecond)
	}
	if k := atomic.LoadInt64(&disc); k != int64(n) {
		ctx.Violate("disconnect-hook", nil, "the disconnected hook ran %d times for %d connections that timed out", k, n)
	}
	e.Shutdown()
}
