package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* Several servers of different configurations in one process have nothing to
   do with each other: neither their messages, limits and timeouts, nor their
   closures. Every oracle belongs to properties, it's silent in other checks */

type svRun struct {
	conn    *svConn
	raw     []byte // the message as it was sent
	request bool
	id      [8]byte
	name    []byte
	enc     int
	payload []byte
	gated   bool
	entered int
	exited  bool
	ch      chan struct{}
}

type svConn struct {
	cl      *Client
	srv     *svServer
	limit   int // 0: unlimited
	runs    []*svRun
	open    bool
	closing bool
}

type svServer struct {
	w       *svWorld
	num     int
	env     *Env
	size    int
	timeout time.Duration
	sub     []byte
	conns   []*svConn
	down    bool  // the shutdown was requested
	gone    bool  // the shutdown has returned
	back    int32 // the shutdown has returned indeed
}

type svWorld struct {
	p    string
	log  *EventLog
	mu   sync.Mutex
	runs map[string]*svRun // by the token in front of the payload
	ntok int
	srvs []*svServer
	bad  []string // violations noticed by handlers
}

func (w *svWorld) viol(props, kind, f string, a ...interface{}) bool {
	if !strings.Contains(props, w.p) {
		ctx.Count("skipped_violation_of_"+props, 1)
		return true
	}
	ctx.Violate("servers-"+kind, witnessWithStacks(w.log), f, a...)
	return false
}

// handle is called by the handlers of all servers
func (w *svWorld) handle(s *svServer, c wwr.Connection, m wwr.Message, request bool) (wwr.Payload, error) {
	pay := m.Payload()
	w.mu.Lock()
	var run *svRun
	if len(pay) >= 6 {
		run = w.runs[string(pay[:6])]
	}
	check := func(when string) bool {
		if run == nil || run.conn.srv != s || run.conn.cl.id != c.Info(0).(int) || run.request != request ||
			!bytes.Equal(m.Name(), run.name) || int(m.PayloadEncoding()) != run.enc || !bytes.Equal(m.Payload(), run.payload) ||
			request && m.Identifier() != run.id {
			w.bad = append(w.bad, fmt.Sprintf("server %d, conn %d: a handler %s a message its client never sent: request=%v id=%x name=%q enc=%d payload=%q",
				s.num, c.Info(0).(int), when, request, m.Identifier(), clip(m.Name()), m.PayloadEncoding(), clip(m.Payload())))
			return false
		}
		return true
	}
	if !check("was entered with") {
		w.mu.Unlock()
		return wwr.Payload{}, nil
	}
	run.entered++
	gated := run.gated
	w.mu.Unlock()
	w.log.Add("server %d conn %d: handler of %q starts", s.num, run.conn.cl.id, run.payload[:6])
	if gated {
		<-run.ch
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	check("finds, before it returns,")
	run.exited = true
	return wwr.Payload{Encoding: wwr.PayloadEncoding(run.enc), Data: append([]byte(nil), run.payload...)}, nil
}

func (w *svWorld) newServer(r *Rng) *svServer {
	s := &svServer{w: w, num: len(w.srvs)}
	s.size = r.Pick(64, 65, 100, 256, 1024, 5000, 9000)
	s.timeout = []time.Duration{10 * time.Hour, 12 * time.Hour, 25 * time.Hour, 100 * time.Hour, 600 * time.Hour}[r.N(5)]
	if r.P(70) {
		s.sub = r.Name(r.Range(1, 20))
	}
	s.env = NewEnv(EnvOpts{Memchan: r.P(40), Fragment: r.P(30), Sessions: r.P(30), SM: NewMemSM(), Log: w.log, BufSize: uint32(s.size), Timeout: s.timeout, SubProto: s.sub, Impl: &Impl{
		Signal:  func(c wwr.Connection, m wwr.Message) { w.handle(s, c, m, false) },
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) { return w.handle(s, c, m, true) },
	}})
	w.srvs = append(w.srvs, s)
	return s
}

func (w *svWorld) dial(s *svServer, r *Rng) bool {
	l := r.Pick(-1, 0, 1, 2, 3)
	cl := s.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: l})
	if cl == nil {
		return false
	}
	c := &svConn{cl: cl, srv: s, limit: l, open: true}
	if l == 0 {
		c.limit = 1
	} else if l < 0 {
		c.limit = 0
	}
	s.conns = append(s.conns, c)
	if !Settle() {
		return false
	}
	got := cl.Received()
	if len(got) == 0 || got[0].Ref == nil || got[0].Ref.Type != tAcceptConf {
		return w.viol("C17", "configuration", "server %d: a new connection received %d messages, no configuration", s.num, len(got))
	}
	ref := got[0].Ref
	if d := s.timeout - ref.Timeout; ref.BufSize != uint32(s.size) || d < 0 || d >= time.Millisecond || !bytes.Equal(ref.SubProto, s.sub) {
		return w.viol("C17", "configuration", "server %d (%d bytes, %v, %q) states %v", s.num, s.size, s.timeout, s.sub, ref)
	}
	return true
}

// running returns the started and unfinished handlers
func (c *svConn) running() (l []*svRun) {
	c.srv.w.mu.Lock()
	defer c.srv.w.mu.Unlock()
	for _, x := range c.runs {
		if x.entered > 0 && !x.exited {
			l = append(l, x)
		}
	}
	return
}

func (s *svServer) running() (l []*svRun) {
	for _, c := range s.conns {
		l = append(l, c.running()...)
	}
	return
}

// send sends a message of a size up to the limit of the server
func (w *svWorld) send(c *svConn, r *Rng) {
	run := &svRun{conn: c, request: r.P(60), ch: make(chan struct{})}
	run.gated = r.P(50) && (c.limit == 0 || len(c.running()) < c.limit)
	if run.request {
		run.id = c.cl.NewID()
	}
	run.name = r.Name(r.Pick(0, 1, 7, r.N(20)))
	run.enc = r.N(3)
	w.mu.Lock()
	w.ntok++
	tok := fmt.Sprintf("%06d", w.ntok)
	w.mu.Unlock()
	max := c.srv.size - len(encRequest(run.id, run.name, run.enc, nil))
	if !run.request {
		max = c.srv.size - len(encSignal(run.name, run.enc, nil))
	}
	n := r.Pick(6, 7, 20, max, max, r.Range(6, max))
	if n > max {
		n = max
	}
	run.payload = append([]byte(tok), r.Bytes(n-6)...)
	if run.enc == 2 && n%2 != 0 {
		run.payload = run.payload[:n-1]
	}
	if run.enc == 1 {
		for k := range run.payload[6:] {
			run.payload[6+k] = 'a' + run.payload[6+k]%26
		}
	}
	if len(run.payload) < 6 {
		return
	}
	if run.request {
		run.raw = encRequest(run.id, run.name, run.enc, run.payload)
	} else {
		run.raw = encSignal(run.name, run.enc, run.payload)
	}
	w.mu.Lock()
	w.runs[tok] = run
	w.mu.Unlock()
	c.runs = append(c.runs, run)
	c.cl.Send(run.raw)
}

// judge compares all servers with what was done
func (w *svWorld) judge(what string) bool {
	w.mu.Lock()
	bad := w.bad
	w.mu.Unlock()
	if len(bad) > 0 {
		return w.viol("C01 C02 C04 C16", "content", "%s: %s", what, bad[0])
	}
	for _, s := range w.srvs {
		for _, c := range s.conns {
			replies := map[[8]byte][]Recv{}
			other := 0
			for k, m := range c.cl.Received() {
				if m.Ref != nil && isReplyType(m.Ref.Type) {
					replies[m.Ref.ID] = append(replies[m.Ref.ID], m)
				} else if k > 0 {
					other++
				}
			}
			if other > 0 && !w.viol("C02 C16", "messages", "%s: server %d conn %d received %d unexpected messages", what, s.num, c.cl.id, other) {
				return false
			}
			n := len(c.running())
			if c.limit > 0 && n > c.limit {
				return w.viol("C03", "limit", "%s: server %d conn %d: %d handlers are running, the limit is %d", what, s.num, c.cl.id, n, c.limit)
			}
			w.mu.Lock()
			runs := append([]*svRun(nil), c.runs...)
			var state []int
			var done []bool
			for _, x := range runs {
				state = append(state, x.entered)
				done = append(done, x.exited)
			}
			w.mu.Unlock()
			ahead := 0
			for k, x := range runs {
				if state[k] != 1 && (state[k] > 1 || c.limit == 0 || ahead < c.limit) && c.open {
					return w.viol("C01 C02 C03 C16", "handled", "%s: server %d conn %d (limit %d): message %q was handled %s", what, s.num, c.cl.id, c.limit, x.payload[:6], times(state[k]))
				}
				if !done[k] {
					ahead++
				}
				want := 0
				if x.request && done[k] {
					want = 1
				}
				l := replies[x.id]
				if x.request && len(l) != want {
					return w.viol("C01 C05 C06 C16", "replies", "%s: server %d conn %d: request %x was answered %s instead of %s", what, s.num, c.cl.id, x.id, times(len(l)), times(want))
				}
				if x.request && len(l) == 1 {
					fits := len(encReply(x.id, x.enc, x.payload)) <= s.size
					ok := fits && int(l[0].Ref.Type) == tReplyBin+x.enc && bytes.Equal(l[0].Ref.Payload, x.payload) || !fits && l[0].Ref.Type == tReplyInternal
					if !ok {
						return w.viol("C01 C16", "reply", "%s: server %d (%d bytes) conn %d: request %x was answered by %v", what, s.num, s.size, c.cl.id, x.id, l[0].Ref)
					}
				}
			}
			if over := c.cl.ServerClosed(); over == (c.open || c.closing && n > 0) {
				return w.viol("C05 C06 C16", "open", "%s: server %d conn %d: closed is %v", what, s.num, c.cl.id, over)
			}
		}
		back := atomic.LoadInt32(&s.back) == 1
		if n := len(s.running()); s.down && back != (n == 0) {
			return w.viol("C05", "shutdown", "%s: the shutdown of server %d returned: %v, %d of its handlers are running, others run %d", what, s.num, back, n, w.othersRun(s))
		}
		if s.env.Ft != nil {
			for _, c := range s.conns {
				f := c.cl.ft
				f.mu.Lock()
				for k, d := range f.deadlines {
					if x := d.deadline.Sub(d.after); x < s.timeout-5*time.Minute || x > s.timeout+time.Minute {
						f.mu.Unlock()
						return w.viol("C25", "deadline", "%s: read %d of a connection of server %d ends %v later, its timeout is %v", what, k, s.num, x, s.timeout)
					}
				}
				f.mu.Unlock()
			}
		}
	}
	return true
}

func (w *svWorld) othersRun(me *svServer) (n int) {
	for _, s := range w.srvs {
		if s != me {
			n += len(s.running())
		}
	}
	return
}

func severalServers(p string, r *Rng) {
	SetDelays(0)
	if r.P(30) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	w := &svWorld{p: p, log: &EventLog{}, runs: map[string]*svRun{}}
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, x := range w.runs {
			x.release()
		}
	}()
	for k := r.Range(2, 4); k > 0; k-- {
		s := w.newServer(r)
		for n := r.Range(1, 2); n > 0; n-- {
			if !w.dial(s, r) {
				return
			}
		}
	}
	usable := func() (l []*svConn) {
		for _, s := range w.srvs {
			for _, c := range s.conns {
				if !s.down && c.open && !c.closing {
					l = append(l, c)
				}
			}
		}
		return
	}
	for steps := r.Range(10, 40); steps > 0; steps-- {
		l := usable()
		if len(l) == 0 {
			break
		}
		c := l[r.N(len(l))]
		s := c.srv
		what := ""
		switch x := r.N(100); {
		case x < 55:
			what = "message"
			for k := r.Range(1, 5); k > 0; k-- {
				c = l[r.N(len(l))]
				if len(c.running()) < c.limit || c.limit == 0 || r.P(30) {
					w.send(c, r)
				}
			}
		case x < 75:
			what = "release"
			run := c.running()
			if len(run) == 0 {
				continue
			}
			w.mu.Lock()
			run[r.N(len(run))].release()
			w.mu.Unlock()
		case x < 81:
			what = "dial"
			if len(s.conns) > 5 {
				continue
			}
			if !w.dial(s, r) {
				return
			}
		case x < 86:
			what = "oversized message"
			if len(c.running()) > 0 || c.waiting() {
				continue
			}
			if s.env.Opts.Memchan {
				what = "malformed message"
				c.cl.Send([]byte{tRequestBin, 1, 2})
			} else {
				c.cl.Send(encSignal(nil, 0, r.Bytes(s.size)))
			}
			c.open = false
		case x < 90:
			what = "disconnection"
			if len(c.running()) > 0 || c.waiting() {
				continue
			}
			c.cl.Disconnect(r.P(50))
			c.open = false
		case x < 95:
			what = "closure"
			if c.waiting() {
				continue
			}
			c.closing, c.open = true, false
			if !Await(w.log, "return of Close", Go(c.cl.Conn().Close)) {
				return
			}
		default:
			what = "shutdown"
			stop := false
			for _, c := range s.conns {
				stop = stop || c.waiting()
			}
			if stop {
				continue
			}
			s.down = true
			go func() {
				s.env.Srv.Shutdown()
				atomic.StoreInt32(&s.back, 1)
			}()
			if len(s.running()) == 0 {
				// connections are closed by the end of the shutdown
				for _, c := range s.conns {
					c.open = false
				}
			}
		}
		what = fmt.Sprintf("%s (server %d)", what, s.num)
		w.log.Add("%s", what)
		if !Settle() || !w.advance(what) {
			return
		}
		ctx.Eval(fmt.Sprintf("several servers/%s/%d/%v", strings.Fields(what)[0], len(w.srvs), s.env.Opts.Memchan))
	}
	w.mu.Lock()
	var order []string
	for t := range w.runs {
		order = append(order, t)
	}
	sort.Strings(order)
	for _, t := range order {
		w.runs[t].release()
	}
	w.mu.Unlock()
	if !Settle() || !w.advance("all handlers were released") {
		return
	}
	for _, s := range w.srvs {
		if !s.down && !s.env.Shutdown() {
			return
		}
	}
	ctx.Count("runs_of_several_servers", 1)
}

// release lets the handler return
func (x *svRun) release() {
	if x.gated {
		x.gated = false
		close(x.ch)
	}
}

// waiting tells whether messages wait for capacity
func (c *svConn) waiting() bool {
	c.srv.w.mu.Lock()
	defer c.srv.w.mu.Unlock()
	for _, x := range c.runs {
		if x.entered == 0 {
			return true
		}
	}
	return false
}

// advance judges after connections were closed that have no handlers anymore
func (w *svWorld) advance(what string) bool {
	for _, s := range w.srvs {
		if s.down && len(s.running()) == 0 {
			for _, c := range s.conns {
				c.open = false
			}
		}
	}
	return w.judge(what)
}
