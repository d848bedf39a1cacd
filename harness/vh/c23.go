package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C23: what's left of finished connections: finalizers of tokens that are only
   reachable through a connection, a census of the goroutines of the library,
   and the growth of the heap over many consecutive connections */

func init() { checks["C23"] = checkC23 }

func checkC23(c *Ctx) {
	c.Cases("tokens", c.Scale(160, 1600), func(i int, r *Rng) { c23Tokens(i, r) })
	c.Cases("growth", c.Scale(32, 64), func(i int, r *Rng) { c23Growth(i, r) })
	c.Cases("shutdown", c.Scale(160, 2400), func(i int, r *Rng) { c23Shutdown(r) })
}

// token counts itself down when it's collected
type token struct {
	self *token
	n    [4]uint64
}

type tokens struct{ alive int64 }

//go:noinline
func (t *tokens) make() *token {
	k := &token{}
	atomic.AddInt64(&t.alive, 1)
	runtime.SetFinalizer(k, func(*token) { atomic.AddInt64(&t.alive, -1) })
	return k
}

// tokenInfo is session info that holds a token
type tokenInfo struct{ t *token }

func (i *tokenInfo) Fields() []string      { return []string{"a"} }
func (i *tokenInfo) Copy() wwr.SessionInfo { return &tokenInfo{i.t} }
func (i *tokenInfo) Value(name string) interface{} {
	if name == "a" {
		return "b"
	}
	return nil
}

// leanSM is a storage that keeps no trace of closed sessions
type leanSM struct {
	mu sync.Mutex
	m  map[string]time.Time
}

func (s *leanSM) OnSessionCreated(c wwr.Connection) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if k := c.SessionKey(); k != "" {
		s.m[k] = time.Now()
	}
	return nil
}

func (s *leanSM) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case strings.HasPrefix(key, "fail"):
		return nil, errNoSession
	case strings.HasPrefix(key, "huge"):
		return wwr.NewSessionLookupResult(time.Unix(1, 0), time.Unix(1, 0), map[string]interface{}{"x": strings.Repeat("y", 20000)}), nil
	case strings.HasPrefix(key, "bad"):
		return wwr.NewSessionLookupResult(time.Unix(1, 0), time.Unix(1, 0), map[string]interface{}{"x": make(chan int)}), nil
	}
	if t, ok := s.m[key]; ok {
		return wwr.NewSessionLookupResult(t, t, map[string]interface{}{"a": "b"}), nil
	}
	return nil, nil
}

func (s *leanSM) OnSessionClosed(key string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, key)
	return nil
}

type c23World struct {
	e    *Env
	sm   *leanSM
	toks *tokens
	ft   bool

	mu   sync.Mutex
	gate chan struct{}
}

var errC23 = fmt.Errorf("not a request error")

func newC23(ft bool, M uint) *c23World {
	w := &c23World{sm: &leanSM{m: map[string]time.Time{}}, ft: ft, toks: &tokens{}, gate: make(chan struct{})}
	im := &Impl{
		Signal: func(c wwr.Connection, m wwr.Message) { w.act(c, m) },
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			return w.act(c, m)
		},
	}
	w.e = NewEnv(EnvOpts{Memchan: !ft, Sessions: true, SM: w.sm, MaxConns: M, LogOff: true, Impl: im, BufSize: 1024})
	return w
}

// act is the handler of all messages
func (w *c23World) act(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	switch string(m.Name()) {
	case "block":
		w.mu.Lock()
		g := w.gate
		w.mu.Unlock()
		<-g
	case "close":
		c.Close()
	case "error":
		return wwr.Payload{}, wwr.ErrRequest{Code: "C", Message: "m"}
	case "internal":
		return wwr.Payload{}, errC23
	case "bad-code":
		return wwr.Payload{}, wwr.ErrRequest{Code: strings.Repeat("x", 300)}
	case "huge":
		return wwr.Payload{Data: make([]byte, 5000)}, nil
	case "odd":
		return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("abc")}, nil
	case "create":
		c.CreateSession(&tokenInfo{w.toks.make()})
	case "close-session":
		c.CloseSession()
	case "signal":
		c.Signal([]byte("s"), wwr.Payload{Data: []byte("x")})
	}
	return wwr.Payload{Data: []byte("ok")}, nil
}

const c23Kinds = 16

var c23Names = [c23Kinds]string{
	"disconnect", "abnormal", "malformed", "server-close", "handler-close", "session",
	"restored", "handshake-failed", "refused", "blocked-handlers", "request-errors",
	"pending-messages", "failing-writers", "failing-close", "close-while-blocked", "failing-sessions",
}

// life is the life of one connection (or a few that share a session) up to its
// end, returns false if something went wrong
//
//go:noinline
func (w *c23World) life(kind int, r *Rng) bool {
	e := w.e
	if (kind == 7 || kind == 12 || kind == 13) && !w.ft {
		kind = r.Pick(0, 5, 9)
	}
	opts := wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 3), Info: map[int]interface{}{1: w.toks.make()}}
	if kind == 11 {
		opts.ConcurrencyLimit = r.Pick(1, 2, 3)
	}
	if w.ft {
		op := []string{"get", "write", "flush"}[r.N(3)]
		e.Ft.onDial = func(s *ftSocket) {
			s.tag = w.toks.make()
			if kind == 7 {
				s.faults = func(o string, n int) error {
					if o == op && n == 1 {
						return errInjected
					}
					return nil
				}
			}
		}
	}
	switch kind {
	case 7:
		cl, err := e.Dial(opts)
		if err != nil {
			ctx.Violate("dial-refused", nil, "a running server refused a connection: %v", err)
			return false
		}
		ok := Await(e.Log, "end of a failed handshake", func() bool { return atomic.LoadInt64(&cl.ft.served) == 1 })
		e.Forget(cl)
		return ok
	case 8:
		opts.Connection = wwr.Refuse
		cl, err := e.Dial(opts)
		if err == nil {
			ctx.Violate("not-refused", nil, "a connection was not refused")
			e.Forget(cl)
			return false
		}
		e.mu.Lock()
		delete(e.clients, e.nclients-1)
		e.mu.Unlock()
		e.nextOpts = wwr.ConnectionOptions{}
		return true
	}
	cl := e.MustDial(opts)
	if cl == nil {
		return false
	}
	e.nextOpts = wwr.ConnectionOptions{}
	all := []*Client{cl}
	call := func(c *Client, name string) bool { return c.Call([]byte(name), 0, []byte("p")) != nil }
	closed := false // by the server
	switch kind {
	case 0, 1:
		for i := r.N(4); i > 0; i-- {
			switch r.N(4) {
			case 0:
				cl.Send(encSignal([]byte("signal"), 0, nil))
			case 1:
				cl.Send(encHeartbeat())
			case 2:
				cl.Send(encReply(cl.NewID(), 0, []byte("x")))
			default:
				if !call(cl, "x") {
					return false
				}
			}
		}
	case 2:
		cl.Send([]byte{tRequestBin, 1, 2, 3})
		closed = true
	case 3:
		if r.P(50) && !call(cl, "x") {
			return false
		}
		con := cl.Conn()
		if !Await(e.Log, "return of Close", Go(func() { con.Close() })) {
			return false
		}
		closed = true
	case 4:
		if cl.Call([]byte("close"), 0, nil) == nil {
			return false
		}
		closed = true
	case 5, 6:
		if !call(cl, "create") {
			return false
		}
		key := cl.Conn().SessionKey()
		if kind == 6 {
			for i := r.Range(1, 3); i > 0; i-- {
				o2 := wwr.ConnectionOptions{Info: map[int]interface{}{1: w.toks.make()}}
				c2 := e.MustDial(o2)
				if c2 == nil {
					return false
				}
				e.nextOpts = wwr.ConnectionOptions{}
				all = append(all, c2)
				if c2.AwaitReply(sendRestore(c2, key)) == nil {
					return false
				}
			}
		}
		switch r.N(4) {
		case 0:
			if !call(cl, "close-session") {
				return false
			}
		case 1:
			id := cl.NewID()
			cl.Send(encCloseSession(id))
			if cl.AwaitReply(id) == nil {
				return false
			}
		case 2:
			if !Await(e.Log, "return of CloseSession", Go(func() { e.Srv.CloseSession(key) })) {
				return false
			}
		}
		w.sm.OnSessionClosed(key) // the storage forgets it in any case
	case 9, 14:
		w.mu.Lock()
		w.gate = make(chan struct{})
		g := w.gate
		w.mu.Unlock()
		for i := r.Range(1, 4); i > 0; i-- {
			if r.P(50) {
				cl.Request([]byte("block"), 0, nil)
			} else {
				cl.Send(encSignal([]byte("block"), 0, nil))
			}
		}
		if r.P(70) {
			Settle()
		}
		if kind == 9 {
			cl.Disconnect(r.P(50))
		} else {
			con := cl.Conn()
			if !Await(e.Log, "return of Close", Go(func() { con.Close() })) {
				return false
			}
			closed = true
			if r.P(50) {
				cl.Send(encSignal([]byte("late"), 0, nil))
			}
		}
		if r.P(70) {
			Settle()
		}
		close(g)
	case 10:
		for _, n := range []string{"error", "internal", "bad-code", "huge", "odd"} {
			if r.P(60) && !call(cl, n) {
				return false
			}
		}
	case 11:
		w.mu.Lock()
		w.gate = make(chan struct{})
		g := w.gate
		w.mu.Unlock()
		for i := r.Range(3, 8); i > 0; i-- {
			cl.Request([]byte("block"), 0, nil)
		}
		Settle()
		cl.Disconnect(r.P(50))
		Settle()
		close(g)
	case 12:
		op := []string{"get", "write", "flush"}[r.N(3)]
		cl.ft.setFaults(func(o string, n int) error {
			if o == op {
				return errInjected
			}
			return nil
		})
		for _, n := range []string{"x", "create", "signal", "error", "close-session"} {
			if r.P(60) {
				cl.Request([]byte(n), 0, []byte("p"))
			}
		}
		Settle()
	case 13:
		cl.ft.setFaults(func(o string, n int) error {
			if o == "close" {
				return errInjected
			}
			return nil
		})
		if r.P(50) && !call(cl, "x") {
			return false
		}
	case 15:
		for _, k := range []string{"unknown", "fail", "huge", "bad"} {
			if r.P(70) && cl.AwaitReply(sendRestore(cl, k)) == nil {
				return false
			}
		}
	}
	for _, c := range all {
		if !closed || c != cl {
			c.Disconnect(kind == 1)
		}
	}
	ok := true
	for _, c := range all {
		c := c
		if c.ft != nil {
			ok = ok && Await(e.Log, "end of the connection goroutine", func() bool { return atomic.LoadInt64(&c.ft.served) == 1 })
		}
		e.Forget(c)
	}
	return Settle() && ok
}

// libGoroutines counts goroutines that execute code of the library
func libGoroutines() (int, []string) {
	n := 0
	var l []string
	for i, g := range goroutines() {
		if i > 0 && strings.Contains(strings.Replace(g, "qbeon/webwire-go/vpoint", "", -1), "qbeon/webwire-go") {
			n++
			if len(g) > 1200 {
				g = g[:1200]
			}
			l = append(l, g)
		}
	}
	return n, l
}

// drop waits until the tokens are collected
func (w *c23World) drop(limit int64) int64 {
	var n int64
	for i := 0; i < 60; i++ {
		runtime.GC()
		n = atomic.LoadInt64(&w.toks.alive)
		if n == 0 || (n <= limit && i > 15) {
			break
		}
		time.Sleep(time.Duration(1+i/4) * time.Millisecond)
	}
	return n
}

func c23Tokens(n int, r *Rng) {
	base, _ := libGoroutines()
	ft := r.P(60)
	w := newC23(ft, uint(r.Pick(0, 0, 2)))
	Settle()
	idle, _ := libGoroutines()
	kind := n % c23Kinds
	lives := 16
	if r.P(40) {
		SetDelays(r.U64())
	}
	for i := 0; i < lives; i++ {
		if !w.life(kind, r) {
			SetDelays(0)
			return
		}
	}
	SetDelays(0)
	if ft {
		w.e.Ft.onDial = nil
	}
	Settle()
	what := fmt.Sprintf("after %d connections (%s)", lives, c23Names[kind])
	if k, l := libGoroutines(); k > idle {
		ctx.Violate("goroutines", l, "%s %d goroutines of the library are left, %d were there before", what, k, idle)
	}
	if k := w.e.Srv.ActiveSessionsNum(); k != 0 {
		ctx.Violate("sessions", nil, "%s %d sessions are still registered", what, k)
	}
	if left := w.drop(3); left > 3 {
		ctx.Violate("references", nil, "%s %d of their options, sockets and sessions are still referenced", what, left)
	}
	if !w.e.Shutdown() {
		return
	}
	if k, l := libGoroutines(); k > base {
		ctx.Violate("goroutines-after-shutdown", l, "%s and the shutdown %d goroutines of the library are left", what, k-base)
	}
	runtime.KeepAlive(w)
	ctx.Count("connections "+c23Names[kind], int64(lives))
	ctx.Eval(fmt.Sprintf("tokens %s ft=%v", c23Names[kind], ft))
}

func heap() (objects, bytes uint64) {
	var m runtime.MemStats
	objects, bytes = 1<<62, 1<<62
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		if m.HeapObjects < objects {
			objects = m.HeapObjects
		}
		if m.HeapAlloc < bytes {
			bytes = m.HeapAlloc
		}
	}
	return
}

// c23Growth: bounded memory over many consecutive connections
func c23Growth(n int, r *Rng) {
	kind := n % c23Kinds
	ft := n >= c23Kinds || kind == 7 || kind == 12 || kind == 13
	if n >= 2*c23Kinds {
		ft = r.P(50)
	}
	w := newC23(ft, 2)
	lives := ctx.Scale(100, 1000)
	run := func(k int) bool {
		for i := 0; i < k; i++ {
			if !w.life(kind, r) {
				return false
			}
		}
		return true
	}
	if !run(lives / 2) {
		return
	}
	grown := 0
	var desc string
	for round := 0; round < 3; round++ {
		o0, b0 := heap()
		if !run(lives) {
			return
		}
		o1, b1 := heap()
		perO := (float64(o1) - float64(o0)) / float64(lives)
		perB := (float64(b1) - float64(b0)) / float64(lives)
		ctx.Max("max_millibytes_per_connection", int64(perB*1000))
		ctx.Max("max_milliobjects_per_connection", int64(perO*1000))
		if perO > 0.7 || perB > 200 {
			grown++
			desc += fmt.Sprintf(" [%.2f objects, %.0f bytes]", perO, perB)
		} else {
			break
		}
	}
	if grown == 3 {
		ctx.Violate("growth", nil, "the heap grows with every connection (%s, fake transport %v):%s", c23Names[kind], ft, desc)
	}
	w.e.Shutdown()
	runtime.KeepAlive(w)
	ctx.Count("consecutive connections", int64(lives))
	ctx.Eval(fmt.Sprintf("growth %s ft=%v", c23Names[kind], ft))
}

// c23Shutdown: nothing is left after a shutdown with open connections
func c23Shutdown(r *Rng) {
	base, _ := libGoroutines()
	ft := r.P(50)
	w := newC23(ft, 0)
	e := w.e
	n := r.Range(1, 6)
	if r.P(60) {
		SetDelays(r.U64())
	}
	defer SetDelays(0)
	for i := 0; i < n; i++ {
		cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 3), Info: map[int]interface{}{1: w.toks.make()}})
		if cl == nil {
			return
		}
		for k := r.N(4); k > 0; k-- {
			switch r.N(6) {
			case 0:
				cl.Request([]byte("create"), 0, nil)
			case 1:
				cl.Request([]byte("block"), 0, nil)
			case 2:
				cl.Send(encSignal([]byte("block"), 0, nil))
			case 3:
				cl.Request([]byte("signal"), 0, nil)
			case 4:
				con := cl.Conn()
				go con.Close()
			default:
				cl.Request([]byte("x"), 0, nil)
			}
		}
	}
	if r.P(60) {
		Settle()
	}
	callers := r.Range(1, 3)
	var dones []func() bool
	for i := 0; i < callers; i++ {
		dones = append(dones, Go(func() { e.Srv.Shutdown() }))
	}
	if r.P(50) {
		Settle()
	}
	close(w.gate)
	for _, d := range dones {
		if !Await(e.Log, "return of Shutdown", d) {
			return
		}
	}
	if !Await(e.Log, "return of Run", func() bool { return atomic.LoadInt32(&e.runDone) == 1 }) {
		return
	}
	SetDelays(0)
	Settle()
	if k, l := libGoroutines(); k > base {
		ctx.Violate("goroutines-after-shutdown", l, "%d goroutines of the library are left after the shutdown of a server with %d connections", k-base, n)
	}
	if k := e.Srv.ActiveSessionsNum(); k != 0 {
		ctx.Violate("sessions", nil, "%d sessions are still registered after a shutdown that closed all connections", k)
	}
	e.mu.Lock()
	e.clients = nil
	e.mu.Unlock()
	e.nextOpts = wwr.ConnectionOptions{}
	w.sm.m = map[string]time.Time{}
	if left := w.drop(2); left > int64(2) {
		ctx.Violate("references", nil, "%d of the options of %d connections are still referenced after the shutdown", left, n)
	}
	runtime.KeepAlive(w)
	ctx.Eval(fmt.Sprintf("shutdown conns=%d callers=%d ft=%v", n, callers, ft))
}
