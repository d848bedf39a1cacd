package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	wwr "github.com/qbeon/webwire-go"
)

/* C18: the public interface used from everywhere at once */

func init() { checks["C18"] = checkC18 }

func checkC18(c *Ctx) {
	n := len(c18Ops)
	c.Cases("pairs", c.Scale(8*n*n, 120*n*n), c18Pair)
	c.Cases("stress", c.Scale(192, 4000), c18Stress)
	c.Cases("same", c.Scale(len(c18Ops)*8, len(c18Ops)*160), c18Same)
}

// c18Op is an operation of the public interface or of a client
type c18Op struct {
	name string
	do   func(w *c18World, r *Rng, c wwr.Connection)
}

var c18Ops = []c18Op{
	{"IsActive", func(w *c18World, r *Rng, c wwr.Connection) { c.IsActive() }},
	{"facts", func(w *c18World, r *Rng, c wwr.Connection) {
		c.RemoteAddr()
		c.Creation()
		c.Info(0)
		c.Info(1)
	}},
	{"Signal", func(w *c18World, r *Rng, c wwr.Connection) {
		enc := r.N(2)
		c.Signal(r.Name(r.N(5)), wwr.Payload{Encoding: encs[enc], Data: r.Bytes(r.Range(1, 30))})
	}},
	{"CreateSession", func(w *c18World, r *Rng, c wwr.Connection) {
		c.CreateSession(infoFrom(c18Info(r)))
	}},
	{"Connection.CloseSession", func(w *c18World, r *Rng, c wwr.Connection) { c.CloseSession() }},
	{"HasSession", func(w *c18World, r *Rng, c wwr.Connection) {
		c.HasSession()
		c.SessionCreation()
	}},
	{"Session", func(w *c18World, r *Rng, c wwr.Connection) {
		s := c.Session()
		if s == nil {
			return
		}
		w.key(s.Key)
		if s.Info != nil {
			// the copy belongs to the caller
			for _, f := range s.Info.Fields() {
				c18Scribble(s.Info.Value(f))
			}
			if g, ok := s.Info.(*wwr.GenericSessionInfo); ok {
				cp := g.Copy()
				c18Scribble(wwr.SessionInfoToVarMap(cp))
			}
		}
		s.Key, s.Info = "scribbled", nil
	}},
	{"SessionKey", func(w *c18World, r *Rng, c wwr.Connection) { w.key(c.SessionKey()) }},
	{"SessionInfo", func(w *c18World, r *Rng, c wwr.Connection) {
		for _, f := range []string{"n", "m", "l", "unknown"} {
			c18Scribble(c.SessionInfo(f))
		}
	}},
	{"Connection.Close", func(w *c18World, r *Rng, c wwr.Connection) { c.Close() }},
	{"ActiveSessionsNum", func(w *c18World, r *Rng, c wwr.Connection) { w.env.Srv.ActiveSessionsNum() }},
	{"SessionConnectionsNum", func(w *c18World, r *Rng, c wwr.Connection) {
		w.env.Srv.SessionConnectionsNum(w.anyKey(r, c))
	}},
	{"SessionConnections", func(w *c18World, r *Rng, c wwr.Connection) {
		l := w.env.Srv.SessionConnections(w.anyKey(r, c))
		for _, x := range l {
			if x == nil {
				ctx.Violate("listed-nil", witnessWithStacks(w.env.Log), "the list of a session's connections contains nil")
				continue
			}
			x.SessionKey()
			x.IsActive()
		}
		for k := range l {
			l[k] = nil // the list belongs to the caller
		}
	}},
	{"Server.CloseSession", func(w *c18World, r *Rng, c wwr.Connection) {
		aff, errs, _ := w.env.Srv.CloseSession(w.anyKey(r, c))
		for _, x := range aff {
			x.HasSession()
		}
		if len(aff) != len(errs) {
			ctx.Violate("close-session", nil, "%d connections, %d errors", len(aff), len(errs))
		}
	}},
	{"Address", func(w *c18World, r *Rng, c wwr.Connection) { w.env.Srv.Address() }},
	{"Shutdown", func(w *c18World, r *Rng, c wwr.Connection) {
		atomic.StoreInt32(&w.down, 1)
		// it waits for the handlers, one of which may be the caller
		w.background(func() { w.env.Srv.Shutdown() })
	}},
	// activity of the clients
	{"client request", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			cl.Request([]byte("r"), 0, r.Bytes(r.Range(1, 20)))
		}
	}},
	{"client signal", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			cl.Send(encSignal([]byte("s"), 0, r.Bytes(r.Range(1, 20))))
		}
	}},
	{"client restoration", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			if k := w.anyKey(r, c); k != "" {
				sendRestore(cl, k)
			}
		}
	}},
	{"client session closure", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			cl.Send(encCloseSession(cl.NewID()))
		}
	}},
	{"client disconnect", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			cl.Disconnect(r.P(50))
		}
	}},
	{"client garbage", func(w *c18World, r *Rng, c wwr.Connection) {
		if cl := w.clientOf(c); cl != nil {
			cl.Send([]byte{tRequestU16, 1, 2})
		}
	}},
}

func c18Info(r *Rng) map[string]interface{} {
	return map[string]interface{}{
		"n": r.N(100),
		"m": map[string]interface{}{"a": "b", "l": []interface{}{1, 2, "x"}},
		"l": []interface{}{map[string]interface{}{"x": 1}, []interface{}{"y"}, 3},
	}
}

// c18Scribble overwrites everything reachable
func c18Scribble(v interface{}) {
	switch t := v.(type) {
	case map[string]interface{}:
		for k, e := range t {
			c18Scribble(e)
			t[k] = "scribbled"
		}
		t["added"] = 1
	case []interface{}:
		for k, e := range t {
			c18Scribble(e)
			t[k] = "scribbled"
		}
	}
}

var c18Sites = []string{"free", "request", "signal", "connected", "disconnected", "created", "lookup", "closed"}

type c18World struct {
	env     *Env
	sm      *MemSM
	mu      sync.Mutex
	keys    []string
	armed   map[string][]func(c wwr.Connection)
	chance  int // percentage of handlers and hooks calling something (stress)
	hr      *Rng
	begun   int64
	ended   int64
	down    int32
	nesting int64
	calls   sync.Map // name of running calls -> *int64
}

func (w *c18World) key(k string) {
	if k == "" {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.keys {
		if x == k {
			return
		}
	}
	w.keys = append(w.keys, k)
}

func (w *c18World) anyKey(r *Rng, c wwr.Connection) string {
	if r.P(50) {
		if k := c.SessionKey(); k != "" {
			return k
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.keys) == 0 || r.P(10) {
		return "unknown"
	}
	return w.keys[r.N(len(w.keys))]
}

func (w *c18World) clientOf(c wwr.Connection) *Client {
	id, ok := c.Info(0).(int)
	if !ok {
		return nil
	}
	if cl := w.env.client(id); cl != nil && cl.Ready() {
		return cl
	}
	return nil
}

// call runs an operation and accounts for it
func (w *c18World) call(name string, f func()) {
	p, _ := w.calls.LoadOrStore(name, new(int64))
	atomic.AddInt64(&w.begun, 1)
	atomic.AddInt64(p.(*int64), 1)
	f()
	atomic.AddInt64(p.(*int64), -1)
	atomic.AddInt64(&w.ended, 1)
}

func (w *c18World) background(f func()) {
	go w.call("background", f)
}

func (w *c18World) running() (l []string) {
	w.calls.Range(func(k, v interface{}) bool {
		if n := atomic.LoadInt64(v.(*int64)); n > 0 {
			l = append(l, fmt.Sprintf("%s (%d)", k, n))
		}
		return true
	})
	return l
}

// at is called by all handlers and hooks
func (w *c18World) at(site string, c wwr.Connection) {
	w.mu.Lock()
	var f func(c wwr.Connection)
	if l := w.armed[site]; len(l) > 0 {
		f = l[0]
		w.armed[site] = l[1:]
	}
	var r *Rng
	if f == nil && w.chance > 0 && w.hr.P(w.chance) {
		r = w.hr.Fork()
	}
	w.mu.Unlock()
	if f != nil {
		f(c)
		return
	}
	// hooks called by calls of hooks and so on come to an end
	if r == nil || atomic.AddInt64(&w.nesting, 1) > 12 {
		if r != nil {
			atomic.AddInt64(&w.nesting, -1)
		}
		return
	}
	op := c18Ops[r.N(len(c18Ops))]
	if op.name != "Shutdown" && c != nil {
		w.call(op.name+" in "+site, func() { op.do(w, r, c) })
		ctx.Count("calls_in_"+site, 1)
	}
	atomic.AddInt64(&w.nesting, -1)
}

func newC18(r *Rng, mem bool, logOff bool) *c18World {
	w := &c18World{armed: map[string][]func(c wwr.Connection){}, hr: r.Fork(), sm: NewMemSM()}
	im := &Impl{
		Connected:    func(o wwr.ConnectionOptions, c wwr.Connection) { w.at("connected", c) },
		Disconnected: func(c wwr.Connection, err error) { w.at("disconnected", c) },
		Signal:       func(c wwr.Connection, m wwr.Message) { w.at("signal", c) },
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			w.at("request", c)
			return wwr.Payload{Data: []byte("ok")}, nil
		},
	}
	w.env = NewEnv(EnvOpts{Memchan: mem, Fragment: r.P(30), Sessions: true, SM: w.sm, MaxConns: uint(r.Pick(0, 0, 2, 5)), Impl: im, LogOff: logOff})
	// the hooks of the storage don't know the connection
	some := func() wwr.Connection {
		w.env.mu.Lock()
		var l []*Client
		for i := 0; i < w.env.nclients; i++ {
			if cl := w.env.clients[i]; cl != nil {
				l = append(l, cl)
			}
		}
		w.env.mu.Unlock()
		w.mu.Lock()
		k := w.hr.N(len(l) + 1)
		w.mu.Unlock()
		for _, cl := range append(l[k%(len(l)+1):], l...) {
			if c := cl.Conn(); c != nil {
				return c
			}
		}
		return nil
	}
	w.sm.Hooks(
		func(c wwr.Connection, key string) error { w.key(key); w.at("created", c); return nil },
		func(string) error { w.at("lookup", some()); return nil },
		func(string) error { w.at("closed", some()); return nil },
	)
	return w
}

func (w *c18World) dial(r *Rng) *Client {
	return w.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 4), Info: map[int]interface{}{1: "x"}})
}

// await waits until all calls have returned
func (w *c18World) finished(what string) bool {
	if !Settle() {
		return false
	}
	if atomic.LoadInt64(&w.begun) != atomic.LoadInt64(&w.ended) {
		ctx.Violate("deadlock", witnessWithStacks(w.env.Log), "%s: nothing is running anymore, but these calls haven't returned: %v", what, w.running())
		w.env.dead = true
		return false
	}
	return true
}

// consistent compares registry and connections at rest
func (w *c18World) consistent(what string, cls []*Client) bool {
	holders := map[string]map[wwr.Connection]bool{}
	for _, cl := range cls {
		c := cl.Conn()
		if c == nil {
			continue
		}
		k := c.SessionKey()
		if k == "" {
			continue
		}
		if holders[k] == nil {
			holders[k] = map[wwr.Connection]bool{}
		}
		holders[k][c] = true
		if !c.IsActive() {
			ctx.Violate("session-of-closed", witnessWithStacks(w.env.Log), "%s: a closed connection has a session", what)
			return false
		}
	}
	if n := w.env.Srv.ActiveSessionsNum(); n != len(holders) {
		ctx.Violate("registry", witnessWithStacks(w.env.Log), "%s: %d sessions are listed, the connections have %d", what, n, len(holders))
		return false
	}
	for k, set := range holders {
		l := w.env.Srv.SessionConnections(k)
		if len(l) != len(set) || w.env.Srv.SessionConnectionsNum(k) != len(set) {
			ctx.Violate("registry", witnessWithStacks(w.env.Log), "%s: a session lists %d connections, %d have it", what, len(l), len(set))
			return false
		}
		for _, c := range l {
			if !set[c] {
				ctx.Violate("registry", witnessWithStacks(w.env.Log), "%s: a session lists a connection that hasn't got it", what)
				return false
			}
		}
	}
	return true
}

// usable checks that the server goes on
func (w *c18World) usable(r *Rng, what string) bool {
	if atomic.LoadInt32(&w.down) != 0 {
		return true
	}
	cl := w.dial(r)
	if cl == nil {
		return false
	}
	if ref := cl.Call([]byte("r"), 0, []byte("x")); ref == nil || ref.Type != tReplyBin {
		ctx.Violate("unusable", witnessWithStacks(w.env.Log), "%s: a new connection's request is answered by %v", what, ref)
		return false
	}
	return true
}

func (w *c18World) all() (l []*Client) {
	w.env.mu.Lock()
	defer w.env.mu.Unlock()
	for i := 0; i < w.env.nclients; i++ {
		if cl := w.env.clients[i]; cl != nil {
			l = append(l, cl)
		}
	}
	return l
}

var c18Places = []string{
	"closureRequest.checked", "closureRequest.deregistered", "connection.readFailed", "connection.idle", "connection.closed",
	"deregister.ops", "deregister.task", "register.active", "register.counted", "register.slot", "flush.connected", "flush.handed",
	"read.received", "close.marked", "shutdown.listed", "shutdown.waiting", "closeSession.listed", "closeSession.deregistered",
	"registry.last", "restore.checked", "restore.found", "restore.assigned", "createSession.checked", "createSession.notified",
	"createSession.registered", "unlink.deregistered",
}

// setup makes connections with shared and own sessions
func (w *c18World) setup(r *Rng, n int) []*Client {
	var cls []*Client
	for k := 0; k < n; k++ {
		cl := w.dial(r)
		if cl == nil {
			return nil
		}
		cls = append(cls, cl)
	}
	if r.P(80) {
		con := cls[0].Conn()
		if !Await(w.env.Log, "creation of a session", Go(func() { con.CreateSession(infoFrom(c18Info(r))) })) {
			return nil
		}
		w.key(con.SessionKey())
		if n > 1 && r.P(70) {
			sendRestore(cls[1], con.SessionKey())
		}
	}
	if n > 2 && r.P(50) {
		con := cls[2].Conn()
		if !Await(w.env.Log, "creation of a session", Go(func() { con.CreateSession(nil) })) {
			return nil
		}
	}
	if !Settle() {
		return nil
	}
	return cls
}

// trigger makes f run in the given place
func (w *c18World) trigger(r *Rng, site string, cls []*Client, name string, f func(c wwr.Connection)) {
	run := func(c wwr.Connection) { w.call(name, func() { f(c) }) }
	if site != "free" {
		w.mu.Lock()
		w.armed[site] = append(w.armed[site], run)
		w.mu.Unlock()
	}
	cl := cls[r.N(len(cls))]
	rr := r.Fork()
	// the main goroutine mustn't be paused
	if site == "free" {
		go run(cl.Conn())
		return
	}
	w.background(func() { w.provoke(rr, site, cls, cl) })
}

// provoke makes the server call the handler or hook
func (w *c18World) provoke(r *Rng, site string, cls []*Client, cl *Client) {
	spare := cls[len(cls)-1]
	switch site {
	case "request":
		cl.Request([]byte("r"), 0, []byte("x"))
	case "signal":
		cl.Send(encSignal([]byte("s"), 0, []byte("x")))
	case "connected":
		w.env.Dial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 2)})
	case "disconnected":
		spare.Disconnect(r.P(50))
	case "created":
		c := spare.Conn()
		w.background(func() { c.CreateSession(infoFrom(c18Info(NewRng(1)))) })
	case "lookup":
		w.mu.Lock()
		k := "unknown"
		if len(w.keys) > 0 {
			k = w.keys[0]
		}
		w.mu.Unlock()
		sendRestore(spare, k)
	case "closed":
		x := cls[r.N(len(cls))].Conn()
		w.background(func() { x.CloseSession() })
	}
}

// c18Pair: two operations, the first paused at some point, from any places
func c18Pair(i int, r *Rng) {
	n := len(c18Ops)
	A, B := c18Ops[i%n], c18Ops[i/n%n]
	mem := r.P(50)
	w := newC18(r, mem, false)
	cls := w.setup(r, r.Range(2, 4))
	if cls == nil {
		return
	}
	siteA, siteB := c18Sites[r.N(len(c18Sites))], c18Sites[r.N(len(c18Sites))]
	what := fmt.Sprintf("%s in %s with %s in %s", A.name, siteA, B.name, siteB)
	var g *Gate
	place := ""
	if r.P(75) {
		place = c18Places[r.N(len(c18Places))]
		g = SetGate(place, 1)
	} else {
		SetDelays(r.U64() | 1)
	}
	same := r.P(60)
	target := func(x *Rng, c wwr.Connection) wwr.Connection {
		if same && c != nil {
			return c
		}
		return cls[x.N(len(cls))].Conn()
	}
	ra, rb := r.Fork(), r.Fork()
	w.trigger(r, siteA, cls, A.name, func(c wwr.Connection) { A.do(w, ra, target(ra, c)) })
	if g != nil {
		Settle()
	}
	w.trigger(r, siteB, cls, B.name, func(c wwr.Connection) { B.do(w, rb, target(rb, c)) })
	if g != nil {
		Settle()
		if g.Arrived() > 0 {
			ctx.Count("paused_at:"+place, 1)
		}
		g.Release()
	}
	ok := w.finished(what)
	SetDelays(0)
	w.mu.Lock()
	w.armed = map[string][]func(c wwr.Connection){}
	w.mu.Unlock()
	if ok {
		ok = w.consistent(what, w.all()) && w.usable(r, what)
	}
	ctx.Eval(what + " " + place)
	if ok {
		w.env.Shutdown()
	}
}

// c18Same: the same operation many times on the same connection
func c18Same(i int, r *Rng) {
	op := c18Ops[i%len(c18Ops)]
	w := newC18(r, r.P(50), true)
	cls := w.setup(r, 3)
	if cls == nil {
		return
	}
	SetDelays(r.U64() | 1)
	k := r.Range(3, 12)
	con := cls[0].Conn()
	for x := 0; x < k; x++ {
		rr := r.Fork()
		go w.call(op.name, func() {
			for y := 0; y < 4; y++ {
				op.do(w, rr, con)
			}
		})
	}
	if r.P(70) {
		// with something else in between
		o2 := c18Ops[r.N(len(c18Ops))]
		rr := r.Fork()
		go w.call(o2.name, func() { o2.do(w, rr, con) })
	}
	ok := w.finished("many " + op.name)
	SetDelays(0)
	if ok && w.consistent("many "+op.name, w.all()) && w.usable(r, "many "+op.name) {
		w.env.Shutdown()
	}
	ctx.Eval(fmt.Sprintf("same %s x%d", op.name, k))
}

// c18Stress: everything at once
func c18Stress(i int, r *Rng) {
	mem := r.P(50)
	w := newC18(r, mem, true)
	n := r.Range(3, 6)
	cls := w.setup(r, n)
	if cls == nil {
		return
	}
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w.mu.Lock()
	w.chance = r.Pick(0, 20, 60)
	w.mu.Unlock()
	shut := r.P(30)
	goers := r.Range(3, 8)
	var cons []wwr.Connection
	for _, cl := range cls {
		cons = append(cons, cl.Conn())
	}
	lethal := r.P(50)
	for k := 0; k < goers; k++ {
		rr := r.Fork()
		k := k
		w.background(func() {
			for x := 0; x < 25; x++ {
				op := c18Ops[rr.N(len(c18Ops))]
				switch op.name {
				case "Shutdown":
					if !shut || k != 0 || x < 10 {
						continue
					}
				case "client disconnect", "client garbage", "Connection.Close":
					if !lethal || rr.P(60) {
						continue
					}
				}
				c := cons[rr.N(len(cons))]
				w.call(op.name, func() { op.do(w, rr, c) })
				ctx.Count("calls", 1)
			}
		})
	}
	// connections come and go meanwhile
	for k := r.N(6); k > 0; k-- {
		if cl, err := w.env.Dial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 1)}); err == nil {
			cl.Request([]byte("r"), 0, []byte("x"))
			w.mu.Lock()
			key := ""
			if len(w.keys) > 0 {
				key = w.keys[r.N(len(w.keys))]
			}
			w.mu.Unlock()
			if key != "" {
				sendRestore(cl, key)
			}
			if r.P(50) {
				cl.Disconnect(false)
			}
		}
	}
	ok := w.finished("in a storm of calls")
	SetDelays(0)
	w.mu.Lock()
	w.chance = 0
	w.mu.Unlock()
	if ok {
		ok = w.consistent("after a storm of calls", w.all()) && w.usable(r, "after a storm of calls")
	}
	ctx.Eval(fmt.Sprintf("stress memchan=%v n=%d goroutines=%d shutdown=%v lethal=%v", mem, n, goers, shut, lethal))
	if ok {
		w.env.Shutdown()
	}
}
