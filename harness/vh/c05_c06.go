package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	wwr "github.com/qbeon/webwire-go"
)

/* C05 graceful server shutdown, C06 graceful closing of a connection */

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
}

// graceMsg is a message sent before, while or after the closing began
type graceMsg struct {
	cl    *Client
	idx   int // position in the client's sequence
	token uint64
	isReq bool
	id    [8]byte
	kind  string
	late  bool // sent after the closing had begun
	must  bool // reached the server while it was waiting
	early bool // its handler had been started before the closing began
}

func (m *graceMsg) String() string {
	return fmt.Sprintf("conn %d message %d (%s, token %d, id %x, sent after the beginning: %v)", m.cl.id, m.idx, m.kind, m.token, m.id, m.late)
}

type grace struct {
	env  *Env
	g    *gated
	r    *Rng
	msgs []*graceMsg
	next uint64
	mu   sync.Mutex
}

func (x *grace) send(cl *Client, r *Rng, gate, late bool) *graceMsg {
	t := atomic.AddUint64(&x.next, 1)
	m := &graceMsg{cl: cl, token: t, late: late}
	if gate {
		x.g.gate(t)
	}
	k := r.N(10)
	if gate && k >= 8 {
		k = 3
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	m.idx = cl.NumSent()
	switch {
	case k < 3:
		m.kind = "signal"
		cl.Send(encSignal(r.Name(r.N(4)), 0, tokenBytes(t)))
	case k < 8:
		m.kind, m.isReq = "request", true
		m.id = cl.NewID()
		cl.Send(encRequest(m.id, r.Name(r.N(4)), 0, tokenBytes(t)))
	case k == 8:
		m.kind, m.isReq = "restore", true
		m.id = cl.NewID()
		cl.Send(encRestore(m.id, fmt.Sprintf("unknown-%d", t)))
	default:
		m.kind, m.isReq = "close session", true
		m.id = cl.NewID()
		cl.Send(encCloseSession(m.id))
	}
	x.msgs = append(x.msgs, m)
	return m
}

func (x *grace) list() []*graceMsg {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*graceMsg(nil), x.msgs...)
}

func (x *grace) entries() map[uint64]int {
	x.g.mu.Lock()
	defer x.g.mu.Unlock()
	n := map[uint64]int{}
	for _, t := range x.g.entered {
		n[t]++
	}
	return n
}

func (x *grace) enterSeq(t uint64) int64 {
	x.g.mu.Lock()
	defer x.g.mu.Unlock()
	if r := x.g.run[t]; r != nil {
		return r.enterSeq
	}
	return 0
}

func (x *grace) exitSeq(t uint64) int64 {
	x.g.mu.Lock()
	defer x.g.mu.Unlock()
	if r := x.g.run[t]; r != nil {
		return r.exitSeq
	}
	return 0
}

// markReached marks the messages that have reached the server by now
func (x *grace) markReached() {
	for _, m := range x.list() {
		if m.cl.Reached(m.idx) {
			m.must = true
		}
	}
}

// judgeReplies checks the replies of all messages, judge selects connections
// whose replies can be received
func (x *grace) judgeReplies(what string, judge func(cl *Client) bool, racing bool) bool {
	ent := x.entries()
	ids := map[*Client]map[[8]byte]bool{}
	for _, m := range x.list() {
		if ids[m.cl] == nil {
			ids[m.cl] = map[[8]byte]bool{}
		}
		if m.isReq {
			ids[m.cl][m.id] = true
		}
	}
	for cl := range ids {
		if s := cl.Stray(func(id [8]byte) bool { return ids[cl][id] }, x.env.Opts.Sessions); s != "" {
			ctx.Violate("stray-message", x.env.Log.Dump(), "%s: conn %d received %s", what, cl.id, s)
			return false
		}
	}
	for _, m := range x.list() {
		handled := ent[m.token]
		if handled > 1 {
			ctx.Violate("handled-twice", x.env.Log.Dump(), "handled %d times: %v", handled, m)
			return false
		}
		if m.late && handled > 0 && !racing {
			ctx.Violate("handler-after-beginning", x.env.Log.Dump(), "%s: the handler of a message was started although it was sent after the beginning: %v", what, m)
			return false
		}
		if !m.isReq || !judge(m.cl) {
			continue
		}
		rs := m.cl.ReplyTo(m.id)
		ctx.Eval(fmt.Sprintf("%s/%s/%v/%v/%v/%d/%d", what, m.kind, m.late, m.must, racing, handled, len(rs)))
		if len(rs) > 1 {
			ctx.Violate("answered-twice", x.env.Log.Dump(), "%s: answered %d times: %v", what, len(rs), m)
			return false
		}
		if len(rs) == 0 {
			if handled > 0 {
				ctx.Violate("handled-unanswered", witnessWithStacks(x.env.Log), "%s: the handler ran but its reply is missing: %v", what, m)
				return false
			}
			if m.must {
				ctx.Violate("unanswered", witnessWithStacks(x.env.Log), "%s: a request that had reached the server while it was waiting for handlers was never answered: %v", what, m)
				return false
			}
			continue
		}
		ref := rs[0].Ref
		switch {
		case handled > 0:
			if ref.Type != tReplyBin || string(ref.Payload) != string(tokenBytes(m.token)) {
				ctx.Violate("wrong-reply", x.env.Log.Dump(), "%s: handled but answered by %v: %v", what, ref, m)
				return false
			}
		case m.late && !racing, m.kind == "request":
			if ref.Type != tReplyShutdown || len(rs[0].Raw) != 9 {
				ctx.Violate("wrong-refusal", x.env.Log.Dump(), "%s: refused request answered by %v instead of a shutdown reply: %v", what, ref, m)
				return false
			}
		}
	}
	return true
}

var gracePlaces = []string{
	"register.active", "register.slot", "register.counted", "deregister.ops",
	"deregister.task", "shutdown.waiting", "connection.idle", "unlink.deregistered", "connection.closed",
}

func newGrace(r *Rng, memch bool) (*grace, []*Client, []int) {
	log := &EventLog{}
	g := newGated(log)
	x := &grace{g: g, r: r}
	x.env = NewEnv(EnvOpts{Memchan: memch, Fragment: r.P(40), Impl: g.impl(), Sessions: r.P(60), SM: NewMemSM(), Log: log})
	n := r.Range(1, 3)
	var cls []*Client
	var limits []int
	for k := 0; k < n; k++ {
		l := r.Pick(-1, -1, 0, 1, 2, 3, 5)
		cl := x.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: l})
		if cl == nil {
			return nil, nil, nil
		}
		cls = append(cls, cl)
		limits = append(limits, l)
	}
	return x, cls, limits
}

func checkC05(c *Ctx) {
	c.Cases("shutdown", c.Scale(3500, 100000), c05Case)
	c.Cases("crowd", c.Scale(24, 1500), crowdShutdown)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C05", r) })
}

func c05Case(i int, r *Rng) {
	if r.P(50) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	memch := r.P(50)
	x, cls, limits := newGrace(r, memch)
	if x == nil {
		return
	}
	env, g := x.env, x.g
	defer g.openAll()
	mode := []string{"settled", "racing", "forced", "settled", "racing"}[r.N(5)]
	racing := mode != "settled"
	// handlers that run when the shutdown begins and messages behind them
	for k := r.Pick(0, 1, 3, 8, 12); k > 0; k-- {
		x.send(cls[r.N(len(cls))], r, r.P(80), false)
	}
	if mode != "racing" || r.P(50) {
		if !Settle() {
			return
		}
	}
	var gate *Gate
	place := ""
	if mode == "forced" {
		place = gracePlaces[r.N(len(gracePlaces))]
		gate = SetGate(place, 1)
		defer gate.Release()
		for k := r.Range(1, 3); k > 0; k-- {
			x.send(cls[r.N(len(cls))], r, r.P(50), false)
		}
		if !Settle() {
			return
		}
	}
	ent0 := x.entries()
	callers := r.Range(1, 3)
	returned := make([]int64, callers)
	errs := make([]error, callers)
	start := func(k int) {
		go func() {
			env.Log.Add("Shutdown %d called", k)
			errs[k] = env.Srv.Shutdown()
			atomic.StoreInt64(&returned[k], env.Log.Add("Shutdown %d returned", k))
		}()
	}
	numReturned := func() int {
		n := 0
		for k := range returned {
			if atomic.LoadInt64(&returned[k]) != 0 {
				n++
			}
		}
		return n
	}
	if racing && mode == "racing" {
		for k := r.Range(1, 10); k > 0; k-- {
			x.send(cls[r.N(len(cls))], r, r.P(40), false)
		}
		sr := r.Fork()
		n := sr.Range(0, 12)
		go func() {
			for k := 0; k < n; k++ {
				x.send(cls[sr.N(len(cls))], sr, sr.P(30), false)
				doPause(sr.N(6))
			}
		}()
		doPause(r.N(9))
	}
	for k := 0; k < callers; k++ {
		start(k)
		if racing {
			doPause(r.N(4))
		}
	}
	if !Settle() {
		return
	}
	// the handlers of the workload are running (or their messages wait for a
	// gate of the harness)
	check := func(what string) bool {
		run := len(g.running(-1))
		if run > 0 && numReturned() > 0 {
			ctx.Violate("returned-early", witnessWithStacks(env.Log), "%s: Shutdown returned although %d handlers are running", what, run)
			return false
		}
		if !racing {
			for t := range x.entries() {
				if ent0[t] == 0 {
					ctx.Violate("handler-after-beginning", env.Log.Dump(), "%s: handler of %d started after the shutdown had begun", what, t)
					return false
				}
			}
		}
		if run > 0 {
			x.markReached()
		}
		return true
	}
	if !check("after the beginning") {
		return
	}
	if mode == "forced" {
		gate.Release()
		if !Settle() || !check("after the delayed operation") {
			return
		}
	}
	waiting := len(g.running(-1)) > 0
	if waiting {
		// new connections are refused
		if memch {
			if _, err := env.Dial(wwr.ConnectionOptions{}); err == nil {
				ctx.Violate("dial-accepted", env.Log.Dump(), "a new connection was accepted while the server is shutting down")
				return
			}
		} else if !env.Ft.isShut() {
			ctx.Violate("dial-accepted", env.Log.Dump(), "the transport isn't told that the server is shutting down")
			return
		}
		for k := r.Range(1, 8); k > 0; k-- {
			x.send(cls[r.N(len(cls))], r, false, true)
		}
		if r.P(30) {
			callers++
			returned = append(returned, 0)
			errs = append(errs, nil)
			start(callers - 1)
		}
	}
	lateStage := func(what string) bool {
		if !Settle() || !check(what) {
			return false
		}
		ent := x.entries()
		// requests that have reached the server are refused at once unless
		// they wait for a handler slot
		for _, m := range x.list() {
			if !m.late || !m.must {
				continue
			}
			if ent[m.token] > 0 {
				ctx.Violate("handler-after-beginning", env.Log.Dump(), "%s: handler started for a message sent after the shutdown had begun: %v", what, m)
				return false
			}
			l := 0
			for k, cl := range cls {
				if cl == m.cl {
					l = limits[k]
				}
			}
			if m.isReq && (l < 0 || len(g.running(m.cl.id)) < l) && len(m.cl.ReplyTo(m.id)) == 0 {
				ctx.Violate("unanswered", witnessWithStacks(env.Log), "%s: a request that reached the server while it waits for handlers isn't answered: %v", what, m)
				return false
			}
		}
		return true
	}
	if waiting && !lateStage("late messages") {
		return
	}
	for {
		run := g.running(-1)
		if len(run) == 0 {
			break
		}
		if racing && r.P(30) {
			g.openAll()
		} else {
			g.release(run[r.N(len(run))])
		}
		if len(run) > 1 && r.P(70) {
			if !lateStage("after release") {
				return
			}
		} else if !Settle() {
			return
		}
	}
	if !Await(env.Log, "return of Shutdown after all handlers returned", func() bool { return numReturned() == callers }) {
		return
	}
	if !Await(env.Log, "return of Run after Shutdown", func() bool { return atomic.LoadInt32(&env.runDone) == 1 }) {
		return
	}
	if !Settle() {
		return
	}
	for k, err := range errs {
		if err != nil && k == 0 && callers == 1 {
			ctx.Violate("error", env.Log.Dump(), "Shutdown returned %v", err)
			return
		}
	}
	if !x.judgeReplies("shutdown/"+mode+place, func(*Client) bool { return true }, racing) {
		return
	}
	first := returned[0]
	for _, s := range returned {
		if s < first {
			first = s
		}
	}
	for _, m := range x.list() {
		if s := x.enterSeq(m.token); s > first {
			ctx.Violate("handler-after-return", env.Log.Dump(), "a handler started after Shutdown had returned: %v", m)
			return
		}
		if s := x.exitSeq(m.token); s > first {
			ctx.Violate("returned-early", env.Log.Dump(), "a handler returned after Shutdown had returned: %v", m)
			return
		}
		if m.isReq && !memch && x.enterSeq(m.token) != 0 {
			if rs := m.cl.ReplyTo(m.id); len(rs) == 1 && rs[0].Seq > first {
				ctx.Violate("returned-early", env.Log.Dump(), "a reply was written after Shutdown had returned: %v", m)
				return
			}
		}
	}
	// calling it again returns
	again := Go(func() { env.Srv.Shutdown() })
	if !Await(env.Log, "return of another Shutdown", again) {
		return
	}
	ctx.Count("mode_"+mode, 1)
	if waiting {
		ctx.Count("waiting_shutdowns", 1)
		ctx.Sample("memchan=%v limits=%v mode=%s %s: %d messages, %d handlers ran, %d callers", memch, limits, mode, place, len(x.msgs), len(x.entries()), callers)
	}
}

func checkC06(c *Ctx) {
	c.Cases("close", c.Scale(3500, 100000), c06Case)
	c.Cases("crowd", c.Scale(48, 1500), crowdClose)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C06", r) })
}

func c06Case(i int, r *Rng) {
	if r.P(50) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	memch := r.P(50)
	x, cls, limits := newGrace(r, memch)
	if x == nil {
		return
	}
	env, g := x.env, x.g
	defer g.openAll()
	a := cls[0]
	// sessions
	keys := map[int]string{}
	if env.Opts.Sessions {
		for _, cl := range cls {
			if r.P(70) {
				var err error
				if !Await(env.Log, "return of CreateSession", Go(func() { err = cl.Conn().CreateSession(nil) })) {
					return
				}
				if err != nil {
					ctx.Violate("create", env.Log.Dump(), "CreateSession failed: %v", err)
					return
				}
				keys[cl.id] = cl.Conn().SessionKey()
			}
		}
		if !Settle() {
			return
		}
	}
	mode := []string{"settled", "racing", "forced", "settled", "disconnect"}[r.N(5)]
	racing := mode != "settled"
	inHandler := uint64(0)
	for k := r.Pick(0, 1, 3, 8, 12); k > 0; k-- {
		cl := a
		if r.P(25) {
			cl = cls[r.N(len(cls))]
		}
		m := x.send(cl, r, r.P(80), false)
		if cl == a && r.P(20) && (m.kind == "signal" || m.kind == "request") && inHandler == 0 && mode == "racing" {
			inHandler = m.token
		}
	}
	if inHandler != 0 {
		g.mu.Lock()
		g.onExit = func(c wwr.Connection, t uint64) {
			if t == inHandler {
				env.Log.Add("conn 0: Close called in a handler")
				c.Close()
			}
		}
		g.mu.Unlock()
	}
	if mode != "racing" || r.P(50) {
		if !Settle() {
			return
		}
	}
	var gate *Gate
	place := ""
	if mode == "forced" {
		place = gracePlaces[r.N(len(gracePlaces))]
		gate = SetGate(place, 1)
		defer gate.Release()
		for k := r.Range(1, 3); k > 0; k-- {
			x.send(a, r, r.P(50), false)
		}
		if !Settle() {
			return
		}
	}
	ent0 := x.entries()
	callers := r.Range(1, 3)
	var done int32
	if mode == "racing" {
		for k := r.Range(1, 10); k > 0; k-- {
			x.send(cls[r.N(len(cls))], r, r.P(40), false)
		}
		doPause(r.N(9))
	}
	if mode == "disconnect" && r.P(50) {
		a.Disconnect(r.P(50))
		doPause(r.N(4))
	}
	for k := 0; k < callers; k++ {
		go func() {
			env.Log.Add("conn 0: Close called")
			a.Conn().Close()
			atomic.AddInt32(&done, 1)
		}()
		if racing {
			doPause(r.N(4))
		}
	}
	if mode == "disconnect" {
		doPause(r.N(4))
		a.Disconnect(r.P(50))
	}
	if !Settle() {
		return
	}
	check := func(what string) bool {
		run := len(g.running(a.id))
		if a.Conn().IsActive() {
			ctx.Violate("still-active", env.Log.Dump(), "%s: IsActive is true after Close", what)
			return false
		}
		if run > 0 && mode != "disconnect" && a.ServerClosed() {
			ctx.Violate("closed-early", witnessWithStacks(env.Log), "%s: the socket was closed although %d handlers are running", what, run)
			return false
		}
		if run > 0 && !memch {
			a.ft.mu.Lock()
			cs := a.ft.closeSeq
			a.ft.mu.Unlock()
			if cs != 0 {
				ctx.Violate("closed-early", witnessWithStacks(env.Log), "%s: the socket was closed although %d handlers are running", what, run)
				return false
			}
		}
		if !racing {
			for _, m := range x.list() {
				if m.cl == a && x.entries()[m.token] != 0 && ent0[m.token] == 0 {
					ctx.Violate("handler-after-beginning", env.Log.Dump(), "%s: a handler started after the connection was closed: %v", what, m)
					return false
				}
			}
		}
		if run > 0 {
			for _, m := range x.list() {
				if m.cl == a && a.Reached(m.idx) {
					m.must = true
				}
			}
		}
		return true
	}
	if !check("after the beginning") {
		return
	}
	if mode == "forced" {
		gate.Release()
		if !Settle() || !check("after the delayed operation") {
			return
		}
	}
	waiting := len(g.running(a.id)) > 0
	if waiting && mode != "disconnect" {
		for k := r.Range(1, 8); k > 0; k-- {
			x.send(a, r, false, true)
		}
	}
	stage := func(what string) bool {
		if !Settle() || !check(what) {
			return false
		}
		ent := x.entries()
		for _, m := range x.list() {
			if !m.late || !m.must || m.cl != a {
				continue
			}
			if ent[m.token] > 0 {
				ctx.Violate("handler-after-beginning", env.Log.Dump(), "%s: handler started for a message sent after Close: %v", what, m)
				return false
			}
			if m.isReq && (limits[0] < 0 || len(g.running(a.id)) < limits[0]) && len(a.ReplyTo(m.id)) == 0 {
				ctx.Violate("unanswered", witnessWithStacks(env.Log), "%s: a request arriving while the closed connection waits for handlers isn't answered: %v", what, m)
				return false
			}
		}
		return true
	}
	if waiting && !stage("late messages") {
		return
	}
	for {
		run := g.running(a.id)
		if len(run) == 0 {
			break
		}
		if r.P(20) {
			// messages on other connections, too
			x.send(cls[r.N(len(cls))], r, false, r.P(100) && false)
		}
		g.release(run[r.N(len(run))])
		if len(run) > 1 && r.P(70) {
			if !stage("after release") {
				return
			}
		} else if !Settle() {
			return
		}
	}
	if !Settle() {
		return
	}
	if int(atomic.LoadInt32(&done)) != callers {
		ctx.Violate("close-blocked", witnessWithStacks(env.Log), "%d of %d calls of Close returned", done, callers)
		return
	}
	closed := a.ServerClosed()
	if !memch {
		a.ft.mu.Lock()
		closed = a.ft.closeSeq != 0
		a.ft.mu.Unlock()
	}
	if !closed {
		ctx.Violate("never-closed", witnessWithStacks(env.Log), "%s: the socket wasn't closed although all handlers have returned", mode)
		return
	}
	con := a.Conn()
	if con.HasSession() || con.SessionKey() != "" || con.Session() != nil {
		ctx.Violate("session-left", env.Log.Dump(), "the closed connection still has the session %q", con.SessionKey())
		return
	}
	for id, k := range keys {
		if k == "" {
			continue
		}
		for _, cc := range env.Srv.SessionConnections(k) {
			if cc == con {
				ctx.Violate("session-left", env.Log.Dump(), "the closed connection is still listed for session %q of connection %d", k, id)
				return
			}
		}
	}
	if k := keys[a.id]; k != "" && len(x.sessionMsgs(a)) == 0 {
		if _, _, cl := env.Opts.SM.(*MemSM).Calls(k); cl != 0 {
			ctx.Violate("session-destroyed", env.Log.Dump(), "closing the connection destroyed its session")
			return
		}
	}
	if !x.judgeReplies("close/"+mode+place, func(cl *Client) bool { return cl == a && mode != "disconnect" }, true) {
		return
	}
	if !memch {
		a.ft.mu.Lock()
		cs := a.ft.closeSeq
		a.ft.mu.Unlock()
		for _, m := range x.list() {
			if m.cl != a {
				continue
			}
			if s := x.exitSeq(m.token); s > cs {
				ctx.Violate("closed-early", env.Log.Dump(), "the socket was closed before a handler had returned: %v", m)
				return
			}
			if x.enterSeq(m.token) > cs {
				ctx.Violate("handler-after-close", env.Log.Dump(), "a handler was started after the socket was closed: %v", m)
				return
			}
		}
	}
	// closing again changes nothing
	if !Await(env.Log, "return of another Close", Go(func() { con.Close() })) {
		return
	}
	// the other connections are untouched
	if !x.othersServed(cls[1:], keys) {
		return
	}
	ctx.Count("mode_"+mode, 1)
	if waiting {
		ctx.Count("waiting_closures", 1)
		ctx.Sample("memchan=%v limits=%v mode=%s %s: %d messages, %d handlers ran, %d callers", memch, limits, mode, place, len(x.msgs), len(x.entries()), callers)
	}
	g.openAll()
	env.Shutdown()
}

// sessionMsgs returns the session closing requests of a connection
func (x *grace) sessionMsgs(cl *Client) (out []*graceMsg) {
	for _, m := range x.list() {
		if m.cl == cl && m.kind == "close session" {
			out = append(out, m)
		}
	}
	return
}

// othersServed checks that connections are alive, have their sessions and that
// everything they sent is handled
func (x *grace) othersServed(cls []*Client, keys map[int]string) bool {
	for _, cl := range cls {
		if cl.ServerClosed() || !cl.Conn().IsActive() {
			ctx.Violate("other-closed", x.env.Log.Dump(), "connection %d was closed, too", cl.id)
			return false
		}
		if k := keys[cl.id]; k != "" && len(x.sessionMsgs(cl)) == 0 {
			l := x.env.Srv.SessionConnections(k)
			if cl.Conn().SessionKey() != k || len(l) != 1 || l[0] != cl.Conn() {
				ctx.Violate("other-session", x.env.Log.Dump(), "connection %d lost its session", cl.id)
				return false
			}
		}
	}
	x.g.openAll()
	for _, cl := range cls {
		m := x.send(cl, NewRng(1, uint64(cl.id)), false, false)
		id := cl.Request([]byte("probe"), 0, tokenBytes(1<<40+uint64(cl.id)))
		if cl.AwaitReply(id) == nil {
			return false
		}
		_ = m
	}
	if !Settle() {
		return false
	}
	ent := x.entries()
	for _, m := range x.list() {
		for _, cl := range cls {
			if m.cl != cl {
				continue
			}
			if (m.kind == "signal" || m.kind == "request") && ent[m.token] != 1 {
				ctx.Violate("other-unhandled", witnessWithStacks(x.env.Log), "a message of another connection was handled %d times: %v", ent[m.token], m)
				return false
			}
			if m.isReq && len(cl.ReplyTo(m.id)) != 1 {
				ctx.Violate("other-unanswered", witnessWithStacks(x.env.Log), "a request of another connection was answered %d times: %v", len(cl.ReplyTo(m.id)), m)
				return false
			}
		}
	}
	return true
}
