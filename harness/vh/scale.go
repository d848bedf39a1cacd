package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	rm "github.com/qbeon/webwire-go/requestManager"
)

/* Crowds and long histories: many handlers, messages, connections, sessions at
   once or one after another, in numbers around powers of two, where counters
   of a limited width would wrap */

func crowdSize(r *Rng) int {
	if ctx.Thorough && r.P(20) {
		return r.Pick(511, 512, 513, 1000, 1024, 2000)
	}
	return r.Pick(127, 128, 129, 130, 200, 255, 256, 257, 258, 300)
}

// crowdEnv sets up a server with gated handlers and a number of running ones
func crowdEnv(r *Rng, conns, n int) (env *Env, g *gated, cls []*Client, ids map[uint64][8]byte, ok bool) {
	log := &EventLog{}
	g = newGated(log)
	env = NewEnv(EnvOpts{Memchan: r.P(40), Fragment: r.P(20), Impl: g.impl(), Sessions: r.P(30), SM: NewMemSM(), Log: log, BufSize: 256})
	for k := 0; k < conns; k++ {
		cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, -1, n, n+1)})
		if cl == nil {
			return
		}
		cls = append(cls, cl)
	}
	ids = map[uint64][8]byte{}
	share := r.P(50)
	for t := uint64(1); t <= uint64(n); t++ {
		cl := cls[0]
		if share {
			cl = cls[r.N(conns)]
		}
		g.gate(t)
		if r.P(30) {
			cl.Send(encSignal(nil, 0, tokenBytes(t)))
		} else {
			ids[t] = cl.Request(nil, 0, tokenBytes(t))
		}
	}
	ok = Await(log, fmt.Sprintf("start of %d concurrent handlers", n), func() bool { return len(g.running(-1)) == n })
	if !ok {
		env.dead = true
	}
	return
}

// crowdReplies verifies that every request was answered once by its handler
func crowdReplies(env *Env, cls []*Client, ids map[uint64][8]byte) bool {
	by := map[[8]byte][]Recv{}
	for _, cl := range cls {
		for _, m := range cl.Received() {
			if m.Ref != nil && isReplyType(m.Ref.Type) {
				by[m.Ref.ID] = append(by[m.Ref.ID], m)
			}
		}
	}
	for t, id := range ids {
		l := by[id]
		if len(l) != 1 || l[0].Ref.Type != tReplyBin || string(l[0].Ref.Payload) != string(tokenBytes(t)) {
			ctx.Violate("crowd-replies", env.Log.Dump(), "request %d of many got %d answers %v instead of the reply of its handler", t, len(l), l)
			return false
		}
	}
	return true
}

// releaseSome releases all but k of the running handlers
func releaseSome(g *gated, r *Rng, k int) {
	run := g.running(-1)
	for len(run) > k {
		x := r.N(len(run))
		g.release(run[x])
		run = append(run[:x], run[x+1:]...)
	}
}

// crowdShutdown: a shutdown over very many running handlers
func crowdShutdown(i int, r *Rng) {
	n := crowdSize(r)
	env, g, cls, ids, ok := crowdEnv(r, r.Range(1, 3), n)
	defer g.openAll()
	if !ok {
		return
	}
	var returned int32
	callers := r.Pick(1, 1, 2, 300)
	for k := 0; k < callers; k++ {
		go func() {
			env.Srv.Shutdown()
			atomic.AddInt32(&returned, 1)
		}()
	}
	left := n
	for {
		if !Settle() {
			return
		}
		if m := atomic.LoadInt32(&returned); m != 0 {
			ctx.Violate("returned-early", witnessWithStacks(env.Log), "Shutdown returned though %d of %d handlers are running", left, n)
			return
		}
		if left == 1 {
			break
		}
		left = r.Pick(1, 2, r.Range(1, left-1), left-1)
		if left < 1 {
			left = 1
		}
		releaseSome(g, r, left)
	}
	late := cls[0].Request(nil, 0, tokenBytes(1<<40))
	if ref := cls[0].AwaitReply(late); ref == nil || ref.Type != tReplyShutdown {
		if ref != nil {
			ctx.Violate("late-request", env.Log.Dump(), "a request during the shutdown was answered by %v", ref)
		}
		return
	}
	g.openAll()
	if !Await(env.Log, fmt.Sprintf("return of Shutdown after %d handlers have returned", n), func() bool { return int(atomic.LoadInt32(&returned)) == callers }) {
		return
	}
	if !Settle() || !crowdReplies(env, cls, ids) {
		return
	}
	ctx.Max("max_concurrent_handlers", int64(n))
	ctx.Eval(fmt.Sprintf("crowd shutdown handlers=%d callers=%d", n, callers))
}

// crowdClose: the closure of a connection with very many running handlers
func crowdClose(i int, r *Rng) {
	n := crowdSize(r)
	env, g, cls, ids, ok := crowdEnv(r, r.Range(1, 3), n)
	defer g.openAll()
	if !ok {
		return
	}
	for _, cl := range cls {
		con := cl.Conn()
		if !Await(env.Log, "return of Close", Go(con.Close)) {
			return
		}
	}
	left := n
	for {
		if !Settle() {
			return
		}
		for _, cl := range cls {
			if m := len(g.running(cl.id)); m > 0 && cl.ServerClosed() {
				ctx.Violate("closed-early", witnessWithStacks(env.Log), "the socket was closed though %d handlers of the connection are running (%d when the closure was requested)", m, n)
				return
			} else if m == 0 && !cl.ServerClosed() {
				ctx.Violate("not-closed", witnessWithStacks(env.Log), "the socket was not closed though no handler of the connection is running")
				return
			}
		}
		if left == 0 {
			break
		}
		left = r.Pick(0, 1, 2, r.N(left), left-1)
		if left < 0 {
			left = 0
		}
		releaseSome(g, r, left)
	}
	if !crowdReplies(env, cls, ids) {
		return
	}
	ctx.Max("max_concurrent_handlers", int64(n))
	ctx.Eval(fmt.Sprintf("crowd close handlers=%d connections=%d", n, len(cls)))
	env.Shutdown()
}

// crowdLimit: large limits, and limits after long histories
func crowdLimit(i int, r *Rng) {
	if r.P(30) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	limit := crowdSize(r)
	wear := r.P(50)
	if wear {
		limit = r.Pick(-1, 1, 2, 3, 7)
	}
	log := &EventLog{}
	g := newGated(log)
	env := NewEnv(EnvOpts{Memchan: r.P(40), Impl: g.impl(), Sessions: r.P(60), SM: NewMemSM(), Log: log, BufSize: 256})
	defer g.openAll()
	cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
	if cl == nil {
		return
	}
	next, ids := uint64(0), map[uint64][8]byte{}
	send := func(gate bool) {
		next++
		if gate {
			g.gate(next)
		}
		if r.P(30) {
			cl.Send(encSignal(nil, 0, tokenBytes(next)))
		} else {
			ids[next] = cl.Request(nil, 0, tokenBytes(next))
		}
	}
	if wear {
		kind := r.N(3)
		for k := crowdSize(r) + 10; k > 0; k-- {
			if kind == 0 || kind == 1 && r.P(50) {
				sendNoise(cl, r)
			} else {
				send(false)
			}
		}
		if !Settle() {
			return
		}
	}
	done := int(next)
	for round := 0; round < 2; round++ {
		n := r.Range(1, 5)
		want := n
		if limit > 0 {
			n, want = limit+r.Pick(0, 1, 5), limit
		} else if limit == 0 {
			want = 1
		} else {
			n = crowdSize(r)
			want = n
		}
		for k := 0; k < n; k++ {
			send(true)
		}
		for left := n; ; {
			if !Settle() {
				return
			}
			w := want
			if left < w {
				w = left
			}
			if m := len(g.running(cl.id)); m != w {
				ctx.Violate("capacity", witnessWithStacks(log), "limit %d: %d handlers are running instead of %d with %d messages unhandled (after %d messages)", limit, m, w, left, done)
				return
			}
			if p := g.peakOf(cl.id); limit > 0 && p > limit {
				ctx.Violate("limit-exceeded", log.Dump(), "limit %d, %d handlers ran at once", limit, p)
				return
			}
			if left == 0 {
				break
			}
			k := r.Pick(1, w, w, r.Range(1, w))
			if left > 20 && k == 1 {
				k = w
			}
			left -= k
			releaseSome(g, r, w-k)
		}
		done = int(next)
	}
	if got := g.enteredOf(cl.id); limit == 1 || limit == 0 {
		for x, t := range got {
			if t != uint64(x+1) {
				ctx.Violate("order", log.Dump(), "limit %d: handler %d of %d started as number %d", limit, t, len(got), x+1)
				return
			}
		}
	}
	if !crowdReplies(env, []*Client{cl}, ids) {
		return
	}
	ctx.Max("max_messages_on_a_connection", int64(next))
	ctx.Eval(fmt.Sprintf("crowd limit=%d wear=%v messages=%d", limit, wear, next))
	env.Shutdown()
}

// longSeries: very many requests and signals on one connection
func longSeries(i int, r *Rng) {
	n := crowdSize(r) + r.Pick(0, 0, 300, 900)
	log := &EventLog{off: true}
	var calls int64
	per := make([]int32, n+1)
	outcome := func(t uint64) int { return int(t*7919) % 5 }
	impl := &Impl{
		Signal: func(c wwr.Connection, m wwr.Message) {
			atomic.AddInt32(&per[tokenOf(m)], 1)
			atomic.AddInt64(&calls, 1)
		},
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			t := tokenOf(m)
			atomic.AddInt32(&per[t], 1)
			atomic.AddInt64(&calls, 1)
			switch outcome(t) {
			case 0:
				return wwr.Payload{}, wwr.ErrRequest{Code: "CODE", Message: "m"}
			case 1:
				return wwr.Payload{}, errNoSession
			case 2:
				return wwr.Payload{Data: make([]byte, 1000)}, nil // too large
			}
			return wwr.Payload{Data: append([]byte(nil), m.Payload()...)}, nil
		},
	}
	env := NewEnv(EnvOpts{Memchan: r.P(50), Fragment: r.P(30), Impl: impl, Log: log, BufSize: 128})
	cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 8)})
	if cl == nil {
		return
	}
	ids := map[uint64][8]byte{}
	pipelined := r.P(60)
	sig := r.Pick(0, 30, 100)
	out := 0
	for t := uint64(1); t <= uint64(n); t++ {
		if r.P(sig) {
			cl.Send(encSignal([]byte("n"), 0, tokenBytes(t)))
		} else {
			ids[t] = cl.Request([]byte("n"), 0, tokenBytes(t))
			if !pipelined && r.P(20) && cl.AwaitReply(ids[t]) == nil {
				return
			}
		}
		if r.P(20) {
			if err := cl.Conn().Signal([]byte("x"), wwr.Payload{Data: []byte("y")}); err != nil {
				ctx.Violate("signal-failed", nil, "a signal of a long series failed: %v", err)
				return
			}
			out++
		}
	}
	if !Await(log, "handling of a long series of messages", func() bool { return atomic.LoadInt64(&calls) >= int64(n) }) || !Settle() {
		return
	}
	for t := 1; t <= n; t++ {
		if c := atomic.LoadInt32(&per[t]); c != 1 {
			ctx.Violate("handled-"+times(int(c)), nil, "message %d of %d was handled %d times", t, n, c)
			return
		}
	}
	by := map[[8]byte][]*Ref{}
	for _, m := range cl.Received() {
		switch {
		case m.Ref == nil:
		case isReplyType(m.Ref.Type):
			by[m.Ref.ID] = append(by[m.Ref.ID], m.Ref)
		case m.Ref.Type == tSignalBin:
			out--
		}
	}
	if out != 0 {
		ctx.Violate("signals", nil, "%d signals of a long series are missing", out)
		return
	}
	for t, id := range ids {
		l := by[id]
		want := byte(tReplyBin)
		switch outcome(t) {
		case 0:
			want = tReplyError
		case 1, 2:
			want = tReplyInternal
		}
		if len(l) != 1 || l[0].Type != want || want == tReplyBin && string(l[0].Payload) != string(tokenBytes(t)) {
			ctx.Violate("long-series-reply", nil, "request %d of %d was answered by %v", t, n, l)
			return
		}
	}
	ctx.Max("max_messages_on_a_connection", int64(n))
	ctx.Eval(fmt.Sprintf("series n=%d pipelined=%v signals=%d", n, pipelined, sig))
	env.Shutdown()
}

// crowdSessions: very many connections of one session, or sessions
func crowdSessions(p string, r *Rng) {
	n := crowdSize(r)
	w := newSworld(p, r, true, uint(r.Pick(0, n, n+1)))
	w.env.Log.off = true
	for k := 0; k < n; k++ {
		if w.dial() == nil {
			return
		}
	}
	same := r.P(60)
	var keys []string
	if same {
		keys = []string{"k"}
	} else {
		for k := 0; k < n; k++ {
			keys = append(keys, fmt.Sprintf("k%d-of-many", k))
		}
	}
	for _, k := range keys {
		w.store(k)
	}
	var ids [][8]byte
	for k, c := range w.conns {
		id := c.cl.NewID()
		ids = append(ids, id)
		c.cl.Send(encRestore(id, keys[k%len(keys)]))
	}
	for k, c := range w.conns {
		ref := c.cl.AwaitReply(ids[k])
		if ref == nil {
			return
		}
		if ref.Type != tReplyU8 {
			w.viol("C08 C09 C10", "not-restored", "restoration %d of %d of a stored session (limit %d) was answered by %v", k+1, n, w.M, ref)
			return
		}
	}
	if !Settle() || !w.mirror("after many restorations") {
		return
	}
	if same && w.M == uint(n) {
		c := w.dial()
		if c == nil {
			return
		}
		id := c.cl.NewID()
		c.cl.Send(encRestore(id, "k"))
		ref := c.cl.AwaitReply(id)
		if ref == nil {
			return
		}
		if ref.Type != tReplyMaxConns {
			w.viol("C09", "limit-exceeded", "restoration %d of a session with a limit of %d was answered by %v", n+1, n, ref)
			return
		}
	}
	if same {
		// leave some
		gone := r.Pick(0, 1, n/2, n-1)
		for _, c := range w.conns[:gone] {
			if r.P(50) {
				c.cl.Disconnect(false)
			} else {
				con := c.cl.Conn()
				con.Close()
			}
			c.open = false
		}
		if !Settle() || !w.mirror("after the end of many connections") {
			return
		}
		if _, _, cl := w.sm.Calls("k"); cl != 0 {
			w.viol("C07 C08", "destroyed", "the session was closed though only connections have ended")
			return
		}
		var aff []wwr.Connection
		var errs []error
		var gen error
		if !Await(w.env.Log, "closure of a session of many connections", Go(func() { aff, errs, gen = w.env.Srv.CloseSession("k") })) || !Settle() {
			return
		}
		if len(aff) != n-gone || len(errs) != n-gone || gen != nil {
			w.viol("C08", "affected", "closing a session of %d connections affected %d (%d errors, %v)", n-gone, len(aff), len(errs), gen)
			return
		}
		for k, c := range w.conns[:n] {
			notes := 0
			for _, m := range c.cl.Received() {
				if m.Ref != nil && m.Ref.Type == tSessClosed {
					notes++
				}
			}
			want := 1
			if k < gone {
				want = 0
			}
			if notes != want {
				w.viol("C07 C08", "notifications", "%d notifications instead of %d about the closure of a session of %d connections", notes, want, n-gone)
				return
			}
		}
		if _, _, cl := w.sm.Calls("k"); cl != 1 {
			w.viol("C07 C08", "closing-hook", "the closing hook was called %d times for a session of %d connections", cl, n-gone)
			return
		}
	} else {
		for k, c := range w.conns[:n] {
			if r.P(30) {
				con := c.cl.Conn()
				if !Await(w.env.Log, "closure of a session", Go(func() { con.CloseSession() })) {
					return
				}
				if _, _, cl := w.sm.Calls(keys[k]); cl != 1 {
					w.viol("C07 C08", "closing-hook", "the closing hook was called %d times", cl)
					return
				}
			}
		}
	}
	if !Settle() || !w.mirror("at the end with many connections") {
		return
	}
	ctx.Max("max_connections_at_once", int64(n))
	ctx.Eval(fmt.Sprintf("crowd sessions n=%d same=%v limit=%d", n, same, w.M))
	w.env.Shutdown()
}

// longSessions: very many sessions one after another on a connection
func longSessions(p string, r *Rng) {
	n := crowdSize(r)
	w := newSworld(p, r, true, uint(r.Pick(0, 1, 3)))
	w.env.Log.off = true
	c := w.dial()
	if c == nil {
		return
	}
	con := c.cl.Conn()
	created, closed := 0, 0
	mode := r.N(4)
	done := Go(func() {
		for k := 0; k < n; k++ {
			if err := con.CreateSession(nil); err != nil {
				w.viol("C07", "creation-failed", "creation %d of a series failed: %v", k+1, err)
				return
			}
			created++
			if con.CreateSession(nil) == nil {
				w.viol("C07", "second-session", "a session was created over an active one")
				return
			}
			switch mode {
			case 0:
				w.env.Srv.CloseSession(con.SessionKey())
				closed++
			case 1:
				id := c.cl.NewID()
				c.cl.Send(encCloseSession(id))
				for t := 0; con.HasSession() && t < 20000; t++ {
					time.Sleep(50 * time.Microsecond)
				}
			default:
				if err := con.CloseSession(); err != nil {
					w.viol("C07", "closure-failed", "closure %d of a series failed: %v", k+1, err)
					return
				}
				closed++
			}
		}
	})
	if !Await(w.env.Log, "end of a series of sessions", done) || !Settle() {
		return
	}
	a, b := 0, 0
	for _, m := range c.cl.Received() {
		if m.Ref != nil {
			switch m.Ref.Type {
			case tSessCreated:
				a++
			case tSessClosed:
				b++
			}
		}
	}
	if a != created || b != closed {
		w.viol("C07", "notifications", "a series of %d sessions caused %d creation and %d closure notifications instead of %d", created, a, b, closed)
		return
	}
	w.sm.mu.Lock()
	x, y := len(w.sm.created), len(w.sm.closed)
	twice := ""
	for k, m := range w.sm.created {
		if m != 1 || w.sm.closed[k] != 1 {
			twice = k
		}
	}
	w.sm.mu.Unlock()
	if x != created || y != created || twice != "" {
		w.viol("C07", "hooks", "a series of %d sessions: %d created and %d closed in the storage (%q not exactly once)", created, x, y, twice)
		return
	}
	if !w.mirror("after a series of sessions") {
		return
	}
	ctx.Max("max_sessions_of_a_connection", int64(n))
	ctx.Eval(fmt.Sprintf("series of sessions n=%d mode=%d", n, mode))
	w.env.Shutdown()
}

// genLargeInfo generates session info of several kilobytes
func genLargeInfo(r *Rng, max int) map[string]interface{} {
	info := genInfo(r, 2)
	n := r.Pick(4000, 4096, 5000, 8192, 9000, 32768, 40000, 65500, 65536, 66000, r.N(max), max)
	if n > max-700 {
		n = max - 700
	}
	switch r.N(4) {
	case 0:
		info["large"] = strings.Repeat("x", n-1) + "."
	case 1:
		var l []interface{}
		for k := 0; k < n/8; k++ {
			l = append(l, 1000000+k)
		}
		info["large"] = l
	case 2:
		m := map[string]interface{}{}
		for k := 0; k < n/16; k++ {
			m[fmt.Sprintf("f%06d", k)] = fmt.Sprint(k % 100)
		}
		info["large"] = m
	default:
		for k := 0; k < n/16; k++ {
			info[fmt.Sprintf("f%06d", k)] = fmt.Sprint(k % 100)
		}
	}
	if len(jsonNorm(info)) > max {
		info = map[string]interface{}{"large": strings.Repeat("y", max/2)}
	}
	return info
}

// fitRestore: sessions that exactly fit into the reply to a restoration, or
// exceed it by a byte
func fitRestore(p string, r *Rng) {
	w := newSworld(p, r, true, 0)
	crea := time.Unix(int64(r.N(2000000000)), int64(100000001+2*r.N(400000000))).UTC()
	last := crea.Add(time.Duration(2*r.N(100)) * time.Second)
	key := string(r.Name(r.Range(1, 60)))
	w.mu.Lock()
	w.keys = append(w.keys, key)
	w.mu.Unlock()
	base := -1
	for k := r.Range(3, 8); k >= 0; k-- {
		n := r.Range(1, 100)
		over := 0
		if base >= 0 {
			over = r.Pick(-2, -1, 0, 0, 0, 1, 1, 1, 2, r.Range(-100, 100), 256)
			n = w.buf - base + over
		}
		info := map[string]interface{}{"f": strings.Repeat("x", n)}
		w.sm.mu.Lock()
		w.sm.store[key] = memSess{crea, last, info}
		w.sm.mu.Unlock()
		c := w.dial()
		if c == nil {
			return
		}
		id := sendRestore(c.cl, key)
		ref := c.cl.AwaitReply(id)
		if ref == nil {
			return
		}
		raw := 0
		for _, m := range c.cl.Received() {
			if m.Ref != nil && m.Ref.ID == id {
				raw = len(m.Raw)
			}
		}
		what := fmt.Sprintf("restoration of a session whose reply has %d bytes (buffer %d)", w.buf+over, w.buf)
		if base < 0 {
			what = "restoration of a small session"
		}
		if base >= 0 && over > 0 {
			if ref.Type != tReplyInternal || raw != 9 {
				w.viol("C10", "reply-too-large", "%s: answered by %v (%d bytes)", what, ref, raw)
				return
			}
			if con := c.cl.Conn(); con.HasSession() {
				w.viol("C10 C08", "session-of-failed-restoration", "%s: the connection has the session", what)
				return
			}
		} else {
			if ref.Type != tReplyU8 {
				w.viol("C10", "not-restored", "%s: answered by %v", what, ref)
				return
			}
			if m := checkWire(ref.Payload, key, crea, &last, info); m != "" {
				w.viol("C10", "restored-session", "%s: %s", what, m)
				return
			}
			if base >= 0 && raw != w.buf+over {
				ctx.Inconclusive("the reply has %d bytes", raw)
				return
			}
			base = raw - n
		}
		if !Settle() || !w.mirror(what) {
			return
		}
		id = c.cl.Request([]byte("probe"), 0, []byte("x"))
		if c.cl.AwaitReply(id) == nil {
			return
		}
		ctx.Eval(fmt.Sprintf("fit restoration over=%d buffer=%d", over, w.buf))
	}
	w.env.Shutdown()
}

// fitCreate: sessions whose notification just fits
func fitCreate(p string, r *Rng) {
	w := newSworld(p, r, true, 0)
	base := -1 // of the longest representation
	for k := r.Range(3, 8); k >= 0; k-- {
		n, over := r.Range(1, 100), 0
		if base >= 0 {
			over = r.Pick(-2, -1, 0, 0, 0, 0, 1, 2, 12, 100)
			n = w.buf - base + over
		}
		c := w.dial()
		if c == nil {
			return
		}
		con := c.cl.Conn()
		info := map[string]interface{}{"f": strings.Repeat("x", n)}
		var err error
		if !Await(w.env.Log, "creation of a session", Go(func() { err = con.CreateSession(infoFrom(info)) })) || !Settle() {
			return
		}
		what := fmt.Sprintf("creation of a session whose notification has up to %d bytes (buffer %d)", w.buf+over, w.buf)
		if base < 0 {
			what = "creation of a small session"
		}
		raw := 0
		var sent wireSession
		for _, m := range c.cl.Received() {
			if m.Ref != nil && m.Ref.Type == tSessCreated {
				raw = len(m.Raw)
				json.Unmarshal(m.Ref.Payload, &sent)
			}
		}
		if err != nil {
			if base < 0 || over <= 0 {
				w.viol("C07", "create-result", "%s failed: %v", what, err)
				return
			}
			if con.HasSession() || raw > 0 {
				w.viol("C07 C08", "session-of-failed-creation", "%s failed, the connection has session %q, the client got a notification of %d bytes", what, con.SessionKey(), raw)
				return
			}
		} else {
			// trailing zeros of both times are omitted
			const nanos = "2006-01-02T15:04:05.000000000Z07:00"
			slack := len(con.SessionCreation().Format(nanos)) - len(con.SessionCreation().Format(time.RFC3339Nano))
			if sent.LastLookup != nil {
				slack += len(sent.LastLookup.Format(nanos)) - len(sent.LastLookup.Format(time.RFC3339Nano))
			}
			if raw == 0 || !con.HasSession() {
				w.viol("C07", "no-session", "%s succeeded, session %q, notification of %d bytes", what, con.SessionKey(), raw)
				return
			}
			if over > 30 || raw > w.buf {
				w.viol("C07", "create-result", "%s succeeded", what)
				return
			}
			base = raw - n + slack
			if len(con.SessionKey()) < 20 {
				base += 3 // consecutive keys may get longer as well
			}
			w.mu.Lock()
			w.keys = append(w.keys, con.SessionKey())
			w.mu.Unlock()
		}
		if !w.mirror(what) {
			return
		}
		id := c.cl.Request([]byte("probe"), 0, []byte("x"))
		if c.cl.AwaitReply(id) == nil {
			return
		}
		ctx.Eval(fmt.Sprintf("fit creation over=%d buffer=%d success=%v", over, w.buf, err == nil))
	}
	w.env.Shutdown()
}

// c11Many: very many sessions in a directory
func c11Many(r *Rng) {
	dir := newDir("many")
	defer removeDir(dir)
	n := crowdSize(r)
	log := &EventLog{off: true}
	e := NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: wwr.NewDefaultSessionManager(dir), Log: log})
	c := e.MustDial(wwr.ConnectionOptions{})
	if c == nil {
		return
	}
	model := map[string]*ssess{}
	for k := 0; k < n; k++ {
		key, s, err := c11Create(e, c, map[string]interface{}{"n": k})
		if err != nil {
			ctx.Violate("creation-failed", nil, "creating session %d failed: %v", k, err)
			return
		}
		model[key] = s
		c.Disconnect(false)
		if c = e.MustDial(wwr.ConnectionOptions{}); c == nil {
			return
		}
	}
	if len(model) != n {
		ctx.Violate("same-key", nil, "%d sessions have %d keys", n, len(model))
		return
	}
	if r.P(50) {
		if !e.Shutdown() {
			return
		}
		e = NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: wwr.NewDefaultSessionManager(dir), Log: log})
	}
	mng := wwr.NewDefaultSessionManager(dir)
	for k, s := range model {
		if r.P(50) {
			if m := c11Found(mng, k, s, true); m != "" {
				ctx.Violate("lost", nil, "one of %d sessions: %s", n, m)
				return
			}
			continue
		}
		c := e.MustDial(wwr.ConnectionOptions{})
		if c == nil {
			return
		}
		ref := c.AwaitReply(sendRestore(c, k))
		if ref == nil {
			return
		}
		if m, _ := c11CheckReply(ref, k, s); m != "" {
			ctx.Violate("restore", nil, "one of %d sessions: %s", n, m)
			return
		}
		if r.P(50) {
			con := c.Conn()
			if !Await(log, "end of a closure", Go(func() { con.CloseSession() })) {
				return
			}
			delete(model, k)
			if res, err := mng.OnSessionLookup(k); res != nil || err != nil {
				ctx.Violate("found-closed", nil, "the lookup of a closed session returned %v, %v", res, err)
				return
			}
		}
	}
	if l := sessFiles(dir); len(l) != len(model) {
		ctx.Violate("files", nil, "%d sessions are stored in %d files", len(model), len(l))
	}
	ctx.Max("max_stored_sessions", int64(n))
	ctx.Eval(fmt.Sprintf("many sessions n=%d", n))
	e.Shutdown()
}

// c21Many: very many requests pending at once, or one after another
func c21Many(r *Rng) {
	m := rm.NewRequestManager()
	n := r.Pick(300, 513, 1025, 33000, 66000)
	keep := r.P(50)
	seen := map[[8]byte]bool{}
	var all [][8]byte
	type pending struct {
		q *rm.Request
		k int
	}
	var open []pending
	resolved := 0
	resolve := func(p pending) bool {
		pl := []byte(fmt.Sprint("reply ", p.k))
		msg := message.NewMessage(64)
		msg.ReadBytes(encReply(p.q.Identifier, 0, pl))
		if !m.Fulfill(msg) {
			ctx.Violate("not-fulfilled", nil, "request %d of many (%x) wasn't fulfilled", p.k, p.q.Identifier)
			return false
		}
		rep, err := p.q.AwaitReply(context.Background())
		if err != nil || string(rep.Payload()) != string(pl) {
			ctx.Violate("outcome", nil, "request %d of many was resolved with %v, %v", p.k, rep, err)
			return false
		}
		if m.IsPending(p.q.Identifier) || m.Fail(p.q.Identifier, errReader) {
			ctx.Violate("pending", nil, "request %d of many is pending after its resolution", p.k)
			return false
		}
		resolved++
		return true
	}
	for k := 0; k < n; k++ {
		q := m.Create()
		if seen[q.Identifier] {
			ctx.Violate("duplicate-id", nil, "identifier %x was assigned twice, to request %d of a series as well", q.Identifier, k)
			return
		}
		seen[q.Identifier] = true
		all = append(all, q.Identifier)
		if keep || r.N(20) == 0 {
			open = append(open, pending{q, k})
		} else if !resolve(pending{q, k}) {
			return
		}
		if k%1000 == 0 && m.PendingRequests() != len(open) {
			ctx.Violate("pending-count", nil, "%d requests are pending instead of %d", m.PendingRequests(), len(open))
			return
		}
	}
	_, le := consecutive(all, binary.LittleEndian, 0)
	_, be := consecutive(all, binary.BigEndian, 0)
	if !le && !be {
		ctx.Violate("not-consecutive", nil, "%d requests don't have consecutive identifiers", n)
		return
	}
	for x := len(open) - 1; x >= 0; x-- {
		y := r.N(x + 1)
		open[x], open[y] = open[y], open[x]
	}
	for x, p := range open {
		if x%1000 == 0 && m.PendingRequests() != len(open)-x {
			ctx.Violate("pending-count", nil, "%d requests are pending instead of %d", m.PendingRequests(), len(open)-x)
			return
		}
		if !m.IsPending(p.q.Identifier) {
			ctx.Violate("not-pending", nil, "request %d of many isn't pending although it has no outcome", p.k)
			return
		}
		if !resolve(p) {
			return
		}
	}
	if m.PendingRequests() != 0 {
		ctx.Violate("pending-count", nil, "%d requests are pending after all were resolved", m.PendingRequests())
	}
	ctx.Max("max_requests_of_a_manager", int64(n))
	ctx.Eval(fmt.Sprintf("many requests n=%d pending at once=%v", n, keep))
}
