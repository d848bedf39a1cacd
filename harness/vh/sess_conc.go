package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"

	wwr "github.com/qbeon/webwire-go"
)

/* concurrent session operations: judged at quiescent points by accounting */

var sessPlaces = []string{
	"createSession.checked", "createSession.notified", "createSession.registered",
	"registry.last", "restore.checked", "restore.found", "restore.assigned",
	"closureRequest.checked", "closureRequest.deregistered",
	"closeSession.listed", "closeSession.deregistered", "unlink.deregistered",
	"connection.closed", "connection.idle", "connection.readFailed",
}

// sop is one operation of a concurrent batch
type sop struct {
	kind string // create closeServer closeRequest closeKey restore close disconnect get
	c    *sconn
	key  string
	err  error
	id   [8]byte
	how  string
	done func() bool
	mu   sync.Mutex
	nAff int
}

func (o *sop) String() string {
	c := -1
	if o.c != nil {
		c = o.c.cl.id
	}
	return fmt.Sprintf("%s(conn %d, key %q)", o.kind, c, o.key)
}

func (w *sworld) start(r *Rng, o *sop) {
	w.env.Log.Add("starting %v", o)
	switch o.kind {
	case "create":
		a := attachment(r, map[string]interface{}{"n": r.N(100)})
		o.done, o.id, o.how = w.perform(r, o.c, func(con wwr.Connection) {
			e := con.CreateSession(a)
			o.mu.Lock()
			o.err = e
			o.mu.Unlock()
			w.env.Log.Add("%v returned %v", o, e)
		})
	case "closeServer":
		o.done, o.id, o.how = w.perform(r, o.c, func(con wwr.Connection) {
			e := con.CloseSession()
			o.mu.Lock()
			o.err = e
			o.mu.Unlock()
			w.env.Log.Add("%v returned %v", o, e)
		})
	case "closeKey":
		o.done = Go(func() {
			a, _, e := w.env.Srv.CloseSession(o.key)
			o.mu.Lock()
			o.err, o.nAff = e, len(a)
			o.mu.Unlock()
			w.env.Log.Add("%v returned %v", o, e)
		})
	case "closeRequest":
		o.id = o.c.cl.NewID()
		o.c.cl.Send(encCloseSession(o.id))
		o.done = func() bool { return len(o.c.cl.ReplyTo(o.id)) > 0 }
	case "restore":
		o.id = o.c.cl.NewID()
		o.c.cl.Send(encRestore(o.id, o.key))
		o.done = func() bool { return len(o.c.cl.ReplyTo(o.id)) > 0 }
	case "close":
		con := o.c.cl.Conn()
		o.done = Go(con.Close)
	case "disconnect":
		ab := r.P(50)
		o.done = Go(func() { o.c.cl.Disconnect(ab) })
	case "get":
		con := o.c.cl.Conn()
		o.done = Go(func() {
			for i := 0; i < 20; i++ {
				k := con.SessionKey()
				s := con.Session()
				if s != nil && s.Key == "" {
					w.viol("C07", "empty-key", "a session with an empty key")
				}
				if n := w.env.Srv.SessionConnectionsNum(k); w.M > 0 && n > int(w.M) {
					w.viol("C09", "limit-exceeded", "%d connections of session %q", n, k)
				}
				w.env.Srv.SessionConnections(k)
				w.env.Srv.ActiveSessionsNum()
				con.SessionInfo("n")
				con.SessionCreation()
				doPause(i % 4)
			}
		})
	}
}

// state of a connection before a batch
type sstate struct {
	key    string
	nHook  int
	nCreat int
	nNotif int
	open   bool
}

func (w *sworld) stateOf(c *sconn) sstate {
	s := sstate{key: c.cl.Conn().SessionKey(), open: c.open, nHook: w.sm.CreatedBy(c.cl.Conn())}
	for _, m := range c.cl.Received() {
		if m.Ref == nil {
			continue
		}
		switch m.Ref.Type {
		case tSessCreated:
			s.nCreat++
		case tSessClosed:
			s.nNotif++
		}
	}
	return s
}

// newKeys returns the sessions the clients were told about that weren't known
func (w *sworld) newKeys() (l []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	known := map[string]bool{}
	for _, k := range w.keys {
		known[k] = true
	}
	for _, c := range w.conns {
		for _, m := range c.cl.Received() {
			if m.Ref == nil || m.Ref.Type != tSessCreated {
				continue
			}
			var s wireSession
			if json.Unmarshal(m.Ref.Payload, &s) != nil || s.Key == nil {
				w.viol("C07", "notification", "a session creation notification can't be decoded: %v", m.Ref)
				continue
			}
			if !known[*s.Key] {
				known[*s.Key] = true
				w.keys = append(w.keys, *s.Key)
				l = append(l, *s.Key)
			}
		}
	}
	return
}

// store puts a session into the storage
func (w *sworld) store(key string) {
	w.sm.mu.Lock()
	w.sm.store[key] = memSess{}
	w.sm.mu.Unlock()
	w.mu.Lock()
	w.keys = append(w.keys, key)
	w.mu.Unlock()
}

// finish waits for the operations of a batch and judges it
func (w *sworld) finish(ops []*sop, before map[*sconn]sstate, closed0 map[string]int, what string) bool {
	gone := map[*sconn]bool{}
	for _, o := range ops {
		if o.kind == "close" || o.kind == "disconnect" {
			gone[o.c] = true
		}
	}
	for _, o := range ops {
		o := o
		if o.c != nil && gone[o.c] && (o.kind == "closeRequest" || o.kind == "restore" || (o.how != "" && o.how != "goroutine")) {
			continue // messages sent to a closing connection may get lost
		}
		if o.kind == "create" || o.kind == "closeServer" || o.kind == "closeKey" || o.kind == "closeRequest" || o.kind == "restore" || o.kind == "close" || o.kind == "get" || o.kind == "disconnect" {
			if !Await(w.env.Log, fmt.Sprintf("%s: end of %s", what, o.kind), o.done) {
				return false
			}
		}
	}
	if !Settle() {
		return false
	}
	for c := range gone {
		c.open = false
		if !Await(w.env.Log, what+": closure of the connection", c.cl.ServerClosed) {
			return false
		}
	}
	// batch accounting
	nilCreates := map[*sconn]int{}
	closers := map[*sconn]int{} // closures that don't notify
	mixed := map[*sconn]bool{}
	for _, o := range ops {
		o.mu.Lock()
		err := o.err
		o.mu.Unlock()
		sig := fmt.Sprintf("batch/%s/%d", o.kind, len(ops))
		switch o.kind {
		case "create":
			ended := o.done()
			if ended && err == nil {
				nilCreates[o.c]++
			}
			sig += fmt.Sprintf("/%v/%v/%s", ended, err == nil, o.how)
		case "closeRequest":
			closers[o.c]++
			rs := o.c.cl.ReplyTo(o.id)
			if len(rs) > 1 {
				return w.viol("C07", "answered-twice", "%s: %v was answered %d times", what, o, len(rs))
			}
			if len(rs) == 1 && (rs[0].Ref.Type != tReplyBin || len(rs[0].Ref.Payload) > 0) && !(gone[o.c] && rs[0].Ref.Type == tReplyShutdown) {
				return w.viol("C07", "not-confirmed", "%s: %v was answered by %v", what, o, rs[0].Ref)
			}
		case "closeServer", "closeKey":
			if err != nil && len(gone) == 0 {
				return w.viol("C07", "close-result", "%s: %v returned %v", what, o, err)
			}
		case "restore":
			mixed[o.c] = true
			rs := o.c.cl.ReplyTo(o.id)
			if len(rs) > 1 {
				return w.viol("C10", "answered-twice", "%s: %v was answered %d times", what, o, len(rs))
			}
			if len(rs) == 1 {
				ref := rs[0].Ref
				sig += "/" + typeName(ref.Type)
				switch ref.Type {
				case tReplyU8:
					w.sm.mu.Lock()
					s, ok := w.sm.store[o.key]
					w.sm.mu.Unlock()
					if ok {
						if d := checkWire(ref.Payload, o.key, s.creation, nil, s.info); d != "" {
							return w.viol("C10", "wrong-session", "%s: %v: %s", what, o, d)
						}
					}
				case tReplyNotFound:
				case tReplyMaxConns:
					if w.M == 0 {
						return w.viol("C09", "refused", "%s: %v was refused although there's no limit", what, o)
					}
				case tReplyShutdown:
					if !gone[o.c] {
						return w.viol("C10", "wrong-reply", "%s: %v was answered by %v", what, o, ref)
					}
				default:
					return w.viol("C10", "wrong-reply", "%s: %v was answered by %v", what, o, ref)
				}
			}
		}
		ctx.Eval(sig)
	}
	for _, c := range w.conns {
		b, a := before[c], w.stateOf(c)
		if !b.open {
			continue
		}
		if d := a.nCreat - b.nCreat; d != nilCreates[c] && !gone[c] {
			return w.viol("C07", "creation-notifications", "%s: %d creations succeeded on conn %d but it received %d notifications", what, nilCreates[c], c.cl.id, d)
		} else if gone[c] && !w.memch && d != nilCreates[c] {
			// creations by handlers that never started don't count
			return w.viol("C07", "creation-notifications", "%s: %d creations succeeded on conn %d (closing) but it received %d notifications", what, nilCreates[c], c.cl.id, d)
		}
		if d := a.nHook - b.nHook; d != nilCreates[c] {
			return w.viol("C07", "creation-hook", "%s: %d creations succeeded on conn %d but the creation hook was called %s", what, nilCreates[c], c.cl.id, times(d))
		}
		if gone[c] || mixed[c] {
			continue
		}
		L := nilCreates[c]
		if b.key != "" {
			L++
		}
		if a.key != "" {
			L--
		}
		n := a.nNotif - b.nNotif
		if L < 0 || n > L || n < L-closers[c] {
			return w.viol("C07", "closure-notifications", "%s: conn %d had session %q, %d were created, has %q now: %d lost, but %d closure notifications and %d closure requests", what, c.cl.id, b.key, nilCreates[c], a.key, L, n, closers[c])
		}
	}
	// keys
	news := w.newKeys()
	nNil := 0
	for _, n := range nilCreates {
		nNil += n
	}
	if len(news) != nNil {
		return w.viol("C07", "creation-notifications", "%s: %d creations succeeded, the clients were told about %d new sessions", what, nNil, len(news))
	}
	holders := map[string]int{}
	for _, c := range w.conns {
		if k := c.cl.Conn().SessionKey(); k != "" {
			holders[k]++
		}
	}
	w.mu.Lock()
	keys := append([]string(nil), w.keys...)
	w.mu.Unlock()
	isNew := map[string]bool{}
	for _, k := range news {
		isNew[k] = true
	}
	for _, k := range keys {
		_, _, cl := w.sm.Calls(k)
		if cl > 1 {
			return w.viol("C07", "closure-hook", "%s: the closure hook was called %s for session %q", what, times(cl), k)
		}
		if cl > 0 && holders[k] > 0 {
			return w.viol("C07", "closed-but-active", "%s: session %q was closed but %d connections still have it", what, k, holders[k])
		}
		// a session that nobody has anymore was closed unless it was lost by
		// a disconnection or another restoration
		had, excused := isNew[k], false
		for _, c := range w.conns {
			if before[c].key == k {
				had = true
				if gone[c] || mixed[c] {
					excused = true
				}
			}
			if isNew[k] && (gone[c] || mixed[c]) && nilCreates[c] > 0 {
				excused = true
			}
		}
		for _, o := range ops {
			if o.kind != "restore" || o.key != k {
				continue
			}
			if gone[o.c] {
				excused = true
			}
			for _, o2 := range ops {
				if o2.kind == "restore" && o2.c == o.c && o2.key != k {
					excused = true
				}
			}
		}
		if had && holders[k] == 0 && !excused && cl != 1 {
			return w.viol("C07", "not-closed", "%s: nobody has session %q anymore but the closure hook wasn't called", what, k)
		}
		if had && cl > closed0[k] && excused {
			ctx.Count("closures_with_disconnections", 1)
		}
	}
	for c := range gone {
		if k := c.cl.Conn().SessionKey(); k != "" {
			return w.viol("C08 C07", "closed-has-session", "%s: conn %d is closed but has session %q", what, c.cl.id, k)
		}
	}
	return w.mirror(what)
}

func (w *sworld) batchStart() (map[*sconn]sstate, map[string]int) {
	before := map[*sconn]sstate{}
	for _, c := range w.conns {
		before[c] = w.stateOf(c)
	}
	closed := map[string]int{}
	for _, k := range w.keys {
		_, _, closed[k] = w.sm.Calls(k)
	}
	return before, closed
}

// setup creates sessions and lets connections restore them
func (w *sworld) setup(r *Rng, n int) bool {
	for i := 0; i < n; i++ {
		if w.dial() == nil {
			return false
		}
	}
	for _, c := range w.conns {
		if r.P(35) {
			continue
		}
		if len(w.keys) > 0 && r.P(60) {
			key := w.keys[r.N(len(w.keys))]
			id := c.cl.NewID()
			c.cl.Send(encRestore(id, key))
			if c.cl.AwaitReply(id) == nil {
				return false
			}
			continue
		}
		con := c.cl.Conn()
		done := Go(func() { con.CreateSession(attachment(w.r, map[string]interface{}{"a": 1})) })
		if !Await(w.env.Log, "creation of a session", done) || !Settle() {
			return false
		}
		w.newKeys()
	}
	return Settle() && w.mirror("setup")
}

func sessConcCase(p string, r *Rng, forced bool) {
	SetDelays(0)
	defer SetDelays(0)
	w := newSworld(p, r, true, uint(r.Pick(0, 0, 0, 1, 2, 3)))
	if !w.setup(r, r.Range(1, 5)) {
		return
	}
	for round := r.Range(1, 4); round > 0; round-- {
		if r.P(60) {
			SetDelays(r.U64() | 1)
		} else {
			SetDelays(0)
		}
		before, closed0 := w.batchStart()
		what := "concurrent operations"
		var g *Gate
		var ops []*sop
		one := func(kinds ...string) *sop {
			o := &sop{kind: kinds[r.N(len(kinds))]}
			o.c = w.pick(func(c *sconn) bool { return c.open })
			if o.c == nil {
				return nil
			}
			// contention is more interesting
			if len(ops) > 0 && ops[0].c != nil && ops[0].c.open && r.P(50) {
				o.c = ops[0].c
			}
			switch o.kind {
			case "closeKey", "restore":
				if len(w.keys) == 0 {
					o.kind = "create"
				} else {
					o.key = w.keys[r.N(len(w.keys))]
					if k := before[o.c].key; k != "" && o.kind == "closeKey" && r.P(60) {
						o.key = k
					}
					if o.kind == "closeKey" {
						o.c = nil
					}
				}
			}
			return o
		}
		all := []string{"create", "create", "closeServer", "closeServer", "closeRequest", "closeKey", "restore", "restore", "get", "close", "disconnect"}
		noLoss := []string{"create", "create", "closeServer", "closeServer", "closeRequest", "closeKey", "get"}
		kinds := all
		switch r.N(4) {
		case 0:
			kinds = noLoss
		case 1:
			kinds = append(noLoss, "restore", "restore")
		}
		if forced {
			place := sessPlaces[r.N(len(sessPlaces))]
			what = "operations around " + place
			g = SetGate(place, r.Pick(1, 1, 1, 2, 3))
		}
		for k := r.Range(1, 7); k > 0; k-- {
			o := one(kinds...)
			if o == nil {
				break
			}
			ops = append(ops, o)
			w.start(r, o)
			if forced && r.P(60) {
				if !Settle() {
					g.Release()
					return
				}
				// no monitor of the registry may ever see too many
				if w.M > 0 {
					for _, key := range w.keys {
						if n := w.env.Srv.SessionConnectionsNum(key); n > int(w.M) {
							w.viol("C09", "limit-exceeded", "%s: %d connections of session %q", what, n, key)
							g.Release()
							return
						}
					}
				}
			} else if r.P(40) {
				doPause(r.N(6))
			}
		}
		if forced {
			if !Settle() {
				g.Release()
				return
			}
			ctx.Count("forced_pauses", int64(g.Arrived()))
			g.Release()
		}
		if !w.finish(ops, before, closed0, what) {
			return
		}
	}
	w.env.Shutdown()
}

// sessOneOfMany: many creations on one connection, exactly one succeeds
func sessOneOfMany(p string, r *Rng) {
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w := newSworld(p, r, true, uint(r.Pick(0, 1, 2)))
	c := w.dial()
	if c == nil {
		return
	}
	before, closed0 := w.batchStart()
	var g *Gate
	forced := r.P(60)
	if forced {
		g = SetGate([]string{"createSession.checked", "createSession.notified", "createSession.registered"}[r.N(3)], r.Pick(1, 2, 4))
	}
	var ops []*sop
	for k := r.Range(2, 6); k > 0; k-- {
		o := &sop{kind: "create", c: c}
		ops = append(ops, o)
		w.start(r, o)
	}
	if forced {
		ok := Settle()
		g.Release()
		if !ok {
			return
		}
	}
	if !w.finish(ops, before, closed0, "concurrent creations on one connection") {
		return
	}
	n := 0
	for _, o := range ops {
		o.mu.Lock()
		if o.err == nil {
			n++
		}
		o.mu.Unlock()
	}
	if n != 1 {
		w.viol("C07", "one-session", "%d of %d concurrent creations on one connection succeeded", n, len(ops))
		return
	}
	w.env.Shutdown()
}

// sessLastCase: all connections of a session close it at once
func sessLastCase(p string, r *Rng) {
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w := newSworld(p, r, true, 0)
	n := r.Range(2, 6)
	for i := 0; i < n; i++ {
		if w.dial() == nil {
			return
		}
	}
	con := w.conns[0].cl.Conn()
	if !Await(w.env.Log, "creation", Go(func() { con.CreateSession(nil) })) || !Settle() {
		return
	}
	w.newKeys()
	if len(w.keys) != 1 {
		w.viol("C07", "creation-hook", "creation of a session failed or wasn't stored")
		return
	}
	for _, c := range w.conns[1:] {
		id := c.cl.NewID()
		c.cl.Send(encRestore(id, w.keys[0]))
		if ref := c.cl.AwaitReply(id); ref == nil || ref.Type != tReplyU8 {
			w.viol("C10", "not-restored", "a stored session couldn't be restored: %v", ref)
			return
		}
	}
	if !Settle() {
		return
	}
	before, closed0 := w.batchStart()
	forced := r.P(60)
	var g *Gate
	if forced {
		g = SetGate([]string{"registry.last", "closeSession.deregistered", "closeSession.listed", "closureRequest.checked", "closureRequest.deregistered"}[r.N(5)], r.Pick(1, 2, n))
	}
	var ops []*sop
	leave := -1
	if r.P(40) {
		leave = r.N(n)
	}
	for i, c := range w.conns {
		if i == leave {
			continue
		}
		for k := r.Pick(1, 1, 2); k > 0; k-- {
			o := &sop{kind: []string{"closeServer", "closeRequest"}[r.N(2)], c: c}
			ops = append(ops, o)
			w.start(r, o)
		}
	}
	if leave < 0 && r.P(30) {
		o := &sop{kind: "closeKey", key: w.keys[0]}
		ops = append(ops, o)
		w.start(r, o)
	}
	if forced {
		ok := Settle()
		g.Release()
		if !ok {
			return
		}
	}
	if !w.finish(ops, before, closed0, "closures by all connections of a session") {
		return
	}
	_, _, cl := w.sm.Calls(w.keys[0])
	if leave >= 0 {
		if cl != 0 || w.conns[leave].cl.Conn().SessionKey() != w.keys[0] {
			w.viol("C07", "closed-but-active", "the session was closed although one connection still has it")
			return
		}
	} else if cl != 1 {
		w.viol("C07", "not-closed", "the closure hook was called %s although all connections closed the session", times(cl))
		return
	}
	w.env.Shutdown()
}

// sessStaleListing: a closure by key must not affect a session a listed
// connection gets meanwhile
func sessStaleListing(p string, r *Rng) {
	w := newSworld(p, r, true, 0)
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		if w.dial() == nil {
			return
		}
	}
	con := w.conns[0].cl.Conn()
	if !Await(w.env.Log, "creation", Go(func() { con.CreateSession(nil) })) || !Settle() {
		return
	}
	w.newKeys()
	if len(w.keys) != 1 {
		w.viol("C07 C08", "creation-hook", "creation of a session failed or wasn't stored")
		return
	}
	old := w.keys[0]
	for _, c := range w.conns[1:] {
		id := c.cl.NewID()
		c.cl.Send(encRestore(id, old))
		if c.cl.AwaitReply(id) == nil {
			return
		}
	}
	w.store("other")
	g := SetGate("closeSession.listed", 1)
	defer g.Release()
	closer := &sop{kind: "closeKey", key: old}
	w.start(r, closer)
	if !Settle() {
		return
	}
	if g.Arrived() == 0 {
		ctx.Count("place_not_reached", 1)
		g.Release()
		w.env.Shutdown()
		return
	}
	// every connection that's listed leaves the session, some get another
	want := map[*sconn]string{}
	for _, c := range w.conns {
		c := c
		how := []string{"closeServer", "closeRequest", "switch", "stay", "close"}[r.N(5)]
		want[c] = ""
		ctx.Eval(fmt.Sprintf("stale-listing/%d/%s/%v", n, how, w.memch))
		switch how {
		case "stay":
			continue
		case "switch":
			id := c.cl.NewID()
			c.cl.Send(encRestore(id, "other"))
			if c.cl.AwaitReply(id) == nil {
				return
			}
			want[c] = "other"
			continue
		case "close":
			con := c.cl.Conn()
			if !Await(w.env.Log, "closure", Go(con.Close)) {
				return
			}
			c.open = false
			continue
		}
		o := &sop{kind: how, c: c}
		w.start(r, o)
		if !Await(w.env.Log, "closure of the session", o.done) {
			return
		}
		if r.P(70) {
			o := &sop{kind: "create", c: c}
			w.start(r, o)
			if !Await(w.env.Log, "creation of another session", o.done) {
				return
			}
			want[c] = c.cl.Conn().SessionKey()
			if want[c] == "" {
				w.viol("C07 C08", "no-session", "the creation of another session failed")
				return
			}
		}
	}
	g.Release()
	if !Await(w.env.Log, "end of the closure by key", closer.done) || !Settle() {
		return
	}
	for _, c := range w.conns {
		if got := c.cl.Conn().SessionKey(); got != want[c] {
			w.viol("C08", "wrong-session-closed", "closing session %q by key changed conn %d: it has session %q instead of %q", old, c.cl.id, got, want[c])
			return
		}
	}
	for _, k := range want {
		if _, _, cl := w.sm.Calls(k); k != "" && cl != 0 {
			w.viol("C08", "wrong-session-closed", "closing session %q by key closed session %q", old, k)
			return
		}
	}
	w.newKeys()
	if w.mirror("after the closure by key") {
		w.env.Shutdown()
	}
}

// sessLimitCase: simultaneous restorations against the limit
func sessLimitCase(p string, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	M := r.Range(0, 4)
	w := newSworld(p, r, true, uint(M))
	n := r.Range(1, 8)
	for i := 0; i < n; i++ {
		if w.dial() == nil {
			return
		}
	}
	w.store("k")
	w.store("own")
	pre := 0
	has := map[*sconn]bool{}
	other := map[*sconn]string{}
	for _, c := range w.conns {
		key := ""
		switch {
		case r.P(25) && (M == 0 || pre < M):
			key = "k"
			pre++
			has[c] = true
		case r.P(20) && len(other) == 0:
			key = "own"
			other[c] = "own"
		}
		if key == "" {
			continue
		}
		id := c.cl.NewID()
		c.cl.Send(encRestore(id, key))
		if ref := c.cl.AwaitReply(id); ref == nil || ref.Type != tReplyU8 {
			w.viol("C09 C10", "not-restored", "a stored session couldn't be restored with %d of %d connections having it: %v", pre, M, ref)
			return
		}
	}
	for round := r.Range(1, 3); round > 0; round-- {
		var g *Gate
		if r.P(70) {
			g = SetGate([]string{"restore.checked", "restore.found", "restore.assigned"}[r.N(3)], r.Pick(1, 2, n))
		}
		ids := map[*sconn][8]byte{}
		for _, c := range w.conns {
			if !c.open || has[c] {
				continue
			}
			id := c.cl.NewID()
			ids[c] = id
			c.cl.Send(encRestore(id, "k"))
		}
		if g != nil {
			ok := Settle()
			if m := w.env.Srv.SessionConnectionsNum("k"); M > 0 && m > M {
				w.viol("C09", "limit-exceeded", "%d connections of a session, the maximum is %d", m, M)
				g.Release()
				return
			}
			g.Release()
			if !ok {
				return
			}
		}
		admitted := 0
		for c, id := range ids {
			ref := c.cl.AwaitReply(id)
			if ref == nil {
				return
			}
			switch ref.Type {
			case tReplyU8:
				admitted++
				has[c] = true
				delete(other, c)
			case tReplyMaxConns:
			default:
				w.viol("C09", "wrong-reply", "a restoration was answered by %v", ref)
				return
			}
		}
		if !Settle() {
			return
		}
		wantN := len(ids)
		if M > 0 && wantN > M-pre {
			wantN = M - pre
		}
		ctx.Eval(fmt.Sprintf("limit/%d/%d/%d/%d/%v", M, n, pre, len(ids), w.memch))
		if admitted != wantN {
			w.viol("C09", "admitted", "%d simultaneous restorations with %d of %d connections having the session: %d admitted instead of %d", len(ids), pre, M, admitted, wantN)
			return
		}
		pre += admitted
		for _, c := range w.conns {
			want := other[c]
			if has[c] {
				want = "k"
			}
			if got := c.cl.Conn().SessionKey(); got != want && c.open {
				w.viol("C09", "state", "conn %d has session %q instead of %q after simultaneous restorations", c.cl.id, got, want)
				return
			}
		}
		if !w.mirror("after simultaneous restorations") {
			return
		}
		// refused connections stay usable
		for c := range ids {
			pay := r.Name(4)
			id := c.cl.Request(nil, 0, pay)
			if ref := c.cl.AwaitReply(id); ref == nil || ref.Type != tReplyBin || string(ref.Payload) != string(pay) {
				if ref != nil {
					w.viol("C09", "unusable", "conn %d answered a probe by %v", c.cl.id, ref)
				}
				return
			}
		}
		// free some slots in various ways, keep the session stored
		for _, c := range w.conns {
			if !has[c] || !c.open || pre <= 1 || r.P(60) {
				continue
			}
			switch r.N(5) {
			case 0:
				con := c.cl.Conn()
				con.Close()
				c.open = false
			case 1:
				c.cl.Disconnect(r.P(50))
				c.open = false
			case 2:
				con := c.cl.Conn()
				if !Await(w.env.Log, "closure of a session", Go(func() { con.CloseSession() })) {
					return
				}
			case 3:
				id := c.cl.NewID()
				c.cl.Send(encCloseSession(id))
				if c.cl.AwaitReply(id) == nil {
					return
				}
			case 4:
				if w.M > 0 && w.env.Srv.SessionConnectionsNum("own") > 0 {
					continue
				}
				id := c.cl.NewID()
				c.cl.Send(encRestore(id, "own"))
				if c.cl.AwaitReply(id) == nil {
					return
				}
				other[c] = "own"
			}
			has[c] = false
			pre--
		}
		if !Settle() {
			return
		}
		if !w.mirror("after freeing slots") {
			return
		}
	}
	w.env.Shutdown()
}

var _ = atomic.AddInt64

// sessSameKeys: sessions created under keys that are in use already, which the
// limit applies to as well
func sessSameKeys(p string, r *Rng) {
	M := uint(r.Pick(1, 1, 2, 3))
	log := &EventLog{}
	sm := NewMemSM()
	sm.log = log
	var gmu sync.Mutex
	gr := r.Fork()
	env := NewEnv(EnvOpts{Memchan: r.P(40), Sessions: true, SM: sm, MaxConns: M, Log: log, BufSize: 1024, KeyGen: keyGenFn(func() string {
		gmu.Lock()
		defer gmu.Unlock()
		return []string{"same", "same", "same", "other"}[gr.N(4)]
	})})
	n := int(M) + r.Range(1, 4)
	if r.P(50) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	var cls []*Client
	for k := 0; k < n; k++ {
		c := env.MustDial(wwr.ConnectionOptions{})
		if c == nil {
			return
		}
		cls = append(cls, c)
	}
	for round := r.Range(1, 3); round > 0; round-- {
		errs := make([]error, n)
		tried := make([]bool, n)
		var dones []func() bool
		var ids = map[int][8]byte{}
		for k, c := range cls {
			k, con := k, c.Conn()
			if con.HasSession() {
				continue
			}
			if r.P(20) {
				ids[k] = sendRestore(c, "same")
				continue
			}
			tried[k] = true
			d := Go(func() { errs[k] = con.CreateSession(nil) })
			dones = append(dones, d)
			if r.P(30) && !Await(log, "creation of a session", d) {
				return
			}
		}
		for _, d := range dones {
			if !Await(log, "creation of sessions under the same key", d) {
				return
			}
		}
		if !Settle() {
			return
		}
		count := map[string]uint{}
		for k, c := range cls {
			con := c.Conn()
			key := con.SessionKey()
			if key != "" {
				count[key]++
			}
			if tried[k] && (errs[k] == nil) != (key != "") {
				ctx.Violate("create-result", log.Dump(), "CreateSession returned %v, the connection has session %q", errs[k], key)
				return
			}
			if tried[k] {
				notes := 0
				for _, m := range c.Received() {
					if m.Ref != nil && m.Ref.Type == tSessCreated {
						notes++
					}
				}
				if errs[k] != nil && notes > 0 {
					ctx.Violate("notified", log.Dump(), "a session was refused (%v) but the client was notified", errs[k])
					return
				}
				ctx.Eval(fmt.Sprintf("same keys: limit=%d connections=%d success=%v", M, n, errs[k] == nil))
			}
		}
		for key, x := range count {
			if x > M || uint(env.Srv.SessionConnectionsNum(key)) != x {
				ctx.Violate("limit-exceeded", log.Dump(), "%d connections have session %q (limit %d, SessionConnectionsNum %d)", x, key, M, env.Srv.SessionConnectionsNum(key))
				return
			}
		}
		if env.Srv.ActiveSessionsNum() != len(count) {
			ctx.Violate("active-sessions", log.Dump(), "%d active sessions, %v", env.Srv.ActiveSessionsNum(), count)
			return
		}
		for k := range cls {
			if r.P(30) {
				cls[k].Disconnect(false)
				if cls[k] = env.MustDial(wwr.ConnectionOptions{}); cls[k] == nil {
					return
				}
			}
		}
		if !Settle() {
			return
		}
	}
	env.Shutdown()
}
