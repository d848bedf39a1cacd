package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C16: hostile clients */

func init() { checks["C16"] = checkC16 }

func checkC16(c *Ctx) {
	c.Cases("bytes", c.Scale(480, 24000), c16Bytes)
	c.Cases("disconnect", c.Scale(640, 16000), c16Disconnect)
	c.Cases("storm", c.Scale(96, 4800), c16Storm)
	c.Cases("unread", c.Scale(48, 960), c16Unread)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C16", r) })
}

// c16World counts what the handlers and hooks are given, per connection
type c16World struct {
	env   *Env
	buf   int
	probe *Client
	calls int

	mu      sync.Mutex
	handled map[int][]string
	conns   map[int]int
	disc    map[int]int
	block   map[int]chan struct{} // handlers of these connections block
	blocked map[int]int
}

func c16Desc(request bool, id [8]byte, name []byte, enc int, payload []byte) string {
	return fmt.Sprintf("%v %x %q %d %q", request, id, name, enc, payload)
}

func c16Ref(m *Ref) string {
	req := m.Type >= tRequestBin && m.Type <= tRequestU16
	return c16Desc(req, m.ID, m.Name, m.Enc, m.Payload)
}

func (w *c16World) note(c wwr.Connection, m wwr.Message, request bool) {
	n := c.Info(0).(int)
	enc := 0
	for k, e := range encs {
		if e == m.PayloadEncoding() {
			enc = k
		}
	}
	var id [8]byte
	if request {
		id = m.Identifier()
	}
	w.mu.Lock()
	w.handled[n] = append(w.handled[n], c16Desc(request, id, m.Name(), enc, m.Payload()))
	g := w.block[n]
	if g != nil {
		w.blocked[n]++
	}
	w.mu.Unlock()
	if g != nil {
		<-g
	}
}

func (w *c16World) impl() *Impl {
	return &Impl{
		Connected: func(o wwr.ConnectionOptions, c wwr.Connection) {
			w.mu.Lock()
			w.conns[c.Info(0).(int)]++
			w.mu.Unlock()
		},
		Disconnected: func(c wwr.Connection, err error) {
			w.mu.Lock()
			w.disc[c.Info(0).(int)]++
			w.mu.Unlock()
		},
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			w.note(c, m, true)
			return wwr.Payload{Data: append([]byte(nil), m.Payload()...)}, nil
		},
		Signal: func(c wwr.Connection, m wwr.Message) { w.note(c, m, false) },
	}
}

func newC16(r *Rng, roomy bool, o EnvOpts) *c16World {
	w := &c16World{handled: map[int][]string{}, conns: map[int]int{}, disc: map[int]int{}, block: map[int]chan struct{}{}, blocked: map[int]int{}}
	w.buf = r.Pick(64, 100, 300, 600)
	if o.BufSize != 0 {
		w.buf = int(o.BufSize)
	}
	if roomy && o.BufSize == 0 {
		w.buf = r.Pick(300, 600) // session notifications fit in
	}
	o.BufSize = uint32(w.buf)
	o.Impl = w.impl()
	o.Fragment = r.P(40)
	w.env = NewEnv(o)
	w.probe = w.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2)})
	return w
}

func (w *c16World) discs(cl *Client) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.disc[cl.id]
}

func (w *c16World) connected(cl *Client) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns[cl.id]
}

func (w *c16World) list(cl *Client) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.handled[cl.id]...)
}

// serves checks that a connection is served as if nothing had happened
func (w *c16World) serves(cl *Client, what string) bool {
	w.calls++
	pl := []byte(fmt.Sprintf("probe-%d", w.calls))
	before := len(w.list(cl))
	ref := cl.Call([]byte("probe"), 0, pl)
	if ref == nil {
		return false
	}
	if ref.Type != tReplyBin || !bytes.Equal(ref.Payload, pl) {
		ctx.Violate("disturbed", w.env.Log.Dump(), "%s: a connection's request is answered by %v", what, ref)
		return false
	}
	if n := len(w.list(cl)) - before; n != 1 {
		ctx.Violate("disturbed", w.env.Log.Dump(), "%s: a connection's request caused %d handler calls", what, n)
		return false
	}
	return true
}

// probed checks the connection that isn't hostile
func (w *c16World) probed(what string) bool {
	if !w.serves(w.probe, what) {
		return false
	}
	if w.probe.ServerClosed() || w.discs(w.probe) != 0 {
		ctx.Violate("disturbed", w.env.Log.Dump(), "%s: another connection was closed", what)
		return false
	}
	return true
}

func c16Verdict(raw []byte, buf int) (int, *Ref) {
	if len(raw) > buf {
		return vReject, nil
	}
	return refParse(raw)
}

// fresh generates a hostile message
func (w *c16World) fresh(r *Rng) []byte {
	for {
		raw := genWire(r)
		if r.P(10) {
			n := r.Pick(w.buf-1, w.buf, w.buf+1, w.buf+7, 2*w.buf)
			for len(raw) < n {
				raw = append(raw, byte(r.U64()))
			}
			raw = raw[:n]
		} else if len(raw) > w.buf && r.P(70) {
			raw = raw[:w.buf]
		}
		// the client's side of the in-memory transport refuses these
		if w.env.Mc != nil && (len(raw) == 0 || len(raw) > w.buf) {
			continue
		}
		return raw
	}
}

func c16Bytes(i int, r *Rng) {
	if r.P(30) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	o := EnvOpts{Memchan: r.P(40), Sessions: r.P(70), SM: NewMemSM()}
	if i%24 == 23 {
		o.BufSize = uint32(largeBuf(r))
	}
	w := newC16(r, false, o)
	e := w.env
	if w.probe == nil {
		return
	}
	var bad *Client
	rejected, accepted := 0, 0
	for k := r.Range(10, 25); k > 0 && ctx.NumViolations() == 0; k-- {
		if bad == nil {
			if bad = e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 3)}); bad == nil {
				return
			}
			Settle()
		}
		raw := w.fresh(r)
		v, ref := c16Verdict(raw, w.buf)
		handled, received := len(w.list(bad)), bad.NumReceived()
		bad.Send(raw)
		behind := v == vReject && r.P(50)
		if behind {
			bad.Request([]byte("behind"), 0, []byte("x"))
		}
		if !Settle() {
			return
		}
		now := w.list(bad)[handled:]
		var news []Recv
		if all := bad.Received(); len(all) > received {
			news = all[received:]
		}
		closed := bad.ServerClosed()
		what := fmt.Sprintf("message %x (%d bytes, buffer %d, %v)", clip(raw), len(raw), w.buf, ref)
		switch v {
		case vReject:
			rejected++
			if len(now) != 0 {
				ctx.Violate("malformed-handled", e.Log.Dump(), "malformed %s: handler called with %.300s", what, now[0])
			} else if !closed {
				ctx.Violate("malformed-ignored", e.Log.Dump(), "malformed %s: the connection wasn't closed", what)
			} else if n := w.discs(bad); n != 1 {
				ctx.Violate("hook", e.Log.Dump(), "malformed %s: the disconnected hook ran %d times", what, n)
			}
			bad = nil
		case vEither:
			if len(now) != 0 {
				ctx.Violate("malformed-handled", e.Log.Dump(), "%s: handler called with %.300s", what, now[0])
			}
			if closed {
				bad = nil
			}
		default:
			accepted++
			if closed {
				ctx.Violate("closed", e.Log.Dump(), "well-formed %s: the connection was closed", what)
				break
			}
			isReq := ref.Type >= tRequestBin && ref.Type <= tRequestU16
			isSig := ref.Type >= tSignalBin && ref.Type <= tSignalU16
			want := 0
			if isReq || isSig {
				want = 1
			}
			if len(now) != want || want == 1 && now[0] != c16Ref(ref) {
				ctx.Violate("handling", e.Log.Dump(), "well-formed %s: handler calls %v", what, now)
				break
			}
			replies := 0
			for _, x := range news {
				if x.Ref != nil && isReplyType(x.Ref.Type) && x.Ref.ID == ref.ID {
					replies++
				}
			}
			wantReplies := 0
			if isRequestType(ref.Type) {
				wantReplies = 1
			}
			if replies != wantReplies || len(news) != wantReplies {
				ctx.Violate("reply", e.Log.Dump(), "well-formed %s: %d replies, %d messages", what, replies, len(news))
				break
			}
			if r.P(40) && !w.serves(bad, "after well-formed "+what) {
				break
			}
		}
		if ctx.NumViolations() == 0 && r.P(40) && !w.probed("after "+what) {
			break
		}
		if len(raw) > 0 {
			ctx.Eval(fmt.Sprintf("bytes type=%d verdict=%d length=%d limit=%v", raw[0], v, sizeClass(len(raw)), e.Mc != nil))
		}
	}
	if ctx.NumViolations() == 0 {
		w.probed("at the end")
	}
	ctx.Count("malformed_messages", int64(rejected))
	ctx.Count("wellformed_messages", int64(accepted))
	ctx.Sample("%d malformed and %d well-formed messages, buffer %d", rejected, accepted, w.buf)
	e.Shutdown()
}

// c16Disconnect: a client leaves at a certain moment
func c16Disconnect(i int, r *Rng) {
	moments := []string{
		"idle", "handler running", "reply written", "connected hook", "configuration written",
		"restoration", "session closure", "connection closing", "shutdown", "delay point", "several handlers",
		"notification written", "creation hook", "session closed by the server",
	}
	moment := moments[i%len(moments)]
	mem := r.P(40)
	// these need control over the transport's writes
	if moment == "reply written" || moment == "configuration written" || moment == "notification written" {
		mem = false
	}
	sm := NewMemSM()
	w := newC16(r, true, EnvOpts{Memchan: mem, Sessions: true, SM: sm})
	e := w.env
	if w.probe == nil {
		return
	}
	gate := make(chan struct{})
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(gate)
		}
	}
	defer open()
	limit := r.Pick(-1, 0, 1, 2, 3)
	if moment == "several handlers" {
		limit = r.Pick(-1, 3, 5)
	}
	var bad *Client
	var shut, other func() bool
	connected := true
	hooked := make(chan struct{}, 100)
	hookWait := func(string) error { hooked <- struct{}{}; <-gate; return nil }
	var vg *Gate
	ready := func() bool { return true }
	blockAll := func() {
		w.mu.Lock()
		w.block[bad.id] = gate
		w.mu.Unlock()
	}
	blockedN := func(n int) func() bool {
		return func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.blocked[bad.id] >= n }
	}
	dial := func() bool {
		bad = e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		return bad != nil && Settle()
	}
	session := func() bool {
		con := bad.Conn()
		ok := Await(e.Log, "session creation", Go(func() {
			if err := con.CreateSession(nil); err != nil {
				ctx.Violate("creation", e.Log.Dump(), "session creation failed: %v", err)
			}
		}))
		return ok && Settle()
	}
	switch moment {
	case "idle":
		if !dial() {
			return
		}
	case "handler running":
		if !dial() {
			return
		}
		blockAll()
		if r.P(50) {
			bad.Request([]byte("r"), 0, []byte("x"))
		} else {
			bad.Send(encSignal([]byte("s"), 0, []byte("x")))
		}
		ready = blockedN(1)
	case "several handlers":
		if !dial() {
			return
		}
		blockAll()
		n := 5
		for x := 0; x < n; x++ {
			bad.Request([]byte("r"), 0, []byte("x"))
		}
		if limit > 0 && n > limit {
			n = limit
		}
		ready = blockedN(n)
	case "reply written":
		if !dial() {
			return
		}
		bad.ft.mu.Lock()
		bad.ft.writeGate = gate
		bad.ft.mu.Unlock()
		for x := r.Range(1, 3); x > 0; x-- {
			bad.Request([]byte("r"), 0, []byte("x"))
		}
	case "configuration written":
		e.Ft.mu.Lock()
		e.Ft.onDial = func(s *ftSocket) { s.writeGate = gate }
		e.Ft.mu.Unlock()
		var err error
		bad, err = e.Dial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		if err != nil {
			ctx.Violate("dial-refused", e.Log.Dump(), "dial: %v", err)
			return
		}
		e.Ft.mu.Lock()
		e.Ft.onDial = nil
		e.Ft.mu.Unlock()
		connected = false
	case "connected hook":
		vg = SetGate("connection.confWritten", 1)
		var err error
		bad, err = e.Dial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		if err != nil {
			vg.Release()
			ctx.Violate("dial-refused", e.Log.Dump(), "dial: %v", err)
			return
		}
		ready = func() bool { return vg.Arrived() == 1 }
	case "restoration":
		if !dial() {
			return
		}
		key := "unknown"
		if r.P(60) {
			sm.mu.Lock()
			sm.store[key] = memSess{creation: time.Unix(1500000000, 0)}
			sm.mu.Unlock()
		}
		sm.Hooks(nil, hookWait, nil)
		sendRestore(bad, key)
		ready = func() bool { return len(hooked) > 0 }
	case "session closure":
		if !dial() || !session() {
			return
		}
		sm.Hooks(nil, nil, hookWait)
		bad.Send(encCloseSession(bad.NewID()))
		ready = func() bool { return len(hooked) > 0 }
	case "session closed by the server":
		if !dial() || !session() {
			return
		}
		sm.Hooks(nil, nil, hookWait)
		con := bad.Conn()
		other = Go(func() { con.CloseSession() })
		ready = func() bool { return len(hooked) > 0 }
	case "creation hook":
		if !dial() {
			return
		}
		sm.Hooks(func(wwr.Connection, string) error { return hookWait("") }, nil, nil)
		con := bad.Conn()
		other = Go(func() { con.CreateSession(nil) })
		ready = func() bool { return len(hooked) > 0 }
	case "notification written":
		if !dial() {
			return
		}
		closing := r.P(50)
		if closing && !session() {
			return
		}
		bad.ft.mu.Lock()
		bad.ft.writeGate = gate
		bad.ft.mu.Unlock()
		con := bad.Conn()
		other = Go(func() {
			if closing {
				con.CloseSession()
			} else {
				con.CreateSession(nil)
			}
		})
	case "connection closing":
		if !dial() {
			return
		}
		blockAll()
		bad.Request([]byte("r"), 0, []byte("x"))
		if !Await(e.Log, "handler start", blockedN(1)) {
			return
		}
		con := bad.Conn()
		other = Go(func() { con.Close() })
		if r.P(50) {
			Settle()
			bad.Request([]byte("late"), 0, []byte("x"))
		}
	case "shutdown":
		if !dial() {
			return
		}
		blockAll()
		bad.Request([]byte("r"), 0, []byte("x"))
		if !Await(e.Log, "handler start", blockedN(1)) {
			return
		}
		shut = Go(func() { e.Srv.Shutdown() })
		if r.P(50) {
			Settle()
			bad.Request([]byte("late"), 0, []byte("x"))
		}
	case "delay point":
		if !dial() {
			return
		}
		if r.P(40) && !session() {
			return
		}
		places := []string{"register.active", "register.counted", "register.slot", "deregister.ops", "deregister.task",
			"restore.checked", "closureRequest.checked", "closeSession.listed", "closeSession.deregistered",
			"connection.readFailed", "connection.idle", "connection.closed", "unlink.deregistered", "flush.connected", "flush.handed", "read.received"}
		place := places[r.N(len(places))]
		vg = SetGate(place, 1)
		ctx.Count("gate:"+place, 1)
		for x := r.Range(1, 4); x > 0; x-- {
			switch r.N(4) {
			case 0:
				bad.Send(encCloseSession(bad.NewID()))
			case 1:
				sendRestore(bad, "unknown")
			case 2:
				bad.Send(encSignal([]byte("s"), 0, []byte("x")))
			default:
				bad.Request([]byte("r"), 0, []byte("x"))
			}
		}
	}
	if vg != nil {
		defer vg.Release()
	}
	if !Settle() {
		return
	}
	if !ready() {
		ctx.Violate("setup", witnessWithStacks(e.Log), "%s: the server doesn't get there", moment)
		return
	}
	probing := shut == nil
	// a connection of its own cannot be gated like the hostile one
	if vg != nil && moment == "delay point" && vg.Arrived() == 0 {
		vg.Release()
	}
	if probing && !w.probed("before a disconnect, "+moment) {
		return
	}
	how := r.N(4)
	if how == 3 && moment != "configuration written" {
		// garbage, then leave
		bad.Send([]byte{tRequestBin, 1, 2})
		Settle()
	}
	bad.Disconnect(how == 1)
	if !Settle() {
		return
	}
	if probing && !w.probed("after a disconnect, "+moment) {
		return
	}
	if probing {
		if x := e.MustDial(wwr.ConnectionOptions{}); x == nil || !w.serves(x, "new connection after a disconnect, "+moment) {
			return
		}
	}
	early := 0
	if r.P(30) {
		early = 1
		con := bad.Conn()
		if con != nil {
			Go(func() { con.Close() })
			Go(func() { con.Signal([]byte("x"), wwr.Payload{Data: []byte("y")}) })
			Settle()
		}
	}
	sm.Hooks(nil, nil, nil)
	if vg != nil {
		vg.Release()
	}
	open()
	if !Settle() {
		return
	}
	what := "after a disconnect, " + moment
	if other != nil && !Await(e.Log, "return of the call of the server, "+what, other) {
		return
	}
	if shut != nil {
		if !Await(e.Log, "return of Shutdown, "+what, shut) {
			return
		}
		Settle()
	}
	want := 1
	if !connected {
		want = 0
	}
	if n := w.connected(bad); n != want {
		ctx.Violate("hook", e.Log.Dump(), "%s: the connected hook ran %d times", what, n)
	} else if n := w.discs(bad); n != want {
		ctx.Violate("hook", witnessWithStacks(e.Log), "%s: the disconnected hook ran %d times", what, n)
	}
	if !connected && !mem && bad.ft.numCloses() != 1 {
		ctx.Violate("socket-open", e.Log.Dump(), "%s: the socket of a failed handshake was closed %d times", what, bad.ft.numCloses())
	}
	if probing {
		w.probed(what)
	}
	ctx.Eval(fmt.Sprintf("disconnect %s how=%d memchan=%v limit=%d early=%d", moment, how, mem, limit, early))
	if shut == nil {
		e.Shutdown()
	}
}

// c16Storm: hostile clients at the same time, without waiting
func c16Storm(i int, r *Rng) {
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w := newC16(r, false, EnvOpts{Memchan: r.P(40), Sessions: r.P(70), SM: NewMemSM(), LogOff: true})
	e := w.env
	if w.probe == nil {
		return
	}
	type hostile struct {
		cl   *Client
		want map[string]int // accepted in front of the first malformed message
		over bool           // a malformed message was sent
		fuzz bool           // it's open whether something closed the connection
		left bool
	}
	var all, live []*hostile
	dial := func() bool {
		cl, err := e.Dial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 3)})
		if err != nil {
			ctx.Violate("dial-refused", nil, "dial: %v", err)
			return false
		}
		h := &hostile{cl: cl, want: map[string]int{}}
		all, live = append(all, h), append(live, h)
		return true
	}
	for k := 0; k < 4; k++ {
		if !dial() {
			return
		}
	}
	for k := 0; k < 150 && ctx.NumViolations() == 0; k++ {
		x := r.N(len(live))
		h := live[x]
		if r.P(3) {
			h.left = true
			h.cl.Disconnect(r.P(50))
			live = append(live[:x], live[x+1:]...)
			if !dial() {
				return
			}
			continue
		}
		raw := w.fresh(r)
		v, ref := c16Verdict(raw, w.buf)
		if v == vReject && r.P(50) {
			continue // fewer of them, for longer connections
		}
		h.cl.Send(raw)
		switch v {
		case vReject:
			h.over = true
		case vEither:
			h.fuzz = true
		default:
			if !h.over && !h.fuzz && (ref.Type >= tSignalBin && ref.Type <= tRequestU16) {
				h.want[c16Ref(ref)]++
			}
		}
		if h.over && r.P(50) {
			live = append(live[:x], live[x+1:]...)
			if !dial() {
				return
			}
		}
		if r.P(10) && !w.probed("in a storm") {
			return
		}
	}
	if !Settle() {
		return
	}
	w.probed("after a storm")
	for _, h := range all {
		got := map[string]int{}
		for _, d := range w.list(h.cl) {
			got[d]++
		}
		for d, n := range got {
			if n > h.want[d] && !h.fuzz {
				ctx.Violate("malformed-handled", nil, "in a storm a handler was called %d times for a message sent %d times before the malformed one: %s", n, h.want[d], d)
			}
		}
		for d, n := range h.want {
			if got[d] < n && !h.left {
				ctx.Violate("handling", nil, "in a storm handlers were called %d times for a message sent %d times: %s", got[d], n, d)
			}
		}
		if h.over && !h.left && !h.cl.ServerClosed() {
			ctx.Violate("malformed-ignored", nil, "in a storm a connection with a malformed message wasn't closed")
		}
		if !h.over && !h.left && !h.fuzz && h.cl.ServerClosed() {
			ctx.Violate("closed", nil, "in a storm a connection without malformed messages was closed")
		}
		n, m := w.connected(h.cl), w.discs(h.cl)
		if m > n || n > 1 || (h.over || h.left) && m != n {
			ctx.Violate("hook", nil, "in a storm the connected hook ran %d times and the disconnected hook %d times", n, m)
		}
		ctx.Eval(fmt.Sprintf("storm over=%v fuzz=%v left=%v handled=%d", h.over, h.fuzz, h.left, sizeClass(len(got))))
	}
	e.Shutdown()
}

// c16Unread: clients that send but never read
func c16Unread(i int, r *Rng) {
	mem := r.P(70)
	w := newC16(r, true, EnvOpts{Memchan: mem, Sessions: true, SM: NewMemSM()})
	e := w.env
	if w.probe == nil {
		return
	}
	gate := make(chan struct{})
	var bad []*Client
	for k := r.Range(1, 4); k > 0; k-- {
		cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2, 3)})
		if cl == nil {
			return
		}
		bad = append(bad, cl)
		if !Settle() {
			return
		}
		if mem {
			cl.mu.Lock()
			cl.readGate = gate
			cl.mu.Unlock()
		} else {
			cl.ft.mu.Lock()
			cl.ft.writeGate = gate
			cl.ft.mu.Unlock()
		}
	}
	var calls []string
	for k := r.Range(3, 20); k > 0; k-- {
		cl := bad[r.N(len(bad))]
		switch r.N(6) {
		case 0:
			cl.Send(encCloseSession(cl.NewID()))
		case 1:
			sendRestore(cl, "unknown")
		case 2:
			con := cl.Conn()
			if con != nil {
				calls = append(calls, "create")
				Go(func() { con.CreateSession(nil) })
			}
		case 3:
			cl.Send(encSignal([]byte("s"), 0, []byte("x")))
		default:
			cl.Request([]byte("r"), 0, []byte("x"))
		}
	}
	if !Settle() {
		return
	}
	what := "while clients don't read (" + strings.Join(calls, ",") + ")"
	for k := 0; k < 3; k++ {
		if !w.probed(what) {
			close(gate)
			return
		}
	}
	if x := e.MustDial(wwr.ConnectionOptions{}); x == nil || !w.serves(x, what) {
		close(gate)
		return
	}
	// they leave without having read anything
	if mem || r.P(50) {
		for _, cl := range bad {
			cl.Disconnect(false)
		}
		if !mem {
			close(gate)
		}
	} else {
		close(gate)
	}
	if !Settle() {
		return
	}
	w.probed("after unread clients")
	ok := e.Shutdown()
	if mem {
		close(gate)
		Settle()
	}
	for _, cl := range bad {
		if n := w.discs(cl); ok && n != 1 {
			ctx.Violate("hook", e.Log.Dump(), "the disconnected hook of a client that didn't read ran %d times", n)
		}
	}
	ctx.Eval(fmt.Sprintf("unread clients=%d memchan=%v", len(bad), mem))
}
