package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

/* C17: handshake, hooks and facts of connections */

func init() { checks["C17"] = checkC17 }

func checkC17(c *Ctx) {
	c.Cases("conf", c.Scale(400, 16000), c17Conf)
	c.Cases("life", c.Scale(560, 22400), c17Life)
	c.Cases("failed", c.Scale(320, 9600), c17Failed)
	c.Cases("storm", c.Scale(64, 2560), c17Storm)
	c.Cases("bare", c.Scale(160, 4800), c17Bare)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C17", r) })
}

// c17Bare: a server with default options and connections without any options
func c17Bare(i int, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	elog := &EventLog{}
	tr := &memchan.Transport{}
	given := wwr.ConnectionOptions{}
	kind := r.N(4)
	switch kind {
	case 1:
		tr.OnBeforeCreation = func() wwr.ConnectionOptions { return wwr.ConnectionOptions{} }
	case 2:
		given.ConcurrencyLimit = r.Pick(-1, 1, 3)
		tr.OnBeforeCreation = func() wwr.ConnectionOptions { return given }
	case 3:
		given.Info = map[int]interface{}{}
		tr.OnBeforeCreation = func() wwr.ConnectionOptions { return given }
	}
	keys := []int{0, 1, -1, 7, 1 << 40}
	var mu sync.Mutex
	var cons []wwr.Connection
	var facts []c17Facts
	connected, gone := map[wwr.Connection]int{}, map[wwr.Connection]int{}
	bad := ""
	check := func(when string, c wwr.Connection) {
		mu.Lock()
		defer mu.Unlock()
		for k, x := range cons {
			if x != c {
				continue
			}
			if s := facts[k].diff(factsOf(c, keys)); s != "" && bad == "" && !(when == "disconnected hook") {
				bad = when + ": " + s
			}
			return
		}
		bad = when + ": called for an unknown connection"
	}
	impl := &Impl{
		Connected: func(o wwr.ConnectionOptions, c wwr.Connection) {
			mu.Lock()
			defer mu.Unlock()
			cons = append(cons, c)
			connected[c]++
			f := factsOf(c, keys)
			facts = append(facts, f)
			for k, v := range f.info {
				if v != nil {
					bad = fmt.Sprintf("Info(%d) is %v although there is none", k, v)
				}
			}
			if o.Connection != given.Connection || o.ConcurrencyLimit != given.ConcurrencyLimit || len(o.Info) > 0 {
				bad = fmt.Sprintf("options %v instead of %v", o, given)
			}
		},
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			check("request handler", c)
			return wwr.Payload{Data: append([]byte(nil), m.Payload()...)}, nil
		},
		Disconnected: func(c wwr.Connection, err error) {
			check("disconnected hook", c)
			mu.Lock()
			gone[c]++
			mu.Unlock()
		},
	}
	srv, err := wwr.NewServer(impl, wwr.ServerOptions{SessionManager: NewMemSM(), WarnLog: log.New(io.Discard, "", 0), ErrorLog: log.New(io.Discard, "", 0)}, tr)
	if err != nil {
		ctx.Violate("setup", nil, "default options are refused: %v", err)
		return
	}
	run := Go(func() { srv.Run() })
	n := r.Range(1, 3)
	var socks []wwr.ClientSocket
	for k := 0; k < n; k++ {
		ct := memchan.ClientTransport{Server: tr}
		sock, err := ct.NewSocket(time.Second)
		if err == nil {
			err = sock.Dial(time.Time{})
		}
		if err != nil {
			ctx.Violate("dial-refused", elog.Dump(), "dial: %v", err)
			return
		}
		socks = append(socks, sock)
		m := message.NewMessage(70000)
		if !Await(elog, "configuration message", Go(func() {
			if e := sock.Read(m, time.Time{}); e != nil {
				err = e
			}
		})) {
			return
		}
		if err != nil || m.MsgType != message.MsgAcceptConf {
			ctx.Violate("conf", elog.Dump(), "the first message is of type %d (error %v)", m.MsgType, err)
			return
		}
		conf := m.ServerConfiguration
		if conf.MessageBufferSize != 8192 || conf.ReadTimeout != time.Minute || len(conf.SubProtocolName) > 0 || conf.MajorProtocolVersion != 2 || conf.MinorProtocolVersion != 0 {
			ctx.Violate("conf", elog.Dump(), "the configuration of a server with default options is %v", conf)
			return
		}
		// a message of exactly the stated size
		id := [8]byte{1, 2, 3, byte(k)}
		req := encRequest(id, nil, 0, r.Bytes(int(conf.MessageBufferSize)-10))
		m = message.NewMessage(70000)
		if !Await(elog, "reply to a message of the stated size", Go(func() {
			w, e := sock.GetWriter()
			if e == nil {
				if _, e = w.Write(req); e == nil {
					e = w.Close()
				}
			}
			if err = e; err == nil {
				if e := sock.Read(m, time.Time{}); e != nil {
					err = e
				}
			}
		})) {
			return
		}
		if err != nil || m.MsgType != message.MsgReplyBinary || m.MsgIdentifier != id {
			ctx.Violate("stated-size", elog.Dump(), "a request of the stated size: error %v, reply of type %d", err, m.MsgType)
			return
		}
		ctx.Eval(fmt.Sprintf("bare/%d/%d", kind, k))
	}
	mu.Lock()
	have := append([]wwr.Connection(nil), cons...)
	mu.Unlock()
	for _, c := range have {
		c := c
		switch r.N(3) {
		case 0:
			c.Close()
		case 1:
			socks[r.N(len(socks))].Close()
		}
	}
	down := Go(func() { srv.Shutdown() })
	if !Await(elog, "end of the server", func() bool { return down() && run() }) || !Settle() {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if len(cons) != n || bad != "" {
		ctx.Violate("bare", elog.Dump(), "%d connections, %d announced: %s", n, len(cons), bad)
		return
	}
	for _, c := range cons {
		if connected[c] != 1 || gone[c] != 1 {
			ctx.Violate("bare-hooks", elog.Dump(), "the connected hook ran %s, the disconnected one %s", times(connected[c]), times(gone[c]))
			return
		}
	}
}

func genSubProto(r *Rng, max int) []byte {
	n := r.Pick(0, 0, 1, 5, r.N(40), r.N(300), max)
	if n > max {
		n = max
	}
	if r.P(50) {
		return r.Name(n)
	}
	return r.Bytes(n)
}

// c17Conf: the configuration message states the configuration
func c17Conf(i int, r *Rng) {
	mem := r.P(50)
	buf := uint32(r.Pick(0, 32, 33, 64, r.Range(32, 600), r.Range(32, 100000), 8192, 65536))
	room := int(buf) - 11
	if buf == 0 {
		room = 8192 - 11
	}
	if room > 400 {
		room = 400
	}
	if mem && room > 250 {
		room = 250
	}
	sub := genSubProto(r, room)
	T := []time.Duration{
		0, 1, -5 * time.Second, 999 * time.Millisecond, time.Second - 1, time.Second, time.Second + 1,
		time.Duration(r.Range(1000, 100000)) * time.Millisecond, time.Duration(r.U64()%uint64(4e15)) + time.Second,
		4294967295 * time.Millisecond, 4294967295*time.Millisecond + time.Millisecond - 1,
		4294967296 * time.Millisecond, 4294967296*time.Millisecond + 5*time.Second, 1<<63 - 1,
	}[r.N(14)]
	applied := T
	if T < time.Second {
		applied = 60 * time.Second
	}
	given := append([]byte(nil), sub...)
	if len(sub) == 0 && r.P(50) {
		given = nil
	}
	lg := log.New(io.Discard, "", 0)
	elog := &EventLog{}
	ft := newFt(elog, 0)
	mc := &memchan.Transport{}
	var tr wwr.Transport = ft
	if mem {
		tr = mc
	}
	opts := wwr.ServerOptions{
		Sessions: wwr.Disabled, ReadTimeout: T, MessageBufferSize: buf, SubProtocolName: given, WarnLog: lg, ErrorLog: lg,
	}
	srv, err := wwr.NewServer(&Impl{}, opts, tr)
	// the timeout must fit into the message
	if err != nil {
		if applied/time.Millisecond <= 4294967295 {
			ctx.Violate("refused", nil, "NewServer refuses buffer size %d, timeout %v, %d bytes of sub-protocol name: %v", buf, T, len(sub), err)
		}
		ctx.Eval(fmt.Sprintf("conf refused timeout=%v", T/time.Hour))
		return
	}
	run := Go(func() { srv.Run() })
	// the options belong to the caller again
	for k := range given {
		given[k] ^= 0x55
	}
	for k := r.Range(1, 3); k > 0; k-- {
		var first []byte
		if mem {
			ct := memchan.ClientTransport{Server: mc}
			size := uint32(8192)
			sock, err := ct.NewSocket(time.Second)
			if err == nil {
				err = sock.Dial(time.Time{})
			}
			if err != nil {
				ctx.Violate("dial-refused", nil, "dial: %v", err)
				break
			}
			first = mcReceive(sock, size)
			sock.Close()
		} else {
			s, err := ft.dial(k, wwr.ConnectionOptions{})
			if err != nil {
				ctx.Violate("dial-refused", nil, "dial: %v", err)
				break
			}
			Settle()
			s.mu.Lock()
			if len(s.out) > 0 {
				first = s.out[0].Raw
			}
			n := len(s.out)
			s.mu.Unlock()
			if n != 1 {
				ctx.Violate("messages", elog.Dump(), "a new client received %d messages instead of the configuration only", n)
			}
			s.disconnect(false)
		}
		v, ref := refParse(first)
		if v != vAccept || ref.Type != tAcceptConf {
			ctx.Violate("no-configuration", elog.Dump(), "the first message is %x", clip(first))
			break
		}
		wantBuf := buf
		if buf == 0 {
			wantBuf = 8192
		}
		if ref.Major != 2 || ref.Minor != 0 {
			ctx.Violate("version", nil, "protocol version %d.%d", ref.Major, ref.Minor)
		}
		if d := applied - ref.Timeout; d < 0 || d >= time.Millisecond {
			ctx.Violate("timeout", nil, "timeout %v (set up: %v) is stated as %v", applied, T, ref.Timeout)
		}
		if ref.BufSize != wantBuf {
			ctx.Violate("buffer-size", nil, "buffer size %d (set up: %d) is stated as %d", wantBuf, buf, ref.BufSize)
		}
		if string(ref.SubProto) != string(sub) {
			ctx.Violate("sub-protocol", nil, "sub-protocol name %q is stated as %q", sub, ref.SubProto)
		}
		ctx.Eval(fmt.Sprintf("conf memchan=%v buffer=%d timeout=%d sub=%d", mem, sizeClass(int(buf)), T/time.Second, len(sub)))
	}
	down := Go(func() { srv.Shutdown() })
	Await(elog, "end of the server", func() bool { return down() && run() })
	Settle()
}

// c17Facts are what a connection says about itself
type c17Facts struct {
	info     map[int]interface{}
	creation time.Time
	addr     net.Addr
	addrStr  string
}

func factsOf(c wwr.Connection, keys []int) c17Facts {
	f := c17Facts{info: map[int]interface{}{}, creation: c.Creation(), addr: c.RemoteAddr()}
	for _, k := range keys {
		f.info[k] = c.Info(k)
	}
	if f.addr != nil {
		f.addrStr = f.addr.Network() + " " + f.addr.String()
	}
	return f
}

func (f c17Facts) diff(g c17Facts) string {
	switch {
	case !reflect.DeepEqual(f.info, g.info):
		return fmt.Sprintf("info %v instead of %v", g.info, f.info)
	case !f.creation.Equal(g.creation):
		return fmt.Sprintf("creation %v instead of %v", g.creation, f.creation)
	case f.addrStr != g.addrStr:
		return fmt.Sprintf("remote address %q instead of %q", g.addrStr, f.addrStr)
	}
	return ""
}

// c17Rec is what happened to one connection
type c17Rec struct {
	opts                                  wwr.ConnectionOptions
	conns                                 int
	discs                                 int
	start, end, disc, firstHandled, ended int64
	handled                               int
	con                                   wwr.Connection
	facts                                 c17Facts
	activeAtDisc, activeAtStart           bool
}

type c17World struct {
	log  *EventLog
	mu   sync.Mutex
	recs map[int]*c17Rec
	keys []int
	// scenario
	inHook  func(o wwr.ConnectionOptions, c wwr.Connection)
	inCall  func(c wwr.Connection)
	lookups int64
}

func (w *c17World) rec(n int) *c17Rec {
	r := w.recs[n]
	if r == nil {
		r = &c17Rec{}
		w.recs[n] = r
	}
	return r
}

func (w *c17World) facts(where string, c wwr.Connection) {
	f := factsOf(c, w.keys)
	w.mu.Lock()
	r := w.rec(c.Info(0).(int))
	d := r.facts.diff(f)
	w.mu.Unlock()
	if d != "" {
		ctx.Violate("facts", w.log.Dump(), "%s: %s", where, d)
	}
	ctx.Count("facts_compared", 1)
}

func (w *c17World) impl() *Impl {
	handle := func(c wwr.Connection) {
		n := c.Info(0).(int)
		w.mu.Lock()
		r := w.rec(n)
		r.handled++
		seq := w.log.Add("conn %d: handler", n)
		if r.firstHandled == 0 {
			r.firstHandled = seq
		}
		f := w.inCall
		w.mu.Unlock()
		w.facts("in a handler", c)
		if f != nil {
			f(c)
		}
	}
	return &Impl{
		Connected: func(o wwr.ConnectionOptions, c wwr.Connection) {
			n := c.Info(0).(int)
			w.mu.Lock()
			r := w.rec(n)
			r.conns++
			r.opts, r.con = o, c
			r.start = w.log.Add("conn %d: connected hook starts", n)
			r.facts = factsOf(c, w.keys)
			r.activeAtStart = c.IsActive()
			f := w.inHook
			w.mu.Unlock()
			if f != nil {
				f(o, c)
			}
			w.mu.Lock()
			r.end = w.log.Add("conn %d: connected hook returns", n)
			w.mu.Unlock()
		},
		Disconnected: func(c wwr.Connection, err error) {
			n := c.Info(0).(int)
			active := c.IsActive()
			w.facts("in the disconnected hook", c)
			w.mu.Lock()
			r := w.rec(n)
			r.discs++
			r.activeAtDisc = active
			r.disc = w.log.Add("conn %d: disconnected hook: %v", n, err)
			if r.con != c {
				ctx.Violate("other-connection", nil, "the disconnected hook got another connection object than the connected hook")
			}
			w.mu.Unlock()
		},
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			handle(c)
			return wwr.Payload{Data: []byte("ok")}, nil
		},
		Signal: func(c wwr.Connection, m wwr.Message) { handle(c) },
	}
}

func (w *c17World) get(n int) c17Rec {
	w.mu.Lock()
	defer w.mu.Unlock()
	return *w.rec(n)
}

// judge checks the order and number of the hooks of a connection; over tells
// whether it has ended, endSeq when its end was caused
func (w *c17World) judge(what string, cl *Client, over bool, endSeq int64, given wwr.ConnectionOptions, begin time.Time) bool {
	r := w.get(cl.id)
	bad := func(kind, f string, a ...interface{}) bool {
		ctx.Violate(kind, witnessWithStacks(w.log), what+": "+f, a...)
		return false
	}
	if r.conns != 1 {
		return bad("connected-hook", "the connected hook ran %d times", r.conns)
	}
	if !r.activeAtStart && endSeq == 0 {
		return bad("connected-hook", "the connection isn't active in the connected hook")
	}
	want := map[int]interface{}{0: cl.id}
	for k, v := range given.Info {
		want[k] = v
	}
	if r.opts.ConcurrencyLimit != given.ConcurrencyLimit || r.opts.Connection != given.Connection || !reflect.DeepEqual(r.opts.Info, want) {
		return bad("options", "the connected hook got %v instead of %v (info %v)", r.opts, given, want)
	}
	for _, k := range w.keys {
		if !reflect.DeepEqual(r.facts.info[k], want[k]) {
			return bad("info", "info %d is %v instead of %v", k, r.facts.info[k], want[k])
		}
	}
	if r.facts.creation.Before(begin) || r.facts.creation.After(time.Now()) {
		return bad("creation", "creation time %v, dialed at %v", r.facts.creation, begin)
	}
	if r.firstHandled != 0 && (r.end == 0 || r.firstHandled < r.end) {
		return bad("order", "a message was handled before the connected hook had returned")
	}
	got := cl.Received()
	if len(got) == 0 || got[0].Ref == nil || got[0].Ref.Type != tAcceptConf {
		return bad("first-message", "the first of %d messages isn't the configuration", len(got))
	}
	for _, m := range got[1:] {
		if m.Ref != nil && m.Ref.Type == tAcceptConf {
			return bad("first-message", "the configuration was sent again")
		}
	}
	if !over {
		if r.discs != 0 {
			return bad("disconnected-hook", "the disconnected hook ran although the connection hasn't ended")
		}
		return true
	}
	if r.discs != 1 {
		return bad("disconnected-hook", "the disconnected hook ran %d times", r.discs)
	}
	if r.disc < r.end || r.end == 0 {
		return bad("order", "the disconnected hook ran before the connected hook had returned")
	}
	if r.disc < endSeq {
		return bad("order", "the disconnected hook ran before the end of the connection")
	}
	if r.activeAtDisc {
		return bad("active", "the connection is active in the disconnected hook")
	}
	w.facts(what+", after the end", r.con)
	return ctx.NumViolations() == 0
}

// c17Life: hooks of connections that end in all the ways
func c17Life(i int, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	mem := r.P(45)
	w := &c17World{log: &EventLog{}, recs: map[int]*c17Rec{}, keys: []int{0, 1, -7, 42, 9999}}
	sm := NewMemSM()
	sm.Hooks(nil, func(string) error { atomic.AddInt64(&w.lookups, 1); return nil }, nil)
	e := NewEnv(EnvOpts{Memchan: mem, Fragment: r.P(30), Sessions: true, SM: sm, Impl: w.impl(), Log: w.log})
	other := e.MustDial(wwr.ConnectionOptions{})
	if other == nil || !Settle() {
		return
	}
	for k := r.Range(1, 3); k > 0 && ctx.NumViolations() == 0; k-- {
		given := wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, -5, 0, 1, 2, 7), Info: map[int]interface{}{}}
		if r.P(70) {
			given.Info[1] = "some info"
			given.Info[-7] = r.N(100)
		}
		if r.P(30) {
			given.Info[42] = nil
		}
		begin := time.Now()
		gate := make(chan struct{})
		held := r.P(60)
		hookDoes := r.N(6)
		w.mu.Lock()
		w.inHook = func(o wwr.ConnectionOptions, c wwr.Connection) {
			switch hookDoes {
			case 0:
				c.Signal([]byte("hello"), wwr.Payload{Data: []byte("x")})
			case 1:
				c.CreateSession(nil)
			case 2:
				c.Close()
			}
			if held {
				<-gate
			}
		}
		w.mu.Unlock()
		cl, err := e.Dial(given)
		if err != nil {
			ctx.Violate("dial-refused", w.log.Dump(), "dial: %v", err)
			return
		}
		// eager messages
		what := fmt.Sprintf("memchan=%v held=%v hook=%d limit=%d", mem, held, hookDoes, given.ConcurrencyLimit)
		lookups := atomic.LoadInt64(&w.lookups)
		eager := 0
		for x := r.Pick(0, 1, 3, 8); x > 0; x-- {
			eager++
			switch r.N(5) {
			case 0:
				sendRestore(cl, "unknown")
			case 1:
				cl.Send(encCloseSession(cl.NewID()))
			case 2:
				cl.Send(encSignal([]byte("s"), 0, []byte("x")))
			default:
				cl.Request([]byte("r"), 0, []byte("x"))
			}
		}
		if !Settle() {
			return
		}
		if held {
			rec := w.get(cl.id)
			if rec.conns != 1 || rec.end != 0 {
				ctx.Violate("connected-hook", witnessWithStacks(w.log), "%s: the connected hook ran %d times", what, rec.conns)
			}
			if rec.handled != 0 || atomic.LoadInt64(&w.lookups) != lookups {
				ctx.Violate("order", witnessWithStacks(w.log), "%s: %d messages handled and %d sessions looked up before the connected hook had returned", what, rec.handled, atomic.LoadInt64(&w.lookups)-lookups)
			}
			for _, m := range cl.Received() {
				if m.Ref != nil && isReplyType(m.Ref.Type) {
					ctx.Violate("order", w.log.Dump(), "%s: %v before the connected hook had returned", what, m.Ref)
				}
			}
			// another connection isn't held up
			if ref := other.Call([]byte("x"), 0, []byte("y")); ref == nil || ref.Type != tReplyBin {
				ctx.Violate("other-connection", w.log.Dump(), "another connection is answered by %v while a connected hook runs", ref)
			}
		}
		cause := []string{"client", "client abnormally", "server", "malformed", "handler", "shutdown", "read fault", "client and server"}[r.N(8)]
		if cause == "read fault" && mem {
			cause = "client"
		}
		if cause == "shutdown" && k > 1 {
			cause = "server"
		}
		early := held && r.P(40) // ends while the connected hook is running
		what += fmt.Sprintf(" cause=%s early=%v", cause, early)
		selfClosed := hookDoes == 2
		if !early {
			close(gate)
			if !Settle() {
				return
			}
			if !w.judge(what+", alive", cl, selfClosed, 0, given, begin) {
				break
			}
		}
		seq := w.log.Add("the connection is going to end: %s", cause)
		if selfClosed {
			seq = 1
		}
		con := w.get(cl.id).con
		if con == nil {
			ctx.Violate("connected-hook", w.log.Dump(), "%s: no connected hook", what)
			break
		}
		var down func() bool
		switch cause {
		case "client":
			cl.Disconnect(false)
		case "client abnormally":
			cl.Disconnect(true)
		case "server":
			for x := r.Range(1, 3); x > 0; x-- {
				Go(func() { con.Close() })
			}
		case "malformed":
			cl.Send([]byte{tRequestBin, 1, 2})
		case "handler":
			w.mu.Lock()
			w.inCall = func(c wwr.Connection) {
				if c == con {
					c.Close()
				}
			}
			w.mu.Unlock()
			cl.Request([]byte("r"), 0, []byte("x"))
		case "shutdown":
			down = Go(func() { e.Srv.Shutdown() })
		case "read fault":
			cl.ft.setFaults(func(op string, n int) error {
				if op == "read" {
					return errInjected
				}
				return nil
			})
			cl.Request([]byte("r"), 0, []byte("x"))
		case "client and server":
			Go(func() { con.Close() })
			cl.Disconnect(r.P(50))
		}
		if !Settle() {
			return
		}
		if early {
			if n := w.get(cl.id).discs; n != 0 {
				ctx.Violate("order", w.log.Dump(), "%s: the disconnected hook ran before the connected hook had returned", what)
			}
			close(gate)
			if !Settle() {
				return
			}
		}
		if down != nil && !Await(w.log, "return of Shutdown, "+what, down) {
			return
		}
		Settle()
		if !w.judge(what, cl, true, seq, given, begin) {
			break
		}
		w.mu.Lock()
		w.inCall = nil
		w.inHook = nil
		w.mu.Unlock()
		ctx.Eval("life " + what)
		if down != nil {
			// new connections are refused, without hooks
			x, err := e.Dial(wwr.ConnectionOptions{})
			Settle()
			if err == nil || x != nil && w.get(x.id).conns != 0 {
				ctx.Violate("dial-accepted", w.log.Dump(), "a connection is accepted after the shutdown")
			}
			if n := w.get(other.id).discs; n != 1 {
				ctx.Violate("disconnected-hook", w.log.Dump(), "after the shutdown the disconnected hook ran %d times", n)
			}
			return
		}
		if n := w.get(other.id); n.discs != 0 || n.conns != 1 {
			ctx.Violate("other-connection", w.log.Dump(), "%s: hooks of another connection ran: %v", what, n)
		}
	}
	e.Shutdown()
}

// c17Failed: refused connections and failed handshakes
func c17Failed(i int, r *Rng) {
	mem := i%3 == 0
	w := &c17World{log: &EventLog{}, recs: map[int]*c17Rec{}, keys: []int{0, 1}}
	o := EnvOpts{Memchan: mem, Impl: w.impl(), Log: w.log}
	kinds := []string{"get", "write", "flush", "write+flush", "client gone", "client gone while writing", "write+close", "flush+close", "get+close"}
	kind := kinds[r.N(len(kinds))]
	if mem {
		kind = []string{"refused", "too long", "shutting down", "shut down", "client gone"}[r.N(5)]
	}
	if kind == "too long" {
		o.BufSize = uint32(r.Range(32, 100))
		o.SubProto = r.Name(int(o.BufSize) - 11 + r.Pick(1, 2, 50))
	}
	e := NewEnv(o)
	var other *Client
	if kind != "too long" {
		if other = e.MustDial(wwr.ConnectionOptions{}); other == nil {
			return
		}
	}
	var down func() bool
	gate := make(chan struct{})
	given := wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 2), Info: map[int]interface{}{1: "x"}}
	switch kind {
	case "refused":
		given.Connection = wwr.Refuse
	case "shutting down":
		w.mu.Lock()
		w.inCall = func(wwr.Connection) { <-gate }
		w.mu.Unlock()
		other.Request([]byte("r"), 0, []byte("x"))
		Settle()
		down = Go(func() { e.Srv.Shutdown() })
		Settle()
	case "shut down":
		if !e.Shutdown() {
			return
		}
	}
	if e.Ft != nil {
		bad := map[string]bool{}
		switch kind {
		case "get", "write", "flush":
			bad[kind] = true
		case "write+flush":
			bad["write"], bad["flush"] = true, true
		case "get+close", "write+close", "flush+close":
			bad[kind[:len(kind)-6]], bad["close"] = true, true
		}
		e.Ft.mu.Lock()
		e.Ft.onDial = func(s *ftSocket) {
			s.faults = func(op string, n int) error {
				if bad[op] && n == 1 {
					return errInjected
				}
				return nil
			}
			switch kind {
			case "client gone":
				s.inErr = ftErr{closed: true, msg: "closed by the client"}
			case "client gone while writing":
				s.writeGate = gate
			}
		}
		e.Ft.mu.Unlock()
	}
	cl, err := e.Dial(given)
	if e.Ft != nil {
		e.Ft.mu.Lock()
		e.Ft.onDial = nil
		e.Ft.mu.Unlock()
		if kind == "client gone while writing" {
			Settle()
			cl.Disconnect(r.P(50))
			close(gate)
		} else {
			for k := r.N(3); k > 0; k-- {
				cl.Request([]byte("r"), 0, []byte("x"))
			}
		}
	}
	if mem && kind == "client gone" {
		if err != nil {
			ctx.Violate("dial-refused", w.log.Dump(), "dial: %v", err)
			return
		}
		// may be gone before or after the handshake
		cl.Disconnect(false)
	}
	if !Settle() {
		return
	}
	switch kind {
	case "refused", "shutting down", "shut down":
		if err == nil {
			ctx.Violate("dial-accepted", w.log.Dump(), "%s: the dial succeeded", kind)
		}
	}
	id := 1
	if other == nil {
		id = 0
	}
	rec := w.get(id)
	if mem && kind == "client gone" {
		if rec.conns > 1 || rec.conns != rec.discs {
			ctx.Violate("hooks", w.log.Dump(), "%s: the connected hook ran %d times, the disconnected hook %d times", kind, rec.conns, rec.discs)
		}
	} else {
		if rec.conns != 0 || rec.discs != 0 {
			ctx.Violate("hooks", w.log.Dump(), "%s: the connected hook ran %d times, the disconnected hook %d times", kind, rec.conns, rec.discs)
		}
	}
	if rec.handled != 0 && rec.conns == 0 {
		ctx.Violate("handled", w.log.Dump(), "%s: %d messages were handled", kind, rec.handled)
	}
	if e.Ft != nil {
		if n := cl.ft.numCloses(); n != 1 {
			ctx.Violate("socket", w.log.Dump(), "%s: the socket was closed %d times", kind, n)
		}
		if n := cl.NumReceived(); n != 0 {
			ctx.Violate("received", w.log.Dump(), "%s: the client received %d messages", kind, n)
		}
	} else if kind == "too long" && err == nil {
		if !cl.ServerClosed() {
			ctx.Violate("socket", w.log.Dump(), "%s: the connection wasn't closed", kind)
		}
	}
	if kind == "shutting down" {
		close(gate)
		Await(w.log, "return of Shutdown", down)
		Settle()
	} else if other != nil && kind != "shut down" {
		if ref := other.Call([]byte("x"), 0, []byte("y")); ref == nil || ref.Type != tReplyBin {
			ctx.Violate("other-connection", w.log.Dump(), "%s: another connection is answered by %v", kind, ref)
		}
		x := e.MustDial(given2(given))
		if x == nil {
			return
		}
		if ref := x.Call([]byte("x"), 0, []byte("y")); ref == nil || ref.Type != tReplyBin {
			ctx.Violate("other-connection", w.log.Dump(), "%s: the next connection is answered by %v", kind, ref)
		}
	}
	ctx.Eval(fmt.Sprintf("failed %s limit=%d hooks=%d", kind, given.ConcurrencyLimit, rec.conns))
	ctx.Sample("%s: no hooks, other connections are served", kind)
	if kind != "shutting down" && kind != "shut down" {
		e.Shutdown()
	}
}

func given2(o wwr.ConnectionOptions) wwr.ConnectionOptions {
	o.Connection = wwr.Accept
	return o
}

// c17Storm: connections coming and going at the same time
func c17Storm(i int, r *Rng) {
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w := &c17World{log: &EventLog{off: true}, recs: map[int]*c17Rec{}, keys: []int{0, 1}}
	e := NewEnv(EnvOpts{Memchan: r.P(50), Fragment: r.P(50), Impl: w.impl(), Log: w.log, Sessions: r.P(50), SM: NewMemSM()})
	hook := r.N(3)
	w.mu.Lock()
	w.inHook = func(o wwr.ConnectionOptions, c wwr.Connection) {
		switch hook {
		case 1:
			c.Signal(nil, wwr.Payload{Data: []byte("hello")})
		case 2:
			go c.Signal(nil, wwr.Payload{Data: []byte("hello")})
		}
	}
	w.mu.Unlock()
	type life struct {
		cl    *Client
		over  bool
		seq   int64
		given wwr.ConnectionOptions
		begin time.Time
	}
	var all []*life
	n := r.Range(10, 40)
	for k := 0; k < n; k++ {
		l := &life{given: wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, 0, 1, 3), Info: map[int]interface{}{1: k}}, begin: time.Now()}
		cl, err := e.Dial(l.given)
		if err != nil {
			ctx.Violate("dial-refused", nil, "dial: %v", err)
			return
		}
		l.cl = cl
		all = append(all, l)
		for x := r.N(4); x > 0; x-- {
			cl.Request([]byte("r"), 0, []byte("x"))
		}
		// end some earlier one; its handshake is through if a message arrived
		x := all[r.N(len(all))]
		if !x.over && x.cl.NumReceived() > 0 {
			x.over = true
			x.seq = Tick()
			switch r.N(3) {
			case 0:
				x.cl.Disconnect(r.P(50))
			case 1:
				x.cl.Send([]byte{tSignalU16, 0})
			default:
				con := x.cl.Conn()
				if con == nil {
					x.cl.Disconnect(false)
				} else {
					Go(func() { con.Close() })
				}
			}
		}
	}
	if !Settle() {
		return
	}
	for _, l := range all {
		if !w.judge("in a storm", l.cl, l.over, l.seq, l.given, l.begin) {
			break
		}
		ctx.Eval(fmt.Sprintf("storm over=%v limit=%d hook=%d handled=%d", l.over, l.given.ConcurrencyLimit, hook, w.get(l.cl.id).handled))
	}
	// those left end by the shutdown
	if e.Shutdown() {
		for _, l := range all {
			if !w.judge("after the shutdown", l.cl, true, l.seq, l.given, l.begin) {
				break
			}
		}
	}
}

// mcReceive receives one message over an in-memory connection
func mcReceive(s wwr.ClientSocket, size uint32) []byte {
	m := message.NewMessage(size)
	if err := s.Read(m, time.Time{}); err != nil {
		return nil
	}
	return append([]byte(nil), m.MsgBuffer.Data()...)
}
