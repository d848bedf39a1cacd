package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf16"

	wwr "github.com/qbeon/webwire-go"
)

/* C04: what a handler reads from its message is stable and isolated */

func init() { checks["C04"] = checkC04 }

func checkC04(c *Ctx) {
	c.Cases("stable", c.Scale(480, 19200), c04Stable)
	c.Cases("storm", c.Scale(64, 2560), c04Storm)
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C04", r) })
}

type c04Msg struct {
	conn    int
	request bool
	id      [8]byte
	name    []byte
	enc     int
	payload []byte
	utf8    []byte
	gate    bool
	num     int
}

func (m *c04Msg) key() string {
	return fmt.Sprintf("%d %v %x %q %d %q", m.conn, m.request, m.id, m.name, m.enc, m.payload)
}

func (m *c04Msg) String() string {
	kind := "signal"
	if m.request {
		kind = fmt.Sprintf("request %x", m.id)
	}
	return fmt.Sprintf("conn %d %s name=%.24q(%d) enc=%d payload=%.24q(%d)", m.conn, kind, m.name, len(m.name), m.enc, m.payload, len(m.payload))
}

// c04Run is a handler looking at its message
type c04Run struct {
	m     *c04Msg
	cmd   chan func(c wwr.Connection, m wwr.Message)
	done  int32
	looks int
}

type c04World struct {
	env  *Env
	buf  int
	r    *Rng
	mu   sync.Mutex
	sent map[string][]*c04Msg
	runs []*c04Run
	num  int
	open bool
	fast int64
}

// c04Views are the slices a handler got when it was entered
type c04Views struct{ name, payload []byte }

// look compares all the accessors with the message as it was sent
func (w *c04World) look(when string, m wwr.Message, v *c04Views, want *c04Msg, request bool) bool {
	id := &want.id
	if !request {
		id = nil
	}
	d := diffMsg(m, id, want.name, want.enc, want.payload)
	if d == "" {
		u, err := m.PayloadUtf8()
		switch {
		case err != nil:
			d = fmt.Sprintf("PayloadUtf8 fails: %v", err)
		case !bytes.Equal(u, want.utf8):
			d = fmt.Sprintf("PayloadUtf8 is %.60q instead of %.60q", u, want.utf8)
		}
	}
	if d == "" && v != nil {
		if !bytes.Equal(v.name, want.name) {
			d = fmt.Sprintf("the name read at entry is now %q instead of %q", v.name, want.name)
		} else if !bytes.Equal(v.payload, want.payload) {
			d = fmt.Sprintf("the payload read at entry is now %.60q instead of %.60q", v.payload, want.payload)
		}
	}
	ctx.Count("looks", 1)
	if d != "" {
		ctx.Violate("content", w.env.Log.Dump(), "%s, the handler of (%v) sees another message: %s", when, want, d)
		return false
	}
	return true
}

// identify finds out which message a handler got
func (w *c04World) identify(c wwr.Connection, m wwr.Message, request bool) *c04Msg {
	enc := 0
	for k, e := range encs {
		if e == m.PayloadEncoding() {
			enc = k
		}
	}
	got := &c04Msg{conn: c.Info(0).(int), request: request, name: m.Name(), enc: enc, payload: m.Payload()}
	if request {
		got.id = m.Identifier()
	}
	k := got.key()
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.sent[k]
	if len(l) == 0 {
		ctx.Violate("content", w.env.Log.Dump(), "a handler was entered with a message its client never sent: %v", got)
		return nil
	}
	// of several equal messages the gated ones come in any order
	w.sent[k] = l[1:]
	return l[0]
}

func (w *c04World) handle(c wwr.Connection, m wwr.Message, request bool) []byte {
	want := w.identify(c, m, request)
	if want == nil {
		return nil
	}
	v := &c04Views{name: m.Name(), payload: m.Payload()}
	ok := w.look("at entry", m, v, want, request)
	w.mu.Lock()
	gate := want.gate && !w.open
	run := &c04Run{m: want, cmd: make(chan func(wwr.Connection, wwr.Message))}
	if gate {
		w.runs = append(w.runs, run)
	}
	w.mu.Unlock()
	if gate {
		for f := range run.cmd {
			if f != nil {
				f(c, m)
			}
			ok = ok && w.look("while it was running", m, v, want, request)
			atomic.AddInt64(&w.fast, 1)
		}
		ok = ok && w.look("at the end", m, v, want, request)
		atomic.StoreInt32(&run.done, 1)
	} else {
		runtime.Gosched()
		ok = ok && w.look("at the end", m, v, want, request)
	}
	return m.Payload()
}

// send sends a message with random content
func (w *c04World) send(cl *Client, gate bool) *c04Msg {
	r := w.r
	m := &c04Msg{conn: cl.id, request: r.P(55), enc: r.N(3), gate: gate}
	head := 2
	if m.request {
		head = 10
		m.id = cl.NewID()
	}
	size := r.Pick(40, 60, w.buf/2, w.buf)
	m.name, m.payload = genNamePayload(r, size, head, m.enc)
	if m.enc == 2 {
		for i := 1; i < len(m.payload); i += 2 {
			m.payload[i] &= 0x5f // no surrogates
		}
		var u []uint16
		for i := 0; i+1 < len(m.payload); i += 2 {
			u = append(u, uint16(m.payload[i])|uint16(m.payload[i+1])<<8)
		}
		m.utf8 = []byte(string(utf16.Decode(u)))
	} else {
		m.utf8 = m.payload
	}
	if m.enc == 1 {
		for i := range m.payload {
			m.payload[i] = 32 + m.payload[i]%95
		}
	}
	if !m.request && len(m.payload) == 0 {
		m.payload, m.utf8 = []byte{65, 66}, []byte{65, 66}
		if m.enc == 2 {
			m.utf8 = []byte(string(utf16.Decode([]uint16{65 | 66<<8})))
		}
	}
	w.mu.Lock()
	w.num++
	m.num = w.num
	w.sent[m.key()] = append(w.sent[m.key()], m)
	w.mu.Unlock()
	if m.request {
		cl.Send(encRequest(m.id, m.name, m.enc, m.payload))
	} else {
		cl.Send(encSignal(m.name, m.enc, m.payload))
	}
	return m
}

func (w *c04World) running() (l []*c04Run) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, run := range w.runs {
		if atomic.LoadInt32(&run.done) == 0 {
			l = append(l, run)
		}
	}
	return l
}

func (w *c04World) runningOf(id int) (n int) {
	for _, run := range w.running() {
		if run.m.conn == id {
			n++
		}
	}
	return n
}

// poke makes every running handler look at its message again
func (w *c04World) poke(what string) bool {
	l := w.running()
	for _, run := range l {
		run.cmd <- nil
		run.looks++
	}
	if !Settle() {
		return false
	}
	for range l {
		ctx.Eval(fmt.Sprintf("look after %s, %d running, memchan=%v buffer=%d", what, len(l), w.env.Mc != nil, w.buf))
	}
	return ctx.NumViolations() == 0
}

func (w *c04World) finish(run *c04Run) { close(run.cmd) }

func (w *c04World) openAll() {
	w.mu.Lock()
	w.open = true
	w.mu.Unlock()
	for _, run := range w.running() {
		w.finish(run)
	}
}

// c04Malformed is a message that ends the connection it is sent on
func c04Malformed(r *Rng, buf int) []byte {
	switch r.N(5) {
	case 0:
		return append([]byte{tRequestBin}, r.Bytes(r.N(9))...)
	case 1:
		return []byte{tSignalU16, 0, 1}
	case 2:
		b := r.Bytes(buf + 1 + r.N(40))
		b[0] = tSignalBin
		return b
	case 3:
		// name longer than the message
		var b []byte
		over := r.Pick(1, 1, 1, 2, 3, 100)
		t := byte(r.Pick(tRequestBin, tRequestU8, tRequestU16, tSignalBin, tSignalU8, tSignalU16))
		flag := 9
		if t == tSignalBin || t == tSignalU8 || t == tSignalU16 {
			flag = 1
		}
		n := r.Range(2, 20)
		if (flag+1+n)%2 != 0 {
			n++ // aligned UTF16 messages
		}
		b = append([]byte{t}, r.Bytes(flag+n)...)
		b[flag] = byte(n + over)
		return b
	}
	return append([]byte{byte(r.Pick(6, 20, 40, 100, 180, 250))}, r.Bytes(r.N(60))...)
}

func c04Stable(i int, r *Rng) {
	if r.P(30) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	mem := r.P(35)
	w := &c04World{r: r, sent: map[string][]*c04Msg{}}
	w.buf = r.Pick(64, 128, 400, 1024)
	if i%96 == 95 {
		w.buf = largeBuf(r)
	}
	var down int32
	outcomes := int64(r.N(100))
	im := &Impl{
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			pl := w.handle(c, m, true)
			return c04Outcome(atomic.AddInt64(&outcomes, 1), w.buf, m.PayloadEncoding(), pl)
		},
		Signal: func(c wwr.Connection, m wwr.Message) { w.handle(c, m, false) },
	}
	e := NewEnv(EnvOpts{Memchan: mem, Fragment: r.P(40), Impl: im, Sessions: r.P(70), SM: NewMemSM(), BufSize: uint32(w.buf)})
	w.env = e
	var cls []*Client
	limits := map[int]int{}
	dial := func(limit int) *Client {
		cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		if cl != nil {
			cls = append(cls, cl)
			limits[cl.id] = limit
		}
		return cl
	}
	for _, l := range []int{r.Pick(-1, 4, 8), r.Pick(-1, 0, 1, 2), r.Pick(-1, 3)} {
		if dial(l) == nil {
			return
		}
	}
	closing := map[int]bool{}
	room := func(cl *Client) bool {
		l := limits[cl.id]
		if l == 0 {
			l = 1
		}
		return l < 0 || w.runningOf(cl.id) < l
	}
	start := func() {
		for k := 0; k < 10; k++ {
			cl := cls[r.N(len(cls))]
			if !closing[cl.id] && room(cl) {
				w.send(cl, true)
				return
			}
		}
	}
	for k := r.Range(1, 6); k > 0; k-- {
		start()
		if !Settle() {
			return
		}
	}
	if len(w.running()) == 0 {
		ctx.Violate("not-handled", witnessWithStacks(e.Log), "no message was handled")
		w.openAll()
		e.Shutdown()
		return
	}
	if !w.poke("others being received") {
		w.openAll()
		e.Shutdown()
		return
	}
	open := func() *Client {
		var l []*Client
		for _, cl := range cls {
			if !closing[cl.id] && room(cl) {
				l = append(l, cl)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[r.N(len(l))]
	}
	var shut func() bool
	for k := r.Range(4, 14); k > 0 && ctx.NumViolations() == 0; k-- {
		what := ""
		cl := open()
		dead := atomic.LoadInt32(&down) != 0
		act := r.N(14)
		switch {
		case act < 3 && cl != nil && !dead:
			what = "messages being handled"
			for x := r.Range(1, 8); x > 0; x-- {
				w.send(cl, false)
			}
		case act == 3 && !dead:
			what = "handlers starting"
			start()
		case act == 4 && cl != nil:
			what = "ignored messages"
			for x := r.Range(1, 6); x > 0; x-- {
				sendNoise(cl, r)
			}
		case act == 5 && !dead:
			what = "malformed messages"
			if x := dial(r.Pick(-1, 1)); x != nil {
				closing[x.id] = true
				if r.P(50) {
					closing[x.id] = false
					w.send(x, r.P(50))
					Settle()
					closing[x.id] = true
				}
				x.Send(c04Malformed(r, w.buf))
			}
		case act == 6 && cl != nil && !dead:
			// its handlers go on
			what = "a disconnect"
			closing[cl.id] = true
			cl.Disconnect(r.P(50))
			if dial(limits[cl.id]) == nil {
				return
			}
		case act == 7 && cl != nil && !dead && r.P(40):
			what = "rejected messages"
			closing[cl.id] = true
			con := cl.Conn()
			Go(func() { con.Close() })
			Settle()
			for x := r.Range(1, 5); x > 0; x-- {
				w.send(cl, false)
			}
			if dial(limits[cl.id]) == nil {
				return
			}
		case act == 8 && !dead:
			what = "new connections"
			x := dial(r.Pick(-1, 1, 2))
			if x == nil {
				return
			}
			w.send(x, r.P(60))
		case act == 9:
			what = "server-side calls"
			if l := w.running(); len(l) > 0 {
				f := func(c wwr.Connection, m wwr.Message) {
					switch r.N(4) {
					case 0:
						c.Signal(m.Name(), wwr.Payload{Encoding: m.PayloadEncoding(), Data: m.Payload()})
					case 1:
						c.CreateSession(nil)
					case 2:
						c.CloseSession()
					default:
						c.Signal(r.Name(r.N(9)), wwr.Payload{Data: r.Bytes(1 + r.N(40))})
					}
				}
				l[r.N(len(l))].cmd <- f
			}
		case act == 10:
			what = "a handler's end"
			if l := w.running(); len(l) > 1 {
				w.finish(l[r.N(len(l))])
			}
		case act == 11:
			what = "garbage collection"
			runtime.GC()
		case act == 12 && !dead && k < 4:
			what = "shutdown"
			atomic.StoreInt32(&down, 1)
			shut = Go(func() { e.Srv.Shutdown() })
			Settle()
			if cl != nil {
				for x := r.Range(1, 5); x > 0; x-- {
					w.send(cl, false)
				}
			}
		case cl != nil && !dead:
			what = "a series of messages"
			for x := r.Range(10, 30); x > 0; x-- {
				w.send(cl, false)
			}
		default:
			continue
		}
		if !Settle() || !w.poke(what) {
			break
		}
	}
	ctx.Sample("memchan=%v buffer=%d: %d messages, %d handlers looked several times", mem, w.buf, w.num, len(w.runs))
	for len(w.running()) > 0 && ctx.NumViolations() == 0 {
		l := w.running()
		w.finish(l[r.N(len(l))])
		if !Settle() || !w.poke("a handler's end") {
			break
		}
	}
	w.openAll()
	if shut != nil {
		Await(e.Log, "return of Shutdown", shut)
		return
	}
	e.Shutdown()
}

// c04Storm: many handlers looking at their messages without any order
// c04Outcome varies the outcomes of requests, which are not judged here
func c04Outcome(n int64, buf int, enc wwr.PayloadEncoding, data []byte) (wwr.Payload, error) {
	switch n % 12 {
	case 1:
		return wwr.Payload{}, errors.New("internal")
	case 3:
		return wwr.Payload{}, wwr.ErrRequest{Code: "CODE", Message: "explicit"}
	case 5:
		return wwr.Payload{}, &wwr.ErrRequest{Code: "CODE", Message: "explicit"}
	case 7:
		return wwr.Payload{}, wwr.ErrRequest{Code: strings.Repeat("c", 256), Message: "not representable"}
	case 9:
		return wwr.Payload{Data: make([]byte, buf)}, nil
	case 11:
		return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("odd")}, nil
	}
	return wwr.Payload{Encoding: enc, Data: data}, nil
}

func c04Storm(i int, r *Rng) {
	w := &c04World{r: r, sent: map[string][]*c04Msg{}, buf: r.Pick(64, 200, 1024)}
	if i%32 == 31 {
		w.buf = largeBuf(r)
	}
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	var calls, outcomes int64
	slow := func(c wwr.Connection, m wwr.Message, request bool) []byte {
		want := w.identify(c, m, request)
		if want == nil {
			return nil
		}
		n := atomic.AddInt64(&calls, 1)
		v := &c04Views{name: m.Name(), payload: m.Payload()}
		rr := NewRng(uint64(n), uint64(want.num))
		ok := true
		for x := rr.N(4); x >= 0 && ok; x-- {
			ok = w.look("in a storm", m, v, want, request)
			switch rr.N(4) {
			case 0:
				time.Sleep(time.Duration(rr.N(400)) * time.Microsecond)
			default:
				runtime.Gosched()
			}
		}
		w.look("at the end, in a storm", m, v, want, request)
		ctx.Eval(fmt.Sprintf("storm size=%d request=%v buffer=%d", sizeClass(len(want.payload)), request, w.buf))
		return m.Payload()
	}
	im := &Impl{
		Request: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			return c04Outcome(atomic.AddInt64(&outcomes, 1), w.buf, m.PayloadEncoding(), slow(c, m, true))
		},
		Signal: func(c wwr.Connection, m wwr.Message) {
			slow(c, m, false)
			if atomic.AddInt64(&outcomes, 1)%7 == 0 {
				c.CreateSession(nil)
			}
		},
	}
	sm := NewMemSM()
	sm.store["fine"] = memSess{creation: time.Now(), info: map[string]interface{}{"x": "y"}}
	sm.store["large"] = memSess{creation: time.Now(), info: map[string]interface{}{"x": strings.Repeat("y", w.buf)}}
	sm.store["strange"] = memSess{creation: time.Now(), info: map[string]interface{}{"x": make(chan int)}}
	sm.Hooks(nil, func(key string) error {
		if key == "failing" {
			return errNoSession
		}
		return nil
	}, nil)
	e := NewEnv(EnvOpts{Memchan: r.P(50), Fragment: r.P(50), Impl: im, BufSize: uint32(w.buf), LogOff: true,
		Sessions: r.P(75), SM: sm, MaxConns: uint(r.Pick(0, 1, 1, 2))})
	w.env = e
	var cls []*Client
	for k := r.Range(3, 6); k > 0; k-- {
		cl := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(-1, -1, 1, 2, 6)})
		if cl == nil {
			return
		}
		cls = append(cls, cl)
	}
	num := 150
	if w.buf > 30000 {
		num = 30
	}
	for k := 0; k < num; k++ {
		cl := cls[r.N(len(cls))]
		switch {
		case r.P(10):
			sendNoise(cl, r)
		case r.P(12):
			cl.Send(encRestore(cl.NewID(), []string{"fine", "fine", "fine", "large", "strange", "failing"}[r.N(6)]))
		case r.P(4):
			x, err := e.Dial(wwr.ConnectionOptions{})
			if err == nil {
				if r.P(50) {
					w.send(x, false)
				}
				x.Send(c04Malformed(r, w.buf))
			}
		default:
			w.send(cl, false)
		}
	}
	Settle()
	e.Shutdown()
}
