package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

/* C19 delivery, C20 life cycle of the in-memory transport */

func init() {
	checks["C19"] = checkC19
	checks["C20"] = checkC20
}

// mcWorld is an in-memory transport without a server behind it
type mcWorld struct {
	log   *EventLog
	tr    *memchan.Transport
	mu    sync.Mutex
	socks []wwr.Socket // server side sockets in the order of their connection
	opts  []wwr.ConnectionOptions
	next  wwr.ConnectionOptions
	shut  bool
	ct    *memchan.ClientTransport
	cts   int
}

func newMcWorld(buf uint32) *mcWorld {
	w := &mcWorld{log: &EventLog{}}
	w.next = wwr.ConnectionOptions{Connection: wwr.Accept}
	w.tr = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.next
	}}
	err := w.tr.Initialize(wwr.ServerOptions{MessageBufferSize: buf, ReadTimeout: time.Minute},
		func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.shut
		},
		func(o wwr.ConnectionOptions, s wwr.Socket) {
			w.mu.Lock()
			w.socks = append(w.socks, s)
			w.opts = append(w.opts, o)
			w.mu.Unlock()
		})
	if err != nil {
		panic(err)
	}
	return w
}

func (w *mcWorld) numSocks() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.socks)
}

func (w *mcWorld) client() wwr.ClientSocket {
	// a client transport makes any number of sockets
	w.mu.Lock()
	if w.ct == nil || w.cts%3 == 0 {
		w.ct = &memchan.ClientTransport{Server: w.tr}
	}
	w.cts++
	ct := w.ct
	w.mu.Unlock()
	s, err := ct.NewSocket(time.Second)
	if err != nil {
		panic(err)
	}
	return s
}

// connect dials and returns the server side socket
func (w *mcWorld) connect(cl wwr.ClientSocket) wwr.Socket {
	n := w.numSocks()
	var err error
	if !Await(w.log, "return of Dial", Go(func() { err = cl.Dial(time.Time{}) })) {
		return nil
	}
	if err != nil {
		ctx.Violate("dial-refused", w.log.Dump(), "an accepted dial failed: %v", err)
		return nil
	}
	if !cl.IsConnected() {
		ctx.Violate("not-connected", w.log.Dump(), "the socket isn't connected after it was dialed")
		return nil
	}
	if !Await(w.log, "announcement of a new connection", func() bool { return w.numSocks() > n }) {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.socks[len(w.socks)-1]
	if !s.IsConnected() {
		ctx.Violate("not-connected", w.log.Dump(), "the server side socket isn't connected after the client dialed")
		return nil
	}
	return s
}

type mcWrite struct {
	acq  int64
	done int64
	raw  []byte
	err  error
	kind string
}

// mcDir is one direction of a connection
type mcDir struct {
	w      *mcWorld
	name   string
	buf    int
	mu     sync.Mutex
	writes []*mcWrite
	active int
	reads  [][]byte
	ended  int // readers that got a close error
	tmo    []string
	gate   chan struct{}
	multi  bool // several readers, the order can't be observed
}

var mcToken uint64

// mcMessage is a unique well-formed message
func mcMessage(r *Rng, n int) []byte {
	t := atomic.AddUint64(&mcToken, 1)
	if n < 10 {
		n = 10
	}
	b := make([]byte, n)
	copy(b[2:], tokenBytes(t))
	copy(b[10:], r.Bytes(n-10))
	switch r.N(3) {
	case 0:
		b[0], b[1] = tSignalBin, 0
	case 1:
		b[0], b[1] = tReplyBin, 0
	default:
		b[0] = tSessCreated
	}
	return b
}

func (d *mcDir) write(s wwr.Socket, r *Rng, onlyOK bool) {
	k := r.N(10)
	wr := &mcWrite{kind: "ok"}
	n := r.Pick(10, 11, r.Range(10, d.buf), d.buf, d.buf-1)
	if onlyOK {
		k = 9
	}
	switch k {
	case 0:
		wr.kind = "nothing"
	case 1:
		wr.kind = "too large"
		n = d.buf + r.Pick(1, 1, 2, 100)
	}
	d.mu.Lock()
	d.active++
	d.mu.Unlock()
	out, err := s.GetWriter()
	if err == nil {
		wr.acq = d.w.log.Add("%s: writer acquired (%s, %d bytes)", d.name, wr.kind, n)
		if wr.kind != "nothing" {
			wr.raw = mcMessage(r, n)
			err = d.chunks(out, wr.raw, r)
			doPause(r.N(4))
		} else if r.P(30) {
			out.Write(nil)
		}
		cerr := out.Close()
		if err == nil {
			err = cerr
		} else if cerr == nil {
			err = fmt.Errorf("only the write failed: %w", err)
		}
	}
	wr.err = err
	wr.done = d.w.log.Add("%s: write ended (%s): %v", d.name, wr.kind, err)
	d.mu.Lock()
	d.active--
	d.writes = append(d.writes, wr)
	d.mu.Unlock()
}

func (d *mcDir) chunks(out io.Writer, raw []byte, r *Rng) error {
	style := r.N(4)
	for len(raw) > 0 {
		n := len(raw)
		switch style {
		case 1:
			n = 1
		case 2:
			n = r.Range(0, len(raw))
		case 3:
			n = r.Range(1, 9)
			if n > len(raw) {
				n = len(raw)
			}
		}
		part := append([]byte(nil), raw[:n]...)
		m, err := out.Write(part)
		if err != nil {
			return err
		}
		if m != n {
			ctx.Violate("write-count", d.w.log.Dump(), "writing %d bytes reported %d", n, m)
		}
		// the slice belongs to the caller again
		for i := range part {
			part[i] = 0xEE
		}
		raw = raw[n:]
	}
	return nil
}

// reader reads until the connection is closed
func (d *mcDir) reader(s wwr.Socket, r *Rng, deadlines bool) {
	pool := []*message.Message{message.NewMessage(uint32(d.buf)), message.NewMessage(uint32(d.buf))}
	for k := 0; ; k++ {
		d.mu.Lock()
		g := d.gate
		d.mu.Unlock()
		if g != nil {
			<-g
		}
		m := pool[k%2]
		dl := time.Time{}
		if deadlines && r.P(50) {
			dl = time.Now().Add(hugeTimeout)
		}
		err := s.Read(m, dl)
		if err != nil {
			d.w.log.Add("%s: read failed: %v (closed: %v)", d.name, err, err.IsCloseErr())
			d.mu.Lock()
			if err.IsCloseErr() {
				d.ended++
			} else {
				d.tmo = append(d.tmo, err.Error())
			}
			d.mu.Unlock()
			return
		}
		raw := append([]byte(nil), m.MsgBuffer.Data()...)
		d.mu.Lock()
		d.reads = append(d.reads, raw)
		d.mu.Unlock()
		d.w.log.Add("%s: read %d bytes", d.name, len(raw))
		doPause(r.N(5))
	}
}

func (d *mcDir) endedNum() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ended
}

// judge compares what was read with what was written
func (d *mcDir) judge(open bool) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.active != 0 {
		ctx.Violate("write-stuck", witnessWithStacks(d.w.log), "%s: %d writes never ended", d.name, d.active)
		return false
	}
	if len(d.tmo) > 0 {
		ctx.Violate("read-error", d.w.log.Dump(), "%s: a read failed: %s", d.name, d.tmo[0])
		return false
	}
	var want []*mcWrite
	for _, x := range d.writes {
		ctx.Eval(fmt.Sprintf("%s/%s/%v/%d/%v", d.name, x.kind, x.err == nil, sizeClass(len(x.raw)), len(x.raw) == d.buf))
		switch {
		case x.err == nil && x.kind != "ok":
			ctx.Violate("bad-write-accepted", d.w.log.Dump(), "%s: a write succeeded although it must fail: %s", d.name, x.kind)
			return false
		case x.err != nil && x.kind == "ok" && open:
			ctx.Violate("write-failed", d.w.log.Dump(), "%s: writing %d bytes (buffer %d) failed: %v", d.name, len(x.raw), d.buf, x.err)
			return false
		case x.err == nil:
			want = append(want, x)
		}
	}
	for i := range want {
		for j := i; j > 0 && want[j-1].acq > want[j].acq; j-- {
			want[j-1], want[j] = want[j], want[j-1]
		}
	}
	if d.multi {
		at := map[string]int{}
		for i, x := range want {
			at[string(x.raw)] = i + 1
		}
		sort.SliceStable(d.reads, func(i, j int) bool { return at[string(d.reads[i])] < at[string(d.reads[j])] })
	}
	for i := 0; i < len(want) || i < len(d.reads); i++ {
		if i >= len(d.reads) {
			ctx.Violate("lost", d.w.log.Dump(), "%s: %d writes succeeded but only %d messages were read", d.name, len(want), len(d.reads))
			return false
		}
		if i >= len(want) || !bytes.Equal(d.reads[i], want[i].raw) {
			what := "a message that was not written"
			for k, x := range d.writes {
				if bytes.Equal(d.reads[i], x.raw) {
					what = fmt.Sprintf("write %d (acquired at %d, error %v)", k, x.acq, x.err)
				}
			}
			ctx.Violate("wrong-read", d.w.log.Dump(), "%s: read number %d of %d (%d successful writes) is %s: %.60q", d.name, i, len(d.reads), len(want), what, d.reads[i])
			return false
		}
	}
	return true
}

func checkC19(c *Ctx) {
	c.Cases("delivery", c.Scale(2500, 100000), c19Case)
}

func c19Case(i int, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	buf := r.Pick(32, 33, 64, 100, 256, 1024, 8192)
	if i%60 == 59 {
		buf = largeBuf(r)
	}
	w := newMcWorld(uint32(buf))
	nConn := r.Range(1, 2)
	type pair struct {
		cl, srv wwr.Socket
		up, dn  *mcDir
	}
	var pairs []*pair
	// the connections belong to transports with different buffer sizes
	several := r.P(30)
	if several {
		nConn = r.Range(2, 3)
		ctx.Count("runs_of_several_transports", 1)
	}
	for k := 0; k < nConn; k++ {
		if several && k > 0 {
			buf = r.Pick(32, 33, 50, 64, 100, 120, 256, 1024, 1500, 8192)
			w = newMcWorld(uint32(buf))
		}
		cl := w.client()
		srv := w.connect(cl)
		if srv == nil {
			return
		}
		pairs = append(pairs, &pair{cl, srv, &mcDir{w: w, name: "client to server", buf: buf}, &mcDir{w: w, name: "server to client", buf: buf}})
	}
	unread := r.P(25)
	closing := r.P(35)
	gates := []chan struct{}{}
	writersDone := []func() bool{}
	for _, p := range pairs {
		for side, d := range []*mcDir{p.up, p.dn} {
			d := d
			if unread {
				d.gate = make(chan struct{})
				gates = append(gates, d.gate)
			}
			from, to := p.cl, p.srv
			if side == 1 {
				from, to = to, from
			}
			rr := r.Fork()
			go d.reader(to, rr, r.P(50))
			for k := r.Pick(0, 1, 2, 4); k > 0; k-- {
				wr := r.Fork()
				n := wr.Range(1, 8)
				writersDone = append(writersDone, Go(func() {
					for j := 0; j < n; j++ {
						d.write(from, wr, false)
						doPause(wr.N(4))
					}
				}))
			}
		}
	}
	if unread {
		// nobody reads: no write may report success
		if !Settle() {
			return
		}
		for _, p := range pairs {
			for _, d := range []*mcDir{p.up, p.dn} {
				d.mu.Lock()
				for _, x := range d.writes {
					if x.err == nil {
						ctx.Violate("success-unread", w.log.Dump(), "%s: a write reported success although nobody has read the message", d.name)
					}
				}
				d.mu.Unlock()
			}
		}
		if closing && r.P(50) {
			for _, p := range pairs {
				p.cl.Close()
			}
		}
		for _, g := range gates {
			close(g)
		}
	}
	if closing {
		for _, p := range pairs {
			doPause(r.N(12))
			s := p.cl
			if r.P(50) {
				s = p.srv
			}
			s.Close()
		}
	}
	if !Await(w.log, "end of all writes", func() bool {
		for _, f := range writersDone {
			if !f() {
				return false
			}
		}
		return true
	}) {
		return
	}
	if !Settle() {
		return
	}
	for _, p := range pairs {
		for side, d := range []*mcDir{p.up, p.dn} {
			if !d.judge(!closing) {
				return
			}
			if !closing {
				// the next writer still works
				from := p.cl
				if side == 1 {
					from = p.srv
				}
				pr := r.Fork()
				if !Await(w.log, "end of a final write", Go(func() { d.write(from, pr, true) })) || !Settle() {
					return
				}
				if !d.judge(true) {
					return
				}
			}
		}
	}
	for _, p := range pairs {
		p.cl.Close()
	}
	if !Settle() {
		return
	}
	n := 0
	for _, p := range pairs {
		n += len(p.up.reads) + len(p.dn.reads)
	}
	ctx.Count("messages_read", int64(n))
	if n > 5 {
		ctx.Sample("buffer=%d connections=%d unread=%v closing=%v: %d messages read, %d writes", buf, nConn, unread, closing, n, len(pairs[0].up.writes)+len(pairs[0].dn.writes))
	}
}

/* C20 */

func checkC20(c *Ctx) {
	c.Cases("close", c.Scale(2000, 60000), c20Close)
	c.Cases("refuse", c.Scale(800, 30000), c20Refuse)
	c.Cases("shutdown", c.Scale(1200, 40000), c20Shutdown)
	c.Cases("deadline", c.Scale(160, 3000), c20Deadline)
	c.Cases("hasty", c.Scale(1000, 40000), c20Hasty)
	c.Cases("same", c.Scale(500, 20000), c20Same)
	c.Cases("many", c.Scale(12, 200), c20Many)
}

var mcPlaces = []string{
	"flush.connected", "flush.handed", "dial.connected", "read.connected", "read.received",
	"close.marked", "close.failed", "shutdown.listed", "onConnect.checked",
}

// deadSocket requires that every operation fails at once
func deadSocket(w *mcWorld, s wwr.Socket, what string) bool {
	if s.IsConnected() {
		ctx.Violate("still-connected", w.log.Dump(), "%s: the socket is still connected", what)
		return false
	}
	var werr error
	var rerr wwr.ErrSockRead
	var out io.WriteCloser
	if !Await(w.log, "return of GetWriter on a closed socket ("+what+")", Go(func() { out, werr = s.GetWriter() })) {
		return false
	}
	if werr == nil {
		ctx.Violate("writer-of-closed", w.log.Dump(), "%s: GetWriter succeeded on a closed socket", what)
		if out != nil {
			out.Close()
		}
		return false
	}
	for _, dl := range []time.Time{{}, time.Now().Add(hugeTimeout)} {
		if !Await(w.log, "return of Read on a closed socket ("+what+")", Go(func() { rerr = s.Read(message.NewMessage(64), dl) })) {
			return false
		}
		if rerr == nil || !rerr.IsCloseErr() {
			ctx.Violate("read-of-closed", w.log.Dump(), "%s: reading from a closed socket returned %v", what, rerr)
			return false
		}
	}
	var cerr error
	if !Await(w.log, "return of Close on a closed socket ("+what+")", Go(func() { cerr = s.Close() })) {
		return false
	}
	if cerr != nil {
		ctx.Violate("close-error", w.log.Dump(), "%s: closing again failed: %v", what, cerr)
		return false
	}
	return true
}

func c20Close(i int, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	buf := 256
	w := newMcWorld(uint32(buf))
	cl := w.client()
	var old []wwr.Socket
	rounds := r.Range(1, 3)
	sig := ""
	for round := 0; round < rounds; round++ {
		srv := w.connect(cl)
		if srv == nil {
			return
		}
		up := &mcDir{w: w, name: "client to server", buf: buf}
		dn := &mcDir{w: w, name: "server to client", buf: buf}
		var ops []func() bool
		// pending operations
		nr, nw := 0, 0
		for side, d := range []*mcDir{up, dn} {
			d := d
			from, to := wwr.Socket(cl), srv
			if side == 1 {
				from, to = to, from
			}
			for k := r.Pick(0, 1, 1, 1, 2); k > 0; k-- {
				rr := r.Fork()
				dls := r.P(50)
				d.mu.Lock()
				d.multi = k > 1 || d.multi
				d.mu.Unlock()
				nr++
				ops = append(ops, Go(func() { d.reader(to, rr, dls) }))
			}
			for k := r.Pick(0, 1, 1, 3); k > 0; k-- {
				wr := r.Fork()
				nw++
				n := wr.Range(1, 4)
				ops = append(ops, Go(func() {
					for j := 0; j < n; j++ {
						d.write(from, wr, false)
					}
				}))
			}
		}
		// what's left of earlier connections still does something
		for _, o := range old {
			o := o
			if r.P(50) {
				k := r.N(4)
				ops = append(ops, Go(func() {
					switch k {
					case 0:
						if err := o.Read(message.NewMessage(uint32(buf)), time.Time{}); err == nil {
							ctx.Violate("old-read", w.log.Dump(), "the socket of an earlier connection read a message of a later one")
						}
					case 1:
						if out, err := o.GetWriter(); err == nil {
							out.Write(mcMessage(NewRng(1), 20))
							if err := out.Close(); err == nil {
								ctx.Violate("old-write", w.log.Dump(), "the socket of an earlier connection wrote a message to a later one")
							}
						}
					case 2:
						if o.IsConnected() {
							ctx.Violate("old-connected", w.log.Dump(), "the socket of an earlier connection is connected again")
						}
					}
				}))
			}
		}
		place := ""
		var gate *Gate
		if r.P(50) {
			place = mcPlaces[r.N(len(mcPlaces))]
			gate = SetGate(place, r.Range(1, 2))
			defer gate.Release()
		}
		if r.P(60) {
			if !Settle() {
				return
			}
		} else {
			doPause(r.N(12))
		}
		if len(old) > 0 && r.P(50) {
			// closing an old socket doesn't close the new connection
			o := old[r.N(len(old))]
			if !Await(w.log, "return of Close of an earlier socket", Go(func() { o.Close() })) {
				return
			}
			if !cl.IsConnected() || !srv.IsConnected() {
				ctx.Violate("closed-by-old", w.log.Dump(), "closing the socket of an earlier connection closed the current one")
				return
			}
		}
		closers := r.Range(1, 4)
		for k := 0; k < closers; k++ {
			s := wwr.Socket(cl)
			if r.P(50) {
				s = srv
			}
			ops = append(ops, Go(func() {
				w.log.Add("closing")
				if err := s.Close(); err != nil {
					ctx.Violate("close-error", w.log.Dump(), "Close failed: %v", err)
				}
			}))
		}
		if gate != nil {
			if !Settle() {
				return
			}
			gate.Release()
		}
		ctx.Eval(fmt.Sprintf("%d/%d/%d/%d/%s/%d", round, nr, nw, closers, place, len(old)))
		sig += fmt.Sprintf(" [%d readers %d writers %d closers gate=%s]", nr, nw, closers, place)
		if !Await(w.log, "end of all operations after the connection was closed", func() bool {
			for _, f := range ops {
				if !f() {
					return false
				}
			}
			return true
		}) {
			return
		}
		if !Settle() {
			return
		}
		if !up.judge(false) || !dn.judge(false) {
			return
		}
		if !deadSocket(w, cl, "client socket") || !deadSocket(w, srv, "server socket") {
			return
		}
		old = append(old, srv)
	}
	// a fresh connection without leftovers
	srv := w.connect(cl)
	if srv == nil {
		return
	}
	if i := len(w.opts); i != rounds+1 {
		ctx.Violate("announcements", w.log.Dump(), "%d connections were announced instead of %d", i, rounds+1)
		return
	}
	for _, o := range old {
		if o != srv && !deadSocket(w, o, "socket of an earlier connection") {
			return
		}
	}
	up := &mcDir{w: w, name: "client to server", buf: buf}
	dn := &mcDir{w: w, name: "server to client", buf: buf}
	go up.reader(srv, r.Fork(), true)
	go dn.reader(cl, r.Fork(), true)
	a, b := r.Fork(), r.Fork()
	if !Await(w.log, "writes on a fresh connection", Go(func() {
		for k := 0; k < 3; k++ {
			up.write(cl, a, false)
			dn.write(srv, b, false)
		}
	})) || !Settle() {
		return
	}
	if !up.judge(true) || !dn.judge(true) {
		return
	}
	cl.Close()
	if !Settle() {
		return
	}
	if up.endedNum() != 1 || dn.endedNum() != 1 {
		ctx.Violate("read-stuck", witnessWithStacks(w.log), "a pending read didn't end when the connection was closed")
		return
	}
	ctx.Sample("%d connections of one socket:%s", rounds+1, sig)
}

func c20Refuse(i int, r *Rng) {
	w := newMcWorld(64)
	cl := w.client()
	ctx.Case("refuse/%d", i)
	if r.P(30) {
		// an earlier connection
		s := w.connect(cl)
		if s == nil {
			return
		}
		if r.P(50) {
			cl.Close()
		} else {
			s.Close()
		}
	}
	before := w.numSocks()
	kind := r.N(6)
	what := []string{"refused by the callback", "shutting down", "stopped", "no server", "server socket", "refused with other value"}[kind]
	sock := wwr.ClientSocket(cl)
	switch kind {
	case 0:
		w.next.Connection = wwr.Refuse
	case 1:
		w.shut = true
	case 2:
		if !Await(w.log, "return of Shutdown", Go(func() { w.tr.Shutdown() })) {
			return
		}
	case 3:
		ct := memchan.ClientTransport{}
		sock, _ = ct.NewSocket(time.Second)
	case 4:
		srv, _ := memchan.NewEntangledSockets(w.tr)
		sock = srv
	case 5:
		w.next.Connection = wwr.ConnectionAcceptance(2 + r.N(200))
	}
	for k := r.Range(1, 3); k > 0; k-- {
		var err error
		if !Await(w.log, "return of a refused Dial", Go(func() { err = sock.Dial(time.Now().Add(hugeTimeout)) })) {
			return
		}
		ctx.Eval(what)
		if err == nil {
			ctx.Violate("dial-accepted", w.log.Dump(), "dialing succeeded: %s", what)
			return
		}
		if !deadSocket(w, sock, "after a refused dial ("+what+")") {
			return
		}
	}
	Settle()
	if w.numSocks() != before {
		ctx.Violate("refused-announced", w.log.Dump(), "a refused connection was announced to the server: %s", what)
		return
	}
	if kind <= 1 || kind == 5 {
		w.mu.Lock()
		w.shut = false
		w.next.Connection = wwr.Accept
		w.mu.Unlock()
		if w.connect(cl) == nil {
			return
		}
		// dialing a connected socket fails and leaves it connected
		var err error
		if !Await(w.log, "return of a repeated Dial", Go(func() { err = cl.Dial(time.Time{}) })) {
			return
		}
		if err == nil || !cl.IsConnected() || !w.socks[len(w.socks)-1].IsConnected() {
			ctx.Violate("repeated-dial", w.log.Dump(), "dialing a connected socket returned %v (connected: %v)", err, cl.IsConnected())
			return
		}
		cl.Close()
	}
	ctx.Sample("dial %s", what)
}

func c20Shutdown(i int, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	w := newMcWorld(64)
	var cls []wwr.ClientSocket
	var ops []func() bool
	for k := r.Range(0, 3); k > 0; k-- {
		cl := w.client()
		cls = append(cls, cl)
		if w.connect(cl) == nil {
			return
		}
	}
	// another transport isn't affected
	var other *mcWorld
	var ocl wwr.ClientSocket
	var osrv wwr.Socket
	if r.P(40) {
		other = newMcWorld(uint32(r.Pick(64, 100, 512)))
		ocl = other.client()
		if osrv = other.connect(ocl); osrv == nil {
			return
		}
	}
	srvd := Go(func() { w.tr.Serve() })
	place := ""
	var gate *Gate
	if r.P(60) {
		place = []string{"dial.connected", "onConnect.checked", "shutdown.listed", "close.marked", "close.failed"}[r.N(5)]
		gate = SetGate(place, r.Range(1, 2))
		defer gate.Release()
	}
	dialers := r.Range(1, 4)
	shared := r.P(20)
	var common wwr.ClientSocket
	if shared {
		common = w.client()
		cls = append(cls, common)
	}
	var dialed int32
	for k := 0; k < dialers; k++ {
		cl := common
		if !shared {
			cl = w.client()
			cls = append(cls, cl)
		}
		p := r.N(6)
		again := r.P(30)
		ops = append(ops, Go(func() {
			doPause(p)
			err := cl.Dial(time.Time{})
			if err == nil {
				atomic.AddInt32(&dialed, 1)
			} else if !shared && cl.IsConnected() {
				ctx.Violate("failed-dial-connected", w.log.Dump(), "the dial failed (%v) but the socket is connected", err)
			}
			if again && err == nil {
				cl.Close()
				cl.Dial(time.Time{})
			}
		}))
	}
	for k := r.Range(1, 2); k > 0; k-- {
		p := r.N(6)
		flag := r.P(50)
		ops = append(ops, Go(func() {
			doPause(p)
			if flag {
				w.mu.Lock()
				w.shut = true
				w.mu.Unlock()
			}
			w.log.Add("Shutdown called")
			if err := w.tr.Shutdown(); err != nil {
				ctx.Violate("shutdown-error", w.log.Dump(), "Shutdown failed: %v", err)
			}
		}))
	}
	if gate != nil {
		if !Settle() {
			return
		}
		gate.Release()
	}
	if !Await(w.log, "end of all dials and shutdowns", func() bool {
		for _, f := range ops {
			if !f() {
				return false
			}
		}
		return srvd()
	}) || !Settle() {
		return
	}
	ctx.Eval(fmt.Sprintf("%d/%d/%s/%d/%v", len(cls), dialers, place, dialed, shared))
	for _, cl := range cls {
		if !deadSocket(w, cl, "client socket after the shutdown") {
			return
		}
	}
	w.mu.Lock()
	socks := append([]wwr.Socket(nil), w.socks...)
	w.mu.Unlock()
	for _, s := range socks {
		if !deadSocket(w, s, "server socket after the shutdown") {
			return
		}
	}
	// later dials are refused
	cl := w.client()
	var err error
	if !Await(w.log, "return of a late Dial", Go(func() { err = cl.Dial(time.Time{}) })) {
		return
	}
	if err == nil {
		ctx.Violate("dial-accepted", w.log.Dump(), "dialing a stopped transport succeeded")
		return
	}
	if !deadSocket(w, cl, "late client socket") {
		return
	}
	if other != nil {
		for k := 0; k < 2; k++ {
			if !ocl.IsConnected() || !osrv.IsConnected() {
				ctx.Violate("other-transport", other.log.Dump(), "a connection isn't open any more after another transport was shut down")
				return
			}
			d := &mcDir{w: other, name: "transport that wasn't shut down", buf: 64}
			rr := r.Fork()
			go d.reader(osrv, rr, false)
			if !Await(other.log, "end of a write on another transport", Go(func() { d.write(ocl, rr, true) })) || !Settle() || !d.judge(true) {
				return
			}
			ocl.Close()
			if !Settle() {
				return
			}
			if k == 0 {
				if osrv = other.connect(ocl); osrv == nil {
					return
				}
			}
		}
		ctx.Count("other_transports_unaffected", 1)
	}
	ctx.Sample("%d sockets, %d dialers (%d successful), gate %q", len(cls), dialers, dialed, place)
}

// c20Hasty dials again before pending operations of the closed connection have
// ended, which must neither affect nor reach the new one
func c20Hasty(i int, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	buf := 256
	w := newMcWorld(uint32(buf))
	cl := w.client()
	rounds := r.Range(1, 4)
	sig := ""
	var lastUp, lastDn *mcDir
	var pend []func() bool // operations of earlier connections
	var open []func()      // completions of writers that are still open
	for round := 0; round <= rounds; round++ {
		srv := w.connect(cl)
		if srv == nil {
			return
		}
		up := &mcDir{w: w, name: fmt.Sprintf("client to server %d", round), buf: buf}
		dn := &mcDir{w: w, name: fmt.Sprintf("server to client %d", round), buf: buf}
		finish := r.P(50)
		if finish {
			// late ends of what was begun on earlier connections
			for _, f := range open {
				pend = append(pend, Go(f))
			}
			open = nil
		}
		if !Settle() {
			return
		}
		if !cl.IsConnected() || !srv.IsConnected() {
			ctx.Violate("closed-by-old", w.log.Dump(), "a new connection ended though only operations of an earlier one were pending")
			return
		}
		for _, f := range open {
			pend = append(pend, Go(f))
		}
		open = nil
		if !Await(w.log, "end of the operations on an earlier connection", func() bool {
			for _, f := range pend {
				if !f() {
					return false
				}
			}
			return true
		}) || !Settle() {
			return
		}
		pend = nil
		if lastUp != nil && (!lastUp.judge(false) || !lastDn.judge(false)) {
			return
		}
		lastUp, lastDn = up, dn
		if !cl.IsConnected() || !srv.IsConnected() {
			ctx.Violate("closed-by-old", w.log.Dump(), "a new connection ended when the operations of an earlier one had ended")
			return
		}
		// operations on this connection
		nr, no := 0, 0
		type side struct {
			d        *mcDir
			from, to wwr.Socket
		}
		sides := []side{{up, cl, srv}, {dn, srv, cl}}
		for _, x := range sides {
			x := x
			reading := false
			for k := r.Pick(0, 1, 1, 2, 5); k > 0; k-- {
				reading = true
				rr := r.Fork()
				dls := r.P(50)
				x.d.mu.Lock()
				x.d.multi = k > 1 || x.d.multi
				x.d.mu.Unlock()
				nr++
				pend = append(pend, Go(func() { x.d.reader(x.to, rr, dls) }))
			}
			wr := r.Fork()
			if reading {
				// the connection works
				if !Await(w.log, "write on connection", Go(func() { x.d.write(x.from, wr, true) })) {
					return
				}
			} else if r.P(50) {
				pend = append(pend, Go(func() { x.d.write(x.from, wr, true) }))
				continue
			}
			if r.P(40) {
				// a message that is completed after the connection was closed
				out, err := x.from.GetWriter()
				if err != nil {
					ctx.Violate("writer-of-open", w.log.Dump(), "GetWriter failed on an open connection: %v", err)
					return
				}
				raw := mcMessage(r, r.Range(10, buf))
				n := r.Range(1, len(raw))
				out.Write(raw[:n])
				no++
				open = append(open, func() {
					_, err := out.Write(raw[n:])
					if cerr := out.Close(); err == nil {
						err = cerr
					}
					w.log.Add("%s: late end of a write: %v", x.d.name, err)
					if err == nil {
						ctx.Violate("late-write", w.log.Dump(), "%s: a message that was completed after its connection had been closed was written successfully", x.d.name)
					}
				})
			}
		}
		sig += fmt.Sprintf(" [%d readers %d open writers]", nr, no)
		ctx.Eval(fmt.Sprintf("hasty/%d/%d/%d/%v", round, nr, no, finish))
		if !Settle() {
			return
		}
		// close and dial again at once
		if r.P(50) {
			if !Await(w.log, "return of Close", Go(func() { cl.Close() })) {
				return
			}
		} else {
			for k := r.Range(1, 3); k > 0; k-- {
				pend = append(pend, Go(func() { srv.Close() }))
			}
			if !Await(w.log, "end of the connection", func() bool { return !cl.IsConnected() }) {
				return
			}
		}
	}
	for _, f := range open {
		go f()
	}
	if !Settle() {
		return
	}
	ctx.Sample("%d hasty redials of one socket:%s", rounds, sig)
}

// c20Same dials one socket from many goroutines while others use it
func c20Same(i int, r *Rng) {
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	w := newMcWorld(64)
	cl := w.client()
	rounds := r.Range(1, 4)
	sig := ""
	for round := 0; round < rounds; round++ {
		before := len(w.opts)
		var ops []func() bool
		dialers, others := r.Range(2, 6), r.Range(0, 4)
		var dialed int32
		for k := 0; k < dialers; k++ {
			p := r.N(5)
			ops = append(ops, Go(func() {
				doPause(p)
				err := cl.Dial(time.Time{})
				w.log.Add("dial: %v", err)
				if err == nil {
					atomic.AddInt32(&dialed, 1)
				}
				// either way the socket is connected now
				if !cl.IsConnected() {
					ctx.Violate("dialed-unconnected", w.log.Dump(), "a dial returned %v and the socket isn't connected, though nothing closed it", err)
				}
			}))
		}
		for k := 0; k < others; k++ {
			p, what := r.N(5), r.N(3)
			ops = append(ops, Go(func() {
				doPause(p)
				for j := 0; j < 3; j++ {
					switch what {
					case 0:
						cl.IsConnected()
					case 1:
						if out, err := cl.GetWriter(); err == nil {
							// hand over nothing
							out.Close()
						}
					case 2:
						cl.RemoteAddr()
					}
				}
			}))
		}
		if !Await(w.log, "end of all dials of one socket", func() bool {
			for _, f := range ops {
				if !f() {
					return false
				}
			}
			return true
		}) || !Settle() {
			return
		}
		if dialed != 1 {
			ctx.Violate("dials-of-one-socket", w.log.Dump(), "%d of %d simultaneous dials of one socket succeeded", dialed, dialers)
			return
		}
		w.mu.Lock()
		socks := append([]wwr.Socket(nil), w.socks...)
		w.mu.Unlock()
		if len(socks) != before+1 {
			ctx.Violate("announcements", w.log.Dump(), "%d connections were announced by the simultaneous dials of one socket", len(socks)-before)
			return
		}
		srv := socks[before]
		up := &mcDir{w: w, name: "client to server", buf: 64}
		dn := &mcDir{w: w, name: "server to client", buf: 64}
		go up.reader(srv, r.Fork(), false)
		go dn.reader(cl, r.Fork(), false)
		a, b := r.Fork(), r.Fork()
		if !Await(w.log, "writes after simultaneous dials", Go(func() {
			for k := 0; k < 2; k++ {
				up.write(cl, a, false)
				dn.write(srv, b, false)
			}
		})) || !Settle() {
			return
		}
		if !up.judge(true) || !dn.judge(true) {
			return
		}
		// close it while the state is being read
		var closing []func() bool
		for k := r.Range(1, 3); k > 0; k-- {
			s := wwr.Socket(cl)
			if r.P(50) {
				s = srv
			}
			closing = append(closing, Go(func() {
				s.IsConnected()
				s.Close()
				if cl.IsConnected() || srv.IsConnected() {
					ctx.Violate("still-connected", w.log.Dump(), "Close returned and the connection is still there")
				}
			}))
		}
		if !Await(w.log, "end of Close", func() bool {
			for _, f := range closing {
				if !f() {
					return false
				}
			}
			return true
		}) || !Settle() {
			return
		}
		if !deadSocket(w, cl, "client socket") || !deadSocket(w, srv, "server socket") {
			return
		}
		ctx.Eval(fmt.Sprintf("same/%d/%d/%d/%d", round, dialers, others, len(closing)))
		sig += fmt.Sprintf(" [%d dials, %d other users]", dialers, others)
	}
	ctx.Sample("one socket dialed at once:%s", sig)
}

// c20Many redials one socket a few hundred times, closes connections with
// hundreds of pending reads and stops transports with hundreds of sockets
func c20Many(i int, r *Rng) {
	SetDelays(0)
	w := newMcWorld(64)
	cl := w.client()
	switch i % 3 {
	case 0:
		n := r.Pick(130, 260, 300, 520)
		for k := 0; k < n; k++ {
			srv := w.connect(cl)
			if srv == nil {
				return
			}
			s := wwr.Socket(cl)
			if r.P(50) {
				s = srv
			}
			s.Close()
			if cl.IsConnected() || srv.IsConnected() {
				ctx.Violate("still-connected", w.log.Dump(), "connection %d of a socket is still there after Close", k)
				return
			}
		}
		srv := w.connect(cl)
		if srv == nil {
			return
		}
		for k, s := range w.socks[:n] {
			if s.IsConnected() {
				ctx.Violate("old-connected", w.log.Dump(), "the socket of connection %d of %d is connected again", k, n)
				return
			}
		}
		cl.Close()
		if !deadSocket(w, srv, "last server socket") {
			return
		}
		ctx.Max("max_redials_of_a_socket", int64(n))
	case 1:
		n := r.Pick(130, 260, 300, 520)
		srv := w.connect(cl)
		if srv == nil {
			return
		}
		var ops []func() bool
		for k := 0; k < n; k++ {
			s := wwr.Socket(cl)
			if r.P(50) {
				s = srv
			}
			dl := time.Time{}
			if r.P(50) {
				dl = time.Now().Add(hugeTimeout)
			}
			ops = append(ops, Go(func() {
				err := s.Read(message.NewMessage(64), dl)
				if err == nil || !err.IsCloseErr() {
					ctx.Violate("read-of-closed", w.log.Dump(), "a pending read returned %v when the connection was closed", err)
				}
			}))
		}
		if !Settle() {
			return
		}
		if r.P(50) {
			srv.Close()
		} else {
			cl.Close()
		}
		if !Await(w.log, "end of all pending reads", func() bool {
			for _, f := range ops {
				if !f() {
					return false
				}
			}
			return true
		}) || !deadSocket(w, srv, "server socket") || !deadSocket(w, cl, "client socket") {
			return
		}
		ctx.Max("max_pending_reads", int64(n))
	case 2:
		n := r.Pick(130, 260, 300, 520)
		srvd := Go(func() { w.tr.Serve() })
		var cls []wwr.ClientSocket
		for k := 0; k < n; k++ {
			c := w.client()
			if w.connect(c) == nil {
				return
			}
			cls = append(cls, c)
		}
		if !Await(w.log, "return of Shutdown", Go(func() { w.tr.Shutdown() })) || !Await(w.log, "return of Serve", srvd) {
			return
		}
		for k, c := range cls {
			if c.IsConnected() || w.socks[k].IsConnected() {
				ctx.Violate("still-connected", w.log.Dump(), "connection %d of %d is still there after the shutdown", k, n)
				return
			}
		}
		ctx.Max("max_connections_at_shutdown", int64(n))
	}
	ctx.Eval(fmt.Sprintf("many/%d", i%3))
}

// c20Deadline checks reads against the wall clock, the upper bounds are
// generous
func c20Deadline(i int, r *Rng) {
	SetDelays(0)
	w := newMcWorld(64)
	cl := w.client()
	srv := w.connect(cl)
	if srv == nil {
		return
	}
	from, to := wwr.Socket(cl), srv
	if r.P(50) {
		from, to = to, from
	}
	send := func(after time.Duration) (raw []byte) {
		raw = mcMessage(r, r.Range(10, 64))
		go func() {
			time.Sleep(after)
			mcSend(from, raw)
		}()
		return raw
	}
	type res struct {
		err wwr.ErrSockRead
		raw []byte
		at  time.Time
	}
	read := func(dl time.Time) chan res {
		c := make(chan res, 1)
		go func() {
			m := message.NewMessage(64)
			err := to.Read(m, dl)
			x := res{err: err, at: time.Now()}
			if err == nil {
				x.raw = append([]byte(nil), m.MsgBuffer.Data()...)
			}
			c <- x
		}()
		return c
	}
	wait := func(c chan res, what string) (res, bool) {
		select {
		case x := <-c:
			return x, true
		case <-time.After(60 * time.Second):
			ctx.Violate("no-return", interestingStacks(), "%s: the read has not returned within 60 s", what)
			return res{}, false
		}
	}
	ok := func(c chan res, raw []byte, what string) bool {
		x, returned := wait(c, what)
		if !returned {
			return false
		}
		if x.err != nil || !bytes.Equal(x.raw, raw) {
			ctx.Violate("read", w.log.Dump(), "%s: the read returned %v, %q", what, x.err, x.raw)
			return false
		}
		return true
	}
	steps := ""
	for k := r.Range(1, 5); k > 0; k-- {
		switch s := r.N(5); s {
		case 0:
			steps += " long"
			c := read(time.Now().Add(10 * time.Minute))
			if !ok(c, send(time.Duration(r.N(3))*time.Millisecond), "deadline far away") {
				return
			}
		case 1:
			steps += " none"
			c := read(time.Time{})
			d := time.Duration(r.N(60)) * time.Millisecond
			if !ok(c, send(d), "no deadline") {
				return
			}
		case 2, 3:
			// a deadline passes after the message was read
			steps += " short"
			dl := time.Now().Add(time.Duration(r.Pick(5, 10, 20, 40)) * time.Millisecond)
			raw := send(0)
			time.Sleep(time.Millisecond)
			c := read(dl)
			x, returned := wait(c, "short deadline")
			if !returned {
				return
			}
			if x.err != nil {
				if x.at.Before(dl) || x.err.IsCloseErr() {
					ctx.Violate("early-timeout", w.log.Dump(), "the read failed %s before its deadline: %v", dl.Sub(x.at), x.err)
				}
				// the machine was busy, the message may arrive later
				ctx.Count("late_messages", 1)
				cl.Close()
				return
			}
			if !bytes.Equal(x.raw, raw) {
				ctx.Violate("read", w.log.Dump(), "the read returned %q", x.raw)
				return
			}
			if r.P(50) {
				time.Sleep(time.Until(dl) + time.Millisecond)
			}
		case 4:
			steps += " long then nothing"
			c := read(time.Now().Add(10 * time.Minute))
			select {
			case x := <-c:
				ctx.Violate("early-timeout", w.log.Dump(), "the read returned %v although its deadline is far away (steps:%s)", x.err, steps)
				return
			case <-time.After(time.Duration(r.Range(1, 40)) * time.Millisecond):
			}
			if !ok(c, send(0), "deadline far away") {
				return
			}
		}
	}
	// finally the deadline passes or the connection is closed
	fin := r.N(3)
	ctx.Eval(fmt.Sprintf("%s/%d", steps, fin))
	switch fin {
	case 0:
		d := time.Duration(r.Pick(-1000, -1, 0, 1, 5, 20)) * time.Millisecond
		dl := time.Now().Add(d)
		x, returned := wait(read(dl), "deadline passed")
		if !returned {
			return
		}
		if x.err == nil || x.err.IsCloseErr() {
			ctx.Violate("no-timeout", w.log.Dump(), "the read returned %v instead of a timeout", x.err)
			return
		}
		if x.at.Before(dl) {
			ctx.Violate("early-timeout", w.log.Dump(), "timeout %s before the deadline", dl.Sub(x.at))
			return
		}
		ctx.Count("timeouts", 1)
	case 1:
		c := read(time.Now().Add(10 * time.Minute))
		doPause(r.N(10))
		from.Close()
		x, returned := wait(c, "closed while reading")
		if !returned {
			return
		}
		if x.err == nil || !x.err.IsCloseErr() {
			ctx.Violate("no-close-error", w.log.Dump(), "the read returned %v instead of a closure error", x.err)
			return
		}
	case 2:
		// never without a deadline
		c := read(time.Time{})
		select {
		case x := <-c:
			ctx.Violate("early-timeout", w.log.Dump(), "a read without deadline returned %v (steps:%s)", x.err, steps)
			return
		case <-time.After(time.Duration(r.Range(1, 60)) * time.Millisecond):
		}
		if !ok(c, send(0), "no deadline") {
			return
		}
	}
	cl.Close()
	Settle()
	ctx.Sample("reads:%s, finally %d", steps, fin)
}
