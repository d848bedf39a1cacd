package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C26: failures of storage hooks and of the transport */

func init() { checks["C26"] = checkC26 }

func checkC26(c *Ctx) {
	checkSessions(c, "C26")
	n := len(c26Ops) * len(c26Faults)
	c.Cases("single", c.Scale(n, n*8), c26Single)
	c.Cases("hooks", c.Scale(250, 6000), c26Hooks)
	c.Cases("dial", c.Scale(120, 2400), c26Dial)
	c.Cases("disabled", c.Scale(120, 2400), c26Disabled)
	c.Cases("ends", c.Scale(200, 6000), c26Ends)
	c.Cases("storm", c.Scale(80, 3000), c26Storm)
	c.Cases("server", c.Scale(24, 240), c26Server)
}

// c26Fault is a set of transport calls that fail, ordinal 0: all of them
type c26Fault struct {
	op   string
	nth  int
	rest bool // the later ones fail, too
}

func (f c26Fault) String() string {
	s := fmt.Sprintf("%s #%d", f.op, f.nth)
	if f.rest {
		s += " and all later ones"
	}
	return s
}

var c26Faults = func() (l []c26Fault) {
	for _, op := range []string{"get", "write", "flush"} {
		last := 2
		if op == "write" {
			last = 8
		}
		for n := 1; n <= last; n++ {
			l = append(l, c26Fault{op, n, false}, c26Fault{op, n, true})
		}
	}
	return
}()

// c26World is a server with recorded errors
type c26World struct {
	*sworld
	errlog *lockedBuf
	disc   map[int]int // disconnected hooks by client
	sigs   map[string]int
}

func newC26World(r *Rng, sessions bool, M uint) *c26World {
	w := &c26World{errlog: &lockedBuf{}, disc: map[int]int{}, sigs: map[string]int{}}
	s := &sworld{p: "C26", r: r, M: M, created: map[string]int{}, closed: map[string]int{}, do: map[string]func(c wwr.Connection) (wwr.Payload, error){}, faulted: true}
	w.sworld = s
	s.sm = NewMemSM()
	log := &EventLog{}
	s.sm.log = log
	run := func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		s.mu.Lock()
		f := s.do[string(m.Payload())]
		s.mu.Unlock()
		if f == nil {
			return wwr.Payload{Encoding: m.PayloadEncoding(), Data: append([]byte(nil), m.Payload()...)}, nil
		}
		return f(c)
	}
	s.env = NewEnv(EnvOpts{Fragment: r.P(30), Sessions: sessions, SM: s.sm, MaxConns: M, Log: log, BufSize: 1024, ErrorLog: w.errlog,
		Impl: &Impl{Request: run,
			Signal: func(c wwr.Connection, m wwr.Message) {
				s.mu.Lock()
				w.sigs[string(m.Payload())]++
				s.mu.Unlock()
				run(c, m)
			},
			Disconnected: func(c wwr.Connection, err error) {
				s.mu.Lock()
				id, _ := c.Info(0).(int)
				w.disc[id]++
				s.mu.Unlock()
				log.Add("conn %d: disconnected hook", id)
			}}})
	return w
}

func (w *c26World) numDisc(c *Client) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.disc[c.id]
}

func (w *c26World) v(kind, f string, a ...interface{}) bool {
	return w.viol("C26", kind, f, a...)
}

// arm makes calls on a connection fail and returns the number of failed ones
func (w *c26World) arm(c *Client, f c26Fault) *int64 {
	var hit int64
	c.ft.setFaults(func(o string, n int) error {
		if o == f.op && (n == f.nth || f.rest && n > f.nth) {
			atomic.AddInt64(&hit, 1)
			return errInjected
		}
		return nil
	})
	return &hit
}

// free tells whether the writer of a connection isn't held
func (w *c26World) free(what string, c *Client) bool {
	if len(c.ft.writer) != 0 {
		return w.v("writer-leak", "%s: the writer of conn %d was never released", what, c.id)
	}
	return true
}

// probe requires a connection to serve requests and signals of both sides
func (w *c26World) probe(what string, c *Client) bool {
	pay := w.r.Name(6)
	id := c.Request([]byte("probe"), 0, pay)
	var rs []Recv
	switch await(func() bool { rs = c.ReplyTo(id); return len(rs) > 0 }) {
	case awaitTimeout:
		ctx.Inconclusive("time is up: %s", what)
		w.env.dead = true
		return false
	case awaitStuck:
		w.env.dead = true
		return w.v("unusable", "%s: conn %d doesn't answer requests anymore", what, c.id)
	}
	if len(rs) != 1 || rs[0].Ref.Type != tReplyBin || !bytes.Equal(rs[0].Ref.Payload, pay) {
		return w.v("unusable", "%s: conn %d answered a request by %v", what, c.id, rs[0].Ref)
	}
	return true
}

// end closes a connection in some way and requires everything to be gone
func (w *c26World) end(what string, c *Client, how int) bool {
	con := c.Conn()
	key := con.SessionKey()
	var others int
	if key != "" {
		others = w.env.Srv.SessionConnectionsNum(key) - 1
	}
	_, _, closed := w.sm.Calls(key)
	done := func() bool { return true }
	switch how {
	case 0:
		done = Go(func() { con.Close() })
	default:
		c.Disconnect(how == 1)
	}
	if !Await(w.env.Log, what+": end of the connection", func() bool { return done() && c.ServerClosed() && w.numDisc(c) > 0 }) || !Settle() {
		w.env.dead = true
		return false
	}
	if n := w.numDisc(c); n != 1 {
		return w.v("disconnected", "%s: the disconnected hook of conn %d ran %s", what, c.id, times(n))
	}
	if con.HasSession() || con.IsActive() {
		return w.v("state", "%s: the ended conn %d has a session or is active", what, c.id)
	}
	if key != "" {
		if n := w.env.Srv.SessionConnectionsNum(key); n != others && !(others == 0 && n < 0) {
			return w.v("registry", "%s: after the end of conn %d its session has %d connections instead of %d", what, c.id, n, others)
		}
		if _, _, n := w.sm.Calls(key); n != closed {
			return w.v("hook", "%s: the session of conn %d was destroyed by its end", what, c.id)
		}
	}
	return true
}

/* ---- a single fault at each call of each operation ---- */

// c26Op performs an operation on the victim and judges its outcome
type c26Op struct {
	name string
	run  func(w *c26World, r *Rng, vic *sconn, f c26Fault) bool
}

var c26Ops = []c26Op{
	{"reply", c26Reply}, {"reply", c26Reply}, {"error reply", c26Reply}, {"utf16 reply", c26Reply}, {"empty reply", c26Reply}, {"oversized reply", c26Reply},
	{"signal", c26Signal}, {"signal", c26Signal},
	{"create", c26Create}, {"create", c26Create},
	{"close", c26CloseSession}, {"close", c26CloseSession},
	{"close by key", c26CloseKey}, {"close by key", c26CloseKey},
	{"closure request", c26CloseRequest},
	{"restore", c26Restore}, {"restore", c26Restore}, {"restore", c26Restore},
	{"closing", c26Closing}, {"closing", c26Closing},
	{"shutdown", c26Shutdown},
}

// the kind of reply is chosen by the number of the case
var c26Kind string

func c26Single(i int, r *Rng) {
	op := c26Ops[i%len(c26Ops)]
	f := c26Faults[i/len(c26Ops)%len(c26Faults)]
	c26Kind = op.name
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	w := newC26World(r, true, uint(r.Pick(0, 0, 3)))
	var cs []*sconn
	for k := 0; k < 3; k++ {
		c := w.dial()
		if c == nil {
			return
		}
		cs = append(cs, c)
	}
	if !Settle() {
		return
	}
	ctx.Eval(fmt.Sprintf("single/%s/%v", op.name, f))
	if !op.run(w, r, cs[0], f) || w.env.dead {
		return
	}
	what := op.name + " with fault at " + f.String()
	if !Settle() {
		return
	}
	for _, c := range cs {
		if c.open && !(w.free(what, c.cl) && w.probe(what+" (afterwards)", c.cl)) {
			return
		}
	}
	if !w.mirror(what) {
		return
	}
	for _, c := range cs {
		if c.open && !w.end(what, c.cl, r.N(3)) {
			return
		}
	}
	if w.env.dead {
		return
	}
	w.env.Shutdown()
}

// news returns what a connection received since the last call
func (w *c26World) news(c *sconn) []Recv {
	rs := c.cl.Received()
	n := rs[c.seen:]
	if c.seen == 0 && len(n) > 0 {
		n = n[1:] // configuration
	}
	c.seen = len(rs)
	return n
}

// during performs an operation while the calls of the victim fail. The other
// connections must be served meanwhile
func (w *c26World) during(what string, vic *sconn, f c26Fault, done func() bool, hit *int64) (int64, bool) {
	if !Await(w.env.Log, what, done) || !Settle() {
		w.env.dead = true
		return 0, false
	}
	n := atomic.LoadInt64(hit)
	for _, c := range w.conns {
		if c != vic && c.open && !w.probe(what+" (meanwhile)", c.cl) {
			return n, false
		}
	}
	vic.cl.ft.setFaults(nil)
	if n > 0 {
		ctx.Count("faults_injected", n)
	}
	return n, true
}

func c26Reply(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	var pay wwr.Payload
	var herr error
	switch c26Kind {
	case "reply":
		pay = wwr.Payload{Encoding: wwr.PayloadEncoding(r.N(2)), Data: r.Name(r.Range(1, 100))}
	case "utf16 reply":
		pay = wwr.Payload{Encoding: wwr.EncodingUtf16, Data: r.Name(2 * r.Range(1, 50))}
	case "oversized reply":
		pay = wwr.Payload{Data: r.Name(2000)}
	case "error reply":
		herr = wwr.ErrRequest{Code: "CODE", Message: string(r.Name(r.Range(0, 50)))}
		if r.P(25) {
			herr = errors.New(secretText)
		}
	}
	t := w.action(func(wwr.Connection) (wwr.Payload, error) { return pay, herr })
	hit := w.arm(vic.cl, f)
	id := vic.cl.Request(nil, 0, t)
	what := fmt.Sprintf("%s with fault at %v", c26Kind, f)
	n, ok := w.during(what, vic, f, func() bool { return true }, hit)
	if !ok {
		return false
	}
	rs := w.news(vic)
	if len(rs) > 1 {
		return w.v("replies", "%s: the client received %d messages: %v, %v", what, len(rs), rs[0].Ref, rs[1].Ref)
	}
	for _, m := range rs {
		if m.Ref == nil || m.Ref.ID != id {
			return w.v("replies", "%s: the client received %v", what, m.Ref)
		}
		if m.Ref.Type == tReplyInternal {
			continue
		}
		e, isErr := herr.(wwr.ErrRequest)
		switch {
		case n > 0:
			return w.v("success", "%s: although the write failed the client received %v", what, m.Ref)
		case isErr && m.Ref.Type == tReplyError && string(m.Ref.Name) == e.Code && string(m.Ref.Payload) == e.Message:
		case herr == nil && len(pay.Data) <= 1000 && bytes.Equal(m.Ref.Payload, pay.Data) && m.Ref.Type == tReplyBin+byte(pay.Encoding):
		default:
			return w.v("replies", "%s: the client received %v", what, m.Ref)
		}
	}
	if n == 0 && len(rs) != 1 {
		return w.v("replies", "%s: no call failed but the client received no reply", what)
	}
	return true
}

func c26Signal(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	name, pay := r.Name(r.N(20)), wwr.Payload{Encoding: wwr.PayloadEncoding(r.N(3)), Data: r.Name(2 * r.N(40))}
	if len(pay.Data) == 0 && (len(name) == 0 || r.P(50)) {
		pay.Data = []byte("xy")
	}
	if len(name) == 0 && len(pay.Data) == 0 {
		name = []byte("n")
	}
	var err error
	hit := w.arm(vic.cl, f)
	done, id, how := w.perform(r, vic, func(c wwr.Connection) { err = c.Signal(name, pay) })
	what := fmt.Sprintf("signal by %s with fault at %v", how, f)
	n, ok := w.during(what, vic, f, done, hit)
	if !ok {
		return false
	}
	got := 0
	for _, m := range w.news(vic) {
		if m.Ref != nil && how == "request handler" && m.Ref.ID == id && isReplyType(m.Ref.Type) {
			continue
		}
		if m.Ref == nil || !bytes.Equal(m.Ref.Name, name) || !bytes.Equal(m.Ref.Payload, pay.Data) {
			return w.v("signal", "%s: the client received %v", what, m.Ref)
		}
		got++
	}
	if (err == nil) != (got == 1) || got > 1 {
		return w.v("success", "%s: it returned %v but the client received %d", what, err, got)
	}
	if n == 0 && err != nil {
		return w.v("failure", "%s: no call failed but it returned %v", what, err)
	}
	return true
}

func c26Create(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	var err error
	var after string
	hit := w.arm(vic.cl, f)
	done, _, how := w.perform(r, vic, func(c wwr.Connection) {
		err = c.CreateSession(infoFrom(map[string]interface{}{"a": "b"}))
		after = c.SessionKey()
	})
	what := fmt.Sprintf("creation by %s with fault at %v", how, f)
	n, ok := w.during(what, vic, f, done, hit)
	if !ok {
		return false
	}
	notified := 0
	for _, m := range w.news(vic) {
		if m.Ref != nil && m.Ref.Type == tSessCreated {
			notified++
			if s := checkWire(m.Ref.Payload, vic.cl.Conn().SessionKey(), vic.cl.Conn().SessionCreation(), nil, map[string]interface{}{"a": "b"}); s != "" {
				return w.v("notification", "%s: %s", what, s)
			}
		}
	}
	con := vic.cl.Conn()
	if (err == nil) != (notified == 1) || notified > 1 {
		return w.v("success", "%s: it returned %v, the client received %d notifications", what, err, notified)
	}
	if n == 0 && err != nil {
		return w.v("failure", "%s: no call failed but it returned %v", what, err)
	}
	if err == nil {
		cr, _, cl := w.sm.Calls(con.SessionKey())
		if con.SessionKey() == "" || after != con.SessionKey() || cr != 1 || cl != 0 {
			return w.v("state", "%s: session %q, hooks called %d and %d times", what, con.SessionKey(), cr, cl)
		}
		return true
	}
	w.sm.mu.Lock()
	hooks := len(w.sm.created) + len(w.sm.closed)
	w.sm.mu.Unlock()
	if con.HasSession() || after != "" || w.env.Srv.ActiveSessionsNum() != 0 || hooks != 0 {
		return w.v("state", "%s: it failed but the connection has session %q, %d are active, %d hooks were called", what, con.SessionKey(), w.env.Srv.ActiveSessionsNum(), hooks)
	}
	return w.createOn(what, vic)
}

// createOn creates a session normally
func (w *c26World) createOn(what string, c *sconn) bool {
	con := c.cl.Conn()
	var err error
	if !Await(w.env.Log, what+": another creation", Go(func() { err = con.CreateSession(nil) })) || !Settle() {
		w.env.dead = true
		return false
	}
	k := con.SessionKey()
	cr, _, _ := w.sm.Calls(k)
	if err != nil || k == "" || cr != 1 {
		return w.v("unusable", "%s: afterwards a creation returned %v, session %q, hook called %s", what, err, k, times(cr))
	}
	if l := w.news(c); len(l) != 1 || l[0].Ref == nil || l[0].Ref.Type != tSessCreated {
		return w.v("unusable", "%s: afterwards the client wasn't notified about a creation", what)
	}
	w.mu.Lock()
	w.keys = append(w.keys, k)
	w.mu.Unlock()
	return true
}

// restoreOn restores a session normally
func (w *c26World) restoreOn(what string, c *sconn, key string) bool {
	id := c.cl.NewID()
	c.cl.Send(encRestore(id, key))
	ref := c.cl.AwaitReply(id)
	if ref == nil || !Settle() {
		return false
	}
	w.news(c)
	if ref.Type != tReplyU8 || c.cl.Conn().SessionKey() != key {
		return w.v("unusable", "%s: a restoration was answered by %v", what, ref)
	}
	return true
}

func c26CloseSession(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	if !w.createOn("setup", vic) {
		return false
	}
	key := vic.cl.Conn().SessionKey()
	shared := r.P(40)
	if shared && !w.restoreOn("setup", w.conns[1], key) {
		return false
	}
	var err error
	hit := w.arm(vic.cl, f)
	done, _, how := w.perform(r, vic, func(c wwr.Connection) { err = c.CloseSession() })
	what := fmt.Sprintf("closure by %s with fault at %v", how, f)
	n, ok := w.during(what, vic, f, done, hit)
	if !ok {
		return false
	}
	notified := 0
	for _, m := range w.news(vic) {
		if m.Ref != nil && m.Ref.Type == tSessClosed {
			notified++
		}
	}
	if (err == nil) != (notified == 1) || notified > 1 {
		return w.v("success", "%s: it returned %v, the client received %d notifications", what, err, notified)
	}
	if n == 0 && err != nil {
		return w.v("failure", "%s: no call failed but it returned %v", what, err)
	}
	return w.closedOn(what, vic, key, shared)
}

// closedOn requires a session to be closed on a connection
func (w *c26World) closedOn(what string, vic *sconn, key string, shared bool) bool {
	_, _, cl := w.sm.Calls(key)
	want := 1
	if shared {
		want = 0
	}
	if vic.cl.Conn().HasSession() || cl != want {
		return w.v("state", "%s: the connection has session %q, the closing hook was called %s instead of %d", what, vic.cl.Conn().SessionKey(), times(cl), want)
	}
	if shared && w.conns[1].cl.Conn().SessionKey() != key {
		return w.v("others", "%s: another connection lost its session", what)
	}
	return w.createOn(what, vic)
}

func c26CloseRequest(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	if !w.createOn("setup", vic) {
		return false
	}
	key := vic.cl.Conn().SessionKey()
	shared := r.P(40)
	if shared && !w.restoreOn("setup", w.conns[1], key) {
		return false
	}
	hit := w.arm(vic.cl, f)
	id := vic.cl.NewID()
	vic.cl.Send(encCloseSession(id))
	what := fmt.Sprintf("closure request with fault at %v", f)
	n, ok := w.during(what, vic, f, func() bool { return true }, hit)
	if !ok {
		return false
	}
	rs := w.news(vic)
	for _, m := range rs {
		if m.Ref == nil || m.Ref.ID != id || len(rs) > 1 || n > 0 && m.Ref.Type != tReplyInternal || n == 0 && m.Ref.Type != tReplyBin {
			return w.v("success", "%s: %d calls failed, the client received %v", what, n, m.Ref)
		}
	}
	return w.closedOn(what, vic, key, shared)
}

func c26CloseKey(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	if !w.createOn("setup", vic) {
		return false
	}
	key := vic.cl.Conn().SessionKey()
	num := r.Range(1, 3)
	for k := 1; k < num; k++ {
		if !w.restoreOn("setup", w.conns[k], key) {
			return false
		}
	}
	var aff []wwr.Connection
	var errs []error
	var gen error
	hit := w.arm(vic.cl, f)
	what := fmt.Sprintf("closure by key of a session of %d connections with fault at %v", num, f)
	n, ok := w.during(what, vic, f, Go(func() { aff, errs, gen = w.env.Srv.CloseSession(key) }), hit)
	if !ok {
		return false
	}
	if len(aff) != num || len(errs) != num {
		return w.v("result", "%s: it returned %d connections and errors %v", what, len(aff), errs)
	}
	for k, a := range aff {
		var c *sconn
		for _, x := range w.conns {
			if x.cl.Conn() == a {
				c = x
			}
		}
		notified := 0
		for _, m := range w.news(c) {
			if m.Ref != nil && m.Ref.Type == tSessClosed {
				notified++
			}
		}
		if (errs[k] == nil) != (notified == 1) || notified > 1 {
			return w.v("success", "%s: for conn %d it returned %v, the client received %d notifications", what, c.cl.id, errs[k], notified)
		}
		if errs[k] != nil && (c != vic || n == 0) {
			return w.v("others", "%s: for conn %d it returned %v", what, c.cl.id, errs[k])
		}
		if c.cl.Conn().HasSession() {
			return w.v("state", "%s: conn %d still has session %q", what, c.cl.id, c.cl.Conn().SessionKey())
		}
	}
	if (gen != nil) != (n > 0) {
		return w.v("success", "%s: %d calls failed, the general error is %v", what, n, gen)
	}
	if _, _, cl := w.sm.Calls(key); cl != 1 {
		return w.v("hook", "%s: the closing hook was called %s", what, times(cl))
	}
	return w.createOn(what, vic)
}

func c26Restore(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	w.sm.mu.Lock()
	crea := time.Unix(1e9, 5).UTC()
	w.sm.store["stored"] = memSess{crea, crea, map[string]interface{}{"x": 1.5}}
	w.sm.mu.Unlock()
	w.keys = append(w.keys, "stored")
	old := ""
	if r.P(50) {
		if !w.createOn("setup", vic) {
			return false
		}
		old = vic.cl.Conn().SessionKey()
	}
	oldShared := old != "" && r.P(50)
	if oldShared && !w.restoreOn("setup", w.conns[1], old) {
		return false
	}
	if r.P(40) && !w.restoreOn("setup", w.conns[2], "stored") {
		return false
	}
	before := w.env.Srv.SessionConnectionsNum("stored")
	key, variant := "stored", r.N(5)
	switch variant {
	case 0:
		key = "unknown"
	case 1:
		herr := secretErr(r)
		w.sm.Hooks(nil, func(string) error { return herr }, nil)
	}
	hit := w.arm(vic.cl, f)
	id := vic.cl.NewID()
	vic.cl.Send(encRestore(id, key))
	what := fmt.Sprintf("restoration (%d) of %q by a connection having %q with fault at %v", variant, key, old, f)
	n, ok := w.during(what, vic, f, func() bool { return true }, hit)
	if !ok {
		return false
	}
	w.sm.Hooks(nil, nil, nil)
	rs := w.news(vic)
	if len(rs) > 1 || len(rs) == 1 && (rs[0].Ref == nil || rs[0].Ref.ID != id) || len(rs) == 0 && n == 0 {
		return w.v("replies", "%s: %d calls failed, the client received %d messages", what, n, len(rs))
	}
	success := false
	for _, m := range rs {
		if bytes.Contains(m.Raw, []byte(secretText)) {
			return w.v("detail", "%s: the client received an internal detail", what)
		}
		switch m.Ref.Type {
		case tReplyU8:
			success = true
			if s := checkWire(m.Ref.Payload, "stored", crea, nil, map[string]interface{}{"x": 1.5}); variant < 2 || n > 0 || s != "" {
				return w.v("success", "%s: %d calls failed, the client received %v", what, n, m.Ref)
			}
		case tReplyInternal:
		case tReplyNotFound:
			if variant != 0 {
				return w.v("replies", "%s: the client received %v", what, m.Ref)
			}
		default:
			return w.v("replies", "%s: the client received %v", what, m.Ref)
		}
	}
	want := old
	if success {
		want = "stored"
		before++
		if before == 0 {
			before = 1
		}
	}
	con := vic.cl.Conn()
	if con.SessionKey() != want || w.env.Srv.SessionConnectionsNum("stored") != before {
		return w.v("state", "%s: the client received %d messages, the connection has session %q instead of %q, %d connections have the stored one instead of %d", what, len(rs), con.SessionKey(), want, w.env.Srv.SessionConnectionsNum("stored"), before)
	}
	if old != "" && !success {
		num := 1
		if oldShared {
			num = 2
		}
		if k := w.env.Srv.SessionConnectionsNum(old); k != num {
			return w.v("state", "%s: %d connections have the previous session instead of %d", what, k, num)
		}
	}
	w.sm.mu.Lock()
	hooks := len(w.sm.closed)
	w.sm.mu.Unlock()
	if hooks > 0 {
		return w.v("hook", "%s: a closing hook was called", what)
	}
	if variant == 1 && !bytes.Contains(w.log(), []byte(secretText)) {
		return w.v("log", "%s: the error of the lookup wasn't logged", what)
	}
	if w.M > 0 && w.env.Srv.SessionConnectionsNum("stored") >= int(w.M) {
		return true
	}
	return w.restoreOn(what, vic, "stored")
}

func (w *c26World) log() []byte {
	w.errlog.mu.Lock()
	defer w.errlog.mu.Unlock()
	return append([]byte(nil), w.errlog.b.Bytes()...)
}

// c26Blocked starts a request whose handler waits for the returned channel
func (w *c26World) blocked(c *sconn) (id [8]byte, release chan struct{}, ok bool) {
	release = make(chan struct{})
	var in int32
	t := w.action(func(wwr.Connection) (wwr.Payload, error) {
		atomic.StoreInt32(&in, 1)
		<-release
		return wwr.Payload{Data: []byte("done")}, nil
	})
	id = c.cl.Request(nil, 0, t)
	ok = Await(w.env.Log, "start of a handler", func() bool { return atomic.LoadInt32(&in) == 1 })
	return
}

// refusals and the last reply of a connection that's being closed fail
func c26Closing(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	c := w.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: 3})
	if c == nil {
		return false
	}
	vic.open = false
	if !w.end("setup", vic.cl, 0) {
		return false
	}
	v2 := &sconn{cl: c, open: true}
	id, release, ok := w.blocked(v2)
	if !ok {
		return false
	}
	con := c.Conn()
	hit := w.arm(c, f)
	var ids [][8]byte
	if r.P(30) {
		// a closing transport fails
		c.ft.setFaults(func(o string, n int) error {
			if o == f.op && (n == f.nth || f.rest && n > f.nth) || o == "close" {
				if o != "close" {
					atomic.AddInt64(hit, 1)
				}
				return errInjected
			}
			return nil
		})
	}
	done := Go(func() { con.Close() })
	what := fmt.Sprintf("closing of a connection with fault at %v", f)
	if !Await(w.env.Log, what, done) || !Settle() {
		close(release)
		return false
	}
	for k := r.Range(1, 3); k > 0; k-- {
		ids = append(ids, c.Request(nil, 0, []byte("refused")))
	}
	if !Settle() {
		close(release)
		return false
	}
	early := c.ServerClosed()
	close(release)
	if early {
		return w.v("closed-early", "%s: the socket was closed while a handler was running", what)
	}
	if _, ok := w.during(what, v2, f, func() bool { return c.ServerClosed() && w.numDisc(c) > 0 }, hit); !ok {
		return false
	}
	if w.numDisc(c) != 1 || c.ft.numCloses() < 1 || atomic.LoadInt64(&c.ft.served) != 1 {
		return w.v("closing", "%s: disconnected hook ran %s, socket closed %s", what, times(w.numDisc(c)), times(c.ft.numCloses()))
	}
	n := atomic.LoadInt64(hit)
	failed := int64(0)
	for k, i := range append(ids, id) {
		rs := c.ReplyTo(i)
		switch {
		case len(rs) > 1:
			return w.v("replies", "%s: a request was answered twice", what)
		case len(rs) == 0:
			failed++
		case rs[0].Ref.Type == tReplyInternal:
		case k < len(ids) && rs[0].Ref.Type != tReplyShutdown, k == len(ids) && (rs[0].Ref.Type != tReplyBin || string(rs[0].Ref.Payload) != "done"):
			return w.v("replies", "%s: a request was answered by %v", what, rs[0].Ref)
		}
	}
	if failed > n {
		return w.v("replies", "%s: %d calls failed, but %d requests weren't answered", what, n, failed)
	}
	return w.free(what, c)
}

// replies during a shutdown fail
func c26Shutdown(w *c26World, r *Rng, vic *sconn, f c26Fault) bool {
	id, release, ok := w.blocked(vic)
	if !ok {
		return false
	}
	other := w.conns[1]
	id2, release2, ok := w.blocked(other)
	if !ok {
		close(release)
		return false
	}
	hit := w.arm(vic.cl, f)
	done := Go(func() { w.env.Srv.Shutdown() })
	what := fmt.Sprintf("shutdown with fault at %v", f)
	if !Settle() {
		return false
	}
	r1 := vic.cl.Request(nil, 0, []byte("refused"))
	r2 := w.conns[2].cl.Request(nil, 0, []byte("refused"))
	if !Settle() {
		return false
	}
	early := done()
	close(release)
	close(release2)
	if early {
		return w.v("early", "%s: it returned while handlers were running", what)
	}
	if !Await(w.env.Log, what+": return of Shutdown", done) || !Settle() {
		w.env.dead = true
		return false
	}
	n := atomic.LoadInt64(hit)
	ctx.Count("faults_injected", n)
	is := func(c *sconn, id [8]byte, t byte, must bool) bool {
		rs := c.cl.ReplyTo(id)
		if len(rs) > 1 || must && len(rs) == 0 || len(rs) == 1 && rs[0].Ref.Type != t && (must || rs[0].Ref.Type != tReplyInternal) {
			return w.v("replies", "%s: conn %d received %v", what, c.cl.id, rs)
		}
		return true
	}
	// the victim may have been disconnected before it could be answered, the others not
	if !is(vic, id, tReplyBin, n == 0) || !is(other, id2, tReplyBin, true) || !is(w.conns[2], r2, tReplyShutdown, true) || !is(vic, r1, tReplyShutdown, n == 0 && len(vic.cl.ReplyTo(r1)) > 0) {
		return false
	}
	w.env.dead = true
	for _, c := range w.conns {
		if w.numDisc(c.cl) != 1 || c.cl.Conn().HasSession() || !c.cl.ServerClosed() {
			return w.v("disconnected", "%s: the disconnected hook of conn %d ran %s", what, c.cl.id, times(w.numDisc(c.cl)))
		}
	}
	return true
}

/* ---- storage hooks ---- */

type c26Custom struct{ a, b int }

// c26Panic panics in various ways
func c26Panic(k int) string {
	switch k {
	case 0:
		panic("trouble-0")
	case 1:
		panic(errors.New("trouble-1"))
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		var p *c26Custom
		return fmt.Sprint(p.b)
	case 4:
		panic(c26Custom{4, 5})
	case 5:
		panic(nil)
	case 6:
		l := []int{1}
		return fmt.Sprint(l[len(l)+k])
	case 7:
		panic(fmt.Errorf("wrapped: %w", errInjected))
	}
	return ""
}

func c26Hooks(i int, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	w := newC26World(r, true, 0)
	num := r.Range(1, 3)
	for k := 0; k < num+1; k++ {
		if w.dial() == nil {
			return
		}
	}
	trouble := i % 10 // the last two: errors
	path := i / 10 % 5
	createFails := r.P(30)
	during := r.P(25) // the closure happens during the creation hook
	gate := make(chan struct{})
	var opened sync.Once
	open := func() { opened.Do(func() { close(gate) }) }
	defer open()
	w.sm.Hooks(func(wwr.Connection, string) error {
		if during {
			<-gate
		}
		if createFails {
			return errors.New("creation-trouble")
		}
		return nil
	}, nil, func(string) error {
		if trouble < 8 {
			c26Panic(trouble)
		}
		return errors.New("closing-trouble")
	})
	con := w.conns[0].cl.Conn()
	var cerr error
	created, _, how := w.perform(r, w.conns[0], func(c wwr.Connection) { cerr = c.CreateSession(nil) })
	if !during && !Await(w.env.Log, "creation", created) || !Settle() {
		return
	}
	key := con.SessionKey()
	what := fmt.Sprintf("trouble %d of the closing hook, creation by %s (hook fails: %v, running: %v), path %d", trouble, how, createFails, during, path)
	if key == "" || !during && cerr != nil {
		w.v("creation", "%s: the creation hook failed, it returned %v and left session %q", what, cerr, key)
		return
	}
	w.mu.Lock()
	w.keys = append(w.keys, key)
	w.mu.Unlock()
	w.sm.mu.Lock()
	w.sm.store[key] = memSess{con.SessionCreation(), time.Now(), nil}
	w.sm.mu.Unlock()
	holders := w.conns[:1]
	for k := 1; k < num && !during; k++ {
		if !w.restoreOn("setup", w.conns[k], key) {
			return
		}
		holders = w.conns[:k+1]
	}
	ctx.Eval(fmt.Sprintf("hooks/%d/%d/%v/%v/%d/%s", trouble, path, createFails, during, len(holders), how))
	w.news(w.conns[0])
	var emu sync.Mutex
	var errs []error
	add := func(e error) {
		emu.Lock()
		errs = append(errs, e)
		emu.Unlock()
	}
	ends := []func() bool{}
	var reqs [][8]byte
	for _, c := range holders {
		c := c
		switch path {
		case 0:
			con := c.cl.Conn()
			ends = append(ends, Go(func() { add(con.CloseSession()) }))
		case 1:
			if during && how != "goroutine" {
				// the only slot of the connection may be taken
				con := c.cl.Conn()
				ends = append(ends, Go(func() { add(con.CloseSession()) }))
				break
			}
			d, _, _ := w.perform(r, c, func(x wwr.Connection) { add(x.CloseSession()) })
			ends = append(ends, d)
		case 2:
			if len(ends) == 0 {
				ends = append(ends, Go(func() {
					_, l, g := w.env.Srv.CloseSession(key)
					add(g)
					for _, e := range l {
						add(e)
					}
				}))
			}
		case 3:
			if during && how != "goroutine" {
				ends = append(ends, Go(func() { add(con.CloseSession()) }))
				break
			}
			id := c.cl.NewID()
			reqs = append(reqs, id)
			c.cl.Send(encCloseSession(id))
		case 4:
			// both sides at once
			con := c.cl.Conn()
			ends = append(ends, Go(func() { add(con.CloseSession()) }))
			ends = append(ends, Go(func() { w.env.Srv.CloseSession(key) }))
		}
	}
	if !during && !Await(w.env.Log, what+": return of the closures", func() bool {
		for _, d := range ends {
			if !d() {
				return false
			}
		}
		return true
	}) || !Settle() {
		return
	}
	if during {
		if _, _, cl := w.sm.Calls(key); cl > 0 {
			// the order of the hooks belongs to C07
			ctx.Count("skipped_violation_of_C07", 1)
		}
		open()
		if !Await(w.env.Log, what+": return of the creation and the closure", func() bool {
			for _, d := range ends {
				if !d() {
					return false
				}
			}
			return created()
		}) || !Settle() {
			return
		}
		if cerr != nil {
			w.v("creation", "%s: the creation returned %v", what, cerr)
			return
		}
	}
	emu.Lock()
	defer emu.Unlock()
	for _, e := range errs {
		if e != nil {
			w.v("closure", "%s: the closure returned %v", what, e)
			return
		}
	}
	for k, id := range reqs {
		if rs := holders[k].cl.ReplyTo(id); len(rs) != 1 || rs[0].Ref.Type != tReplyBin || len(rs[0].Ref.Payload) != 0 {
			w.v("closure", "%s: the closure request was answered by %v", what, rs)
			return
		}
	}
	for _, c := range holders {
		if c.cl.Conn().HasSession() {
			w.v("state", "%s: conn %d still has the session", what, c.cl.id)
			return
		}
	}
	if _, _, cl := w.sm.Calls(key); cl != 1 {
		w.v("hook", "%s: the closing hook was called %s", what, times(cl))
		return
	}
	if n := w.env.Srv.ActiveSessionsNum(); n != 0 {
		w.v("registry", "%s: %d sessions are active", what, n)
		return
	}
	l := string(w.log())
	if createFails && !strings.Contains(l, "creation-trouble") {
		w.v("log", "%s: the error of the creation hook wasn't logged: %q", what, l)
		return
	}
	if trouble >= 8 && !strings.Contains(l, "closing-trouble") {
		w.v("log", "%s: the error of the closing hook wasn't logged: %q", what, l)
		return
	}
	// everything is usable afterwards
	w.sm.Hooks(nil, nil, nil)
	for _, c := range w.conns {
		w.news(c)
		if !w.createOn(what, c) || !w.probe(what, c.cl) {
			return
		}
	}
	if !w.mirror(what) {
		return
	}
	for _, c := range w.conns {
		if !w.end(what, c.cl, r.N(3)) {
			return
		}
	}
	w.env.Shutdown()
}

/* ---- handshakes ---- */

func c26Dial(i int, r *Rng) {
	w := newC26World(r, true, 0)
	a := w.dial()
	if a == nil || !w.createOn("setup", a) {
		return
	}
	f := c26Faults[r.N(len(c26Faults))]
	if f.nth > 1 {
		f.nth = 1
	}
	closeFails := r.P(50)
	var hit int64
	w.env.Ft.mu.Lock()
	w.env.Ft.onDial = func(s *ftSocket) {
		s.setFaults(func(o string, n int) error {
			if o == f.op && n >= f.nth || o == "close" && closeFails {
				if o != "close" {
					atomic.AddInt64(&hit, 1)
				}
				return errInjected
			}
			return nil
		})
	}
	w.env.Ft.mu.Unlock()
	what := fmt.Sprintf("handshake with fault at %v (close fails: %v)", f, closeFails)
	var cls []*Client
	for k := r.Range(1, 4); k > 0; k-- {
		c, err := w.env.Dial(wwr.ConnectionOptions{})
		if err != nil {
			ctx.Inconclusive("dial: %v", err)
			return
		}
		c.Request(nil, 0, []byte("x"))
		cls = append(cls, c)
	}
	if !Settle() {
		return
	}
	ctx.Count("faults_injected", atomic.LoadInt64(&hit))
	ctx.Eval(fmt.Sprintf("dial/%v/%v", f, closeFails))
	for _, c := range cls {
		switch {
		case atomic.LoadInt64(&c.ft.served) != 1:
			w.v("handshake", "%s: the connection goroutine of conn %d didn't end", what, c.id)
			return
		case c.Conn() != nil || w.numDisc(c) > 0:
			w.v("handshake", "%s: hooks were called for conn %d", what, c.id)
			return
		case c.ft.numCloses() < 1:
			w.v("handshake", "%s: the socket of conn %d wasn't closed", what, c.id)
			return
		case c.NumReceived() > 0:
			w.v("handshake", "%s: the client of conn %d received %d messages", what, c.id, c.NumReceived())
			return
		case !w.free(what, c):
			return
		}
	}
	w.env.Ft.mu.Lock()
	w.env.Ft.onDial = nil
	w.env.Ft.mu.Unlock()
	b := w.dial()
	if b == nil || !w.probe(what, a.cl) || !w.probe(what, b.cl) || !w.mirror(what) {
		return
	}
	w.env.Shutdown()
}

// c26Disabled: session operations and failing transports with sessions disabled
func c26Disabled(i int, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	w := newC26World(r, false, 0)
	vic, other := w.dial(), w.dial()
	if vic == nil || other == nil || !Settle() {
		return
	}
	for n := r.Range(1, 3); n > 0; n-- {
		f := c26Faults[r.N(len(c26Faults))]
		op := r.N(4)
		what := fmt.Sprintf("%s without sessions with fault at %v", []string{"restoration", "closure request", "creation", "closure"}[op], f)
		w.env.Log.Add("%s", what)
		hit := w.arm(vic.cl, f)
		id := vic.cl.NewID()
		var done func() bool
		var err error
		con := vic.cl.Conn()
		switch op {
		case 0:
			vic.cl.Send(encRestore(id, string(r.Name(r.Range(1, 40)))))
		case 1:
			vic.cl.Send(encCloseSession(id))
		case 2:
			done = Go(func() { err = con.CreateSession(nil) })
		case 3:
			done = Go(func() { err = con.CloseSession() })
		}
		if done == nil {
			done = func() bool { return true }
		}
		k, ok := w.during(what, vic, f, done, hit)
		if !ok {
			return
		}
		ctx.Eval(fmt.Sprintf("disabled/%d/%v/%d", op, f, k))
		rs := w.news(vic)
		switch {
		case op >= 2 && len(rs) > 0 || len(rs) > 1:
			w.v("replies", "%s: the client received %d messages", what, len(rs))
			return
		case op < 2 && len(rs) == 0 && k == 0:
			w.v("replies", "%s: the client received nothing", what)
			return
		case op == 2 && err == nil || op == 3 && err == nil && con.HasSession():
			w.v("success", "%s: the result is %v", what, err)
			return
		}
		for _, m := range rs {
			if m.Ref == nil || m.Ref.ID != id || m.Ref.Type != tReplyDisabled && (m.Ref.Type != tReplyInternal || k == 0) || len(m.Raw) != 9 {
				w.v("replies", "%s: %d calls failed, the client received %v", what, k, m.Ref)
				return
			}
		}
		if con.HasSession() || len(w.sm.created)+len(w.sm.closed)+w.totalLookups() > 0 {
			w.v("state", "%s: has session: %v, hooks were called: %v %v %v", what, con.HasSession(), w.sm.created, w.sm.looked, w.sm.closed)
			return
		}
		if !w.free(what, vic.cl) || !w.probe(what, vic.cl) || !w.probe(what, other.cl) {
			return
		}
		w.news(vic)
		w.news(other)
	}
	if w.end("end", vic.cl, r.N(3)) {
		w.env.Shutdown()
	}
}

/* ---- ends ---- */

// reads and closing fail while handlers are running
func c26Ends(i int, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	w := newC26World(r, true, 0)
	a, v := w.dial(), w.dial()
	if a == nil || v == nil || !Settle() || !w.createOn("setup", v) {
		return
	}
	key := v.cl.Conn().SessionKey()
	if !w.restoreOn("setup", a, key) {
		return
	}
	how := i % 4
	running := r.P(50)
	closeFails := how == 3 || r.P(50)
	what := fmt.Sprintf("end %d of a connection (running handler %v, close fails %v)", how, running, closeFails)
	ctx.Eval("ends/" + what)
	var release chan struct{}
	var id [8]byte
	if running {
		var ok bool
		if id, release, ok = w.blocked(v); !ok {
			return
		}
	}
	v.cl.ft.setFaults(func(o string, n int) error {
		if o == "close" && closeFails || o == "read" && how == 0 {
			return errInjected
		}
		return nil
	})
	con := v.cl.Conn()
	switch how {
	case 0:
		// the next read fails
		v.cl.Send(encHeartbeat())
	case 1, 2:
		v.cl.Disconnect(how == 1)
	case 3:
		if !Await(w.env.Log, "Close", Go(func() { con.Close() })) {
			return
		}
	}
	if !Settle() {
		return
	}
	if running {
		if v.cl.ServerClosed() {
			close(release)
			w.v("closed-early", "%s: the socket was closed while a handler was running", what)
			return
		}
		if !w.probe(what, a.cl) {
			close(release)
			return
		}
		close(release)
	}
	if !Await(w.env.Log, what, func() bool { return v.cl.ServerClosed() && w.numDisc(v.cl) > 0 }) || !Settle() {
		return
	}
	if n := w.numDisc(v.cl); n != 1 || atomic.LoadInt64(&v.cl.ft.served) != 1 {
		w.v("disconnected", "%s: the disconnected hook ran %s", what, times(n))
		return
	}
	if running && (how == 0 || how == 3) {
		if rs := v.cl.ReplyTo(id); len(rs) != 1 || rs[0].Ref.Type != tReplyBin {
			w.v("replies", "%s: the running request was answered by %v", what, rs)
			return
		}
	}
	_, _, closed := w.sm.Calls(key)
	if con.HasSession() || con.IsActive() || closed != 0 || a.cl.Conn().SessionKey() != key || w.env.Srv.SessionConnectionsNum(key) != 1 {
		w.v("state", "%s: session %q, active %v, closing hooks %d, the other connection has session %q, %d have it", what, con.SessionKey(), con.IsActive(), closed, a.cl.Conn().SessionKey(), w.env.Srv.SessionConnectionsNum(key))
		return
	}
	if con.CreateSession(nil) == nil || con.HasSession() {
		w.v("state", "%s: a session could be created afterwards", what)
		return
	}
	b := w.dial()
	if b == nil || !w.restoreOn(what, b, key) || !w.probe(what, a.cl) || !w.probe(what, b.cl) {
		return
	}
	w.env.Shutdown()
}

/* ---- storms ---- */

func c26Storm(i int, r *Rng) {
	SetDelays(r.U64() | 1)
	defer SetDelays(0)
	w := newC26World(r, true, uint(r.Pick(0, 0, 2)))
	n := r.Range(3, 6)
	type member struct {
		*sconn
		pct  int
		sent map[string]bool
		ids  map[[8]byte]string
	}
	var ms []*member
	for k := 0; k < n; k++ {
		cl := w.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: r.Pick(0, 1, 3, -1)})
		if cl == nil {
			return
		}
		c := &sconn{cl: cl, open: true}
		w.conns = append(w.conns, c)
		pct := r.Pick(0, 10, 30, 60)
		if k == 0 {
			pct = 0
		}
		m := &member{sconn: c, pct: pct, sent: map[string]bool{}, ids: map[[8]byte]string{}}
		ms = append(ms, m)
		if pct > 0 {
			var cnt uint64
			seed := r.U64()
			cl.ft.setFaults(func(o string, _ int) error {
				if o == "read" || o == "close" {
					return nil
				}
				if int(mix(seed+atomic.AddUint64(&cnt, 1))%100) < pct {
					ctx.Count("faults_injected", 1)
					return errInjected
				}
				return nil
			})
		}
	}
	hookPct := r.Pick(0, 20, 60)
	var cnt uint64
	seed := r.U64()
	die := func() int { return int(mix(seed+atomic.AddUint64(&cnt, 1)) % 100) }
	bad := func() error {
		if k := die(); k < hookPct {
			return secretErr(NewRng(seed, uint64(k)))
		}
		return nil
	}
	w.sm.Hooks(func(wwr.Connection, string) error { return bad() }, func(string) error { return bad() }, func(string) error {
		if die() < hookPct {
			c26Panic(die() % 8)
		}
		return bad()
	})
	var kmu sync.Mutex
	known := []string{"unknown"}
	var wg sync.WaitGroup
	var smu sync.Mutex
	results := map[string]error{} // signal -> result
	for k, m := range ms {
		for g := 0; g < 2; g++ {
			k, m, g, r := k, m, g, r.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				con := m.cl.Conn()
				for o := 0; o < 8; o++ {
					switch r.N(8) {
					case 0, 1:
						t := fmt.Sprintf("echo-%d-%d-%d", k, g, o)
						id := m.cl.Request(nil, 0, []byte(t))
						smu.Lock()
						m.ids[id] = t
						smu.Unlock()
					case 2:
						t := fmt.Sprintf("signal-%d-%d-%d", k, g, o)
						err := con.Signal([]byte(t), wwr.Payload{})
						smu.Lock()
						results[t] = err
						smu.Unlock()
					case 3, 4:
						con.CreateSession(nil)
						if key := con.SessionKey(); key != "" {
							kmu.Lock()
							known = append(known, key)
							kmu.Unlock()
						}
					case 5:
						con.CloseSession()
					case 6:
						kmu.Lock()
						key := known[r.N(len(known))]
						kmu.Unlock()
						if r.P(50) {
							w.env.Srv.CloseSession(key)
						} else {
							m.cl.Send(encRestore(m.cl.NewID(), key))
						}
					case 7:
						m.cl.Send(encCloseSession(m.cl.NewID()))
					}
				}
			}()
		}
	}
	what := "storm of faults"
	if !Await(w.env.Log, what, Go(func() { wg.Wait() })) || !Settle() {
		w.env.dead = true
		return
	}
	w.keys = append(w.keys, known...)
	ctx.Eval(fmt.Sprintf("storm/%d", i))
	for k, m := range ms {
		for id, t := range m.ids {
			rs := m.cl.ReplyTo(id)
			if len(rs) > 1 || m.pct == 0 && len(rs) != 1 {
				w.v("replies", "%s: a request of conn %d was answered %s", what, m.cl.id, times(len(rs)))
				return
			}
			if len(rs) == 1 && !(rs[0].Ref.Type == tReplyBin && string(rs[0].Ref.Payload) == t) && (m.pct == 0 || rs[0].Ref.Type != tReplyInternal) {
				w.v("replies", "%s: a request of conn %d was answered by %v", what, m.cl.id, rs[0].Ref)
				return
			}
		}
		got := map[string]int{}
		created, closed := 0, 0
		for _, rc := range m.cl.Received() {
			switch {
			case rc.Ref == nil:
				w.v("garbage", "%s: conn %d received %q", what, m.cl.id, rc.Raw)
				return
			case bytes.Contains(rc.Raw, []byte(secretText)):
				w.v("detail", "%s: conn %d received an internal detail", what, m.cl.id)
				return
			case rc.Ref.Type == tSessCreated:
				created++
				var s wireSession
				if json.Unmarshal(rc.Ref.Payload, &s) != nil {
					w.v("garbage", "%s: conn %d received %q", what, m.cl.id, rc.Raw)
					return
				}
			case rc.Ref.Type == tSessClosed:
				closed++
			}
			got[string(rc.Ref.Name)]++
		}
		for t, err := range results {
			if !strings.HasPrefix(t, fmt.Sprintf("signal-%d-", k)) {
				continue
			}
			if (err == nil) != (got[t] == 1) || got[t] > 1 || m.pct == 0 && err != nil {
				w.v("success", "%s: signal on conn %d returned %v, the client received it %s", what, m.cl.id, err, times(got[t]))
				return
			}
		}
	}
	w.sm.Hooks(nil, nil, nil)
	for _, m := range ms {
		m.cl.ft.setFaults(nil)
	}
	if !w.mirror(what) {
		return
	}
	for _, m := range ms {
		if !Settle() || !w.free(what, m.cl) || !w.probe(what, m.cl) {
			return
		}
		m.cl.Conn().CloseSession()
		w.news(m.sconn)
		if !w.createOn(what, m.sconn) {
			return
		}
	}
	for _, m := range ms {
		if !w.end(what, m.cl, r.N(3)) {
			return
		}
	}
	w.env.Shutdown()
}

/* ---- the transport as a whole ---- */

type c26Transport struct {
	*ftTransport
	initErr, serveErr, shutErr error
}

func (t *c26Transport) Initialize(o wwr.ServerOptions, s wwr.IsShuttingDown, n wwr.OnNewConnection) error {
	if t.initErr != nil {
		return t.initErr
	}
	return t.ftTransport.Initialize(o, s, n)
}

func (t *c26Transport) Serve() error {
	if t.serveErr != nil {
		return t.serveErr
	}
	return t.ftTransport.Serve()
}

func (t *c26Transport) Shutdown() error {
	t.ftTransport.Shutdown()
	return t.shutErr
}

func c26Server(i int, r *Rng) {
	log := &EventLog{}
	t := &c26Transport{ftTransport: newFt(log, 0)}
	switch i % 3 {
	case 0:
		t.initErr = errInjected
	case 1:
		t.serveErr = errInjected
	case 2:
		t.shutErr = errInjected
	}
	ctx.Eval(fmt.Sprintf("server/%d", i%3))
	srv, err := wwr.NewServer(&Impl{}, wwr.ServerOptions{Sessions: wwr.Disabled}, t)
	if t.initErr != nil {
		if err == nil {
			ctx.Violate("server", nil, "NewServer succeeded although the transport couldn't be initialized")
		}
		return
	}
	if err != nil {
		ctx.Violate("server", nil, "NewServer failed: %v", err)
		return
	}
	var runErr error
	done := Go(func() { runErr = srv.Run() })
	if t.serveErr != nil {
		if Await(log, "return of Run", done) && runErr == nil {
			ctx.Violate("server", nil, "Run succeeded although the transport failed")
		}
		return
	}
	var errs [3]error
	var all []func() bool
	for k := range errs {
		k := k
		all = append(all, Go(func() { errs[k] = srv.Shutdown() }))
	}
	if !Await(log, "return of Shutdown and Run", func() bool { return done() && all[0]() && all[1]() && all[2]() }) {
		return
	}
	for _, e := range errs {
		if e == nil {
			ctx.Violate("server", nil, "Shutdown succeeded although the transport failed")
			return
		}
	}
}
