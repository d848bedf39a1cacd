package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	wwr "github.com/qbeon/webwire-go"
)

/* C07-C10: sequential operations against a reference model, concurrent and
   forced ones against invariants. Every oracle belongs to a property, it's
   silent in the checks of the others */

func init() {
	for _, p := range []string{"C07", "C08", "C09", "C10"} {
		p := p
		checks[p] = func(c *Ctx) { checkSessions(c, p) }
	}
}

func checkSessions(c *Ctx, p string) {
	seq, conc, forced := 1000, 700, 500
	switch p {
	case "C09":
		seq, conc, forced = 500, 500, 700
	case "C10":
		seq, conc, forced = 1400, 300, 300
	case "C26":
		c.Cases("model", c.Scale(500, 500*30), func(i int, r *Rng) { sessModelCase(p, r) })
		return
	}
	c.Cases("model", c.Scale(seq, seq*30), func(i int, r *Rng) { sessModelCase(p, r) })
	c.Cases("concurrent", c.Scale(conc, conc*30), func(i int, r *Rng) { sessConcCase(p, r, false) })
	c.Cases("servers", c.Scale(120, 120*30), func(i int, r *Rng) { sessServers(p, r) })
	c.Cases("forced", c.Scale(forced, forced*30), func(i int, r *Rng) { sessConcCase(p, r, true) })
	switch p {
	case "C07":
		c.Cases("disabled", c.Scale(40, 1000), func(i int, r *Rng) { sessDisabledCase(p, r) })
		c.Cases("one-of-many", c.Scale(160, 5000), func(i int, r *Rng) { sessOneOfMany(p, r) })
		c.Cases("last", c.Scale(160, 5000), func(i int, r *Rng) { sessLastCase(p, r) })
		c.Cases("early", c.Scale(160, 5000), func(i int, r *Rng) { sessEarlyClosure(p, r) })
		c.Cases("crowd", c.Scale(8, 600), func(i int, r *Rng) { crowdSessions(p, r) })
		c.Cases("fit", c.Scale(40, 1200), func(i int, r *Rng) { fitCreate(p, r) })
		c.Cases("series", c.Scale(8, 600), func(i int, r *Rng) { longSessions(p, r) })
	case "C08":
		c.Cases("stale-listing", c.Scale(240, 6000), func(i int, r *Rng) { sessStaleListing(p, r) })
		c.Cases("crowd", c.Scale(16, 600), func(i int, r *Rng) { crowdSessions(p, r) })
	case "C09":
		c.Cases("limit", c.Scale(500, 15000), func(i int, r *Rng) { sessLimitCase(p, r) })
		c.Cases("same-keys", c.Scale(120, 4000), func(i int, r *Rng) { sessSameKeys(p, r) })
		c.Cases("crowd", c.Scale(16, 600), func(i int, r *Rng) { crowdSessions(p, r) })
	case "C10":
		c.Cases("disabled", c.Scale(40, 1000), func(i int, r *Rng) { sessDisabledCase(p, r) })
		c.Cases("fit", c.Scale(60, 2000), func(i int, r *Rng) { fitRestore(p, r) })
	}
}

// customInfo is a session info implementation of its own
type customInfo struct {
	names []string
	vals  map[string]interface{}
}

func (c *customInfo) Fields() []string { return append([]string(nil), c.names...) }
func (c *customInfo) Value(n string) interface{} {
	return c.vals[n]
}
func (c *customInfo) Copy() wwr.SessionInfo {
	n := &customInfo{names: append([]string(nil), c.names...), vals: map[string]interface{}{}}
	for k, v := range c.vals {
		n.vals[k] = v
	}
	return n
}

func customParser(m map[string]interface{}) wwr.SessionInfo {
	c := &customInfo{vals: map[string]interface{}{}}
	for k, v := range m {
		c.names = append(c.names, k)
		c.vals[k] = v
	}
	sort.Strings(c.names)
	return c
}

type sconn struct {
	cl   *Client
	num  int
	open bool
	key  string
	crea time.Time
	info map[string]interface{}
	seen int // messages of the client judged so far
	memc bool
}

type sworld struct {
	missed []string // keys that were looked up in vain
	p      string
	env    *Env
	sm     *MemSM
	r      *Rng
	M      uint
	memch  bool
	buf    int
	conns  []*sconn

	// sequential is set while single operations are judged
	sequential bool
	keys       []string // all keys that were ever created
	// expected number of hook calls by key
	created, closed map[string]int
	mu              sync.Mutex
	do              map[string]func(c wwr.Connection) (wwr.Payload, error)
	ndo             int
	errs            *lockedBuf
	parser          bool
	preferred       string // key of the next restoration
	faulted         bool   // a fault was injected
	shared          bool   // the session storage belongs to several servers
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

// viol reports a violation if the oracle belongs to the checked property
func (w *sworld) viol(props, kind, f string, a ...interface{}) bool {
	if strings.Contains(props, w.p) || w.p == "C26" && w.faulted {
		ctx.Violate(kind, witnessWithStacks(w.env.Log), f, a...)
	} else {
		ctx.Count("skipped_violation_of_"+props, 1)
	}
	return false
}

// soft is like viol but goes on with violations of other properties
func (w *sworld) soft(props, kind, f string, a ...interface{}) bool {
	w.viol(props, kind, f, a...)
	return !strings.Contains(props, w.p) && !(w.p == "C26" && w.faulted)
}

func newSworld(p string, r *Rng, sessions bool, M uint) *sworld {
	w := &sworld{p: p, r: r, created: map[string]int{}, closed: map[string]int{}, do: map[string]func(c wwr.Connection) (wwr.Payload, error){}}
	w.M = M
	w.memch = r.P(35)
	w.sm = NewMemSM()
	log := &EventLog{}
	if sharedSM != nil {
		w.sm, w.shared = sharedSM, true
	} else {
		w.sm.log = log
	}
	w.buf = 1024
	if r.N(150) == 0 && !w.shared {
		// (what fits for one server must fit for the others, too)
		w.buf = 100000
	}
	o := EnvOpts{Memchan: w.memch, Fragment: r.P(30), Sessions: sessions, SM: w.sm, MaxConns: w.M, Log: log, BufSize: uint32(w.buf)}
	if r.P(30) {
		o.Parser = customParser
		w.parser = true
	}
	if sameKeys := sameKeys; r.P(30) || sameKeys {
		n := new(int64)
		if w.shared {
			n = &sharedN
		}
		form := r.N(3 * len(keyForms))
		if sameKeys {
			form = len(keyForms)
		}
		o.KeyGen = keyGenFn(func() string {
			k := atomic.AddInt64(n, 1)
			for sameKeys && w.known(fmt.Sprintf("k%d", k)) {
				k = atomic.AddInt64(n, 1)
			}
			if form < len(keyForms) {
				return fmt.Sprintf(keyForms[form], k)
			}
			return fmt.Sprintf("k%d", k)
		})
	}
	run := func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		w.mu.Lock()
		f := w.do[string(m.Payload())]
		w.mu.Unlock()
		if f == nil {
			return wwr.Payload{Data: append([]byte(nil), m.Payload()...)}, nil
		}
		return f(c)
	}
	o.Impl = &Impl{
		Request: run,
		Signal:  func(c wwr.Connection, m wwr.Message) { run(c, m) },
	}
	w.env = NewEnv(o)
	return w
}

// sameKeys lets all servers generate the same series of keys
var sameKeys bool

// sharedSM is the session storage of all servers unless it's nil
var sharedSM *MemSM

// sharedN is the number of keys that were generated for servers with the same
// storage
var sharedN int64

// keyForms are forms of unusual session keys
var keyForms = []string{
	" k%d", "k%d ", "\tk%d\r\n", "k%d\x00", "\x00%d", "<k&%d>", "\"k\\%d'", "{\"k\":%d}", "../k%d", "/k/%d", ".%d",
	"\u00fc\u00f1\u00ee-%d", "u\u0308-%d", "\U0001f600%d\U0001f600", "\u2028%d\u2029", "\ufeffk%d", "k\x7f%d\x1b[0m", "%%s%%d%d", "?a=b&c=%d#", "%09d",
	"0x%x", "%d,", "k:%d", "null%d", "\ufffd%d", "k%d" + strings.Repeat("-", 90),
}

type keyGenFn func() string

func (f keyGenFn) Generate() string { return f() }

func (w *sworld) dial() *sconn {
	cl := w.env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: w.r.Pick(-1, 0, 1, 2, 4)})
	if cl == nil {
		return nil
	}
	c := &sconn{cl: cl, num: len(w.conns), open: true, memc: w.memch}
	w.conns = append(w.conns, c)
	return c
}

// action registers a function that's executed by the handler of a message
func (w *sworld) action(f func(c wwr.Connection) (wwr.Payload, error)) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ndo++
	t := fmt.Sprintf("do-%d", w.ndo)
	w.do[t] = f
	return []byte(t)
}

// perform executes f by a goroutine of the harness or by a handler
func (w *sworld) perform(r *Rng, c *sconn, f func(con wwr.Connection)) (done func() bool, id [8]byte, how string) {
	con := c.cl.Conn()
	k := 0
	if c.open {
		k = r.N(3)
	}
	switch k {
	case 1:
		var fin int32
		t := w.action(func(x wwr.Connection) (wwr.Payload, error) {
			f(x)
			atomic.StoreInt32(&fin, 1)
			return wwr.Payload{Data: []byte("done")}, nil
		})
		id = c.cl.Request(nil, 0, t)
		return func() bool { return atomic.LoadInt32(&fin) == 1 }, id, "request handler"
	case 2:
		var fin int32
		t := w.action(func(x wwr.Connection) (wwr.Payload, error) {
			f(x)
			atomic.StoreInt32(&fin, 1)
			return wwr.Payload{}, nil
		})
		c.cl.Send(encSignal(nil, 0, t))
		return func() bool { return atomic.LoadInt32(&fin) == 1 }, id, "signal handler"
	}
	return Go(func() { f(con) }), id, "goroutine"
}

func genInfo(r *Rng, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Range(0, 4); i > 0; i-- {
		m[string(r.Name(r.Range(0, 8)))] = genVal(r, depth)
	}
	return m
}

func genVal(r *Rng, depth int) interface{} {
	k := r.N(8)
	if depth <= 0 && k >= 6 {
		k -= 3
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.P(50)
	case 2:
		return float64(int64(r.U64()%(1<<40))) / 8
	case 3:
		return string(r.Name(r.Range(0, 12))) + []string{"", "é", "😀", "\u2028"}[r.N(4)]
	case 4:
		return int(r.N(1000))
	case 5:
		return []string{"x", string(r.Name(3))}
	case 6:
		return genInfo(r, depth-1)
	}
	l := []interface{}{}
	for i := r.N(4); i > 0; i-- {
		l = append(l, genVal(r, depth-1))
	}
	return l
}

func jsonNorm(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshallable: " + err.Error()
	}
	return string(b)
}

type wireSession struct {
	Key        *string                `json:"k"`
	Creation   *time.Time             `json:"c"`
	LastLookup *time.Time             `json:"l"`
	Info       map[string]interface{} `json:"i"`
}

func sameInfo(got, want map[string]interface{}) bool {
	if len(got) == 0 && len(want) == 0 {
		return true
	}
	return jsonNorm(got) == jsonNorm(want)
}

// checkWire compares a session object sent to a client
func checkWire(data []byte, key string, creation time.Time, last *time.Time, info map[string]interface{}) string {
	var s wireSession
	if err := json.Unmarshal(data, &s); err != nil {
		return fmt.Sprintf("the session object isn't valid JSON: %v: %q", err, data)
	}
	switch {
	case s.Key == nil || *s.Key != key:
		return fmt.Sprintf("key isn't %q: %q", key, data)
	case s.Creation == nil || !s.Creation.Equal(creation):
		return fmt.Sprintf("creation time isn't %v: %q", creation, data)
	case last != nil && (s.LastLookup == nil || !s.LastLookup.Equal(*last)):
		return fmt.Sprintf("last lookup time isn't %v: %q", *last, data)
	case !sameInfo(s.Info, info):
		return fmt.Sprintf("info isn't %s: %q", jsonNorm(info), data)
	}
	return ""
}

// mirror compares the registry with the sessions of the connections
func (w *sworld) mirror(what string) bool {
	props := "C08"
	if w.sequential {
		// a single operation must not leave anything behind either
		props = "C07 C08"
	}
	want := map[string]map[wwr.Connection]bool{}
	for _, c := range w.conns {
		con := c.cl.Conn()
		k := con.SessionKey()
		if has := con.HasSession(); has != (k != "") {
			return w.viol("C07 C08", "getters", "%s: conn %d: HasSession is %v but SessionKey is %q", what, c.cl.id, has, k)
		}
		if k == "" {
			continue
		}
		if !con.IsActive() && c.cl.ServerClosed() {
			return w.soft(props, "closed-has-session", "%s: conn %d is closed but still has session %q", what, c.cl.id, k)
		}
		if want[k] == nil {
			want[k] = map[wwr.Connection]bool{}
		}
		want[k][con] = true
	}
	if n := w.env.Srv.ActiveSessionsNum(); n != len(want) {
		return w.soft(props, "active-sessions", "%s: ActiveSessionsNum is %d, but the open connections have %d different sessions", what, n, len(want))
	}
	w.mu.Lock()
	keys := append([]string{"unknown-key", ""}, w.keys...)
	w.mu.Unlock()
	for k := range want {
		keys = append(keys, k)
	}
	for _, k := range keys {
		n := w.env.Srv.SessionConnectionsNum(k)
		if n < 0 {
			n = 0
		}
		if n != len(want[k]) {
			return w.soft(props, "connections-num", "%s: SessionConnectionsNum(%q) is %d, but %d open connections have it", what, k, n, len(want[k]))
		}
		l := w.env.Srv.SessionConnections(k)
		if len(l) != len(want[k]) {
			return w.soft(props, "connections", "%s: SessionConnections(%q) lists %d connections, but %d open ones have it", what, k, len(l), len(want[k]))
		}
		seen := map[wwr.Connection]bool{}
		for _, con := range l {
			if seen[con] || !want[k][con] {
				return w.soft(props, "connections", "%s: SessionConnections(%q) lists a connection twice or one that doesn't have the session", what, k)
			}
			seen[con] = true
		}
		for i := range l {
			l[i] = nil // the list belongs to the caller
		}
		if w.M > 0 && uint(len(want[k])) > w.M {
			return w.viol("C09", "limit-exceeded", "%s: %d connections have session %q, the maximum is %d", what, len(want[k]), k, w.M)
		}
	}
	return true
}

/* ---- sequential model ---- */

// expected message of a client
type sexp struct {
	what  string
	props string
	match func(m *Ref, raw []byte) string
}

func expType(t byte, id *[8]byte, props, what string) sexp {
	return sexp{what: what, props: props, match: func(m *Ref, raw []byte) string {
		if m == nil || m.Type != t {
			return fmt.Sprintf("got %v", m)
		}
		if id != nil && m.ID != *id {
			return fmt.Sprintf("wrong identifier: %v", m)
		}
		if t <= 5 && t != tReplyError && len(raw) != 9 {
			return fmt.Sprintf("carries additional bytes: %q", raw)
		}
		return ""
	}}
}

func expDone(id [8]byte) sexp {
	return sexp{what: "reply of the handler", props: "C07 C10", match: func(m *Ref, raw []byte) string {
		if m == nil || m.Type != tReplyBin || m.ID != id || string(m.Payload) != "done" {
			return fmt.Sprintf("got %v", m)
		}
		return ""
	}}
}

// judge compares everything that can be observed with the model
func (w *sworld) judge(what string, exp map[*sconn][]sexp) bool {
	for _, c := range w.conns {
		rs := c.cl.Received()
		news := rs[c.seen:]
		if c.seen == 0 && len(news) > 0 {
			news = news[1:] // configuration
		}
		c.seen = len(rs)
		want := exp[c]
		if !c.open && len(want) == 0 && len(news) == 0 {
			continue
		}
		for k, m := range news {
			if k >= len(want) {
				return w.viol("C07 C10", "unexpected-message", "%s: conn %d received an unexpected %v", what, c.cl.id, m.Ref)
			}
			if s := want[k].match(m.Ref, m.Raw); s != "" {
				return w.viol(want[k].props, "wrong-message", "%s: conn %d: expected %s, but: %s", what, c.cl.id, want[k].what, s)
			}
		}
		if len(news) < len(want) {
			return w.viol(want[len(news)].props, "missing-message", "%s: conn %d didn't receive the %s", what, c.cl.id, want[len(news)].what)
		}
	}
	for _, c := range w.conns {
		if !w.judgeConn(what, c) {
			return false
		}
	}
	w.mu.Lock()
	keys := append([]string(nil), w.keys...)
	w.mu.Unlock()
	if w.shared {
		// how often the hooks of a storage that belongs to several servers
		// are called isn't judged
		return w.judgeMirror(what)
	}
	for _, k := range keys {
		cr, _, cl := w.sm.Calls(k)
		if cr != w.created[k] {
			return w.viol("C07", "creation-hook", "%s: the creation hook of session %q was called %s instead of %d", what, k, times(cr), w.created[k])
		}
		if cl != w.closed[k] {
			return w.viol("C07", "closure-hook", "%s: the closure hook of session %q was called %s instead of %d", what, k, times(cl), w.closed[k])
		}
	}
	w.sm.mu.Lock()
	for k, n := range w.sm.created {
		if w.created[k] != n {
			w.sm.mu.Unlock()
			return w.viol("C07", "creation-hook", "%s: the creation hook was called for %q", what, k)
		}
	}
	for k, n := range w.sm.closed {
		if w.closed[k] != n {
			w.sm.mu.Unlock()
			return w.viol("C07", "closure-hook", "%s: the closure hook was called for %q", what, k)
		}
	}
	w.sm.mu.Unlock()
	return w.judgeMirror(what)
}

func (w *sworld) judgeMirror(what string) bool {
	w.sequential = true
	defer func() { w.sequential = false }()
	return w.mirror(what)
}

func (w *sworld) judgeConn(what string, c *sconn) bool {
	con := c.cl.Conn()
	const ps = "C07 C10 C08"
	if con.SessionKey() != c.key {
		return w.viol(ps, "state", "%s: conn %d has session %q instead of %q", what, c.cl.id, con.SessionKey(), c.key)
	}
	s := con.Session()
	if (s != nil) != (c.key != "") || con.HasSession() != (c.key != "") {
		return w.viol(ps, "state", "%s: conn %d: Session() is %v, HasSession %v, expected session %q", what, c.cl.id, s, con.HasSession(), c.key)
	}
	if s == nil {
		if !con.SessionCreation().IsZero() || con.SessionInfo("x") != nil {
			return w.viol(ps, "state", "%s: conn %d has no session but a creation time or info", what, c.cl.id)
		}
		return true
	}
	if s.Key != c.key || !s.Creation.Equal(c.crea) || !con.SessionCreation().Equal(c.crea) {
		return w.viol("C07 C10", "state", "%s: conn %d: session object %v, creation %v, expected key %q, creation %v", what, c.cl.id, s, con.SessionCreation(), c.key, c.crea)
	}
	got := wwr.SessionInfoToVarMap(s.Info)
	if !sameInfo(got, c.info) {
		return w.viol("C07 C10", "info", "%s: conn %d: session info is %s instead of %s", what, c.cl.id, jsonNorm(got), jsonNorm(c.info))
	}
	for n, v := range c.info {
		if !reflect.DeepEqual(con.SessionInfo(n), v) {
			return w.viol("C07 C10", "info", "%s: conn %d: session info field %q is %#v instead of %#v", what, c.cl.id, n, con.SessionInfo(n), v)
		}
	}
	if s.Info != nil && w.parser && c.info != nil {
		if _, ok := s.Info.(*customInfo); !ok {
			if _, g := s.Info.(*wwr.GenericSessionInfo); !g {
				return w.viol("C10", "parser", "%s: conn %d: session info wasn't made by the configured parser: %T", what, c.cl.id, s.Info)
			}
		}
	}
	return true
}

func (w *sworld) pick(f func(c *sconn) bool) *sconn {
	var l []*sconn
	for _, c := range w.conns {
		if f(c) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.r.N(len(l))]
}

func (w *sworld) holders(key string) (l []*sconn) {
	for _, c := range w.conns {
		if c.key == key && key != "" {
			l = append(l, c)
		}
	}
	return
}

func attachment(r *Rng, info map[string]interface{}) wwr.SessionInfo {
	if info == nil {
		return nil
	}
	if r.P(50) {
		return customParser(info)
	}
	return wwr.GenericSessionInfoParser(info)
}

// failOnce makes the next message the server writes on a connection fail
func failOnce(r *Rng) (faultPlan, string) {
	op := []string{"get", "write", "flush"}[r.N(3)]
	return func(o string, n int) error {
		if o == op && n == 1 {
			return errInjected
		}
		return nil
	}, op
}

const secretText = "SECRET-STORAGE-DETAIL"

// secretErr returns an error of a hook that must stay internal, whatever its
// type is
func secretErr(r *Rng) error {
	switch r.N(9) {
	case 0, 1, 2:
		return errors.New(secretText)
	case 3:
		return wwr.ErrRequest{Code: "CODE", Message: secretText}
	case 4:
		return &wwr.ErrRequest{Code: "CODE", Message: secretText}
	case 5:
		return wwr.ErrDisconnected{Cause: errors.New(secretText)}
	case 6:
		return wwr.ErrDeadlineExceeded{Cause: errors.New(secretText)}
	case 7:
		return fmt.Errorf("%s: %w", secretText, wwr.ErrSessionNotFound{})
	}
	return wwr.ErrIncompatibleProtocolVersion{RequiredVersion: secretText}
}

// hookErr is like secretErr but knows the errors without any text, too
func hookErr(r *Rng) error {
	switch r.N(10) {
	case 0:
		return wwr.ErrMaxSessConnsReached{}
	case 1:
		return wwr.ErrSessionsDisabled{}
	case 2:
		return wwr.ErrServerShutdown{}
	case 3:
		return wwr.ErrInternal{}
	}
	return secretErr(r)
}

func sessModelCase(p string, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	M := uint(r.Pick(0, 0, 1, 2, 3))
	w := newSworld(p, r, true, M)
	for i := r.Range(1, 3); i > 0; i-- {
		if w.dial() == nil {
			return
		}
	}
	if !Settle() || !w.judge("start", nil) {
		return
	}
	steps := r.Range(4, 20)
	for k := 0; k < steps; k++ {
		if !w.step(r) {
			return
		}
	}
	// everything stays usable
	for _, c := range w.conns {
		if !c.open {
			continue
		}
		pay := r.Name(5)
		id := c.cl.Request([]byte("probe"), 0, pay)
		if ref := c.cl.AwaitReply(id); ref == nil || ref.Type != tReplyBin || !bytes.Equal(ref.Payload, pay) {
			if ref != nil {
				w.viol("C07 C09 C10", "unusable", "conn %d answered a probe by %v", c.cl.id, ref)
			}
			return
		}
	}
	if w.env.Shutdown() {
		for _, c := range w.conns {
			c.key, c.open = "", false
		}
		w.mirror("after the shutdown")
	}
}

// sessServers: several servers in one process have nothing to do with each
// other, though their sessions have the same keys
func sessServers(p string, r *Rng) {
	SetDelays(0)
	if r.P(40) {
		SetDelays(r.U64() | 1)
	}
	defer SetDelays(0)
	sameKeys = r.P(80)
	shared := r.P(35)
	if shared {
		sharedSM, sharedN = NewMemSM(), 0
		sharedSM.log = &EventLog{}
	}
	defer func() { sameKeys, sharedSM = false, nil }()
	var ws []*sworld
	for k := r.Range(2, 3); k > 0; k-- {
		w := newSworld(p, r, true, uint(r.Pick(0, 1, 2, 3)))
		if shared && len(ws) > 0 {
			w.created, w.closed = ws[0].created, ws[0].closed
		}
		ws = append(ws, w)
		for i := r.Range(1, 3); i > 0; i-- {
			if w.dial() == nil {
				return
			}
		}
	}
	sameKeys = false
	all := append([]*sworld(nil), ws...)
	others := func(what string, me *sworld) bool {
		for k, w := range ws {
			if w != me && !w.judge(fmt.Sprintf("%s (observed on server %d)", what, k), nil) {
				return false
			}
		}
		return true
	}
	if !Settle() || !others("start", nil) {
		return
	}
	for steps := r.Range(4, 24); steps > 0 && len(ws) > 0; steps-- {
		k := r.N(len(ws))
		w := ws[k]
		if shared {
			// all servers know all sessions
			for _, o := range all {
				for _, key := range o.keys {
					if !w.known(key) {
						w.keys = append(w.keys, key)
					}
				}
			}
		}
		if r.N(4) == 0 && len(ws) > 1 && !shared {
			if !w.holding(r, func(key string) bool {
				for n := r.Range(1, 4); n > 0; n-- {
					o := ws[r.N(len(ws))]
					if o == w {
						continue
					}
					o.prefer(key, r)
					ok := o.step(r)
					o.preferred = ""
					if !ok {
						return false
					}
				}
				return true
			}) || !others("a held operation of another server", nil) {
				return
			}
			continue
		}
		if r.N(15) == 0 {
			if !w.env.Shutdown() {
				return
			}
			for _, c := range w.conns {
				c.key, c.open = "", false
			}
			if !w.mirror("after the shutdown") {
				return
			}
			ws = append(ws[:k], ws[k+1:]...)
			if !others("shutdown of another server", nil) {
				return
			}
			ctx.Eval(fmt.Sprintf("servers/shutdown/%d", len(ws)))
			continue
		}
		if !w.step(r) || !others(fmt.Sprintf("an operation of server %d", k), w) {
			return
		}
		ctx.Eval(fmt.Sprintf("servers/%d", len(ws)))
	}
	for _, w := range ws {
		if !w.env.Shutdown() {
			return
		}
	}
	ctx.Count("runs_of_several_servers", 1)
	if shared {
		ctx.Count("runs_of_several_servers_with_one_storage", 1)
	}
}

// prefer lets the next restoration concern the given session
func (w *sworld) prefer(key string, r *Rng) {
	if key == "" || r.P(20) {
		return
	}
	w.preferred = key
	if w.taken(key) {
		return
	}
	w.sm.mu.Lock()
	w.sm.store[key] = memSess{time.Unix(1500000000, 0).UTC(), time.Unix(1500000001, 0).UTC(), nil}
	w.sm.mu.Unlock()
	w.mu.Lock()
	w.keys = append(w.keys, key)
	w.mu.Unlock()
}

// holding performs an operation that's held by the session manager meanwhile
func (w *sworld) holding(r *Rng, meanwhile func(key string) bool) bool {
	gate := make(chan struct{})
	released := false
	release := func() {
		if !released {
			released = true
			close(gate)
		}
	}
	defer release()
	exp := map[*sconn][]sexp{}
	var what, key string
	var done func() bool
	var err error
	var emu sync.Mutex
	run := func(c *sconn, f func(con wwr.Connection) error) {
		con := c.cl.Conn()
		done = Go(func() {
			e := f(con)
			emu.Lock()
			err = e
			emu.Unlock()
		})
	}
	var created *sconn
	var before time.Time
	switch r.N(3) {
	case 0:
		c := w.pick(func(c *sconn) bool { return c.open && c.key != "" && len(w.holders(c.key)) == 1 })
		if c == nil {
			return true
		}
		key = c.key
		what = fmt.Sprintf("closure of session %q of conn %d held by its hook", key, c.cl.id)
		w.sm.Hooks(nil, nil, func(string) error { <-gate; return nil })
		run(c, func(con wwr.Connection) error { return con.CloseSession() })
		w.lost(c)
		exp[c] = append(exp[c], expType(tSessClosed, nil, "C07", "session closure notification"))
	case 1:
		c := w.pick(func(c *sconn) bool { return c.open && c.key == "" })
		if c == nil {
			return true
		}
		what = fmt.Sprintf("creation of a session by conn %d held by its hook", c.cl.id)
		w.sm.Hooks(func(_ wwr.Connection, k string) error { <-gate; return nil }, nil, nil)
		before = time.Now()
		created = c
		run(c, func(con wwr.Connection) error { return con.CreateSession(nil) })
	case 2:
		c := w.pick(func(c *sconn) bool { return c.open })
		if c == nil {
			return true
		}
		key = fmt.Sprintf("held-%d", r.U64())
		if r.P(60) {
			key = fmt.Sprintf("k%d", r.N(6))
			if w.taken(key) {
				return true
			}
		}
		what = fmt.Sprintf("lookup of unknown session %q for conn %d held", key, c.cl.id)
		w.sm.Hooks(nil, func(string) error { <-gate; return nil }, nil)
		id := c.cl.NewID()
		c.cl.Send(encRestore(id, key))
		exp[c] = append(exp[c], expType(tReplyNotFound, &id, "C10", "not-found reply"))
	}
	w.env.Log.Add("%s", what)
	if !Settle() {
		return false
	}
	if created != nil {
		key = created.cl.Conn().SessionKey()
	}
	ctx.Eval("servers/" + strings.Fields(what)[0])
	if !meanwhile(key) {
		return false
	}
	release()
	if done != nil && !Await(w.env.Log, what, done) || !Settle() {
		return false
	}
	w.sm.Hooks(nil, nil, nil)
	emu.Lock()
	e := err
	emu.Unlock()
	if e != nil {
		return w.viol("C07", "held-result", "%s returned %v", what, e)
	}
	if created != nil {
		s := created.cl.Conn().Session()
		if s == nil || w.created[s.Key] > 0 || s.Creation.Before(before.Add(-time.Second)) {
			return w.viol("C07", "no-session", "%s succeeded but the session is %v", what, s)
		}
		created.key, created.crea, created.info = s.Key, s.Creation, nil
		w.mu.Lock()
		w.keys = append(w.keys, s.Key)
		w.mu.Unlock()
		w.created[s.Key] = 1
		exp[created] = append(exp[created], sexp{what: "session creation notification", props: "C07", match: func(m *Ref, raw []byte) string {
			if m == nil || m.Type != tSessCreated {
				return fmt.Sprintf("got %v", m)
			}
			return checkWire(m.Payload, s.Key, s.Creation, nil, nil)
		}})
	}
	return w.judge(what, exp)
}

// step performs one operation and compares the result with the model
func (w *sworld) step(r *Rng) bool {
	kinds := []string{"create", "create", "create", "closeServer", "closeRequest", "closeKey", "restore", "restore", "restore", "restore", "disconnect", "close", "dial", "dial"}
	switch w.p {
	case "C10":
		kinds = append(kinds, "restore", "restore", "restore", "restore")
	case "C07":
		kinds = append(kinds, "create", "closeServer", "closeRequest")
	}
	if w.preferred != "" && r.P(70) {
		kinds = []string{"restore"}
	}
	kind := kinds[r.N(len(kinds))]
	exp := map[*sconn][]sexp{}
	what := kind
	ok := true
	switch kind {
	case "dial":
		if len(w.conns) > 8 {
			return true
		}
		if w.dial() == nil {
			return false
		}
	case "create":
		c := w.conns[r.N(len(w.conns))]
		what, ok = w.stepCreate(r, c, exp)
	case "closeServer":
		c := w.conns[r.N(len(w.conns))]
		what, ok = w.stepCloseServer(r, c, exp)
	case "closeRequest":
		c := w.pick(func(c *sconn) bool { return c.open })
		if c == nil {
			return true
		}
		what, ok = w.stepCloseRequest(r, c, exp)
	case "closeKey":
		what, ok = w.stepCloseKey(r, exp)
	case "restore":
		c := w.pick(func(c *sconn) bool { return c.open })
		if c == nil {
			return true
		}
		what, ok = w.stepRestore(r, c, exp)
	case "disconnect", "close":
		c := w.pick(func(c *sconn) bool { return c.open })
		if c == nil || r.P(40) {
			return true
		}
		what = fmt.Sprintf("%s of conn %d", kind, c.cl.id)
		if kind == "close" {
			con := c.cl.Conn()
			con.Close()
		} else {
			c.cl.Disconnect(r.P(50))
		}
		c.open, c.key, c.info = false, "", nil
		if !Await(w.env.Log, what, func() bool { return c.cl.ServerClosed() }) {
			return false
		}
	}
	if !ok || what == "" {
		return ok
	}
	if !Settle() {
		return false
	}
	return w.judge(what, exp)
}

func (w *sworld) sizeLimitedInfo(r *Rng) map[string]interface{} {
	if w.buf > 1024 && r.P(70) {
		return genLargeInfo(r, w.buf-600)
	}
	for {
		info := genInfo(r, 2)
		if len(jsonNorm(info)) < 500 {
			return info
		}
	}
}

func (w *sworld) stepCreate(r *Rng, c *sconn, exp map[*sconn][]sexp) (string, bool) {
	var info map[string]interface{}
	if r.P(75) {
		info = w.sizeLimitedInfo(r)
	}
	variant := "plain"
	if c.open && c.key == "" {
		x := r.N(10)
		if w.p == "C26" {
			x = r.N(6)
			w.faulted = true
		}
		switch {
		case x == 0:
			variant = "too large"
			info = map[string]interface{}{"x": string(r.Name(w.buf + 76))}
		case x == 1:
			variant = "unencodable"
			info = map[string]interface{}{"x": make(chan int)}
		case x == 2 && !w.memch:
			variant = "unnotifiable"
		case x == 3:
			variant = "hook fails"
		}
	}
	var err error
	var emu sync.Mutex
	if variant == "unnotifiable" {
		plan, _ := failOnce(r)
		c.cl.ft.setFaults(plan)
	}
	if variant == "hook fails" {
		herr := hookErr(r)
		w.sm.Hooks(func(wwr.Connection, string) error { return herr }, nil, nil)
	}
	before := time.Now()
	a := attachment(r, info)
	done, id, how := w.perform(r, c, func(con wwr.Connection) {
		e := con.CreateSession(a)
		emu.Lock()
		err = e
		emu.Unlock()
	})
	what := fmt.Sprintf("creation (%s) by %s on conn %d (open %v, session %q)", variant, how, c.cl.id, c.open, c.key)
	w.env.Log.Add("%s", what)
	if !Await(w.env.Log, what, done) || !Settle() {
		return what, false
	}
	after := time.Now()
	w.sm.Hooks(nil, nil, nil)
	if variant == "unnotifiable" {
		c.cl.ft.setFaults(nil)
	}
	emu.Lock()
	e := err
	emu.Unlock()
	must := c.open && c.key == "" && (variant == "plain" || variant == "hook fails")
	ctx.Eval(fmt.Sprintf("create/%s/%s/%v/%v/%d/%v/%v", variant, how, c.open, c.key != "", w.M, w.memch, info != nil))
	if must != (e == nil) {
		return what, w.viol("C07", "create-result", "%s returned %v", what, e)
	}
	if must {
		con := c.cl.Conn()
		s := con.Session()
		if s == nil || s.Key == "" || w.created[s.Key] > 0 {
			return what, w.viol("C07", "no-session", "%s succeeded but the session is %v", what, s)
		}
		if s.Creation.Before(before.Add(-time.Second)) || s.Creation.After(after.Add(time.Second)) {
			return what, w.viol("C07", "creation-time", "%s: creation time %v isn't between %v and %v", what, s.Creation, before, after)
		}
		c.key, c.crea, c.info = s.Key, s.Creation, info
		w.mu.Lock()
		w.keys = append(w.keys, s.Key)
		w.mu.Unlock()
		w.created[s.Key] = 1
		exp[c] = append(exp[c], sexp{what: "session creation notification", props: "C07", match: func(m *Ref, raw []byte) string {
			if m == nil || m.Type != tSessCreated {
				return fmt.Sprintf("got %v", m)
			}
			return checkWire(m.Payload, s.Key, s.Creation, nil, info)
		}})
	}
	if how == "request handler" {
		exp[c] = append(exp[c], expDone(id))
	}
	return what, true
}

// lost removes the session of a connection from the model
func (w *sworld) lost(c *sconn) {
	k := c.key
	c.key, c.info = "", nil
	if len(w.holders(k)) == 0 {
		w.closed[k]++
	}
}

func (w *sworld) hookTrouble(r *Rng) string {
	k := r.N(8)
	if w.p == "C26" {
		k /= 3
	}
	if w.p != "C26" && (w.p != "C07" || k == 1) {
		return ""
	}
	switch k {
	case 0:
		w.faulted = true
		herr := hookErr(r)
		w.sm.Hooks(nil, nil, func(string) error { return herr })
		return "hook fails"
	case 1:
		w.faulted = true
		w.sm.Hooks(nil, nil, func(string) error { panic("hook panic") })
		return "hook panics"
	}
	return ""
}

func (w *sworld) stepCloseServer(r *Rng, c *sconn, exp map[*sconn][]sexp) (string, bool) {
	trouble := w.hookTrouble(r)
	var err error
	var emu sync.Mutex
	done, id, how := w.perform(r, c, func(con wwr.Connection) {
		e := con.CloseSession()
		emu.Lock()
		err = e
		emu.Unlock()
	})
	what := fmt.Sprintf("closure (%s) by %s of session %q of conn %d", trouble, how, c.key, c.cl.id)
	w.env.Log.Add("%s", what)
	if !Await(w.env.Log, what, done) || !Settle() {
		return what, false
	}
	w.sm.Hooks(nil, nil, nil)
	ctx.Eval(fmt.Sprintf("closeServer/%s/%s/%v/%d/%d/%v", trouble, how, c.open, len(w.holders(c.key)), w.M, w.memch))
	emu.Lock()
	defer emu.Unlock()
	if err != nil {
		return what, w.viol("C07", "close-result", "%s returned %v", what, err)
	}
	if c.key != "" {
		w.lost(c)
		exp[c] = append(exp[c], expType(tSessClosed, nil, "C07", "session closure notification"))
	}
	if how == "request handler" {
		exp[c] = append(exp[c], expDone(id))
	}
	return what, true
}

func (w *sworld) stepCloseRequest(r *Rng, c *sconn, exp map[*sconn][]sexp) (string, bool) {
	trouble := w.hookTrouble(r)
	id := c.cl.NewID()
	what := fmt.Sprintf("closure request (%s) for session %q of conn %d", trouble, c.key, c.cl.id)
	w.env.Log.Add("%s", what)
	c.cl.Send(encCloseSession(id))
	if !Settle() {
		return what, false
	}
	w.sm.Hooks(nil, nil, nil)
	ctx.Eval(fmt.Sprintf("closeRequest/%s/%d/%d/%v", trouble, len(w.holders(c.key)), w.M, w.memch))
	if c.key != "" {
		w.lost(c)
	}
	exp[c] = append(exp[c], sexp{what: "confirmation", props: "C07", match: func(m *Ref, raw []byte) string {
		if m == nil || m.Type != tReplyBin || m.ID != id || len(m.Payload) != 0 {
			return fmt.Sprintf("got %v", m)
		}
		return ""
	}})
	return what, true
}

func (w *sworld) stepCloseKey(r *Rng, exp map[*sconn][]sexp) (string, bool) {
	key := "unknown"
	w.mu.Lock()
	if len(w.keys) > 0 && r.P(90) {
		key = w.keys[r.N(len(w.keys))]
	}
	w.mu.Unlock()
	if c := w.pick(func(c *sconn) bool { return c.key != "" }); c != nil && r.P(60) {
		key = c.key
	}
	trouble := w.hookTrouble(r)
	var aff []wwr.Connection
	var errs []error
	var gen error
	var emu sync.Mutex
	what := fmt.Sprintf("closure by key (%s) of session %q", trouble, key)
	w.env.Log.Add("%s", what)
	done := Go(func() {
		a, b, c := w.env.Srv.CloseSession(key)
		emu.Lock()
		aff, errs, gen = a, b, c
		emu.Unlock()
	})
	if !Await(w.env.Log, what, done) || !Settle() {
		return what, false
	}
	w.sm.Hooks(nil, nil, nil)
	emu.Lock()
	defer emu.Unlock()
	hs := w.holders(key)
	ctx.Eval(fmt.Sprintf("closeKey/%s/%d/%d/%v", trouble, len(hs), w.M, w.memch))
	if gen != nil || len(aff) != len(hs) || len(errs) != len(hs) {
		return what, w.viol("C07 C08", "close-result", "%s: %d connections have it, returned %d connections, errors %v, %v", what, len(hs), len(aff), errs, gen)
	}
	for _, e := range errs {
		if e != nil {
			return what, w.viol("C07 C08", "close-result", "%s: errors %v", what, errs)
		}
	}
	seen := map[wwr.Connection]bool{}
	for _, a := range aff {
		seen[a] = true
	}
	for _, c := range hs {
		if !seen[c.cl.Conn()] {
			return what, w.viol("C08", "close-result", "%s: conn %d isn't among the affected connections", what, c.cl.id)
		}
		w.lost(c)
		exp[c] = append(exp[c], expType(tSessClosed, nil, "C07", "session closure notification"))
	}
	return what, true
}

func mutateKey(r *Rng, k string) string {
	b := []byte(k)
	switch r.N(8) {
	case 0:
		return k + "x"
	case 1:
		return k + "\x00"
	case 2:
		return " " + k
	case 3:
		if len(b) > 1 {
			return k[:len(k)-1]
		}
	case 4:
		if len(b) > 1 {
			return k[1:]
		}
	case 5:
		if len(b) > 0 {
			b[r.N(len(b))] ^= 0x20
			return string(b)
		}
	case 6:
		return strings.ToUpper(k) + "."
	}
	return string(r.Bytes(r.Range(1, 60)))
}

func (w *sworld) stepRestore(r *Rng, c *sconn, exp map[*sconn][]sexp) (string, bool) {
	var key string
	w.mu.Lock()
	keys := append([]string(nil), w.keys...)
	w.mu.Unlock()
	variant := "known"
	switch x := r.N(10); {
	case len(keys) == 0 || x == 0:
		variant = "unknown"
		if len(keys) > 0 && r.P(70) {
			key = mutateKey(r, keys[r.N(len(keys))])
		} else {
			key = string(r.Bytes(r.Range(1, 40)))
		}
		if r.P(40) {
			key = fmt.Sprintf("later-%d", r.N(6))
			if w.taken(key) {
				return "", true
			}
			w.missed = append(w.missed, key)
		}
	default:
		key = keys[r.N(len(keys))]
		if w.preferred != "" {
			key = w.preferred
		} else if x < 3 {
			// put a stored session there that was never active
			key = fmt.Sprintf("stored-%d", r.U64()%100000)
			if r.P(40) {
				key = fmt.Sprintf(keyForms[r.N(len(keyForms))], r.N(10))
				if r.P(20) {
					key = mutateKey(r, key)
				}
				if !utf8.ValidString(key) || len(key) > 150 || w.taken(key) {
					return "", true
				}
			}
			if len(w.missed) > 0 && r.P(50) {
				// one that wasn't found so far
				key = w.missed[r.N(len(w.missed))]
				if w.taken(key) {
					return "", true
				}
				ctx.Count("stored_after_a_lookup", 1)
			}
			crea := time.Unix(int64(r.N(2000000000)), int64(r.N(1000000000))).UTC()
			switch r.N(20) {
			case 0:
				crea = time.Time{}
			case 1:
				crea = time.Date(9998, 12, 31, 23, 59, 59, 999999999, time.UTC)
			case 2:
				crea = time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC)
			case 3, 4, 5:
				crea = crea.In(time.FixedZone("somewhere", 60*r.Range(-14*60, 14*60)))
			case 6:
				crea = time.Now() // with a monotonic clock
			case 7:
				crea = time.Unix(-int64(r.N(2000000000)), 0)
			}
			var info map[string]interface{}
			if r.P(80) {
				info = w.sizeLimitedInfo(r)
			}
			w.sm.mu.Lock()
			w.sm.store[key] = memSess{crea, crea.Add(time.Duration(r.N(1000000000))), info}
			w.sm.mu.Unlock()
			w.mu.Lock()
			w.keys = append(w.keys, key)
			w.mu.Unlock()
		}
		x := r.N(9)
		if w.p == "C26" {
			x = r.N(6)
			w.faulted = true
		}
		switch x {
		case 0:
			variant = "lookup fails"
		case 1:
			variant = "unencodable"
		case 2:
			variant = "too large"
		case 3:
			if !w.memch {
				variant = "unsendable"
			}
		}
	}
	if c.key == key && w.M > 0 && uint(len(w.holders(key))) >= w.M {
		return "", true // not judged
	}
	w.sm.mu.Lock()
	prev, stored := w.sm.store[key]
	w.sm.mu.Unlock()
	if len(key) > 900 {
		return "", true
	}
	if stored && !w.shared && r.P(15) {
		// the storage has changed the session meanwhile
		prev.info = w.sizeLimitedInfo(r)
		if r.P(40) {
			prev.creation = prev.creation.Add(time.Duration(r.N(1000)) * time.Millisecond)
		}
		ctx.Count("altered_by_the_storage", 1)
	}
	saved := prev
	switch variant {
	case "lookup fails":
		herr := hookErr(r)
		w.env.Log.Add("the lookup fails with %T", herr)
		w.sm.Hooks(nil, func(k string) error {
			if k == key {
				return herr
			}
			return nil
		}, nil)
	case "unencodable":
		prev.info = map[string]interface{}{"f": func() {}}
	case "too large":
		prev.info = map[string]interface{}{"f": string(r.Name(w.buf + 76))}
	case "unsendable":
		if stored {
			plan, _ := failOnce(r)
			c.cl.ft.setFaults(plan)
		}
	}
	if stored {
		w.sm.mu.Lock()
		w.sm.store[key] = prev
		w.sm.mu.Unlock()
	}
	id := c.cl.NewID()
	what := fmt.Sprintf("restoration (%s) of session %q by conn %d having %q", variant, key, c.cl.id, c.key)
	w.env.Log.Add("%s", what)
	_, looked0, _ := w.sm.Calls(key)
	nlook0 := w.totalLookups()
	c.cl.Send(encRestore(id, key))
	if !Settle() {
		return what, false
	}
	w.sm.Hooks(nil, nil, nil)
	if variant == "unsendable" && !w.memch {
		c.cl.ft.setFaults(nil)
	}
	if stored && (variant == "unencodable" || variant == "too large") {
		w.sm.mu.Lock()
		s := w.sm.store[key]
		s.info = saved.info
		w.sm.store[key] = s
		w.sm.mu.Unlock()
	}
	_, looked1, _ := w.sm.Calls(key)
	nlook1 := w.totalLookups()
	if nlook1-nlook0 != looked1-looked0 {
		return what, w.viol("C10", "lookup-key", "%s: the storage was asked for another key", what)
	}
	hs := len(w.holders(key))
	full := w.M > 0 && uint(hs) >= w.M && c.key != key
	ctx.Eval(fmt.Sprintf("restore/%s/%v/%v/%v/%v/%d/%d/%v", variant, stored, full, c.key != "", c.key == key, hs, w.M, w.memch))
	repl := func(t byte, props string) {
		exp[c] = append(exp[c], expType(t, &id, props, typeName(t)+" to the restoration request"))
	}
	switch {
	case full && variant == "known":
		repl(tReplyMaxConns, "C09")
	case full:
		// limit-reached or the reply to the other trouble, nothing changes
		exp[c] = append(exp[c], sexp{what: "refusal", props: "C09 C10", match: func(m *Ref, raw []byte) string {
			if m == nil || m.ID != id || (m.Type != tReplyMaxConns && m.Type != tReplyInternal) || len(raw) != 9 {
				return fmt.Sprintf("got %v", m)
			}
			return ""
		}})
		if variant == "unsendable" {
			// the first refusal might have been the one that couldn't be written
			rs := c.cl.Received()
			if len(rs) == c.seen {
				exp[c] = nil
			}
		}
	case variant == "lookup fails":
		repl(tReplyInternal, "C10")
	case !stored:
		repl(tReplyNotFound, "C10")
		if looked1 == looked0 && w.closed[key] == 0 {
			return what, w.viol("C10", "no-lookup", "%s: the storage wasn't asked", what)
		}
	case variant != "known":
		repl(tReplyInternal, "C10")
	default:
		crea, last, info := prev.creation, prev.lastLookup, prev.info
		c.key, c.crea, c.info = key, crea, info
		props := "C10"
		for _, m := range c.cl.ReplyTo(id) {
			if m.Ref != nil && m.Ref.Type == tReplyMaxConns {
				props = "C09 C10" // there are less than the maximum
			}
		}
		exp[c] = append(exp[c], sexp{what: "restored session", props: props, match: func(m *Ref, raw []byte) string {
			if m == nil || m.ID != id || m.Type != tReplyU8 {
				return fmt.Sprintf("got %v", m)
			}
			return checkWire(m.Payload, key, crea, &last, info)
		}})
	}
	for _, m := range c.cl.Received() {
		if bytes.Contains(m.Raw, []byte(secretText)) {
			return what, w.viol("C10", "detail", "%s: the client was sent an internal detail: %v", what, m.Ref)
		}
	}
	return what, true
}

// taken tells whether a session of this key has ever existed
func (w *sworld) taken(key string) bool {
	return w.known(key) || w.created[key] > 0 || w.closed[key] > 0
}

func (w *sworld) known(key string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, k := range w.keys {
		if k == key {
			return true
		}
	}
	return false
}

func (w *sworld) totalLookups() int {
	w.sm.mu.Lock()
	defer w.sm.mu.Unlock()
	n := 0
	for _, v := range w.sm.looked {
		n += v
	}
	return n
}

/* ---- sessions disabled ---- */

func sessDisabledCase(p string, r *Rng) {
	w := newSworld(p, r, false, 0)
	c := w.dial()
	if c == nil {
		return
	}
	w.sm.store["stored"] = memSess{time.Now(), time.Now(), nil}
	for k := r.Range(3, 10); k > 0; k-- {
		exp := map[*sconn][]sexp{}
		what := ""
		switch r.N(4) {
		case 0, 1:
			create := r.P(50)
			var err error
			var emu sync.Mutex
			done, id, how := w.perform(r, c, func(con wwr.Connection) {
				var e error
				if create {
					e = con.CreateSession(attachment(r, map[string]interface{}{"x": 1}))
				} else {
					e = con.CloseSession()
				}
				emu.Lock()
				err = e
				emu.Unlock()
			})
			what = fmt.Sprintf("creation %v by %s", create, how)
			if !Await(w.env.Log, what, done) || !Settle() {
				return
			}
			emu.Lock()
			e := err
			emu.Unlock()
			if _, ok := e.(wwr.ErrSessionsDisabled); create && !ok {
				w.viol("C07", "disabled", "with sessions disabled: %s returned %v", what, e)
				return
			}
			if how == "request handler" {
				exp[c] = append(exp[c], expDone(id))
			}
			ctx.Eval("disabled/" + what)
		case 2:
			id := c.cl.NewID()
			what = "restoration"
			c.cl.Send(encRestore(id, []string{"stored", "unknown", "\x00"}[r.N(3)]))
			exp[c] = append(exp[c], expType(tReplyDisabled, &id, "C10", "sessions-disabled reply"))
			ctx.Eval("disabled/" + what)
		case 3:
			id := c.cl.NewID()
			what = "closure request"
			c.cl.Send(encCloseSession(id))
			exp[c] = append(exp[c], expType(tReplyDisabled, &id, "C07 C10", "sessions-disabled reply"))
			ctx.Eval("disabled/" + what)
		}
		if !Settle() || !w.judge("sessions disabled: "+what, exp) {
			return
		}
		if w.totalLookups() > 0 {
			w.viol("C10", "disabled", "the storage is asked although sessions are disabled")
			return
		}
	}
	w.env.Shutdown()
}
