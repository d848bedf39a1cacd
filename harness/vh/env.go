package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

/* server environment of one scenario */

// Impl is the server implementation
type Impl struct {
	Connected    func(o wwr.ConnectionOptions, c wwr.Connection)
	Disconnected func(c wwr.Connection, err error)
	Signal       func(c wwr.Connection, m wwr.Message)
	Request      func(c wwr.Connection, m wwr.Message) (wwr.Payload, error)
}

// OnClientConnected implements wwr.ServerImplementation
func (i *Impl) OnClientConnected(o wwr.ConnectionOptions, c wwr.Connection) {
	if i.Connected != nil {
		i.Connected(o, c)
	}
}

// OnClientDisconnected implements wwr.ServerImplementation
func (i *Impl) OnClientDisconnected(c wwr.Connection, err error) {
	if i.Disconnected != nil {
		i.Disconnected(c, err)
	}
}

// OnSignal implements wwr.ServerImplementation
func (i *Impl) OnSignal(_ context.Context, c wwr.Connection, m wwr.Message) {
	if i.Signal != nil {
		i.Signal(c, m)
	}
}

// OnRequest implements wwr.ServerImplementation
func (i *Impl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	if i.Request != nil {
		return i.Request(c, m)
	}
	return wwr.Payload{}, nil
}

const hugeTimeout = 10 * time.Hour

// EnvOpts configures a scenario
type EnvOpts struct {
	Memchan  bool
	Fragment bool
	Sessions bool
	SM       wwr.SessionManager
	KeyGen   wwr.SessionKeyGenerator
	Parser   wwr.SessionInfoParser
	MaxConns uint
	BufSize  uint32
	Timeout  time.Duration
	SubProto []byte
	Impl     *Impl
	LogOff   bool
	Log      *EventLog
	ErrorLog io.Writer
}

// Env is a running server with its clients
type Env struct {
	Log  *EventLog
	Srv  wwr.Server
	Impl *Impl
	Ft   *ftTransport
	Mc   *memchan.Transport
	Opts EnvOpts

	mu       sync.Mutex
	clients  map[int]*Client
	nclients int
	dialLock sync.Mutex
	nextOpts wwr.ConnectionOptions
	idSalt   uint64
	nSpecial int
	runDone  int32
	runErr   error
	dead     bool
}

// nEnvs is the number of servers with sessions
var nEnvs int

// NewEnv sets a server up and runs it
func NewEnv(o EnvOpts) *Env {
	e := &Env{Log: &EventLog{off: o.LogOff}, Impl: o.Impl, Opts: o, idSalt: idSalt}
	if o.Log != nil {
		e.Log = o.Log
	}
	if e.Impl == nil {
		e.Impl = &Impl{}
	}
	// record connections in front of the scenario's own hook
	userConnected := e.Impl.Connected
	e.Impl.Connected = func(opts wwr.ConnectionOptions, c wwr.Connection) {
		if id, ok := c.Info(0).(int); ok {
			cl := e.client(id)
			if cl != nil {
				cl.mu.Lock()
				cl.conn = c
				cl.mu.Unlock()
			}
			e.Log.Add("conn %d: connected hook", id)
		}
		if userConnected != nil {
			userConnected(opts, c)
		}
	}
	var tr wwr.Transport
	if o.Memchan {
		e.Mc = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions { return e.nextOpts }}
		tr = e.Mc
	} else {
		style := 0
		if o.Fragment {
			style = 1
		}
		e.Ft = newFt(e.Log, style)
		tr = e.Ft
	}
	so := wwr.ServerOptions{
		Sessions:              wwr.Disabled,
		SessionManager:        o.SM,
		SessionKeyGenerator:   o.KeyGen,
		SessionInfoParser:     o.Parser,
		MaxSessionConnections: o.MaxConns,
		MessageBufferSize:     o.BufSize,
		ReadTimeout:           o.Timeout,
		SubProtocolName:       o.SubProto,
		WarnLog:               log.New(io.Discard, "", 0),
		ErrorLog:              log.New(io.Discard, "", 0),
	}
	if o.ErrorLog != nil {
		so.ErrorLog = log.New(o.ErrorLog, "", 0)
	}
	if o.Sessions {
		so.Sessions = wwr.Enabled
		if nEnvs++; nEnvs%2 == 0 && o.SM != nil {
			so.Sessions = wwr.OptionUnset // the default
		}
	}
	if so.ReadTimeout == 0 {
		so.ReadTimeout = hugeTimeout
	}
	srv, err := wwr.NewServer(e.Impl, so, tr)
	if err != nil {
		panic(fmt.Sprintf("harness: server setup: %v", err))
	}
	e.Srv = srv
	go func() {
		e.runErr = srv.Run()
		atomic.StoreInt32(&e.runDone, 1)
	}()
	return e
}

func (e *Env) client(id int) *Client {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.clients[id]
}

// Forget drops the harness' reference to a client
func (e *Env) Forget(c *Client) {
	e.mu.Lock()
	delete(e.clients, c.id)
	e.mu.Unlock()
}

// Client is a raw protocol client
type Client struct {
	env *Env
	id  int
	ft  *ftSocket
	mc  wwr.ClientSocket

	mu       sync.Mutex
	cond     *sync.Cond
	conn     wwr.Connection
	recv     []Recv
	recvEnd  bool
	broken   []string // received messages that couldn't be parsed (memchan)
	queue    [][]byte
	sending  bool
	sendErr  error
	sendIdx  int          // number of messages sent
	taken    map[int]bool // messages the server has received (memchan)
	nextID   uint64
	readGate chan struct{}
}

// Dial connects a new client, opts.Info[0] is set to its number
func (e *Env) Dial(opts wwr.ConnectionOptions) (*Client, error) {
	return e.dialPrep(opts, nil)
}

func (e *Env) dialPrep(opts wwr.ConnectionOptions, prep func(c *Client)) (*Client, error) {
	c := &Client{env: e}
	c.cond = sync.NewCond(&c.mu)
	e.mu.Lock()
	c.id = e.nclients
	e.nclients++
	if e.clients == nil {
		e.clients = map[int]*Client{}
	}
	e.clients[c.id] = c
	e.mu.Unlock()
	info := map[int]interface{}{0: c.id}
	for k, v := range opts.Info {
		info[k] = v
	}
	opts.Info = info
	if prep != nil {
		prep(c)
	}
	if e.Ft != nil {
		s, err := e.Ft.dial(c.id, opts)
		if err != nil {
			return nil, err
		}
		c.mu.Lock()
		c.ft = s
		c.mu.Unlock()
		return c, nil
	}
	ct := memchan.ClientTransport{Server: e.Mc}
	sock, err := ct.NewSocket(time.Second)
	if err != nil {
		return nil, err
	}
	e.dialLock.Lock()
	e.nextOpts = opts
	err = sock.Dial(time.Time{})
	e.dialLock.Unlock()
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	c.mc = sock
	c.mu.Unlock()
	go c.receiver()
	return c, nil
}

// MustDial dials and waits until the connected hook ran
func (e *Env) MustDial(opts wwr.ConnectionOptions) *Client {
	c, err := e.Dial(opts)
	if err != nil {
		ctx.Violate("dial-refused", e.Log.Dump(), "a running server refused a connection: %v", err)
		e.dead = true
		return nil
	}
	if !Await(e.Log, "connected hook of a new connection", func() bool { return c.Conn() != nil }) {
		e.dead = true
		return nil
	}
	return c
}

// Ready tells whether the client is completely set up (hooks may run before)
func (c *Client) Ready() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ft != nil || c.mc != nil
}

// Conn returns the server side connection
func (c *Client) Conn() wwr.Connection {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.conn
}

func (c *Client) receiver() {
	size := c.env.Opts.BufSize
	if size == 0 {
		size = 8192
	}
	if size < 512 {
		size = 512 // the configuration message may be longer than the buffer
	}
	for {
		c.mu.Lock()
		g := c.readGate
		c.mu.Unlock()
		if g != nil {
			<-g
		}
		m := message.NewMessage(size)
		if err := c.mc.Read(m, time.Time{}); err != nil {
			if !err.IsCloseErr() {
				// the server sent something the parser doesn't accept
				c.env.Log.Add("conn %d: client read failed: %v", c.id, err)
			}
			c.mu.Lock()
			if !err.IsCloseErr() {
				c.broken = append(c.broken, err.Error())
			}
			c.recvEnd = true
			c.mu.Unlock()
			if err.IsCloseErr() {
				return
			}
			if !c.mc.IsConnected() {
				return
			}
			continue
		}
		raw := append([]byte(nil), m.MsgBuffer.Data()...)
		_, ref := refParse(raw)
		c.mu.Lock()
		seq := c.env.Log.Add("conn %d: client received %v", c.id, ref)
		c.recv = append(c.recv, Recv{Seq: seq, Raw: raw, Ref: ref})
		c.mu.Unlock()
	}
}

// Received returns everything the client got so far
func (c *Client) Received() []Recv {
	if c.ft != nil {
		c.ft.mu.Lock()
		defer c.ft.mu.Unlock()
		return append([]Recv(nil), c.ft.out...)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Recv(nil), c.recv...)
}

// NumReceived returns the number of received messages
func (c *Client) NumReceived() int {
	if c.ft != nil {
		c.ft.mu.Lock()
		defer c.ft.mu.Unlock()
		return len(c.ft.out)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.recv)
}

// ReplyTo returns the replies with the given identifier
func (c *Client) ReplyTo(id [8]byte) []Recv {
	var out []Recv
	for _, r := range c.Received() {
		if r.Ref != nil && r.Ref.HasID && isReplyType(r.Ref.Type) && r.Ref.ID == id {
			out = append(out, r)
		}
	}
	return out
}

// Stray returns a description of a received message that isn't legal: one
// that can't be parsed, an answer to nothing (known tells the identifiers that
// were used) or a notification though there are no sessions
func (c *Client) Stray(known func(id [8]byte) bool, sessions bool) string {
	c.mu.Lock()
	broken := append([]string(nil), c.broken...)
	c.mu.Unlock()
	if len(broken) > 0 {
		return "a message that can't be parsed: " + broken[0]
	}
	for k, m := range c.Received() {
		switch {
		case k == 0 && m.Ref != nil && m.Ref.Type == tAcceptConf:
		case m.Ref == nil:
			return fmt.Sprintf("a message that can't be parsed: %x", m.Raw)
		case isReplyType(m.Ref.Type):
			if !known(m.Ref.ID) {
				return fmt.Sprintf("an answer to nothing: %v", m.Ref)
			}
		case m.Ref.Type == tSessCreated, m.Ref.Type == tSessClosed:
			if !sessions {
				return fmt.Sprintf("a notification without sessions: %v", m.Ref)
			}
		default:
			return fmt.Sprintf("message %d of an unexpected type: %v", k, m.Ref)
		}
	}
	return ""
}

// Reached tells whether the server has received the n-th message
func (c *Client) Reached(n int) bool {
	if c.ft != nil {
		c.ft.mu.Lock()
		defer c.ft.mu.Unlock()
		return n < c.ft.consumed
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.taken[n]
}

// NumSent returns the number of the next message
func (c *Client) NumSent() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.sendIdx
}

// Send sends a message without waiting for the server to read it, the
// messages of a client stay in order
func (c *Client) Send(raw []byte) {
	_, ref := refParse(raw)
	c.env.Log.Add("conn %d: client sends %v", c.id, ref)
	if c.ft != nil {
		c.mu.Lock()
		c.sendIdx++
		c.ft.send(raw)
		c.mu.Unlock()
		return
	}
	c.mu.Lock()
	c.sendIdx++
	c.queue = append(c.queue, raw)
	start := !c.sending
	c.sending = true
	c.mu.Unlock()
	if start {
		go c.sender()
	}
}

func (c *Client) sender() {
	for {
		c.mu.Lock()
		idx := c.sendIdx - len(c.queue)
		if len(c.queue) == 0 {
			c.sending = false
			c.mu.Unlock()
			return
		}
		raw := c.queue[0]
		c.queue = c.queue[1:]
		c.mu.Unlock()
		if err := mcSend(c.mc, raw); err != nil {
			c.mu.Lock()
			c.sendErr = err
			c.mu.Unlock()
			c.env.Log.Add("conn %d: client send failed: %v", c.id, err)
		} else {
			c.mu.Lock()
			if c.taken == nil {
				c.taken = map[int]bool{}
			}
			c.taken[idx] = true
			c.mu.Unlock()
		}
	}
}

func mcSend(s wwr.Socket, raw []byte) error {
	w, err := s.GetWriter()
	if err != nil {
		return err
	}
	cp := append([]byte(nil), raw...)
	if _, err := w.Write(cp); err != nil {
		w.Close()
		return err
	}
	// the slice belongs to the caller again
	for i := range cp {
		cp[i] = 0xEE
	}
	return w.Close()
}

// NewID returns an identifier that's unique in the scenario
func (c *Client) NewID() [8]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nextID++
	n := uint64(c.id)<<40 | c.nextID | 1<<56
	salt := c.env.idSalt
	if salt%4 == 0 {
		return idOf(n)
	}
	if mix(n^salt)%8 == 0 {
		// each of them once per scenario
		c.env.mu.Lock()
		k := c.env.nSpecial
		c.env.nSpecial++
		c.env.mu.Unlock()
		if k < len(specialIDs) {
			return idOf(specialIDs[(uint64(k)+salt>>8)%uint64(len(specialIDs))])
		}
	}
	return idOf(mix(n ^ salt)) // mix is a bijection
}

// specialIDs are unusual identifiers
var specialIDs = []uint64{
	0, 1, 1<<64 - 1, 1 << 63, 1<<63 - 1, 0xFF, 0xFF << 56, 1 << 56, 0x0A0A0A0A0A0A0A0A,
	0x2020202020202020, 0x8080808080808080, 0x7F7F7F7F7F7F7F7F, 1 << 32, 1<<32 - 1,
}

// idSalt makes the identifiers of the current case different
var idSalt uint64

// Disconnect ends the connection from the client's side
func (c *Client) Disconnect(abnormal bool) {
	if c.ft != nil {
		c.ft.disconnect(abnormal)
		return
	}
	c.env.Log.Add("conn %d: client disconnects", c.id)
	c.mc.Close()
}

// ServerClosed tells whether the server side has closed the socket
func (c *Client) ServerClosed() bool {
	if c.ft != nil {
		c.ft.mu.Lock()
		defer c.ft.mu.Unlock()
		return c.ft.closeSeq != 0
	}
	return !c.mc.IsConnected()
}

// Request sends a request and returns its identifier
func (c *Client) Request(name []byte, enc int, payload []byte) [8]byte {
	id := c.NewID()
	c.Send(encRequest(id, name, enc, payload))
	return id
}

// Call sends a request and waits for its reply
func (c *Client) Call(name []byte, enc int, payload []byte) *Ref {
	id := c.Request(name, enc, payload)
	return c.AwaitReply(id)
}

// AwaitReply waits for the reply to a request
func (c *Client) AwaitReply(id [8]byte) *Ref {
	var rs []Recv
	if !Await(c.env.Log, fmt.Sprintf("reply to request %x of conn %d", id, c.id), func() bool {
		rs = c.ReplyTo(id)
		return len(rs) > 0
	}) {
		c.env.dead = true
		return nil
	}
	return rs[0].Ref
}

// Shutdown ends the scenario: the server is shut down and must come to rest
func (e *Env) Shutdown() bool {
	if e.dead {
		return false
	}
	var done int32
	go func() {
		if err := e.Srv.Shutdown(); err != nil {
			e.Log.Add("shutdown error: %v", err)
		}
		atomic.StoreInt32(&done, 1)
	}()
	ok := Await(e.Log, "return of Shutdown at the end of the scenario", func() bool {
		return atomic.LoadInt32(&done) == 1 && atomic.LoadInt32(&e.runDone) == 1
	})
	if ok {
		Settle()
	}
	if !ok {
		e.dead = true
	}
	return ok
}

// Go runs fn in a goroutine and returns a function telling whether it ended
func Go(fn func()) func() bool {
	var done int32
	go func() {
		fn()
		atomic.StoreInt32(&done, 1)
	}()
	return func() bool { return atomic.LoadInt32(&done) == 1 }
}

/* session manager */

// MemSM is a session manager that records every call
type MemSM struct {
	mu        sync.Mutex
	log       *EventLog
	store     map[string]memSess
	created   map[string]int
	createdBy map[wwr.Connection]int
	looked    map[string]int
	closed    map[string]int
	// hooks for faults and delays, called without the lock
	OnCreate func(c wwr.Connection, key string) error
	OnLookup func(key string) error
	OnClose  func(key string) error
	NoStore  bool
	clock    int64
}

type memSess struct {
	creation   time.Time
	lastLookup time.Time
	info       map[string]interface{}
}

// NewMemSM creates a session manager
func NewMemSM() *MemSM {
	return &MemSM{store: map[string]memSess{}, created: map[string]int{}, looked: map[string]int{}, closed: map[string]int{}}
}

func (m *MemSM) logf(f string, a ...interface{}) {
	if m.log != nil {
		m.log.Add(f, a...)
	}
}

// Hooks sets the fault hooks
func (m *MemSM) Hooks(create func(c wwr.Connection, key string) error, lookup, closed func(key string) error) {
	m.mu.Lock()
	m.OnCreate, m.OnLookup, m.OnClose = create, lookup, closed
	m.mu.Unlock()
}

// OnSessionCreated implements wwr.SessionManager
func (m *MemSM) OnSessionCreated(c wwr.Connection) error {
	key := c.SessionKey()
	m.logf("storage: created %q", key)
	m.mu.Lock()
	m.created[key]++
	if m.createdBy == nil {
		m.createdBy = map[wwr.Connection]int{}
	}
	m.createdBy[c]++
	hook := m.OnCreate
	m.mu.Unlock()
	if hook != nil {
		if err := hook(c, key); err != nil {
			return err
		}
	}
	// the session might be closed meanwhile, it must not be stored then
	m.mu.Lock()
	defer m.mu.Unlock()
	s := c.Session()
	if s == nil {
		return nil
	}
	m.store[s.Key] = memSess{s.Creation, s.LastLookup, wwr.SessionInfoToVarMap(s.Info)}
	return nil
}

// CreatedBy returns the number of calls of the creation hook for a connection
func (m *MemSM) CreatedBy(c wwr.Connection) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.createdBy[c]
}

// OnSessionLookup implements wwr.SessionManager
func (m *MemSM) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	m.logf("storage: lookup %q", key)
	m.mu.Lock()
	m.looked[key]++
	hook := m.OnLookup
	m.mu.Unlock()
	if hook != nil {
		if err := hook(key); err != nil {
			if len(err.Error())%2 != 0 {
				return nil, err
			}
			// an error counts whatever else is returned
			return wwr.NewSessionLookupResult(time.Now(), time.Now(), nil), err
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	s, ok := m.store[key]
	if !ok {
		return nil, nil
	}
	last := s.lastLookup
	m.clock++
	s.lastLookup = time.Unix(1500000000+m.clock, m.clock*1000).UTC()
	m.store[key] = s
	return wwr.NewSessionLookupResult(s.creation, last, s.info), nil
}

// OnSessionClosed implements wwr.SessionManager
func (m *MemSM) OnSessionClosed(key string) error {
	m.logf("storage: closed %q", key)
	m.mu.Lock()
	m.closed[key]++
	hook := m.OnClose
	m.mu.Unlock()
	if hook != nil {
		if err := hook(key); err != nil {
			return err
		}
	}
	m.mu.Lock()
	delete(m.store, key)
	m.mu.Unlock()
	return nil
}

// Calls returns the numbers of calls for a key
func (m *MemSM) Calls(key string) (created, looked, closed int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.created[key], m.looked[key], m.closed[key]
}

// Has tells whether a session is stored
func (m *MemSM) Has(key string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	_, ok := m.store[key]
	return ok
}

var errNoSession = errors.New("no session")

// infoFrom makes session info of a map
func infoFrom(m map[string]interface{}) wwr.SessionInfo {
	if m == nil {
		return nil
	}
	return wwr.GenericSessionInfoParser(m)
}
