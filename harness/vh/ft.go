package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

/* A fake transport: every call the server makes is recorded, reads can be
   fragmented, faults can be injected at every call. It behaves like a network
   transport with unbounded buffers: what the client sent before it
   disconnected can still be read, what the server wrote is delivered at once */

type ftErr struct {
	closed bool
	msg    string
}

func (e ftErr) Error() string    { return e.msg }
func (e ftErr) IsCloseErr() bool { return e.closed }

type ftAddr string

func (a ftAddr) Network() string { return "ft" }
func (a ftAddr) String() string  { return string(a) }

var errInjected = errors.New("injected fault")

type ftTransport struct {
	log     *EventLog
	opts    wwr.ServerOptions
	isShut  wwr.IsShuttingDown
	onNew   wwr.OnNewConnection
	stop    chan struct{}
	mu      sync.Mutex
	stopped bool
	stopSeq int64
	conns   map[*ftSocket]struct{}
	serving int64 // running connection goroutines
	style   int   // 0: whole messages, otherwise fragmented through a reader
	nAddr   int64
	onDial  func(s *ftSocket) // prepares a socket before the server gets it
}

func newFt(log *EventLog, style int) *ftTransport {
	return &ftTransport{log: log, stop: make(chan struct{}), conns: map[*ftSocket]struct{}{}, style: style}
}

func (t *ftTransport) Initialize(o wwr.ServerOptions, s wwr.IsShuttingDown, n wwr.OnNewConnection) error {
	t.opts, t.isShut, t.onNew = o, s, n
	return nil
}

func (t *ftTransport) Serve() error { <-t.stop; return nil }

func (t *ftTransport) Address() url.URL { return url.URL{Scheme: "ft"} }

func (t *ftTransport) Shutdown() error {
	t.mu.Lock()
	if !t.stopped {
		t.stopped = true
		t.stopSeq = t.log.Add("transport shutdown")
		close(t.stop)
	}
	var l []*ftSocket
	for s := range t.conns {
		l = append(l, s)
	}
	t.mu.Unlock()
	for _, s := range l {
		s.Close()
	}
	return nil
}

// dial connects a new client
func (t *ftTransport) dial(id int, opts wwr.ConnectionOptions) (*ftSocket, error) {
	if opts.Connection != wwr.Accept {
		return nil, errors.New("refused")
	}
	if t.isShut() {
		return nil, errors.New("shutting down")
	}
	s := &ftSocket{t: t, id: id, connected: 1, writer: make(chan struct{}, 1), log: t.log}
	s.cond = sync.NewCond(&s.mu)
	s.rng = NewRng(uint64(id), 77)
	s.lenient = atomic.AddInt64(&t.nAddr, 1)%3 == 0
	s.addr = ftAddr(fmt.Sprintf("client-%d-%d", id, atomic.AddInt64(&t.nAddr, 1)))
	t.mu.Lock()
	if t.stopped {
		t.mu.Unlock()
		return nil, errors.New("stopped")
	}
	t.conns[s] = struct{}{}
	prepare := t.onDial
	t.mu.Unlock()
	if prepare != nil {
		prepare(s)
	}
	atomic.AddInt64(&t.serving, 1)
	go func() {
		t.onNew(opts, s)
		t.log.Add("conn %d: connection goroutine ended", id)
		atomic.StoreInt64(&s.served, 1)
		atomic.AddInt64(&t.serving, -1)
	}()
	return s, nil
}

// faultPlan decides which transport calls fail
type faultPlan func(op string, n int) error

type ftSocket struct {
	t    *ftTransport
	id   int
	addr net.Addr
	log  *EventLog
	rng  *Rng

	mu        sync.Mutex
	cond      *sync.Cond
	in        [][]byte
	inErr     error // the client is gone (nil: it isn't)
	connected int32
	served    int64
	reading   int32

	writer    chan struct{} // the writer lock
	out       []Recv
	closeSeq  int64
	closes    int
	writeGate chan struct{} // flushing blocks until closed (nil: no gate)

	faults    faultPlan
	opCount   map[string]int
	deadlines []ftDeadline
	consumed  int
	tag       interface{}
	// closing a writer doesn't report a failed write again
	lenient bool
}

type ftDeadline struct {
	after    time.Time // the beginning of the read
	deadline time.Time
	received time.Time // when it returned a message
}

// Recv is a message received by a client
type Recv struct {
	Seq int64
	Raw []byte
	Ref *Ref
}

func (s *ftSocket) fault(op string) error {
	s.mu.Lock()
	f := s.faults
	if f == nil {
		s.mu.Unlock()
		return nil
	}
	if s.opCount == nil {
		s.opCount = map[string]int{}
	}
	s.opCount[op]++
	n := s.opCount[op]
	s.mu.Unlock()
	err := f(op, n)
	if err != nil {
		s.log.Add("conn %d: fault at %s #%d", s.id, op, n)
	}
	return err
}

func (s *ftSocket) setFaults(f faultPlan) {
	s.mu.Lock()
	s.faults = f
	s.opCount = nil
	s.mu.Unlock()
}

type ftWriter struct {
	s      *ftSocket
	buf    []byte
	failed bool
	closed bool
}

func (s *ftSocket) GetWriter() (io.WriteCloser, error) {
	if err := s.fault("get"); err != nil {
		return nil, err
	}
	s.writer <- struct{}{}
	if !s.IsConnected() {
		<-s.writer
		return nil, wwr.ErrDisconnected{Cause: errors.New("can't write to a closed socket")}
	}
	return &ftWriter{s: s}, nil
}

func (w *ftWriter) Write(p []byte) (int, error) {
	if w.closed {
		ctx.Violate("writer-used-after-close", w.s.log.Dump(), "a writer was written to after it was closed")
		return 0, errors.New("closed")
	}
	if err := w.s.fault("write"); err != nil {
		w.failed = true
		w.buf = nil
		return 0, err
	}
	if len(w.buf)+len(p) > int(w.s.t.opts.MessageBufferSize) {
		w.buf = nil
		w.failed = true
		return 0, wwr.ErrBufferOverflow{}
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *ftWriter) Close() error {
	if w.closed {
		ctx.Violate("writer-closed-twice", w.s.log.Dump(), "a writer was closed twice")
		return errors.New("closed")
	}
	w.closed = true
	s := w.s
	if w.failed && s.lenient {
		// the failure was reported by the write
		s.log.Add("conn %d: the writer is closed after a failed write", s.id)
		<-s.writer
		return nil
	}
	if g := s.gate(); g != nil {
		<-g
	}
	defer func() { <-s.writer }()
	if err := s.fault("flush"); err != nil {
		return err
	}
	if len(w.buf) == 0 {
		return errors.New("nothing written")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if atomic.LoadInt32(&s.connected) != 1 || s.inErr != nil {
		return wwr.ErrDisconnected{Cause: errors.New("client is gone")}
	}
	_, ref := refParse(w.buf)
	seq := s.log.Add("conn %d: client received %v", s.id, ref)
	s.out = append(s.out, Recv{Seq: seq, Raw: w.buf, Ref: ref})
	return nil
}

func (s *ftSocket) gate() chan struct{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.writeGate
}

func (s *ftSocket) Read(into *message.Message, deadline time.Time) wwr.ErrSockRead {
	now := time.Now()
	if !atomic.CompareAndSwapInt32(&s.reading, 0, 1) {
		// the server has a single reader per connection
		ctx.Violate("concurrent-reads", s.log.Dump(), "two concurrent reads on a socket")
	}
	defer atomic.StoreInt32(&s.reading, 0)
	if err := s.fault("read"); err != nil {
		return ftErr{msg: err.Error()}
	}
	s.mu.Lock()
	s.deadlines = append(s.deadlines, ftDeadline{after: now, deadline: deadline})
	this := len(s.deadlines) - 1
	s.cond.Broadcast()
	for len(s.in) == 0 && s.inErr == nil && atomic.LoadInt32(&s.connected) == 1 {
		s.cond.Wait()
	}
	if atomic.LoadInt32(&s.connected) != 1 {
		s.mu.Unlock()
		return ftErr{closed: true, msg: "socket closed"}
	}
	if len(s.in) == 0 {
		err := s.inErr
		s.mu.Unlock()
		if fe, ok := err.(ftErr); ok {
			return fe
		}
		return ftErr{msg: err.Error()}
	}
	data := s.in[0]
	s.in = s.in[1:]
	s.consumed++
	style := s.t.style
	s.deadlines[this].received = time.Now()
	s.mu.Unlock()

	var ok bool
	var err error
	if style == 0 {
		ok, err = into.ReadBytes(data)
		// the slice belongs to the transport again
		for i := range data {
			data[i] = 0xEE
		}
	} else {
		ok, err = into.Read(&chunkReader{data: data, r: s.rng, style: s.rng.N(10), failAt: -1})
	}
	if err != nil {
		return ftErr{msg: err.Error()}
	}
	if !ok {
		return ftErr{msg: "no message type"}
	}
	return nil
}

func (s *ftSocket) IsConnected() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return atomic.LoadInt32(&s.connected) == 1 && s.inErr == nil
}

func (s *ftSocket) RemoteAddr() net.Addr {
	if atomic.LoadInt32(&s.connected) != 1 {
		return nil
	}
	return s.addr
}

// Close is called by the server
func (s *ftSocket) Close() error {
	ferr := s.fault("close")
	s.mu.Lock()
	s.closes++
	if s.closeSeq == 0 {
		s.closeSeq = s.log.Add("conn %d: socket closed by the server", s.id)
	}
	atomic.StoreInt32(&s.connected, 0)
	s.cond.Broadcast()
	s.mu.Unlock()
	s.t.mu.Lock()
	delete(s.t.conns, s)
	s.t.mu.Unlock()
	return ferr
}

// numCloses returns how often the server closed the socket
func (s *ftSocket) numCloses() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closes
}

// client side

func (s *ftSocket) send(raw []byte) {
	s.mu.Lock()
	s.in = append(s.in, append([]byte(nil), raw...))
	s.cond.Broadcast()
	s.mu.Unlock()
}

// disconnect ends the connection from the client's side
func (s *ftSocket) disconnect(abnormal bool) {
	s.mu.Lock()
	if s.inErr == nil {
		if abnormal {
			s.inErr = ftErr{msg: "connection reset"}
		} else {
			s.inErr = ftErr{closed: true, msg: "closed by the client"}
		}
	}
	s.log.Add("conn %d: client disconnects", s.id)
	s.cond.Broadcast()
	s.mu.Unlock()
}
