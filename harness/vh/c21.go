package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	rm "github.com/qbeon/webwire-go/requestManager"
)

/* C21: the request manager */

func init() { checks["C21"] = checkC21 }

func checkC21(c *Ctx) {
	c.Cases("ids", c.Scale(160, 3200), func(i int, r *Rng) { c21IDs(r) })
	c.Cases("many", c.Scale(16, 160), func(i int, r *Rng) { c21Many(r) })
	c.Cases("outcome", c.Scale(1600, 32000), func(i int, r *Rng) { c21Outcome(r) })
	c.Cases("managers", c.Scale(320, 6400), func(i int, r *Rng) { c21Managers(r) })
	c.Cases("storm", c.Scale(320, 6400), func(i int, r *Rng) { c21Storm(r) })
	c.Cases("deadline", c.Scale(64, 800), func(i int, r *Rng) { c21Deadline(r) })
}

func consecutive(ids [][8]byte, order binary.ByteOrder, last uint64) (uint64, bool) {
	v := make([]uint64, len(ids))
	for i := range ids {
		v[i] = order.Uint64(ids[i][:])
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	for i := range v {
		if last == 0 && i == 0 {
			last = v[0]
			continue
		}
		if v[i] != last+1 {
			return 0, false
		}
		last = v[i]
	}
	return last, true
}

// c21Managers: requests of several managers, with the same identifiers, have
// nothing to do with each other
func c21Managers(r *Rng) {
	log := &EventLog{}
	type man struct {
		m    rm.RequestManager
		ids  [][8]byte
		open map[[8]byte]*rm.Request
	}
	var ms []*man
	for k := r.Range(2, 4); k > 0; k-- {
		ms = append(ms, &man{m: rm.NewRequestManager(), open: map[[8]byte]*rm.Request{}})
	}
	bad := func(kind, f string, a ...interface{}) { ctx.Violate("managers-"+kind, log.Dump(), f, a...) }
	for steps := r.Range(5, 60); steps > 0; steps-- {
		k := r.N(len(ms))
		m := ms[k]
		// requests of this manager or others, pending or not
		var id [8]byte
		known := false
		if o := ms[r.N(len(ms))]; len(o.ids) > 0 {
			id, known = o.ids[r.N(len(o.ids))], true
		}
		q := m.open[id]
		x := r.N(10)
		switch {
		case x < 5 || !known:
			n := m.m.Create()
			log.Add("manager %d creates %x", k, n.Identifier)
			if m.open[n.Identifier] != nil {
				bad("duplicate-id", "identifier %x was assigned twice", n.Identifier)
				return
			}
			m.ids = append(m.ids, n.Identifier)
			m.open[n.Identifier] = n
		case x < 9:
			pl := []byte(fmt.Sprintf("reply %d", steps))
			var ok bool
			if x < 7 {
				log.Add("manager %d is told a reply to %x", k, id)
				msg := message.NewMessage(64)
				msg.ReadBytes(encReply(id, 0, pl))
				ok = m.m.Fulfill(msg)
			} else {
				log.Add("manager %d is told an error of %x", k, id)
				ok = m.m.Fail(id, errReader)
			}
			if ok != (q != nil) {
				bad("result", "resolving a request (pending on this manager: %v) returned %v", q != nil, ok)
				return
			}
			delete(m.open, id)
			if q != nil {
				rep, err := q.AwaitReply(context.Background())
				if x < 7 && (err != nil || !bytes.Equal(rep.Payload(), pl)) || x >= 7 && err != errReader {
					bad("outcome", "a resolved request returned %v, %v", rep, err)
					return
				}
			}
		default:
			if q == nil {
				continue
			}
			log.Add("request %x of manager %d is canceled", id, k)
			cx, cancel := context.WithCancel(context.Background())
			cancel()
			if _, err := q.AwaitReply(cx); !wwr.IsErrCanceled(err) {
				bad("outcome", "a canceled request returned %v", err)
				return
			}
			delete(m.open, id)
		}
		for j, o := range ms {
			if n := o.m.PendingRequests(); n != len(o.open) {
				bad("pending-count", "%d requests of manager %d are pending instead of %d", n, j, len(o.open))
				return
			}
			if known && o.m.IsPending(id) != (o.open[id] != nil) {
				bad("pending", "request %x of manager %d is pending: %v", id, j, o.m.IsPending(id))
				return
			}
		}
		ctx.Eval(fmt.Sprintf("managers %d op=%d pending=%v", len(ms), x, q != nil))
	}
	for j, o := range ms {
		_, le := consecutive(o.ids, binary.LittleEndian, 0)
		_, be := consecutive(o.ids, binary.BigEndian, 0)
		if len(o.ids) > 0 && !le && !be {
			bad("not-consecutive", "the %d requests of manager %d don't have consecutive identifiers", len(o.ids), j)
			return
		}
	}
}

func c21IDs(r *Rng) {
	m := rm.NewRequestManager()
	SetDelays(r.U64())
	defer SetDelays(0)
	log := &EventLog{}
	var lastLE, lastBE uint64
	okLE, okBE := true, true
	total := 0
	for round := r.Range(1, 3); round > 0; round-- {
		g, n := r.Range(1, 8), r.Range(1, 60)
		ids := make([][][8]byte, g)
		var bad atomic.Value
		var start int32
		var dones []func() bool
		for k := 0; k < g; k++ {
			k := k
			dones = append(dones, Go(func() {
				for atomic.LoadInt32(&start) == 0 {
					runtime.Gosched()
				}
				for i := 0; i < n; i++ {
					q := m.Create()
					if !m.IsPending(q.Identifier) {
						bad.Store(fmt.Sprintf("a request just created (%x) isn't pending", q.Identifier))
					}
					if !bytes.Equal(q.IdentifierBytes, q.Identifier[:]) {
						bad.Store(fmt.Sprintf("the identifier bytes %x differ from the identifier %x", q.IdentifierBytes, q.Identifier))
					}
					ids[k] = append(ids[k], q.Identifier)
				}
			}))
		}
		atomic.StoreInt32(&start, 1)
		for _, d := range dones {
			if !Await(log, "creation of requests", d) {
				return
			}
		}
		Settle()
		if b := bad.Load(); b != nil {
			ctx.Violate("not-pending", nil, "%s", b)
		}
		var all [][8]byte
		for _, l := range ids {
			all = append(all, l...)
		}
		total += len(all)
		if n := m.PendingRequests(); n != total {
			ctx.Violate("pending-count", nil, "%d requests are pending after %d were created", n, total)
		}
		seen := map[[8]byte]bool{}
		for _, id := range all {
			if seen[id] {
				ctx.Violate("duplicate-id", nil, "identifier %x was assigned twice", id)
			}
			seen[id] = true
			if !m.IsPending(id) {
				ctx.Violate("not-pending", nil, "request %x isn't pending although it has no outcome", id)
			}
		}
		var o bool
		lastLE, o = consecutive(all, binary.LittleEndian, lastLE)
		okLE = okLE && o
		lastBE, o = consecutive(all, binary.BigEndian, lastBE)
		okBE = okBE && o
		ctx.Count("requests created", int64(len(all)))
		ctx.Eval(fmt.Sprintf("ids goroutines=%d round=%d", g, round))
	}
	if !okLE && !okBE {
		ctx.Violate("not-consecutive", nil, "%d concurrently created requests don't have consecutive identifiers", total)
	}
}

// manual is a context that's ended by the scenario
type manual struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func newManual() *manual { return &manual{done: make(chan struct{})} }

func (m *manual) Deadline() (time.Time, bool)   { return time.Time{}, false }
func (m *manual) Done() <-chan struct{}         { return m.done }
func (m *manual) Value(interface{}) interface{} { return nil }
func (m *manual) Err() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.err
}

func (m *manual) end(err error) {
	m.mu.Lock()
	if m.err == nil {
		m.err = err
		close(m.done)
	}
	m.mu.Unlock()
}

// c21Try is one attempt to resolve a request
type c21Try struct {
	fail    bool
	payload []byte
	err     error
	msg     *message.Message
	ok      bool
	begin   int64
	end     int64
}

var c21Pool = message.NewSyncPool(512, 0)

// c21Reply makes a reply message as the client gets it
func c21Reply(id [8]byte, enc int, payload []byte) *message.Message {
	m := c21Pool.Get()
	raw := encReply(id, enc, payload)
	if _, err := m.Read(bytes.NewReader(raw)); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return m
}

type c21Out struct {
	enc     wwr.PayloadEncoding
	payload []byte
	reply   wwr.Reply
	err     error
	end     int64
	ctxDone bool
}

func c21Judge(log *EventLog, kind string, tries []*c21Try, out *c21Out, encs []int, canceled error) {
	var won []int
	for i, t := range tries {
		if t.ok {
			won = append(won, i)
		}
	}
	if len(won) > 1 {
		ctx.Violate("several-outcomes", log.Dump(), "%s: %d attempts to resolve one request report success", kind, len(won))
	}
	if out == nil {
		return
	}
	isCtx := false
	switch out.err.(type) {
	case wwr.ErrCanceled:
		isCtx = true
		if canceled != context.Canceled {
			ctx.Violate("wrong-context-error", log.Dump(), "%s: the caller got %v, its context ended with %v", kind, out.err, canceled)
		}
	case wwr.ErrDeadlineExceeded:
		isCtx = true
		if canceled != context.DeadlineExceeded {
			ctx.Violate("wrong-context-error", log.Dump(), "%s: the caller got %v, its context ended with %v", kind, out.err, canceled)
		}
	}
	if isCtx {
		if !classified(out.err) {
			ctx.Violate("wrong-context-error", log.Dump(), "%s: IsErrTimeout and IsErrCanceled tell %v and %v for %T", kind, wwr.IsErrTimeout(out.err), wwr.IsErrCanceled(out.err), out.err)
		}
		for _, t := range tries {
			if t.ok && t.begin > out.end {
				ctx.Violate("late-success", log.Dump(), "%s: an attempt that began after the awaiting caller got %v reports success", kind, out.err)
			}
		}
		return
	}
	if len(won) == 0 {
		ctx.Violate("outcome-without-success", log.Dump(), "%s: the caller got an outcome (%v %v) but no attempt reports success", kind, out.reply, out.err)
		return
	}
	t := tries[won[0]]
	if len(won) > 1 {
		return
	}
	if t.fail {
		if out.err != t.err || out.reply != nil {
			ctx.Violate("wrong-outcome", log.Dump(), "%s: the caller got (%v, %v) instead of the error %v", kind, out.reply, out.err, t.err)
		}
	} else {
		if out.err != nil || out.reply == nil {
			ctx.Violate("wrong-outcome", log.Dump(), "%s: the caller got (%v, %v) instead of the reply %q", kind, out.reply, out.err, t.payload)
		} else if !bytes.Equal(out.payload, t.payload) || int(out.enc) != encs[won[0]] {
			ctx.Violate("wrong-outcome", log.Dump(), "%s: the caller got the reply %q (encoding %d) instead of %q (encoding %d)", kind, out.payload, out.enc, t.payload, encs[won[0]])
		}
	}
	for _, x := range tries {
		if x != t && x.ok {
			ctx.Violate("late-success", log.Dump(), "%s: a second attempt reports success", kind)
		}
	}
}

func c21Await(q *rm.Request, c context.Context) *c21Out {
	o := &c21Out{}
	o.reply, o.err = q.AwaitReply(c)
	o.end = Tick()
	if o.reply != nil && o.err == nil {
		o.enc = o.reply.PayloadEncoding()
		o.payload = append([]byte(nil), o.reply.Payload()...)
	}
	return o
}

// c21Outcome: one request, several attempts, in a given or free order
func c21Outcome(r *Rng) {
	m := rm.NewRequestManager()
	log := &EventLog{}
	others := r.N(4)
	for i := 0; i < others; i++ {
		m.Create()
	}
	q := m.Create()
	n := r.Range(0, 6)
	var tries []*c21Try
	var encs []int
	for i := 0; i < n; i++ {
		t := &c21Try{fail: r.P(40)}
		enc := r.N(3)
		if t.fail {
			t.err = []error{errors.New("x"), wwr.ErrTransmission{}, wwr.ErrInternal{}, wwr.ErrRequest{Code: "C", Message: "m"}, wwr.ErrServerShutdown{}}[r.N(5)]
			if r.P(60) {
				t.err = fmt.Errorf("error %d", i)
			}
		} else {
			t.payload = []byte(fmt.Sprintf("payload-%d", i))
			if enc == 2 && len(t.payload)%2 != 0 {
				t.payload = append(t.payload, 0)
			}
			t.msg = c21Reply(q.Identifier, enc, t.payload)
		}
		tries = append(tries, t)
		encs = append(encs, enc)
	}
	attempt := func(t *c21Try) {
		t.begin = Tick()
		if t.fail {
			t.ok = m.Fail(q.Identifier, t.err)
		} else {
			t.ok = m.Fulfill(t.msg)
		}
		t.end = Tick()
	}
	mc := newManual()
	var canceled error
	kind := r.N(4)
	var dones []func() bool
	var out *c21Out
	order := r.N(4)
	desc := fmt.Sprintf("order=%d ctx=%d tries=%d", order, kind, n)
	early := 0
	switch order {
	case 0: // attempts first
		early = r.Range(0, n)
		for _, t := range tries[:early] {
			t := t
			if !Await(log, "return of an attempt to resolve a request nobody waits for", Go(func() { attempt(t) })) {
				return
			}
		}
		if early > 0 {
			Settle()
			if !tries[0].ok {
				ctx.Violate("first-failed", nil, "%s: the first attempt to resolve a pending request failed", desc)
			}
			if m.IsPending(q.Identifier) {
				ctx.Violate("still-pending", nil, "%s: a resolved request is still pending", desc)
			}
		}
	case 1: // the context is over from the beginning
		if kind == 1 {
			canceled = context.Canceled
		} else if kind == 2 {
			canceled = context.DeadlineExceeded
		}
		if canceled != nil {
			mc.end(canceled)
		}
	}
	if order == 2 {
		early = 0
		// the caller waits before anything happens
		dones = append(dones, Go(func() { out = c21Await(q, mc) }))
		if !Settle() {
			return
		}
		if dones[0]() {
			ctx.Violate("outcome-without-success", nil, "%s: AwaitReply returned %v although nothing has happened", desc, out.err)
			return
		}
		if !m.IsPending(q.Identifier) {
			ctx.Violate("not-pending", nil, "%s: an awaited request isn't pending", desc)
		}
	}
	var start int32
	spin := func() {
		for i := 0; atomic.LoadInt32(&start) == 0; i++ {
			if i > 200 {
				runtime.Gosched()
			}
		}
	}
	for _, t := range tries[early:] {
		t := t
		dones = append(dones, Go(func() { spin(); attempt(t) }))
	}
	if order != 2 {
		dones = append(dones, Go(func() { spin(); out = c21Await(q, mc) }))
	}
	if canceled == nil && kind == 1 {
		canceled = context.Canceled
		dones = append(dones, Go(func() { spin(); mc.end(context.Canceled) }))
	} else if canceled == nil && kind == 2 {
		canceled = context.DeadlineExceeded
		dones = append(dones, Go(func() { spin(); mc.end(context.DeadlineExceeded) }))
	}
	if r.P(50) {
		dones = append(dones, Go(func() {
			spin()
			for i := 0; i < 20; i++ {
				m.IsPending(q.Identifier)
				m.PendingRequests()
			}
		}))
	}
	atomic.StoreInt32(&start, 1)
	if !Settle() {
		return
	}
	for i, d := range dones {
		if d() {
			continue
		}
		waits := order == 2 && i == 0 || order != 2 && i == n-early
		if waits && n == 0 && canceled == nil {
			continue // nothing ends this one
		}
		ctx.Violate("blocked", witnessWithStacks(log), "%s: an attempt, or a caller that must get an outcome, is blocked", desc)
		return
	}
	if n == 0 && canceled == nil {
		if out != nil {
			ctx.Violate("outcome-without-success", nil, "%s: AwaitReply returned although nothing has happened", desc)
		}
		t := &c21Try{fail: true, err: errors.New("at last")}
		tries = append(tries, t)
		encs = append(encs, 0)
		if !Await(log, "return of a final attempt", Go(func() { attempt(t) })) {
			return
		}
		Settle()
		for _, d := range dones {
			if !d() {
				ctx.Violate("blocked", witnessWithStacks(log), "%s: the awaiting caller got no outcome", desc)
				return
			}
		}
	}
	c21Judge(log, desc, tries, out, encs, canceled)
	if canceled == nil {
		any := false
		for _, t := range tries {
			any = any || t.ok
		}
		if !any {
			ctx.Violate("first-failed", nil, "%s: none of the attempts to resolve a pending request succeeded", desc)
		}
	}
	// afterwards
	if m.IsPending(q.Identifier) {
		ctx.Violate("still-pending", nil, "%s: a request that got its outcome is still pending", desc)
	}
	if k := m.PendingRequests(); k != others {
		ctx.Violate("pending-count", nil, "%s: %d requests are pending instead of %d", desc, k, others)
	}
	late := c21Reply(q.Identifier, 0, []byte("late"))
	var l1, l2 bool
	if !Await(log, "return of late attempts", Go(func() { l1 = m.Fail(q.Identifier, errors.New("late")); l2 = m.Fulfill(late) })) {
		return
	}
	Settle()
	if l1 || l2 {
		ctx.Violate("late-success", nil, "%s: an attempt to resolve a request that got its outcome reports success", desc)
	}
	if r.P(20) {
		var unknown [8]byte
		copy(unknown[:], r.Bytes(8))
		unknown[7] |= 0x80
		if m.Fail(unknown, errors.New("x")) || m.IsPending(unknown) {
			ctx.Violate("unknown-id", nil, "an unknown request was failed or is pending")
		}
	}
	if out != nil && out.reply != nil && out.err == nil && r.P(50) {
		out.reply.Close()
	}
	won := 0
	for _, t := range tries {
		if t.ok {
			won++
		}
	}
	ctx.Count("attempts", int64(len(tries)))
	ctx.Eval(fmt.Sprintf("%s won=%d early=%d ctxerr=%v", desc, won, early, out != nil && out.err != nil && won == 0))
}

// c21Storm: many requests, several goroutines compete for each of them
func c21Storm(r *Rng) {
	m := rm.NewRequestManager()
	log := &EventLog{}
	n := r.Range(20, 120)
	g := r.Range(2, 6)
	qs := make([]*rm.Request, n)
	for i := range qs {
		qs[i] = m.Create()
	}
	type res struct{ ok [8]bool }
	results := make([]res, n)
	outs := make([]*c21Out, n)
	turn := make([]int32, n)
	var apart int32
	var dones []func() bool
	errs := make([][]error, n)
	withAwait := r.P(60)
	cancelSome := r.P(40)
	mcs := make([]*manual, n)
	msgs := make([][]*message.Message, n)
	for i := range qs {
		mcs[i] = newManual()
		errs[i] = make([]error, g)
		msgs[i] = make([]*message.Message, g)
		for k := 0; k < g; k++ {
			errs[i][k] = fmt.Errorf("error %d of request %d", k, i)
			if k%2 == 0 {
				msgs[i][k] = c21Reply(qs[i].Identifier, 0, []byte(errs[i][k].Error()))
			}
		}
	}
	for k := 0; k < g; k++ {
		k := k
		dones = append(dones, Go(func() {
			for i := range qs {
				// all goroutines meet at each request
				atomic.AddInt32(&turn[i], 1)
				for s := 0; atomic.LoadInt32(&turn[i]) < int32(g) && atomic.LoadInt32(&apart) == 0; s++ {
					if s > 300 {
						runtime.Gosched()
					}
					if s > 200000 {
						atomic.StoreInt32(&apart, 1) // one of them is blocked
					}
				}
				if cancelSome && k == 0 && i%3 == 0 {
					mcs[i].end(context.Canceled)
				}
				if msgs[i][k] != nil {
					results[i].ok[k] = m.Fulfill(msgs[i][k])
				} else {
					results[i].ok[k] = m.Fail(qs[i].Identifier, errs[i][k])
				}
			}
		}))
	}
	if withAwait {
		for i := range qs {
			i := i
			dones = append(dones, Go(func() { outs[i] = c21Await(qs[i], mcs[i]) }))
		}
	}
	for _, d := range dones {
		if !Await(log, "end of competing attempts", d) {
			return
		}
	}
	Settle()
	for i := range qs {
		var won []int
		for k := 0; k < g; k++ {
			if results[i].ok[k] {
				won = append(won, k)
			}
		}
		could := cancelSome && i%3 == 0 && withAwait
		switch {
		case len(won) > 1:
			ctx.Violate("several-outcomes", nil, "%d of %d simultaneous attempts to resolve one request report success", len(won), g)
		case len(won) == 0 && !could:
			ctx.Violate("first-failed", nil, "none of %d simultaneous attempts to resolve a pending request succeeded", g)
		}
		if withAwait && len(won) <= 1 {
			o := outs[i]
			if _, c := o.err.(wwr.ErrCanceled); c {
				if !could {
					ctx.Violate("wrong-outcome", nil, "a caller whose context isn't over got %v", o.err)
				}
			} else if len(won) == 0 {
				ctx.Violate("outcome-without-success", nil, "a caller got (%v, %v) although no attempt succeeded", o.reply, o.err)
			} else if k := won[0]; msgs[i][k] != nil {
				if o.err != nil || string(o.payload) != errs[i][k].Error() {
					ctx.Violate("wrong-outcome", nil, "a caller got (%q, %v) instead of reply %d", o.payload, o.err, k)
				}
			} else if o.err != errs[i][k] {
				ctx.Violate("wrong-outcome", nil, "a caller got (%q, %v) instead of error %d", o.payload, o.err, k)
			}
		}
		if m.IsPending(qs[i].Identifier) {
			ctx.Violate("still-pending", nil, "a resolved request is still pending")
		}
	}
	if k := m.PendingRequests(); k != 0 {
		ctx.Violate("pending-count", nil, "%d requests are pending although all are resolved", k)
	}
	ctx.Count("attempts", int64(n*g))
	ctx.Eval(fmt.Sprintf("storm goroutines=%d requests=%d await=%v cancel=%v", g, n/20, withAwait, cancelSome))
}

// c21Deadline: real contexts
func c21Deadline(r *Rng) {
	m := rm.NewRequestManager()
	log := &EventLog{}
	q := m.Create()
	var c context.Context
	var cancel context.CancelFunc
	d := time.Duration(r.Range(0, 8000)) * time.Microsecond
	deadline := r.P(60)
	start := time.Now()
	if deadline {
		c, cancel = context.WithTimeout(context.Background(), d)
	} else {
		c, cancel = context.WithCancel(context.Background())
	}
	defer cancel()
	// keeps the process from looking idle while a timer is armed
	var stop int32
	alive := Go(func() {
		for i := 0; i < 30000 && atomic.LoadInt32(&stop) == 0; i++ {
			time.Sleep(time.Millisecond)
			if !deadline && time.Duration(i)*time.Millisecond > d {
				cancel()
			}
		}
	})
	var out *c21Out
	var took time.Duration
	done := Go(func() { out = c21Await(q, c); took = time.Since(start) })
	var ok bool
	var tried func() bool
	if r.P(40) {
		w := time.Duration(r.Range(0, 12000)) * time.Microsecond
		tried = Go(func() { time.Sleep(w); ok = m.Fail(q.Identifier, errNoSession) })
	}
	if !Await(log, "return of AwaitReply", done) || (tried != nil && !Await(log, "return of an attempt", tried)) {
		atomic.StoreInt32(&stop, 1)
		return
	}
	atomic.StoreInt32(&stop, 1)
	Await(log, "end of the timer", alive)
	Settle()
	if !classified(out.err) {
		ctx.Violate("wrong-context-error", nil, "IsErrTimeout and IsErrCanceled tell %v and %v for %T", wwr.IsErrTimeout(out.err), wwr.IsErrCanceled(out.err), out.err)
	}
	switch e := out.err.(type) {
	case wwr.ErrDeadlineExceeded:
		if !deadline {
			ctx.Violate("wrong-context-error", nil, "the cancelation of a context is reported as %v", e)
		} else if took < d {
			ctx.Violate("early-deadline", nil, "AwaitReply returned %v after %v, before the deadline of %v", e, took, d)
		}
	case wwr.ErrCanceled:
		if deadline {
			ctx.Violate("wrong-context-error", nil, "the deadline of a context is reported as %v", e)
		}
	default:
		if !ok || out.err != errNoSession {
			ctx.Violate("wrong-outcome", nil, "AwaitReply returned (%v, %v), attempt succeeded: %v", out.reply, out.err, ok)
		}
	}
	if m.IsPending(q.Identifier) || m.PendingRequests() != 0 {
		ctx.Violate("still-pending", nil, "a request is still pending after its caller got %v", out.err)
	}
	if m.Fail(q.Identifier, errNoSession) {
		ctx.Violate("late-success", nil, "an attempt after the caller got %v reports success", out.err)
	}
	ctx.Eval(fmt.Sprintf("deadline=%v tried=%v ok=%v", deadline, tried != nil, ok))
}

// classified tells whether the helpers of the API tell the kind of an error
// that awaiting a reply returned
func classified(err error) bool {
	timeout, canceled := false, false
	switch err.(type) {
	case wwr.ErrDeadlineExceeded, wwr.ErrTimeout:
		timeout = true
	case wwr.ErrCanceled:
		canceled = true
	}
	return wwr.IsErrTimeout(err) == timeout && wwr.IsErrCanceled(err) == canceled
}
