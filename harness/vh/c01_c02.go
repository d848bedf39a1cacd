package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C01 requests, C02 signals */

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

var encs = []wwr.PayloadEncoding{wwr.EncodingBinary, wwr.EncodingUtf8, wwr.EncodingUtf16}

const secret = "SECRET-CAUSE-TEXT"

// reqPlan is what was sent and what the handler will return
type reqPlan struct {
	client  int
	id      [8]byte
	name    []byte
	enc     int
	payload []byte

	kind    string
	out     wwr.Payload
	err     error
	want    *Ref
	pause   int
	signals int
	closes  bool // the handler closes the message itself
	echo    bool // the handler returns the payload of the message as it is

	mu    sync.Mutex
	calls int
	bad   string
}

// genNamePayload generates name and payload such that the message has at most
// max bytes, head is the length of its header without name
func genNamePayload(r *Rng, max, head, enc int) (name, payload []byte) {
	room := max - head
	nl := r.Pick(0, 0, 1, 2, 3, r.N(20), r.N(256), 255, 254)
	if nl > 255 {
		nl = 255
	}
	if nl > room {
		nl = r.N(room + 1)
	}
	pad := 0
	if enc == 2 && nl%2 != 0 {
		pad = 1
	}
	if nl+pad > room {
		nl--
		pad = 0
	}
	room -= nl + pad
	pl := r.Pick(0, 1, 2, r.N(16), r.N(room+1), room, room-1)
	if pl > room {
		pl = room
	}
	if pl < 0 {
		pl = 0
	}
	if enc == 2 {
		pl &^= 1
	}
	if nl == 0 && pl == 0 {
		pl = 2
	}
	return r.Name(nl), r.Bytes(pl)
}

// genOutcome plans what the handler returns and the reply it must cause
func genOutcome(p *reqPlan, r *Rng, bufSize int) {
	internal := &Ref{Type: tReplyInternal, HasID: true, ID: p.id}
	payload := func(enc, n int) {
		p.out = wwr.Payload{Encoding: encs[enc], Data: r.Bytes(n)}
		p.want = &Ref{Type: tReplyBin + byte(enc), HasID: true, ID: p.id, Enc: enc, Payload: p.out.Data}
	}
	head := func(enc int) int {
		if enc == 2 {
			return 10
		}
		return 9
	}
	reqErr := func(code, msg string) {
		e := wwr.ErrRequest{Code: code, Message: msg}
		if r.P(50) {
			p.err = e
		} else {
			p.err = &e
		}
		p.want = &Ref{Type: tReplyError, HasID: true, ID: p.id, Enc: 1, Name: []byte(code), Payload: []byte(msg)}
	}
	enc := r.N(3)
	even := func(n int) int {
		if enc == 2 {
			return n &^ 1
		}
		return n
	}
	switch k := r.N(21); k {
	case 0, 1, 2:
		p.kind = "payload"
		n := even(r.N(bufSize - head(enc) + 1))
		payload(enc, n)
	case 3:
		p.kind = "small payload"
		payload(enc, even(r.N(6)))
	case 4:
		p.kind = "empty payload"
		payload(enc, 0)
		if r.P(50) {
			p.out.Data = nil
		}
	case 5, 6:
		p.kind = "exactly fitting payload"
		payload(enc, even(bufSize-head(enc)))
	case 7:
		p.kind = "too large payload"
		n := even(bufSize - head(enc) + 2 + r.Pick(0, 0, 2, 10, 5000))
		if enc != 2 {
			n = bufSize - head(enc) + 1 + r.Pick(0, 0, 1, 10, 5000)
		}
		payload(enc, n)
		p.want = internal
	case 8:
		p.kind = "odd UTF16"
		enc = 2
		payload(2, 2*r.N((bufSize-10)/2)+1)
		p.want = internal
	case 9, 10:
		p.kind = "request error"
		n := r.Pick(1, 2, r.Range(1, 254), 255)
		if 10+n > bufSize-1 {
			n = r.Range(1, bufSize-11)
		}
		m := r.Pick(0, 1, r.N(bufSize-10-n+1), bufSize-10-n)
		if m > bufSize-10-n {
			m = bufSize - 10 - n
		}
		if r.P(30) {
			reqErr(string(r.Name(n)), string(r.Bytes(m)))
		} else {
			reqErr(string(r.Name(n)), string(r.Name(m)))
		}
	case 11:
		p.kind = "request error too large"
		n := r.Range(1, 60)
		reqErr(string(r.Name(n)), secret+strings.Repeat("x", bufSize+r.N(10)))
		p.want = internal
	case 12:
		p.kind = "request error just too large"
		n := r.Range(1, 10)
		reqErr(string(r.Name(n)), string(r.Name(bufSize-10-n+1)))
		p.want = internal
	case 13:
		p.kind = "request error without code"
		reqErr("", secret)
		p.want = internal
	case 14:
		p.kind = "request error with too long code"
		reqErr(string(r.Name(r.Pick(256, 257, 300, 512, 513, 600))), secret)
		p.want = internal
	case 15:
		p.kind = "request error with non-printable code"
		code := r.Name(r.Range(1, 10))
		code[r.N(len(code))] = byte(r.Pick(0, 1, 10, 31, 127, 128, 200, 255))
		reqErr(string(code), secret)
		p.want = internal
	case 16, 17:
		p.kind = "error"
		p.err = errors.New(secret)
		p.want = internal
	case 18:
		p.kind = "foreign error type"
		inner := wwr.ErrRequest{Code: "INNER", Message: secret}
		p.err = []error{
			fmt.Errorf("wrapped: %w", inner), wwr.ErrInternal{}, wwr.ErrSessionNotFound{},
			wwr.ErrMaxSessConnsReached{}, wwr.ErrServerShutdown{}, wwr.ErrSessionsDisabled{},
			wwr.ErrDisconnected{Cause: errors.New(secret)}, wwr.ErrBufferOverflow{},
			wwr.ErrProtocol{Cause: errors.New(secret)},
		}[r.N(9)]
		p.want = internal
	case 20:
		p.kind = "echo"
		p.echo = true
		p.out = wwr.Payload{Encoding: encs[p.enc]}
		p.want = &Ref{Type: tReplyBin + byte(p.enc), HasID: true, ID: p.id, Enc: p.enc, Payload: p.payload}
	case 19:
		p.kind = "payload and error"
		if r.P(50) {
			reqErr("CODE", "message")
			p.out = wwr.Payload{Encoding: encs[enc], Data: r.Bytes(even(r.N(20)))}
		} else {
			p.out = wwr.Payload{Encoding: encs[enc], Data: []byte(secret)}
			p.err = errors.New(secret)
			p.want = internal
		}
	}
	if p.want != nil && p.want.Type == tReplyInternal {
		p.kind += " (internal)"
	}
}

func (p *reqPlan) String() string {
	return fmt.Sprintf("conn %d id=%x name=%q enc=%d payload=%d bytes, outcome: %s", p.client, p.id, p.name, p.enc, len(p.payload), p.kind)
}

func diffMsg(m wwr.Message, id *[8]byte, name []byte, enc int, payload []byte) string {
	if id != nil && m.Identifier() != *id {
		return fmt.Sprintf("identifier %x instead of %x", m.Identifier(), *id)
	}
	if !bytes.Equal(m.Name(), name) {
		return fmt.Sprintf("name %q instead of %q", m.Name(), name)
	}
	if m.PayloadEncoding() != encs[enc] {
		return fmt.Sprintf("encoding %v instead of %v", m.PayloadEncoding(), encs[enc])
	}
	if !bytes.Equal(m.Payload(), payload) {
		return fmt.Sprintf("payload (%d bytes) %.60q instead of (%d bytes) %.60q", len(m.Payload()), m.Payload(), len(payload), payload)
	}
	return ""
}

func doPause(n int) {
	switch {
	case n == 0:
	case n < 8:
		for i := 0; i < n*3; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(n) * 20 * time.Microsecond)
	}
}

func checkC01(c *Ctx) {
	c.Cases("requests", c.Scale(1500, 60000), c01Case)
	c.Cases("series", c.Scale(24, 1500), longSeries)
	c.Cases("large", c.Scale(24, 800), func(i int, r *Rng) { c01Run(r, largeBuf(r)) })
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C01", r) })
}

func c01Case(i int, r *Rng) { c01Run(r, r.Pick(32, 48, 64, 100, 128, 256, 300, 512, 1024, 4096, 8192)) }

// largeBuf returns a buffer size around and over the limits of 16 bit numbers
func largeBuf(r *Rng) int {
	return r.Pick(32767, 32768, 65535, 65536, 65537, 65545, 65546, 65547, 66000, 70000, 131072+r.N(20))
}

func c01Run(r *Rng, bufSize int) {
	limit := r.Pick(-1, 0, 1, 2, 3, 8)
	memch := r.P(50)
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)

	var mu sync.Mutex
	plans := map[[8]byte]*reqPlan{}
	var unknown []string
	var sigWant = map[int]int{}
	impl := &Impl{}
	var env *Env
	impl.Request = func(con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		mu.Lock()
		p := plans[m.Identifier()]
		if p == nil {
			unknown = append(unknown, fmt.Sprintf("identifier=%x name=%q payload=%.40q", m.Identifier(), m.Name(), m.Payload()))
		}
		mu.Unlock()
		if p == nil {
			return wwr.Payload{}, errors.New("unknown")
		}
		env.Log.Add("conn %v: handler entered for %x (%s)", con.Info(0), p.id, p.kind)
		d := diffMsg(m, &p.id, p.name, p.enc, p.payload)
		if d == "" && con.Info(0) != p.client {
			d = fmt.Sprintf("handled with connection %v instead of %d", con.Info(0), p.client)
		}
		p.mu.Lock()
		p.calls++
		if d != "" && p.bad == "" {
			p.bad = d
		}
		p.mu.Unlock()
		doPause(p.pause)
		for k := 0; k < p.signals; k++ {
			if err := con.Signal([]byte("s"), wwr.Payload{Data: p.id[:]}); err != nil {
				env.Log.Add("conn %v: signal failed: %v", con.Info(0), err)
			} else {
				mu.Lock()
				sigWant[p.client]++
				mu.Unlock()
			}
		}
		out := p.out
		if p.echo {
			out.Data = m.Payload()
		}
		if p.closes {
			m.Close()
		}
		return out, p.err
	}
	var sigGot int
	impl.Signal = func(wwr.Connection, wwr.Message) {
		mu.Lock()
		sigGot++
		mu.Unlock()
	}
	env = NewEnv(EnvOpts{Memchan: memch, Fragment: r.P(50), BufSize: uint32(bufSize), Impl: impl, Sessions: r.P(30), SM: NewMemSM()})
	nc := r.Range(1, 3)
	var clients []*Client
	for k := 0; k < nc; k++ {
		cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		if cl == nil {
			return
		}
		clients = append(clients, cl)
	}
	n := r.Pick(1, 3, 10, 25, 40)
	type batch struct {
		cl *Client
		p  *reqPlan
		s  []byte
	}
	var todo []batch
	sigSent := 0
	var previous *reqPlan
	for k := 0; k < n; k++ {
		cl := clients[r.N(nc)]
		if r.P(15) {
			todo = append(todo, batch{cl: cl, s: encSignal([]byte("x"), 0, r.Bytes(r.N(20)))})
			sigSent++
			continue
		}
		if r.P(8) {
			todo = append(todo, batch{cl: cl, s: encHeartbeat()})
			continue
		}
		p := &reqPlan{client: cl.id, enc: r.N(3)}
		for {
			copy(p.id[:], r.Bytes(8))
			switch r.N(12) {
			case 0:
				p.id = [8]byte{}
			case 1:
				p.id = idOf(uint64(r.N(50)))
			case 2:
				p.id = [8]byte{255, 255, 255, 255, 255, 255, 255, 255}
			case 3:
				p.id = [8]byte{byte(r.N(250))}
			}
			if plans[p.id] == nil {
				break
			}
		}
		p.name, p.payload = genNamePayload(r, bufSize, 10, p.enc)
		if previous != nil && r.P(15) {
			// the same request, possibly of another client
			p.name, p.payload, p.enc = previous.name, previous.payload, previous.enc
		}
		previous = p
		genOutcome(p, r, bufSize)
		p.pause = r.Pick(0, 0, 0, 1, 5, 10)
		if r.P(20) {
			p.signals = r.Range(1, 3)
		}
		p.closes = r.P(10)
		plans[p.id] = p
		todo = append(todo, batch{cl: cl, p: p})
	}
	pipelined := r.P(70)
	for _, b := range todo {
		if b.p == nil {
			b.cl.Send(b.s)
			continue
		}
		b.cl.Send(encRequest(b.p.id, b.p.name, b.p.enc, b.p.payload))
		if !pipelined {
			if b.cl.AwaitReply(b.p.id) == nil {
				return
			}
		}
	}
	if !Settle() {
		return
	}
	mu.Lock()
	unk, sg, sw := unknown, sigGot, map[int]int{}
	for k, v := range sigWant {
		sw[k] = v
	}
	mu.Unlock()
	if len(unk) > 0 {
		ctx.Violate("unknown-request-handled", env.Log.Dump(), "the handler was invoked for something that was not sent: %s", unk[0])
	}
	for _, p := range plans {
		ctx.Eval(fmt.Sprintf("%v/%d/%s/%d/%d/%d", memch, limit, p.kind, p.enc, sizeClass(len(p.name)), sizeClass(len(p.payload))))
		p.mu.Lock()
		if p.calls != 1 {
			ctx.Violate(fmt.Sprintf("handled-%s", times(p.calls)), witnessWithStacks(env.Log), "request handled %d times (limit %d, buffer %d, memchan %v): %v", p.calls, limit, bufSize, memch, p)
		}
		if p.bad != "" {
			ctx.Violate("wrong-fields", env.Log.Dump(), "the handler saw %s: %v", p.bad, p)
		}
		p.mu.Unlock()
		rs := clients[p.client].ReplyTo(p.id)
		if len(rs) != 1 {
			ctx.Violate(fmt.Sprintf("answered-%s:%s", times(len(rs)), p.kind), witnessWithStacks(env.Log), "request answered %d times (limit %d, buffer %d, memchan %v): %v", len(rs), limit, bufSize, memch, p)
			continue
		}
		got := rs[0]
		if !sameRef(got.Ref, p.want) {
			ctx.Violate("wrong-reply:"+p.kind, env.Log.Dump(), "reply %v instead of %v (buffer %d, memchan %v): %v", got.Ref, p.want, bufSize, memch, p)
		}
		if p.want.Type == tReplyInternal && len(got.Raw) != 9 {
			ctx.Violate("internal-error-with-content", env.Log.Dump(), "internal error reply carries %q", got.Raw[9:])
		}
	}
	// nothing else was sent
	if sg != sigSent {
		ctx.Violate("signals", env.Log.Dump(), "%d signals sent, %d handled", sigSent, sg)
	}
	for k, cl := range clients {
		want := 1 + sw[cl.id]
		for _, p := range plans {
			if p.client == cl.id {
				want++
			}
		}
		if got := cl.NumReceived(); got != want {
			ctx.Violate("extra-messages", env.Log.Dump(), "connection %d received %d messages instead of %d", k, got, want)
		}
		// still usable
		if cl.ServerClosed() {
			ctx.Violate("closed", env.Log.Dump(), "the server closed a connection that sent only well-formed requests")
			return
		}
		p := &reqPlan{client: cl.id, name: []byte("probe"), payload: []byte{}, kind: "probe"}
		p.id = idOf(0xF0F0F0F0F0F00000 + uint64(k))
		p.out = wwr.Payload{Data: []byte{1, 2, 3}}
		mu.Lock()
		plans[p.id] = p
		mu.Unlock()
		cl.Send(encRequest(p.id, p.name, 0, nil))
		rep := cl.AwaitReply(p.id)
		if rep == nil {
			return
		}
		if rep.Type != tReplyBin || !bytes.Equal(rep.Payload, p.out.Data) {
			ctx.Violate("probe", env.Log.Dump(), "a later request was answered by %v", rep)
		}
	}
	if len(plans) > 3 {
		ctx.Sample("memchan=%v buffer=%d limit=%d connections=%d: %d requests, e.g. %v -> %v", memch, bufSize, limit, nc, len(plans), firstPlan(plans), firstPlan(plans).want)
	}
	ctx.Count("requests", int64(len(plans)))
	env.Shutdown()
}

func firstPlan(m map[[8]byte]*reqPlan) *reqPlan {
	var best *reqPlan
	for _, p := range m {
		if best == nil || bytes.Compare(p.id[:], best.id[:]) < 0 {
			best = p
		}
	}
	if best.want == nil {
		best.want = &Ref{}
	}
	return best
}

func times(n int) string {
	switch n {
	case 0:
		return "never"
	case 1:
		return "once"
	}
	return "repeatedly"
}

func sizeClass(n int) int {
	switch {
	case n < 4:
		return n
	case n < 16:
		return 4
	case n < 64:
		return 5
	case n < 255:
		return 6
	case n == 255:
		return 7
	case n < 1024:
		return 8
	}
	if n >= 65536 {
		return 10
	}
	return 9
}

/* C02 */

type sigRec struct {
	client  int
	name    string
	enc     int
	payload string
}

func (s sigRec) String() string {
	return fmt.Sprintf("conn %d name=%.30q(%d) enc=%d payload=%.40q(%d)", s.client, s.name, len(s.name), s.enc, s.payload, len(s.payload))
}

func refSig(client int, m *Ref) sigRec {
	return sigRec{client, string(m.Name), m.Enc, string(m.Payload)}
}

// genOutSignal generates arguments of a server side signal call. It tells
// whether the call must succeed or must fail (neither: both are fine)
func genOutSignal(r *Rng, max int) (name []byte, pl wwr.Payload, mustOK, mustFail bool, kind string) {
	enc := r.N(3)
	name, data := genNamePayload(r, max, 2, enc)
	pl = wwr.Payload{Encoding: encs[enc], Data: data}
	pad := 0
	if enc == 2 && len(name)%2 != 0 {
		pad = 1
	}
	switch r.N(12) {
	case 0:
		return nil, wwr.Payload{Encoding: encs[enc]}, false, true, "empty"
	case 1:
		kind = "name too long"
		return r.Name(r.Pick(256, 257, 300, 512, 600)), pl, false, true, kind
	case 2:
		if len(name) > 0 {
			if r.P(50) {
				name[r.N(len(name))] = byte(r.Range(128, 255))
				return name, pl, false, true, "name not in ASCII"
			}
			name[r.N(len(name))] = byte(r.Pick(0, 10, 31, 127))
			return name, pl, false, false, "non-printable name"
		}
	case 3:
		pl.Encoding = wwr.EncodingUtf16
		pl.Data = r.Bytes(2*r.N(max/2) + 1)
		return name, pl, false, true, "odd UTF16"
	case 4:
		over := max - 2 - len(name) - pad + 1 + r.Pick(0, 0, 0, 1, 7, 4000)
		if enc == 2 && over%2 != 0 {
			over++
		}
		pl.Data = r.Bytes(over)
		return name, pl, false, true, "too large"
	case 5, 6:
		fit := max - 2 - len(name) - pad
		if enc == 2 {
			fit &^= 1
		}
		pl.Data = r.Bytes(fit)
		if len(name) == 0 && fit == 0 {
			return nil, pl, false, true, "empty"
		}
		return name, pl, true, false, "exactly fitting"
	}
	return name, pl, true, false, "regular"
}

func checkC02(c *Ctx) {
	c.Cases("signals", c.Scale(1500, 60000), c02Case)
	c.Cases("series", c.Scale(16, 1500), longSeries)
	c.Cases("large", c.Scale(24, 800), func(i int, r *Rng) { c02Run(r, largeBuf(r)) })
	c.Cases("servers", c.Scale(160, 6400), func(i int, r *Rng) { severalServers("C02", r) })
}

func c02Case(i int, r *Rng) { c02Run(r, r.Pick(32, 33, 48, 64, 128, 256, 300, 512, 1024, 4096)) }

func c02Run(r *Rng, bufSize int) {
	limit := r.Pick(-1, 0, 1, 2, 3, 8)
	memch := r.P(50)
	if r.P(60) {
		SetDelays(r.U64() | 1)
	} else {
		SetDelays(0)
	}
	defer SetDelays(0)
	var mu sync.Mutex
	got := map[sigRec]int{}
	sent := map[sigRec]int{}
	var env *Env
	impl := &Impl{}
	pauseSeed := r.U64()
	impl.Signal = func(con wwr.Connection, m wwr.Message) {
		e := 0
		for k, v := range encs {
			if v == m.PayloadEncoding() {
				e = k
			}
		}
		s := sigRec{con.Info(0).(int), string(m.Name()), e, string(m.Payload())}
		env.Log.Add("signal handler: %v", s)
		mu.Lock()
		got[s]++
		mu.Unlock()
		doPause(int(mix(pauseSeed^uint64(len(s.payload))) % 9))
		if mix(pauseSeed^uint64(len(s.payload)))>>20%10 == 0 {
			m.Close() // allowed, the handler is done with it
		}
	}
	impl.Request = func(con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{Data: append([]byte{}, m.Payload()...)}, nil
	}
	env = NewEnv(EnvOpts{Memchan: memch, Fragment: r.P(50), BufSize: uint32(bufSize), Impl: impl})
	nc := r.Range(1, 3)
	var clients []*Client
	for k := 0; k < nc; k++ {
		cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: limit})
		if cl == nil {
			return
		}
		clients = append(clients, cl)
	}
	// server to client signals by several goroutines
	outWant := map[sigRec]int{} // accepted
	var outViol []string
	var wg sync.WaitGroup
	nOut, nFail := 0, 0
	gor := r.Range(0, 4)
	for g := 0; g < gor; g++ {
		gr := r.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			var last func() ([]byte, wwr.Payload, bool, bool, string)
			for k := gr.Range(1, 12); k > 0; k-- {
				cl := clients[gr.N(nc)]
				name, pl, mustOK, mustFail, kind := genOutSignal(gr, bufSize)
				if last != nil && gr.P(20) {
					// the same signal again
					name, pl, mustOK, mustFail, kind = last()
				} else {
					n2, d2, p2 := append([]byte(nil), name...), append([]byte(nil), pl.Data...), pl
					last = func() ([]byte, wwr.Payload, bool, bool, string) {
						p2.Data = append([]byte(nil), d2...)
						return n2, p2, mustOK, mustFail, "again: " + kind
					}
				}
				enc := int(pl.Encoding)
				s := sigRec{cl.id, string(name), enc, string(pl.Data)}
				env.Log.Add("calling Signal (%s): %v", kind, s)
				err := cl.Conn().Signal(name, pl)
				env.Log.Add("Signal returned %v: %v", err, s)
				// the arguments belong to the caller again
				for x := range pl.Data {
					pl.Data[x] ^= 0x55
				}
				mu.Lock()
				ctx.Eval(fmt.Sprintf("out/%v/%s/%d/%d/%d", memch, kind, enc, sizeClass(len(name)), sizeClass(len(pl.Data))))
				nOut++
				if err == nil {
					outWant[s]++
					if mustFail {
						outViol = append(outViol, fmt.Sprintf("accepted although invalid (%s): %v", kind, s))
					}
				} else {
					nFail++
					if mustOK {
						outViol = append(outViol, fmt.Sprintf("refused although valid (%s): %v: %v", kind, err, s))
					}
				}
				mu.Unlock()
				doPause(gr.N(9))
			}
		}()
	}
	// client to server signals
	type pr struct {
		cl  *Client
		id  [8]byte
		pay []byte
	}
	var reqs []pr
	nIn := 0
	var previous []byte
	var previousSig sigRec
	for k := r.Pick(0, 3, 10, 30); k > 0; k-- {
		cl := clients[r.N(nc)]
		if previous != nil && r.P(20) {
			// the same signal, possibly of another client
			s := previousSig
			if r.P(70) {
				cl = clients[s.client]
			}
			s.client = cl.id
			sent[s]++
			nIn++
			cl.Send(previous)
			continue
		}
		if r.P(20) {
			pay := r.Bytes(r.Range(1, 20))
			id := cl.Request(nil, 0, pay)
			reqs = append(reqs, pr{cl, id, pay})
			continue
		}
		if r.P(8) {
			cl.Send(encHeartbeat())
			continue
		}
		enc := r.N(3)
		name, payload := genNamePayload(r, bufSize, 2, enc)
		if len(name) > 0 && len(payload) == 0 && enc == 2 && len(name) < 2 {
			payload = []byte{1, 2}
		}
		s := sigRec{cl.id, string(name), enc, string(payload)}
		sent[s]++
		nIn++
		ctx.Eval(fmt.Sprintf("in/%v/%d/%d/%d/%d", memch, limit, enc, sizeClass(len(name)), sizeClass(len(payload))))
		previous, previousSig = encSignal(name, enc, payload), s
		cl.Send(previous)
	}
	done := Go(wg.Wait)
	if !Await(env.Log, "return of all Signal calls", done) {
		return
	}
	if !Settle() {
		return
	}
	mu.Lock()
	for _, v := range outViol {
		ctx.Violate("signal-result", env.Log.Dump(), "%s (buffer %d)", v, bufSize)
		break
	}
	for s, n := range sent {
		if got[s] != n {
			ctx.Violate("incoming-"+times(got[s]), witnessWithStacks(env.Log), "signal sent %d times and handled %d times (limit %d, buffer %d): %v", n, got[s], limit, bufSize, s)
		}
	}
	for s, n := range got {
		if sent[s] == 0 {
			ctx.Violate("incoming-altered", env.Log.Dump(), "signal handled %d times that was never sent: %v", n, s)
		}
	}
	mu.Unlock()
	recvd := map[sigRec]int{}
	for _, cl := range clients {
		replies := 0
		for k, m := range cl.Received() {
			if m.Ref == nil {
				ctx.Violate("malformed", env.Log.Dump(), "the client received a malformed message %q", m.Raw)
				continue
			}
			switch {
			case k == 0 && m.Ref.Type == tAcceptConf:
			case m.Ref.Type >= tSignalBin && m.Ref.Type <= tSignalU16:
				recvd[refSig(cl.id, m.Ref)]++
			case isReplyType(m.Ref.Type):
				replies++
			default:
				ctx.Violate("unexpected", env.Log.Dump(), "the client received %v", m.Ref)
			}
		}
		want := 0
		for _, q := range reqs {
			if q.cl == cl {
				want++
				rs := cl.ReplyTo(q.id)
				if len(rs) != 1 || !bytes.Equal(rs[0].Ref.Payload, q.pay) {
					ctx.Violate("interleaved-request", env.Log.Dump(), "request between signals got %d replies", len(rs))
				}
			}
		}
		if replies != want {
			ctx.Violate("replies-to-signals", env.Log.Dump(), "%d replies for %d requests", replies, want)
		}
		if cl.ServerClosed() {
			ctx.Violate("closed", env.Log.Dump(), "the server closed a connection that sent only well-formed messages")
			return
		}
	}
	for s, n := range outWant {
		if recvd[s] != n {
			ctx.Violate("outgoing-"+times(recvd[s]), env.Log.Dump(), "signal accepted %d times and received %d times: %v", n, recvd[s], s)
		}
	}
	for s := range recvd {
		if outWant[s] == 0 {
			ctx.Violate("outgoing-unaccepted", env.Log.Dump(), "signal received that was not accepted: %v", s)
		}
	}
	// the connections remain usable in both directions
	for _, cl := range clients {
		id := cl.Request([]byte("probe"), 0, []byte("x"))
		if cl.AwaitReply(id) == nil {
			return
		}
		var err error
		ok := Go(func() { err = cl.Conn().Signal([]byte("probe"), wwr.Payload{}) })
		if !Await(env.Log, "return of a final Signal call", ok) {
			return
		}
		if err != nil {
			ctx.Violate("unusable", env.Log.Dump(), "final signal refused: %v", err)
		}
	}
	if nOut > 2 && nIn > 2 {
		ctx.Sample("memchan=%v buffer=%d limit=%d connections=%d: %d signals received, %d signal calls of which %d refused", memch, bufSize, limit, nc, nIn, nOut, nFail)
	}
	ctx.Count("signals_in", int64(nIn))
	ctx.Count("signal_calls", int64(nOut))
	ctx.Count("signal_calls_refused", int64(nFail))
	env.Shutdown()
}
