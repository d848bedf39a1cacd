package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"time"
	"unicode/utf16"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
)

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

/* ---------- C13 ---------- */

// recWriter records what is put on the wire by one writer
type recWriter struct {
	buf    []byte
	closed int
	late   bool // written to after it was closed
	writes int
	failAt int  // fails at this call of Write and all later ones (0: never)
	failCl bool // closing fails
	failed bool
}

func (w *recWriter) Write(p []byte) (int, error) {
	if w.closed > 0 {
		w.late = true
	}
	w.writes++
	if w.failAt > 0 && w.writes >= w.failAt {
		w.failed = true
		return 0, errWriter
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *recWriter) Close() error {
	w.closed++
	if w.failCl {
		w.failed = true
		return errWriter
	}
	return nil
}

var errWriter = errors.New("writer failed")

// c13Faults fails every single call of the writer: what couldn't be written
// must not be reported as accepted and the writer must be released
func c13Faults(desc, kind string, writes int, write func(w io.WriteCloser) error) {
	for n := 2; n <= 2*writes+3; n++ {
		k := n / 2
		w := &recWriter{failAt: k, failCl: n%2 == 0}
		if k > writes {
			w = &recWriter{failCl: n%2 == 0}
		}
		var err error
		var pan interface{}
		func() {
			defer func() { pan = recover() }()
			err = write(w)
		}()
		ctx.Count("writer_faults", 1)
		switch {
		case pan != nil:
			ctx.Violate("writer-panic:"+kind, nil, "%s: panicked after a failed write: %v", desc, pan)
		case w.failed && err == nil:
			ctx.Violate("failure-accepted:"+kind, nil, "%s: accepted although call %d of the writer failed (closing: %v)", desc, k, w.failCl)
		case w.closed != 1:
			ctx.Violate("writer-closed:"+kind, nil, "%s: writer closed %d times after call %d failed", desc, w.closed, k)
		case w.late:
			ctx.Violate("writer-late:"+kind, nil, "%s: data written after the writer was closed", desc)
		}
	}
}

// fromImpl converts a message parsed by the implementation
func fromImpl(m *message.Message) *Ref {
	r := &Ref{
		Type:    m.MsgType,
		ID:      m.MsgIdentifier,
		Name:    append([]byte(nil), m.MsgName...),
		Enc:     int(m.MsgPayload.Encoding),
		Payload: append([]byte(nil), m.MsgPayload.Data...),
		Major:   m.ServerConfiguration.MajorProtocolVersion,
		Minor:   m.ServerConfiguration.MinorProtocolVersion,
		Timeout: m.ServerConfiguration.ReadTimeout,
		BufSize: m.ServerConfiguration.MessageBufferSize,
		SubProto: append([]byte(nil),
			m.ServerConfiguration.SubProtocolName...),
	}
	switch r.Type {
	case tReqCloseSess, tReqRestoreSess, tRequestBin, tRequestU8, tRequestU16,
		tReplyBin, tReplyU8, tReplyU16, tReplyError, tReplyShutdown,
		tReplyInternal, tReplyNotFound, tReplyMaxConns, tReplyDisabled:
		r.HasID = true
	}
	if r.Type == tReplyError {
		// error messages are UTF8 by definition
		r.Enc = 1
	}
	return r
}

var c13NumFaults int

// c13Case writes one message and compares what comes out at the other end
func c13Case(
	desc string, valid bool, want *Ref, calc int,
	write func(w io.WriteCloser) error,
) {
	w := &recWriter{}
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		err = write(w)
	}()
	kind := typeName(want.Type)
	if pan != nil {
		ctx.Violate("writer-panic:"+kind, nil, "%s: writer panicked: %v", desc, pan)
		return
	}
	if w.closed != 1 {
		ctx.Violate("writer-closed:"+kind, nil, "%s: writer closed %d times (err %v)", desc, w.closed, err)
	}
	if w.late {
		ctx.Violate("writer-late:"+kind, nil, "%s: data written after the writer was closed", desc)
	}
	if !valid {
		ctx.Count("refused_inputs", 1)
		if err == nil {
			ctx.Violate("accepts-invalid:"+kind, nil, "%s: input outside of the format accepted, wrote %x", desc, clip(w.buf))
		}
		if len(w.buf) > 0 {
			ctx.Violate("refused-but-written:"+kind, nil, "%s: %d bytes written although refused (%v)", desc, len(w.buf), err)
		}
		if err != nil && pan == nil {
			// the writer cannot even be released properly
			w := &recWriter{failCl: true}
			func() {
				defer func() { pan = recover() }()
				err = write(w)
			}()
			if err == nil || pan != nil || w.closed != 1 || len(w.buf) > 0 {
				ctx.Violate("refusal-failing-writer:"+kind, nil, "%s: input outside of the format and a writer failing to close: error %v, panic %v, closed %d times, %d bytes written", desc, err, pan, w.closed, len(w.buf))
			}
		}
		return
	}
	ctx.Count("accepted_inputs", 1)
	if err != nil {
		ctx.Violate("refuses-valid:"+kind, nil, "%s: valid input refused: %v", desc, err)
		return
	}
	if calc >= 0 && calc != len(w.buf) {
		ctx.Violate("length:"+kind, nil, "%s: computed length %d, written %d", desc, calc, len(w.buf))
	}
	if c13NumFaults++; c13NumFaults%16 == 0 && want.Type != tAcceptConf {
		c13Faults(desc, kind, w.writes, write)
	}
	v, ref := refParse(w.buf)
	if v != vAccept || !sameRef(ref, want) {
		ctx.Violate("format:"+kind, nil, "%s: not the documented format: wrote %x, decoded %v, want %v", desc, clip(w.buf), ref, want)
		return
	}
	m := message.NewMessage(uint32(len(w.buf)))
	typeOK, perr := m.ReadBytes(w.buf)
	if !typeOK || perr != nil {
		ctx.Violate("not-parsed:"+kind, nil, "%s: written message rejected by the parser: %v (%x)", desc, perr, clip(w.buf))
		return
	}
	if got := fromImpl(m); !sameRef(got, want) {
		ctx.Violate("round-trip:"+kind, nil, "%s: parsed %v, want %v", desc, got, want)
	}
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func printable(b []byte) bool {
	for _, c := range b {
		if c < 32 || c > 126 {
			return false
		}
	}
	return true
}

func genName(r *Rng) []byte {
	n := r.Pick(0, 1, 2, 3, r.N(20), r.N(256), 253, 254, 255, 256, 257, 300, 511, 512, 65536)
	b := r.Name(n)
	if n > 0 && r.P(12) {
		b[r.N(n)] = []byte{0, 31, 127, 128, 255, byte(r.N(32)), byte(127 + r.N(129))}[r.N(7)]
	}
	if n > 0 && r.P(20) {
		b[r.N(n)] = byte(r.Pick(32, 126))
	}
	if n == 0 && r.P(50) {
		return nil
	}
	return b
}

func genPayload(r *Rng) []byte {
	n := r.Pick(0, 0, 1, 2, 3, 4, r.N(64), r.N(300), 255, 256, 257, 1023, 1024, r.N(5000))
	if r.N(300) == 0 {
		n = r.Pick(32767, 32768, 65520+r.N(32), 65534, 65535, 65536, 65537, 70000, 131072)
	}
	if n == 0 && r.P(50) {
		return nil
	}
	return r.Bytes(n)
}

func checkC13(c *Ctx) {
	c13One := func(r *Rng, kind int, name, payload []byte, enc int, safe bool) {
		id := idOf(r.U64())
		e := pld.Encoding(enc)
		u16bad := enc == 2 && len(payload)%2 != 0
		badName := len(name) > 255 || (safe && !printable(name))
		d := func(k string) string {
			return fmt.Sprintf("%s name=%d(%q) enc=%d payload=%d safe=%v", k, len(name), clip(name), enc, len(payload), safe)
		}
		cls := func(n int) int {
			switch {
			case n < 4:
				return n
			case n < 253:
				return 4 + n%2
			case n < 260:
				return n
			}
			return 1000 + n%2
		}
		sig := fmt.Sprintf("%d/%d/%d/%d/%v/%v", kind, cls(len(name)), cls(len(payload)), enc, safe, badName)
		ctx.Eval(sig)
		switch kind {
		case 0:
			w := &Ref{Type: tSignalBin + byte(enc), Name: name, Enc: enc, Payload: payload}
			valid := !badName && !u16bad && len(name)+len(payload) > 0
			ctx.Sample("%s -> valid=%v", d("signal"), valid)
			c13Case(d("signal"), valid, w, message.CalcMsgLenSignal(name, e, payload), func(wr io.WriteCloser) error {
				return message.WriteMsgSignal(wr, name, e, payload, safe)
			})
		case 1:
			w := &Ref{Type: tRequestBin + byte(enc), HasID: true, ID: id, Name: name, Enc: enc, Payload: payload}
			valid := !badName && !u16bad && len(name)+len(payload) > 0
			ctx.Sample("%s -> valid=%v", d("request"), valid)
			c13Case(d("request"), valid, w, message.CalcMsgLenRequest(name, e, payload), func(wr io.WriteCloser) error {
				return message.WriteMsgRequest(wr, id[:], name, e, payload, safe)
			})
		case 2:
			w := &Ref{Type: tReplyBin + byte(enc), HasID: true, ID: id, Enc: enc, Payload: payload}
			c13Case(d("reply"), !u16bad, w, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgReply(wr, id[:], e, payload)
			})
		case 3:
			w := &Ref{Type: tReplyError, HasID: true, ID: id, Name: name, Enc: 1, Payload: payload}
			c13Case(d("error reply"), !badName && len(name) > 0, w, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgReplyError(wr, id[:], name, payload, safe)
			})
		case 4:
			t := byte(r.N(256))
			valid := t >= 1 && t <= 5
			c13Case(fmt.Sprintf("special reply %d", t), valid, &Ref{Type: t, HasID: true, ID: id}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgSpecialRequestReply(wr, t, id[:])
			})
		case 5:
			if len(payload) == 0 {
				payload = []byte{0}
			}
			c13Case(d("session created"), true, &Ref{Type: tSessCreated, Payload: payload}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgNotifySessionCreated(wr, payload)
			})
		case 6:
			if len(payload) == 0 {
				payload = []byte{0}
			}
			c13Case(d("restore"), true, &Ref{Type: tReqRestoreSess, HasID: true, ID: id, Payload: payload}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgNamelessRequest(wr, message.MsgRequestRestoreSession, id[:], payload)
			})
		case 7:
			c13Case("close session", true, &Ref{Type: tReqCloseSess, HasID: true, ID: id}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgNamelessRequest(wr, message.MsgRequestCloseSession, id[:], nil)
			})
			c13Case("session closed", true, &Ref{Type: tSessClosed}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgNotifySessionClosed(wr)
			})
			c13Case("heartbeat", true, &Ref{Type: tHeartbeat}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgHeartbeat(wr)
			})
		case 8:
			ms := []int64{0, 1, 999, 1000, 60000, 4294967294, 4294967295, 4294967296, -1, -5, int64(r.U64() >> 32), int64(r.U64() >> 22)}[r.N(12)]
			size := uint32(r.U64())
			maj, min := byte(r.N(256)), byte(r.N(256))
			sub := payload
			valid := ms >= 0 && ms <= 4294967295
			c13Case(fmt.Sprintf("conf ms=%d size=%d sub=%d", ms, size, len(sub)), valid,
				&Ref{Type: tAcceptConf, Major: maj, Minor: min, Timeout: time.Duration(ms) * time.Millisecond, BufSize: size, SubProto: sub}, -1,
				func(wr io.WriteCloser) error {
					b, err := message.NewAcceptConfMessage(message.ServerConfiguration{
						MajorProtocolVersion: maj, MinorProtocolVersion: min,
						ReadTimeout: time.Duration(ms) * time.Millisecond, MessageBufferSize: size, SubProtocolName: sub,
					})
					if err == nil {
						wr.Write(b)
					}
					wr.Close()
					return err
				})
		}
	}

	// all name lengths with and without payload, all encodings
	c.Cases("grid", 600, func(n int, r *Rng) {
		for enc := 0; enc < 3; enc++ {
			for _, pl := range []int{0, 1, 2, 3, 4, 5, 255, 256} {
				for _, kind := range []int{0, 1, 3} {
					c13One(r, kind, r.Name(n), r.Bytes(pl), enc, r.P(50))
				}
			}
		}
	})
	// every character at every kind of position
	c.Cases("chars", 256, func(ch int, r *Rng) {
		for _, n := range []int{1, 2, 3, 254, 255} {
			for _, pos := range []int{0, n / 2, n - 1} {
				name := r.Name(n)
				name[pos] = byte(ch)
				for _, kind := range []int{0, 1, 3} {
					c13One(r, kind, name, r.Bytes(2), r.N(3), true)
					c13One(r, kind, name, r.Bytes(2), r.N(3), false)
				}
			}
		}
		for _, kind := range []int{4} {
			id := idOf(r.U64())
			t := byte(ch)
			c13Case(fmt.Sprintf("special reply %d", t), t >= 1 && t <= 5, &Ref{Type: t, HasID: true, ID: id}, -1, func(wr io.WriteCloser) error {
				return message.WriteMsgSpecialRequestReply(wr, t, id[:])
			})
			_ = kind
		}
	})
	c.Cases("random", c.Scale(800, 40000), func(i int, r *Rng) {
		for k := 0; k < 60; k++ {
			c13One(r, r.N(9), genName(r), genPayload(r), r.N(3), r.P(60))
		}
	})
}

/* ---------- C14 ---------- */

var errReader = errors.New("reader failed")

// chunkReader fragments data in different styles
type chunkReader struct {
	data    []byte
	r       *Rng
	style   int
	failAt  int // fail with an error instead of delivering this byte (-1: never)
	pos     int
	zeros   int
	scratch bool // uses the rest of the buffer as scratch space
	empty   int  // consecutive reads into an empty buffer
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.failAt >= 0 && c.pos >= c.failAt {
		return 0, errReader
	}
	rest := len(c.data) - c.pos
	if rest == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		// returning at once is correct, but nothing will ever change
		if c.empty++; c.empty == 100000 {
			ctx.Violate("endless-read", nil, "%d of %d bytes were read, the rest is read into an empty buffer over and over again", c.pos, len(c.data))
		}
		if c.empty >= 100000 {
			return 0, errReader
		}
		return 0, nil
	}
	c.empty = 0
	n := rest
	switch c.style % 5 {
	case 0: // everything
	case 1: // single bytes
		n = 1
	case 2: // random chunks
		n = 1 + c.r.N(rest)
	case 3: // random chunks and occasional empty reads
		if c.zeros < 3 && c.r.P(40) {
			c.zeros++
			return 0, nil
		}
		c.zeros = 0
		n = 1 + c.r.N(rest)
	case 4: // random chunks with scratch space
		n = 1 + c.r.N(rest)
		for i := range p {
			p[i] = 0xEE
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if c.failAt >= 0 && c.pos+n > c.failAt {
		n = c.failAt - c.pos
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.style >= 5 && c.pos == len(c.data) && c.failAt < 0 {
		return n, io.EOF // data together with EOF
	}
	return n, nil
}

// c14Judge compares one parser outcome with the reference
func c14Judge(how string, in []byte, size int, m *message.Message, typeOK bool, err error) {
	v, want := refParse(in)
	if len(in) > size {
		v = vReject
	}
	ok := typeOK && err == nil
	tn := "empty"
	if len(in) > 0 {
		tn = typeName(in[0])
	}
	switch v {
	case vReject:
		if ok {
			ctx.Violate("accepts-malformed:"+tn, nil, "%s: accepted %d bytes %x (buffer %d): %v", how, len(in), clip(in), size, fromImpl(m))
		}
		return
	case vAccept:
		if !ok {
			ctx.Violate("rejects-valid:"+tn, nil, "%s: rejected %d bytes %x (buffer %d): %v", how, len(in), clip(in), size, err)
			return
		}
	case vEither:
		if !ok {
			return
		}
	}
	if got := fromImpl(m); !sameRef(got, want) {
		ctx.Violate("wrong-fields:"+tn, nil, "%s: input %x: got %v want %v", how, clip(in), got, want)
	}
	if want.HasID && !bytes.Equal(m.MsgIdentifierBytes, want.ID[:]) {
		ctx.Violate("wrong-ident:"+tn, nil, "%s: input %x: identifier bytes %x", how, clip(in), m.MsgIdentifierBytes)
	}
	if !bytes.Equal(m.MsgBuffer.Data(), in) {
		ctx.Violate("wrong-data:"+tn, nil, "%s: message data isn't the input", how)
	}
}

func guardPanic(what string, fn func()) {
	defer func() {
		if p := recover(); p != nil {
			ctx.Violate("parser-panic", nil, "%s: panic: %v", what, p)
		}
	}()
	fn()
}

func genWire(r *Rng) []byte {
	id := idOf(r.U64())
	name := r.Name(r.Pick(0, 1, 2, 3, 4, r.N(40), r.N(256), 254, 255))
	pl := r.Bytes(r.Pick(0, 1, 2, 3, 4, r.N(60), r.N(400)))
	var b []byte
	switch r.N(10) {
	case 0, 1:
		b = encSignal(name, r.N(3), pl)
	case 2, 3:
		b = encRequest(id, name, r.N(3), pl)
	case 4:
		b = encReply(id, r.N(3), pl)
	case 5:
		b = encErrorReply(id, name, pl)
	case 6:
		b = encConf(byte(r.N(256)), byte(r.N(256)), uint32(r.U64()), uint32(r.U64()), pl)
	case 7:
		b = append([]byte{allTypes[r.N(len(allTypes))]}, r.Bytes(r.N(30))...)
	case 8:
		b = append([]byte{allTypes[r.N(len(allTypes))]}, id[:]...)
		if r.P(30) {
			b = append(b, pl...)
		}
	case 9:
		b = r.Bytes(r.N(40))
	}
	// mutations
	for r.P(40) && len(b) > 0 {
		switch r.N(6) {
		case 0:
			b = b[:r.N(len(b)+1)]
		case 1:
			b = append(b, r.Bytes(1+r.N(3))...)
		case 2:
			b[r.N(len(b))] = byte(r.N(256))
		case 3:
			if len(b) > 9 {
				b[9] = byte(r.N(256))
			}
		case 4:
			if len(b) > 1 {
				b[1] = byte(r.N(256))
			}
		case 5:
			b = b[:len(b)-1]
		}
	}
	return b
}

func checkC14(c *Ctx) {
	one := func(m *message.Message, size int, in []byte, how string) {
		guardPanic(fmt.Sprintf("%s %x", how, clip(in)), func() {
			cp := append([]byte(nil), in...)
			ok, err := m.ReadBytes(cp)
			// the message must not depend on the caller's slice
			for i := range cp {
				cp[i] ^= 0xFF
			}
			c14Judge(how, in, size, m, ok, err)
		})
	}

	// all sequences of up to two bytes, three byte sequences of known types
	c.Cases("short", 257, func(a int, r *Rng) {
		m := message.NewMessage(64)
		if a == 256 {
			one(m, 64, nil, "empty")
			return
		}
		one(m, 64, []byte{byte(a)}, "short")
		for b := 0; b < 256; b++ {
			one(m, 64, []byte{byte(a), byte(b)}, "short")
			for _, d := range []int{0, 1, 2, 255, r.N(256)} {
				one(m, 64, []byte{byte(a), byte(b), byte(d)}, "short")
				one(m, 64, []byte{byte(a), byte(b), byte(d), 7}, "short")
				one(m, 64, []byte{byte(a), byte(b), byte(d), 7, 9}, "short")
			}
			ctx.Eval(fmt.Sprintf("short/%d/%d", a, b))
		}
		ctx.Count("parses", 1+256*16)
	})
	// all types x lengths x length flags
	c.Cases("lengths", 300, func(n int, r *Rng) {
		m := message.NewMessage(310)
		for _, t := range allTypes {
			for _, flag := range []int{0, 1, 2, 3, n - 13, n - 12, n - 11, n - 10, n - 9, n - 5, n - 4, n - 3, n - 2, n - 1, n, 254, 255, r.N(256)} {
				if flag < 0 || flag > 255 {
					continue
				}
				b := r.Bytes(n)
				if n > 0 {
					b[0] = t
				}
				if n > 9 && !(t >= tSignalBin && t <= tSignalU16) {
					b[9] = byte(flag)
				} else if n > 1 && t >= tSignalBin && t <= tSignalU16 {
					b[1] = byte(flag)
				}
				one(m, 310, b, "lengths")
				ctx.Eval(fmt.Sprintf("len/%d/%d/%d", t, n, flag))
				ctx.Count("parses", 1)
			}
		}
	})
	// messages longer than 16 bit numbers count
	c.Cases("large", c.Scale(160, 6000), func(i int, r *Rng) {
		size := largeBuf(r)
		m := message.NewMessage(uint32(size))
		for k := 0; k < 4; k++ {
			n := r.Pick(size, size-1, size+1, size-r.N(40), 65536, 65535, 65537, 65536+r.N(30), 65536-r.N(30), r.N(size))
			if n < 600 {
				n = 600
			}
			id := idOf(r.U64())
			name := r.Name(r.Pick(0, 1, 2, 3, 254, 255, r.N(256)))
			enc := r.N(3)
			var in []byte
			switch r.N(4) {
			case 0:
				in = encSignal(name, enc, nil)
			case 1:
				in = encRequest(id, name, enc, nil)
			case 2:
				in = encReply(id, enc, nil)
			case 3:
				in = encErrorReply(id, name, nil)
			}
			in = append(in, r.Bytes(n-len(in))...)
			how := fmt.Sprintf("large/%d/%d", i, k)
			if r.P(40) {
				one(m, size, in, how)
			} else {
				// not byte by byte
				cr := &chunkReader{data: in, r: r, style: r.N(10), failAt: -1}
				guardPanic(how, func() {
					ok, err := m.Read(cr)
					c14Judge(how, in, size, m, ok, err)
				})
			}
			v, _ := refParse(in)
			ctx.Eval(fmt.Sprintf("large/%d/%d/%d/%v", v, in[0], len(name), n > size))
			ctx.Count("parses", 1)
			ctx.Max("max_message_size", int64(n))
			if !m.MsgBuffer.IsEmpty() && r.P(50) {
				m = message.NewMessage(uint32(size))
			}
		}
	})
	pools := map[int]*message.SyncPool{}
	for _, s := range []int{32, 33, 64, 100, 333, 1024} {
		pools[s] = message.NewSyncPool(uint32(s), 4)
	}
	// histories of parses on pooled messages, fragmented in all styles
	c.Cases("histories", c.Scale(1500, 80000), func(i int, r *Rng) {
		size := r.Pick(32, 33, 64, 100, 333, 1024)
		m := pools[size].Get()
		sig := ""
		for k := 0; k < 24; k++ {
			in := genWire(r)
			if r.P(25) {
				// around the size of the buffer
				n := size + r.Pick(-2, -1, 0, 0, 1, 1, 2, 3, size, 3*size)
				for len(in) < n {
					in = append(in, r.Bytes(n-len(in))...)
				}
				in = in[:n]
			}
			mode := r.N(3)
			how := ""
			switch mode {
			case 0:
				how = fmt.Sprintf("history/%d/bytes/%d", i, k)
				one(m, size, in, how)
			default:
				cr := &chunkReader{data: in, r: r, style: r.N(10), failAt: -1}
				if r.P(8) {
					cr.failAt = r.N(len(in) + 1)
				}
				how = fmt.Sprintf("history/%d/reader-style-%d-failAt-%d/%d", i, cr.style, cr.failAt, k)
				guardPanic(how, func() {
					ok, err := m.Read(cr)
					if cr.failAt >= 0 {
						if ok && err == nil {
							ctx.Violate("reader-error-ignored", nil, "%s: reader failed at %d of %d, message accepted: %v", how, cr.failAt, len(in), fromImpl(m))
						}
						return
					}
					c14Judge(how, in, size, m, ok, err)
				})
				mode = 10 + cr.style
			}
			v, _ := refParse(in)
			tp := 0
			if len(in) > 0 {
				tp = int(in[0])
			}
			sig = fmt.Sprintf("h/%d/%d/%d/%d", mode, v, tp, len(in)-size)
			ctx.Eval(sig)
			if k == 0 {
				ctx.Sample("%s: %d bytes %x into a buffer of %d, reference verdict %d", how, len(in), clip(in), size, v)
			}
			ctx.Count("parses", 1)
			if r.P(70) {
				empty := m.MsgBuffer.IsEmpty()
				m.Close()
				if !empty {
					if !m.MsgBuffer.IsEmpty() || m.MsgType != 0 || len(m.MsgName) > 0 || len(m.MsgPayload.Data) > 0 || m.MsgIdentifier != [8]byte{} {
						ctx.Violate("close-keeps-fields", nil, "%s: closed message keeps fields", how)
					}
					m = pools[size].Get()
				}
			}
		}
	})
}

/* ---------- C15 ---------- */

func toLE(u []uint16) []byte {
	b := make([]byte, 0, 2*len(u))
	for _, x := range u {
		b = append(b, byte(x), byte(x>>8))
	}
	return b
}

func c15One(u []uint16, how string) {
	data := toLE(u)
	orig := append([]byte(nil), data...)
	want := string(utf16.Decode(u))
	p := pld.Payload{Encoding: pld.Utf16, Data: data}
	check := func(where string, got []byte, err error) {
		if err != nil {
			ctx.Violate("convert-error:"+where, nil, "%s: %x: %v", how, clip(data), err)
		} else if string(got) != want {
			ctx.Violate("convert:"+where, nil, "%s: units %.200x: got %.200q want %.200q", how, u, got, want)
		}
		if !bytes.Equal(data, orig) {
			ctx.Violate("payload-modified:"+where, nil, "%s: payload modified", how)
		}
	}
	got, err := p.Utf8()
	check("payload", got, err)
	if len(u) == 0 {
		return
	}
	m := message.NewMessage(uint32(len(data) + 64))
	for _, raw := range [][]byte{
		encSignal([]byte("n"), 2, data),
		encRequest(idOf(7), nil, 2, data),
		encReply(idOf(9), 2, data),
	} {
		if ok, err := m.ReadBytes(raw); !ok || err != nil {
			ctx.Violate("not-parsed", nil, "%s: %v", how, err)
			continue
		}
		got, err := m.PayloadUtf8()
		check("message-"+typeName(raw[0]), got, err)
		if !bytes.Equal(m.Payload(), orig) {
			ctx.Violate("payload-modified:message", nil, "%s", how)
		}
	}
	// as the reply of a tracked request
	man := reqman.NewRequestManager()
	req := man.Create()
	rm := message.NewMessage(uint32(len(data) + 64))
	rm.ReadBytes(encReply(req.Identifier, 2, data))
	man.Fulfill(rm)
	rep, rerr := req.AwaitReply(context.Background())
	if rerr != nil {
		ctx.Violate("reply", nil, "%s: %v", how, rerr)
		return
	}
	got, err = rep.PayloadUtf8()
	check("reply", got, err)
	ctx.Count("code_units", int64(len(u)))
}

func checkC15(c *Ctx) {
	// every code point
	const per = 512
	c.Cases("codepoints", 0x110000/per, func(i int, r *Rng) {
		var rs []rune
		for k := 0; k < per; k++ {
			cp := rune(i*per + k)
			if cp >= 0xD800 && cp < 0xE000 {
				continue
			}
			rs = append(rs, cp)
		}
		if len(rs) == 0 {
			return
		}
		c15One(utf16.Encode(rs), "code points")
		ctx.Eval(fmt.Sprintf("cp/%d", i))
	})
	// every single unit on its own and between others
	c.Cases("units", 256, func(i int, r *Rng) {
		for k := 0; k < 256; k++ {
			u := uint16(i<<8 | k)
			p := pld.Payload{Encoding: pld.Utf16, Data: toLE([]uint16{'a', u, 'b'})}
			got, err := p.Utf8()
			if want := string(utf16.Decode([]uint16{'a', u, 'b'})); err != nil || string(got) != want {
				ctx.Violate("unit", nil, "unit %x: got %q (%v) want %q", u, got, err, want)
			}
		}
		c15One([]uint16{uint16(i << 8)}, "unit")
		ctx.Eval(fmt.Sprintf("unit/%d", i))
	})
	pick := func(r *Rng) uint16 {
		switch r.N(7) {
		case 0:
			return uint16(0xD800 + r.N(0x400))
		case 1:
			return uint16(0xDC00 + r.N(0x400))
		case 2:
			return []uint16{0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD}[r.N(15)]
		case 3:
			return uint16(r.N(128))
		}
		return uint16(r.U64())
	}
	c.Cases("random", c.Scale(3000, 200000), func(i int, r *Rng) {
		n := r.Pick(0, 1, 2, 3, r.N(10), r.N(100), 500)
		if i%200 == 199 {
			n = r.Pick(32766, 32767, 32768, 32769, 65535, 65536, 65537, 70000)
			ctx.Max("max_code_units", int64(n))
		}
		if i%40 == 39 {
			n = r.Range(500, 20000)
		}
		u := make([]uint16, n)
		for k := range u {
			u[k] = pick(r)
		}
		if r.P(15) || (n > 400 && r.P(50)) {
			// nothing but surrogate pairs after a few other units, so that
			// there's one across every boundary of an even or odd offset
			for k := r.N(4); k+1 < n; k += 2 {
				u[k], u[k+1] = uint16(0xD800+r.N(0x400)), uint16(0xDC00+r.N(0x400))
			}
		}
		c15One(u, "random")
		sur := 0
		for k := 0; k+1 < n; k++ {
			if utf16.IsSurrogate(rune(u[k])) && utf16.IsSurrogate(rune(u[k+1])) {
				sur++
			}
		}
		if n < 1000 {
			ctx.Eval(fmt.Sprintf("r/%x", u))
			ctx.Sample("random units %x", u)
		}
		ctx.Count("adjacent_surrogates", int64(sur))

		// odd length
		data := append(toLE(u), byte(r.N(256)))
		orig := append([]byte(nil), data...)
		p := pld.Payload{Encoding: pld.Utf16, Data: data}
		if got, err := p.Utf8(); err == nil {
			ctx.Violate("odd-accepted", nil, "odd length %d converted to %q", len(data), got)
		}
		// other encodings pass through
		for _, e := range []pld.Encoding{pld.Binary, pld.Utf8} {
			p := pld.Payload{Encoding: e, Data: data}
			got, err := p.Utf8()
			if err != nil || !bytes.Equal(got, orig) || !bytes.Equal(data, orig) {
				ctx.Violate("pass-through", nil, "encoding %v: %x became %x (%v)", e, clip(orig), clip(got), err)
			}
			m := message.NewMessage(uint32(len(data) + 16))
			m.ReadBytes(encRequest(idOf(1), nil, int(e), data))
			got, err = m.PayloadUtf8()
			if err != nil || !bytes.Equal(got, orig) {
				ctx.Violate("pass-through-message", nil, "encoding %v: %x became %x (%v)", e, clip(orig), clip(got), err)
			}
		}
	})
}
