package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"
)

/* Reference codec of the documented message format, independent of the
   implementation (docs: message/message.go constants, README) */

// message types
const (
	tReplyError     = 0
	tReplyShutdown  = 1
	tReplyInternal  = 2
	tReplyNotFound  = 3
	tReplyMaxConns  = 4
	tReplyDisabled  = 5
	tSessCreated    = 21
	tSessClosed     = 22
	tAcceptConf     = 23
	tReqCloseSess   = 31
	tReqRestoreSess = 32
	tHeartbeat      = 33
	tSignalBin      = 63
	tSignalU8       = 64
	tSignalU16      = 65
	tRequestBin     = 127
	tRequestU8      = 128
	tRequestU16     = 129
	tReplyBin       = 191
	tReplyU8        = 192
	tReplyU16       = 193
)

var allTypes = []byte{
	tReplyError, tReplyShutdown, tReplyInternal, tReplyNotFound,
	tReplyMaxConns, tReplyDisabled, tSessCreated, tSessClosed, tAcceptConf,
	tReqCloseSess, tReqRestoreSess, tHeartbeat, tSignalBin, tSignalU8,
	tSignalU16, tRequestBin, tRequestU8, tRequestU16, tReplyBin, tReplyU8,
	tReplyU16,
}

func typeName(t byte) string {
	switch t {
	case tReplyError:
		return "error-reply"
	case tReplyShutdown:
		return "shutdown-reply"
	case tReplyInternal:
		return "internal-error-reply"
	case tReplyNotFound:
		return "session-not-found-reply"
	case tReplyMaxConns:
		return "max-conns-reply"
	case tReplyDisabled:
		return "sessions-disabled-reply"
	case tSessCreated:
		return "session-created"
	case tSessClosed:
		return "session-closed"
	case tAcceptConf:
		return "conf"
	case tReqCloseSess:
		return "close-session-request"
	case tReqRestoreSess:
		return "restore-request"
	case tHeartbeat:
		return "heartbeat"
	case tSignalBin, tSignalU8, tSignalU16:
		return fmt.Sprintf("signal%d", t-tSignalBin)
	case tRequestBin, tRequestU8, tRequestU16:
		return fmt.Sprintf("request%d", t-tRequestBin)
	case tReplyBin, tReplyU8, tReplyU16:
		return fmt.Sprintf("reply%d", t-tReplyBin)
	}
	return fmt.Sprintf("type%d", t)
}

// Ref is a decoded message
type Ref struct {
	Type    byte
	HasID   bool
	ID      [8]byte
	Name    []byte
	Enc     int // 0 binary, 1 utf8, 2 utf16
	Payload []byte

	Major, Minor byte
	Timeout      time.Duration
	BufSize      uint32
	SubProto     []byte
}

func (m *Ref) String() string {
	if m == nil {
		return "<nothing>"
	}
	p := m.Payload
	s := ""
	if len(p) > 48 {
		s = fmt.Sprintf("%q...(%d bytes)", p[:48], len(p))
	} else {
		s = fmt.Sprintf("%q", p)
	}
	n := m.Name
	if len(n) > 24 {
		n = n[:24]
	}
	return fmt.Sprintf("%s id=%x name=%q(%d) enc=%d payload=%s",
		typeName(m.Type), m.ID, n, len(m.Name), m.Enc, s)
}

// verdicts of refParse
const (
	vReject = iota
	vAccept
	vEither
)

// refParse decodes a message according to the documented format
func refParse(b []byte) (int, *Ref) {
	if len(b) < 1 {
		return vReject, nil
	}
	m := &Ref{Type: b[0]}
	n := len(b)
	id := func() { m.HasID = true; copy(m.ID[:], b[1:9]) }
	switch b[0] {
	case tHeartbeat, tSessClosed:
		if n != 1 {
			return vReject, nil
		}
		return vAccept, m
	case tAcceptConf:
		if n < 11 {
			return vReject, nil
		}
		m.Major, m.Minor = b[1], b[2]
		m.Timeout = time.Duration(binary.LittleEndian.Uint32(b[3:7])) * time.Millisecond
		m.BufSize = binary.LittleEndian.Uint32(b[7:11])
		m.SubProto = b[11:]
		return vAccept, m
	case tReplyError:
		if n < 11 || b[9] == 0 || n < 10+int(b[9]) {
			return vReject, nil
		}
		id()
		m.Name = b[10 : 10+int(b[9])]
		m.Payload = b[10+int(b[9]):]
		m.Enc = 1
		return vAccept, m
	case tReplyShutdown, tReplyInternal, tReplyNotFound, tReplyMaxConns,
		tReplyDisabled:
		if n < 9 {
			return vReject, nil
		}
		id()
		if n > 9 {
			// trailing bytes aren't documented
			return vEither, m
		}
		return vAccept, m
	case tSessCreated:
		if n < 2 {
			return vReject, nil
		}
		m.Payload = b[1:]
		return vAccept, m
	case tReqCloseSess:
		if n != 9 {
			return vReject, nil
		}
		id()
		return vAccept, m
	case tReqRestoreSess:
		if n < 10 {
			return vReject, nil
		}
		id()
		m.Payload = b[9:]
		return vAccept, m
	case tSignalBin, tSignalU8, tSignalU16:
		if n < 3 {
			return vReject, nil
		}
		m.Enc = int(b[0] - tSignalBin)
		return refNamed(m, b, 2, int(b[1]))
	case tRequestBin, tRequestU8, tRequestU16:
		if n < 11 {
			return vReject, nil
		}
		id()
		m.Enc = int(b[0] - tRequestBin)
		return refNamed(m, b, 10, int(b[9]))
	case tReplyBin, tReplyU8:
		if n < 9 {
			return vReject, nil
		}
		id()
		m.Enc = int(b[0] - tReplyBin)
		m.Payload = b[9:]
		return vAccept, m
	case tReplyU16:
		if n < 10 || n%2 != 0 {
			return vReject, nil
		}
		id()
		m.Enc = 2
		m.Payload = b[10:]
		return vAccept, m
	}
	return vReject, nil
}

// refNamed decodes name, header padding and payload
func refNamed(m *Ref, b []byte, off, nameLen int) (int, *Ref) {
	end := off + nameLen
	if len(b) < end {
		return vReject, nil
	}
	m.Name = b[off:end]
	if m.Enc == 2 {
		if len(b)%2 != 0 {
			return vReject, nil
		}
		if nameLen%2 != 0 {
			end++ // header padding
		}
		if len(b) < end {
			return vReject, nil
		}
	}
	m.Payload = b[end:]
	if nameLen == 0 && len(m.Payload) == 0 {
		return vReject, nil
	}
	return vAccept, m
}

// sameRef compares two decoded messages, names and payloads that are nil and
// empty are the same
func sameRef(a, b *Ref) bool {
	return a.Type == b.Type && a.HasID == b.HasID && a.ID == b.ID &&
		bytes.Equal(a.Name, b.Name) && a.Enc == b.Enc &&
		bytes.Equal(a.Payload, b.Payload) && a.Major == b.Major &&
		a.Minor == b.Minor && a.Timeout == b.Timeout &&
		a.BufSize == b.BufSize && bytes.Equal(a.SubProto, b.SubProto)
}

/* encoders */

func encNamed(head []byte, name []byte, enc int, payload []byte) []byte {
	b := append(head, byte(len(name)))
	b = append(b, name...)
	if enc == 2 && len(name)%2 != 0 {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encRequest(id [8]byte, name []byte, enc int, payload []byte) []byte {
	return encNamed(append([]byte{tRequestBin + byte(enc)}, id[:]...), name, enc, payload)
}

func encSignal(name []byte, enc int, payload []byte) []byte {
	return encNamed([]byte{tSignalBin + byte(enc)}, name, enc, payload)
}

func encRestore(id [8]byte, key string) []byte {
	return append(append([]byte{tReqRestoreSess}, id[:]...), key...)
}

func encCloseSession(id [8]byte) []byte {
	return append([]byte{tReqCloseSess}, id[:]...)
}

func encHeartbeat() []byte { return []byte{tHeartbeat} }

func encReply(id [8]byte, enc int, payload []byte) []byte {
	b := append([]byte{tReplyBin + byte(enc)}, id[:]...)
	if enc == 2 {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encErrorReply(id [8]byte, code, msg []byte) []byte {
	b := append([]byte{tReplyError}, id[:]...)
	b = append(b, byte(len(code)))
	b = append(b, code...)
	return append(b, msg...)
}

func encConf(maj, min byte, ms, size uint32, sub []byte) []byte {
	b := make([]byte, 11)
	b[0], b[1], b[2] = tAcceptConf, maj, min
	binary.LittleEndian.PutUint32(b[3:], ms)
	binary.LittleEndian.PutUint32(b[7:], size)
	return append(b, sub...)
}

func idOf(n uint64) (id [8]byte) {
	binary.BigEndian.PutUint64(id[:], n)
	return
}

func isRequestType(t byte) bool {
	return t == tReqCloseSess || t == tReqRestoreSess ||
		(t >= tRequestBin && t <= tRequestU16)
}

func isReplyType(t byte) bool { return t <= 5 || (t >= tReplyBin && t <= tReplyU16) }
