// Package aatap taps the system's cryptographically secure random source. Its
// name makes it the first to be initialized, so that no package can get hold
// of the source before it
package aatap

import (
	"crypto/rand"
	"errors"
	"io"
	"sync/atomic"
)

var (
	orig  io.Reader
	drawn int64
	mode  int32
	calls uint64
)

// Modes of the source
const (
	Normal = iota
	Short  // reads are short
	Fail   // reads fail
)

type tap struct{}

func (tap) Read(b []byte) (int, error) {
	switch atomic.LoadInt32(&mode) {
	case Short:
		if len(b) > 1 {
			b = b[:1+int(atomic.AddUint64(&calls, 1)*7)%(len(b)-1)]
		}
	case Fail:
		return 0, errors.New("the random source failed")
	}
	n, err := orig.Read(b)
	atomic.AddInt64(&drawn, int64(n))
	return n, err
}

func init() {
	orig = rand.Reader
	rand.Reader = tap{}
}

// Drawn returns the number of random bytes drawn so far
func Drawn() int64 { return atomic.LoadInt64(&drawn) }

// SetMode changes the mode of the source
func SetMode(m int32) { atomic.StoreInt32(&mode, m) }
