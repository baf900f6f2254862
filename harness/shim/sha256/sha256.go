// Package sha256 stands in for crypto/sha256 in the packages under test. It
// computes the same digests, and lets a monitor observe them (transcripts of
// Fiat-Shamir challenges) or delay the hashing goroutine (schedule perturbation).
package sha256

import (
	"context"
	real "crypto/sha256"
	"encoding"
	"hash"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"unsafe"
)

const (
	Size      = real.Size
	Size224   = real.Size224
	BlockSize = real.BlockSize
)

// OnDigest, when set, is called with every digest computed by the code under test.
var onDigest atomic.Pointer[func(digest []byte)]

func SetHook(f func(digest []byte)) {
	if f == nil {
		onDigest.Store(nil)
		return
	}
	onDigest.Store(&f)
}

// A recorder belongs to one call of Record.
type recorder struct {
	mu    sync.Mutex
	seen  map[string]bool
	order []string
}

var (
	recorders sync.Map // of *recorder, by the label of the goroutines it observes
	recording atomic.Int64
)

// Goroutines inherit the profiler label of the goroutine that starts them, so
// that the label tells on whose behalf a digest is computed.
//
//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

// Record runs f and returns the distinct digests computed on its behalf, in the
// order of first appearance.
func Record(f func()) []string {
	r := &recorder{seen: map[string]bool{}}
	pprof.Do(context.Background(), pprof.Labels("record", "on"), func(context.Context) {
		key := getLabel()
		recorders.Store(key, r)
		recording.Add(1)
		defer func() {
			recording.Add(-1)
			recorders.Delete(key)
		}()
		f()
	})
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.order...)
}

func observe(d []byte) {
	if h := onDigest.Load(); h != nil {
		(*h)(append([]byte(nil), d...))
	}
	if recording.Load() == 0 {
		return
	}
	x, ok := recorders.Load(getLabel())
	if !ok {
		return
	}
	r := x.(*recorder)
	r.mu.Lock()
	if !r.seen[string(d)] {
		r.seen[string(d)] = true
		r.order = append(r.order, string(d))
	}
	r.mu.Unlock()
}

type digest struct{ hash.Hash }

func (d *digest) Sum(in []byte) []byte {
	out := d.Hash.Sum(in)
	observe(out[len(in):])
	return out
}

func (d *digest) MarshalBinary() ([]byte, error) {
	return d.Hash.(encoding.BinaryMarshaler).MarshalBinary()
}

func (d *digest) UnmarshalBinary(b []byte) error {
	return d.Hash.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
}

func New() hash.Hash    { return &digest{real.New()} }
func New224() hash.Hash { return &digest{real.New224()} }

func Sum256(data []byte) [Size]byte {
	res := real.Sum256(data)
	observe(res[:])
	return res
}

func Sum224(data []byte) [Size224]byte { return real.Sum224(data) }
