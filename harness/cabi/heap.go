package cabi

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
)

// Canary fills capacity behind the end of memory.
const Canary = 0xa5

// Call is a recorded call of realloc.
type Call struct {
	Orig, OrigSize, Align, Size, Ptr uint32
	Err                              error
}

// Heap is the linear memory of a guest together with its allocator. Memory is
// filled with noise, and moves whenever it grows; the abandoned bytes are
// overwritten so that a stale reference shows.
type Heap struct {
	Buf    *bytes.Buffer
	Grants []Region
	Calls  []Call
	R      *rand.Rand
	// Move makes every allocation move the backing array.
	Move bool
	// Gap is the largest gap left between allocations.
	Gap int
	// Max is the largest size memory may grow to.
	Max int
	// OnCall observes each call before it is served.
	OnCall func(n int)
	// Fault may replace the outcome of the nth call.
	Fault func(n int, ptr, align, size uint32) (uint32, error, bool)
	// Shadow, when set, follows memory as far as the guest itself changes it.
	Shadow []byte
	next   uint64
	full   []byte
	high   bool
}

// NewHeap makes a memory of the given size.
func NewHeap(r *rand.Rand, size int) *Heap {
	h := &Heap{R: r, Buf: &bytes.Buffer{}, Max: 1 << 26}
	h.set(noise(r, size))
	h.Gap = r.IntN(3) * 8
	h.Move = r.IntN(2) == 0
	return h
}

func noise(r *rand.Rand, n int) []byte {
	b := make([]byte, (n+7)&^7)
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	return b[:n]
}

const spare = 96

func (h *Heap) set(b []byte) {
	full := make([]byte, len(b)+spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = Canary
	}
	old := h.full
	h.full = full
	*h.Buf = *bytes.NewBuffer(full[:len(b)])
	for i := range old {
		old[i] = 0xee
	}
}

// Mem is the current memory.
func (h *Heap) Mem() []byte { return h.Buf.Bytes() }

// CheckCanary verifies that nothing was written behind the end of memory.
func (h *Heap) CheckCanary() error {
	n := h.Buf.Len()
	if n+spare != len(h.full) {
		return fmt.Errorf("memory length changed to %d without the allocator", n)
	}
	for i := n; i < len(h.full); i++ {
		if h.full[i] != Canary {
			return fmt.Errorf("byte %d behind the end of memory (%d) was overwritten", i, n)
		}
	}
	return nil
}

// Reserve keeps the allocator away from addresses below n.
func (h *Heap) Reserve(n uint64) {
	if h.next < n {
		h.next = n
	}
}

func (h *Heap) grow(n int) bool {
	if n > h.Max || h.high {
		return false
	}
	old := h.Mem()
	b := noise(h.R, n)
	copy(b, old)
	if h.Shadow != nil {
		h.Shadow = append(h.Shadow, b[len(old):]...)
	}
	h.set(b)
	return true
}

// Alloc serves an allocation of the guest itself.
func (h *Heap) Alloc(size, align uint64) uint64 {
	gap := uint64(0)
	if h.Gap > 0 {
		gap = uint64(h.R.IntN(h.Gap))
	}
	ptr := alignUp(h.next+gap, align)
	end := ptr + size
	h.next = end
	if int(end) > h.Buf.Len() {
		n := int(end)
		if h.R.IntN(2) == 0 {
			n += h.R.IntN(64)
		}
		if !h.grow(n) {
			panic("guest heap exhausted")
		}
	}
	return ptr
}

// ErrRealloc is returned by an injected fault.
var ErrRealloc = errors.New("injected realloc failure")

// Realloc is passed to the library.
func (h *Heap) Realloc(orig, origSize, align, size uint32) (uint32, error) {
	n := len(h.Calls)
	h.Calls = append(h.Calls, Call{orig, origSize, align, size, 0, nil})
	if h.OnCall != nil {
		h.OnCall(n)
	}
	done := func(ptr uint32, err error) (uint32, error) {
		h.Calls[n].Ptr = ptr
		h.Calls[n].Err = err
		return ptr, err
	}
	if align == 0 || align > 8 || align&(align-1) != 0 {
		return done(0, fmt.Errorf("realloc with alignment %d", align))
	}
	if h.Move {
		h.grow(h.Buf.Len())
	}
	if int(size) > h.Max {
		return done(0, fmt.Errorf("realloc of %d bytes", size))
	}
	ptr := uint32(h.Alloc(uint64(size), uint64(align)))
	if h.Fault != nil {
		if p, err, ok := h.Fault(n, ptr, align, size); ok {
			return done(p, err)
		}
	}
	if origSize > 0 {
		k := min(origSize, size)
		copy(h.Mem()[ptr:ptr+k], h.Mem()[orig:orig+k])
	}
	h.Grants = append(h.Grants, Region{uint64(ptr), uint64(size), uint64(align), "grant"})
	return done(ptr, nil)
}

// Snapshot copies memory.
func (h *Heap) Snapshot() []byte { return append([]byte{}, h.Mem()...) }

// Watch starts comparing memory with a shadow copy.
func (h *Heap) Watch() { h.Shadow = h.Snapshot() }

// Outside finds a byte that was changed outside the given regions and the
// granted allocations.
func (h *Heap) Outside(regions ...Region) error {
	if err := h.CheckCanary(); err != nil {
		return err
	}
	mem := h.Mem()
	if len(mem) != len(h.Shadow) {
		return fmt.Errorf("memory has %d bytes, expected %d", len(mem), len(h.Shadow))
	}
	mask := make([]bool, len(mem))
	for _, r := range append(regions, h.Grants...) {
		for i := r.Ptr; i < r.Ptr+r.Len && i < uint64(len(mask)); i++ {
			mask[i] = true
		}
	}
	for i := range mem {
		if mem[i] != h.Shadow[i] && !mask[i] {
			return fmt.Errorf("byte %d of memory changed from %#x to %#x outside the destination %v", i, h.Shadow[i], mem[i], regions)
		}
	}
	return nil
}
