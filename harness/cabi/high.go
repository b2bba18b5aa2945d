package cabi

import (
	"bytes"
	"math/rand/v2"
	"sync"
	"syscall"
)

var (
	highMu  sync.Mutex
	highMem []byte
)

// HighLen is the size of a memory made by NewHigh: all of the address space.
const HighLen = 1 << 32

// NewHigh makes a memory of 4 GB whose allocations have addresses above 2 GB.
// Only the pages that are touched exist. There is one such memory; it has to
// be given back with the function returned.
func NewHigh(r *rand.Rand) (*Heap, func()) {
	highMu.Lock()
	if highMem == nil {
		m, err := syscall.Mmap(-1, 0, HighLen+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			highMu.Unlock()
			return nil, nil
		}
		highMem = m
	}
	h := &Heap{R: r, Buf: &bytes.Buffer{}, Max: 1 << 26, high: true}
	h.full = highMem[:HighLen+spare]
	for i := HighLen; i < len(h.full); i++ {
		h.full[i] = Canary
	}
	*h.Buf = *bytes.NewBuffer(h.full[:HighLen])
	h.Gap = r.IntN(3) * 8
	h.next = 1<<31 - 64 + r.Uint64N(1<<30)
	return h, func() {
		syscall.Madvise(highMem, syscall.MADV_DONTNEED)
		highMu.Unlock()
	}
}

// Top is the highest address at which a value with this size and alignment
// fits.
func Top(size, align uint64) uint64 { return (HighLen - size) / align * align }
