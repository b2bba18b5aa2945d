package checks

import (
	"errors"
	"io"

	"verif/harness/mon"
)

var errInjected = errors.New("injected fault")

// chunks delivers data in pieces, and ends with err at the end.
type chunks struct {
	c    *mon.Case
	b    []byte
	mode int
	err  error
	// reads counts the calls, zeros those that delivered nothing
	reads, zeros int
}

// chunkModes is the number of ways chunks can deliver data.
const chunkModes = 6

func (r *chunks) Read(p []byte) (int, error) {
	r.reads++
	if len(r.b) == 0 {
		return 0, r.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch r.mode {
	case 0: // as much as fits
	case 1: // single bytes
		n = 1
	case 2: // random pieces
		n = 1 + r.c.R.IntN(len(p))
	case 3: // random small pieces, sometimes none
		if r.c.R.IntN(3) == 0 && r.zeros < 20 {
			r.zeros++
			return 0, nil
		}
		r.zeros = 0
		n = 1 + r.c.R.IntN(min(len(p), 3))
	case 4: // the end together with the last data
		if n >= len(r.b) {
			n = copy(p, r.b)
			r.b = nil
			return n, r.err
		}
	case 5: // single bytes, the end together with the last one
		p[0] = r.b[0]
		r.b = r.b[1:]
		if len(r.b) == 0 {
			return 1, r.err
		}
		return 1, nil
	}
	n = copy(p[:min(n, len(p))], r.b)
	r.b = r.b[n:]
	return n, nil
}

// sink accepts a number of bytes and then fails.
type sink struct {
	b     []byte
	limit int
	// short makes the failing write accept what still fits
	short  bool
	failed bool
	after  int
}

func (w *sink) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, errInjected
	}
	if w.limit >= 0 && len(w.b)+len(p) > w.limit {
		w.failed = true
		n := 0
		if w.short {
			n = w.limit - len(w.b)
			w.b = append(w.b, p[:n]...)
		}
		return n, errInjected
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

var _ io.Reader = (*chunks)(nil)
