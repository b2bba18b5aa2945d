// Package checks holds the monitors, one or more per property.
package checks

import (
	"fmt"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/cabi"
	"verif/harness/mon"
)

// guest is one component instance with its memory and allocator.
type guest struct {
	c    *mon.Case
	h    *cabi.Heap
	enc  string
	inst *types.ComponentInstance
	opts *types.CanonicalOptions
	high bool
}

func newGuest(c *mon.Case) *guest {
	size := c.R.IntN(3) * 64
	if c.Chance(4) {
		size = c.R.IntN(4096)
	}
	base := 0
	if c.Chance(150) {
		// addresses of more than 16 bits
		base = 65536 - 64 + c.R.IntN(70000)
		size = base + c.R.IntN(4096)
		c.Event("address above 64 kB")
	}
	g := &guest{
		c:    c,
		h:    cabi.NewHeap(c.R, size),
		enc:  cabi.Encodings[c.R.IntN(3)],
		inst: newInstance(),
	}
	g.h.Reserve(uint64(base))
	g.opts = &types.CanonicalOptions{
		Memory:         g.h.Buf,
		StringEncoding: encoding.Encoding(g.enc),
		Realloc:        g.h.Realloc,
		PostReturn:     func() {},
	}
	return g
}

// highGuest replaces, now and then, the memory of a guest by one with high
// addresses. The function returned gives it back.
func (g *guest) highGuest() func() {
	if !g.c.Chance(2000) {
		return func() {}
	}
	h, release := cabi.NewHigh(g.c.R)
	if h == nil {
		return func() {}
	}
	g.h = h
	g.opts.Memory = h.Buf
	g.opts.Realloc = h.Realloc
	g.high = true
	g.c.Event("address above 2 GB")
	return release
}

// place allocates room for a value, at the end of the address space if that
// exists.
func (g *guest) place(t *cabi.T, last bool) uint64 {
	if g.high && last {
		return cabi.Top(t.Size(), t.Align())
	}
	return g.h.Alloc(t.Size(), t.Align())
}

func newInstance() *types.ComponentInstance {
	return &types.ComponentInstance{
		MayEnter: true,
		MayLeave: true,
		Handles:  types.HandleTables{ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{}},
	}
}

func (g *guest) cx() *types.CallContext {
	return &types.CallContext{Options: g.opts, Instance: g.inst}
}

// reader interprets the memory of the guest. Handles are resolved in the
// handle table of the guest without consuming them.
func (g *guest) reader(strict bool) *cabi.Reader {
	return &cabi.Reader{Mem: g.h.Mem(), Enc: g.enc, Strict: strict, Handle: g.resolve}
}

func (g *guest) resolve(t *cabi.T, i uint32) (any, error) {
	if t.K == cabi.Borrow && t.Res.Impl() == g.inst {
		return i, nil
	}
	h, err := g.inst.Handles.Get(t.Res, i)
	if err != nil {
		return nil, &cabi.Trap{Msg: err.Error()}
	}
	if h.Own != (t.K == cabi.Own) {
		return nil, &cabi.Trap{Msg: fmt.Sprintf("handle %d has own=%v", i, h.Own)}
	}
	return h.Rep, nil
}

// writer writes values as the guest would.
func (g *guest) writer() *cabi.Writer {
	return &cabi.Writer{H: g.h, Enc: g.enc, R: g.c.R, Noisy: true, Handle: g.newHandle}
}

// newHandle gives the guest an owning handle.
func (g *guest) newHandle(t *cabi.T, v any) uint32 {
	i, err := g.inst.Handles.Add(t.Res, &types.HandleElem{Rep: v.(uint32), Own: true})
	if err != nil {
		g.c.Fail("adding a handle: %v", err)
	}
	return i
}

// gen makes a generator for this case.
func newGen(c *mon.Case, res ...types.ResourceType) *cabi.Gen {
	g := &cabi.Gen{R: c.R, Depth: c.R.IntN(4), Budget: 300, Resources: res}
	if c.Chance(20) {
		g.Depth = 5
	}
	if c.Chance(12) {
		g.Big = true
	}
	g.Rep = func(*cabi.T) uint32 { return c.R.Uint32() }
	return g
}

// observe records the shape of a type that was exercised.
func observe(c *mon.Case, t *cabi.T) {
	t.Walk(func(x *cabi.T) { c.Event("type:" + x.K.String()) })
}

func typeEvents() []string {
	var s []string
	for k := cabi.Bool; k <= cabi.Borrow; k++ {
		s = append(s, "type:"+k.String())
	}
	return s
}

// deepCopy copies a value.
func deepCopy(v any) any {
	switch x := v.(type) {
	case []any:
		if x == nil {
			return x
		}
		out := make([]any, len(x))
		for i := range x {
			out[i] = deepCopy(x[i])
		}
		return out
	case map[string]any:
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[k] = deepCopy(e)
		}
		return out
	case string:
		return strings.Clone(x)
	}
	return v
}

// clean normalises the library's representation of a loaded value: an empty
// list may be nil.
func clean(v any) any {
	switch x := v.(type) {
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = clean(x[i])
		}
		return out
	case map[string]any:
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[k] = clean(e)
		}
		return out
	}
	return v
}

func same(got, want any) bool { return cabi.Equal(clean(got), clean(want)) }
