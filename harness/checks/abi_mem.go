package checks

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A01",
		Rule:     "a case generates types and values, stores several of them through a guest allocator that grows and moves memory, disturbs unrelated memory, and loads them in another order; a state is the type together with the string encoding",
		Quick:    250000,
		Thorough: 2500000,
		Need:     append(typeEvents(), "stored", "loaded", "memory moved", "memory grew", "address above 64 kB"),
		Run:      runA01,
	})
	mon.Register(&mon.Prop{
		ID:       "A02",
		Rule:     "a case compares the bytes the library wrote with an independent reader of the canonical ABI, and the value the library loads with what an independent writer encoded, using every freedom the ABI leaves a guest; a state is the type together with the string encoding and the direction",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append(typeEvents(), "image of library read", "image of guest loaded", "address above 64 kB"),
		Run:      runA02,
	})
	mon.Register(&mon.Prop{
		ID:       "A04",
		Rule:     "a case compares all of guest memory with a shadow copy after stores and loads, successful and failing, and the canary behind the end of memory; a state is the type, encoding and kind of operation",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append(typeEvents(), "store confined", "load wrote nothing", "failed store confined", "flat lowering confined"),
		Run:      runA04,
	})
}

// others makes resource types implemented by another instance, and one
// implemented by the host.
func others() []types.ResourceType {
	return []types.ResourceType{types.NewResourceType(nil, newInstance()), types.NewResourceType(nil, nil)}
}

func runA01(c *mon.Case) {
	g := newGuest(c)
	defer g.highGuest()()
	gen := newGen(c, others()...)
	gen.Hollow = true
	type item struct {
		t   *cabi.T
		v   any
		ptr uint64
		cx  *types.CallContext
	}
	var items []item
	for n := 1 + c.R.IntN(4); n > 0; n-- {
		t := gen.Type()
		gen.Budget = 300
		v := gen.Value(t)
		ptr := g.place(t, n == 1)
		cx := g.cx()
		before := len(g.h.Mem())
		calls := len(g.h.Calls)
		c.Log("store %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
		c.Sample("store %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
		c.Try("Store", func() {
			if err := io.Store(cx, v, t.Val(), uint32(ptr)); err != nil {
				c.Fail("Store of a valid value failed: %v", err)
			}
		})
		c.Event("stored")
		if len(g.h.Calls) > calls && g.h.Move {
			c.Event("memory moved")
		}
		if len(g.h.Mem()) > before {
			c.Event("memory grew")
		}
		observe(c, t)
		c.State(t.String(), g.enc)
		items = append(items, item{t, v, ptr, cx})
	}
	// memory of the guest's own
	p := g.h.Alloc(64, 8)
	for i := range g.h.Mem()[p : p+64] {
		g.h.Mem()[p+uint64(i)] = byte(c.R.Uint32())
	}
	c.R.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	for _, it := range items {
		c.Log("load %s at %d", it.t, it.ptr)
		c.Try("Load", func() {
			got, err := io.Load(it.cx, it.t.Val(), uint32(it.ptr))
			if err != nil {
				c.Fail("Load of a stored value failed: %v", err)
			}
			if want := cabi.Normal(it.t, it.v); !same(got, want) {
				c.Fail("loaded %s, stored %s as %s", cabi.Show(got), cabi.Show(want), it.t)
			}
		})
		c.Event("loaded")
		c.Eval()
	}
}

func runA02(c *mon.Case) {
	g := newGuest(c)
	defer g.highGuest()()
	if c.R.IntN(2) == 0 {
		// what the library writes
		gen := newGen(c, append(others(), types.NewResourceType(nil, g.inst))...)
		t := gen.Type()
		v := gen.Value(t)
		ptr := g.place(t, c.Chance(2))
		c.Log("store %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
		c.Sample("store %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
		c.Try("Store", func() {
			if err := io.Store(g.cx(), v, t.Val(), uint32(ptr)); err != nil {
				c.Fail("Store of a valid value failed: %v", err)
			}
		})
		r := g.reader(true)
		got, err := r.Load(t, ptr)
		if err != nil {
			c.Fail("a guest can not read the stored value: %v", err)
		}
		if want := cabi.Normal(t, v); !same(got, want) {
			c.Fail("a guest reads %s, stored %s", cabi.Show(got), cabi.Show(want))
		}
		checkRegions(c, g, r)
		observe(c, t)
		c.State(t.String(), g.enc, "store")
		c.Event("image of library read")
		c.Eval()
		return
	}
	gen := newGen(c, append(others(), types.NewResourceType(nil, g.inst))...)
	t := gen.Type()
	v := gen.Value(t)
	ptr := g.place(t, c.Chance(2))
	g.writer().Store(t, v, ptr)
	c.Log("guest wrote %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
	c.Sample("guest wrote %s as %s at %d (%s)", cabi.Show(v), t, ptr, g.enc)
	c.Try("Load", func() {
		got, err := io.Load(g.cx(), t.Val(), uint32(ptr))
		if err != nil {
			c.Fail("Load of a valid image failed: %v", err)
		}
		if want := cabi.Normal(t, v); !same(got, want) {
			c.Fail("loaded %s, the guest wrote %s", cabi.Show(got), cabi.Show(want))
		}
	})
	observe(c, t)
	c.State(t.String(), g.enc, "load")
	c.Event("image of guest loaded")
	c.Eval()
}

// checkRegions verifies that every string and list the reader followed lies
// in an allocation made for it, and that no two of them share a byte.
func checkRegions(c *mon.Case, g *guest, r *cabi.Reader) {
	used := map[int]bool{}
	for _, reg := range r.Regions {
		if reg.Len == 0 {
			continue
		}
		found := false
		for i, gr := range g.h.Grants {
			if reg.Ptr >= gr.Ptr && reg.Ptr+reg.Len <= gr.Ptr+gr.Len && gr.Align >= reg.Align {
				if used[i] {
					c.Fail("two values share the allocation at %d", gr.Ptr)
				}
				used[i] = true
				found = true
				break
			}
		}
		if !found {
			c.Fail("%s at [%d,+%d) is not inside an allocation with alignment %d", reg.What, reg.Ptr, reg.Len, reg.Align)
		}
	}
}

func runA04(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c, others()...)
	t := gen.Type()
	v := gen.Value(t)
	observe(c, t)
	size, align := t.Size(), t.Align()
	op := c.R.IntN(5)
	c.State(t.String(), g.enc, op)
	switch op {
	case 0, 1:
		ptr := g.h.Alloc(size, align)
		if op == 1 {
			// exactly at the end of memory
			g.h.Gap = 0
			g.h.Reserve(uint64(g.h.Buf.Len()))
			ptr = g.h.Alloc(size, align)
		}
		g.h.Watch()
		held := deepCopy(v)
		c.Log("store %s as %s at %d (%s), memory %d", cabi.Show(v), t, ptr, g.enc, g.h.Buf.Len())
		c.Sample("store %s as %s at %d (%s), memory %d", cabi.Show(v), t, ptr, g.enc, g.h.Buf.Len())
		c.Try("Store", func() {
			if err := io.Store(g.cx(), v, t.Val(), uint32(ptr)); err != nil {
				c.Fail("Store of a valid value failed: %v", err)
			}
		})
		if err := g.h.Outside(cabi.Region{Ptr: ptr, Len: size}); err != nil {
			c.Fail("Store: %v", err)
		}
		if !cabi.Equal(held, v) {
			c.Fail("Store changed the host value to %s", cabi.Show(v))
		}
		c.Event("store confined")
	case 2:
		ptr := g.h.Alloc(size, align)
		g.writer().Store(t, v, ptr)
		g.h.Watch()
		c.Log("load %s at %d (%s)", t, ptr, g.enc)
		var got any
		c.Try("Load", func() {
			var err error
			got, err = io.Load(g.cx(), t.Val(), uint32(ptr))
			if err != nil {
				c.Fail("Load of a valid image failed: %v", err)
			}
		})
		g.h.Grants = nil
		if err := g.h.Outside(); err != nil {
			c.Fail("Load: %v", err)
		}
		if len(g.h.Calls) != 0 {
			c.Fail("Load called realloc")
		}
		// the guest reuses its memory
		mem := g.h.Mem()
		for i := range mem {
			mem[i] ^= 0xff
		}
		if want := cabi.Normal(t, v); !same(got, want) {
			c.Fail("the loaded value changed with guest memory: %s, expected %s", cabi.Show(got), cabi.Show(want))
		}
		c.Event("load wrote nothing")
	case 3:
		// a pointer whose value does not fit, or is not aligned
		if size == 0 {
			c.Event("store confined")
			break
		}
		g.h.Alloc(size, align)
		g.h.Watch()
		n := uint64(g.h.Buf.Len())
		var ptr uint64
		switch c.R.IntN(4) {
		case 0:
			ptr = n - min(n, c.R.Uint64N(size))
		case 1:
			ptr = n + c.R.Uint64N(100)
		case 2:
			ptr = uint64(1)<<32 - 1 - c.R.Uint64N(40)
		default:
			ptr = c.R.Uint64N(n + 1)
		}
		g.h.Alloc(64, 8) // keep the end of memory away from the allocator
		n = uint64(g.h.Buf.Len())
		bad := ptr+size > n || ptr%align != 0
		c.Log("store %s as %s at %d (%s), memory %d", cabi.Show(v), t, ptr, g.enc, n)
		c.Try("Store", func() {
			err := io.Store(g.cx(), v, t.Val(), uint32(ptr))
			if bad && err == nil && n == uint64(g.h.Buf.Len()) {
				c.Fail("Store at %d with %d bytes of memory succeeded for %d bytes aligned to %d", ptr, n, size, align)
			}
		})
		var dst []cabi.Region
		if ptr+size <= uint64(g.h.Buf.Len()) {
			dst = append(dst, cabi.Region{Ptr: ptr, Len: size})
		}
		if err := g.h.Outside(dst...); err != nil {
			c.Fail("failed Store: %v", err)
		}
		c.Event("failed store confined")
	case 4:
		g.h.Watch()
		held := deepCopy(v)
		c.Log("lower %s as %s (%s)", cabi.Show(v), t, g.enc)
		c.Try("LowerFlat", func() {
			if _, err := io.LowerFlat(g.cx(), v, t.Val()); err != nil {
				c.Fail("LowerFlat of a valid value failed: %v", err)
			}
		})
		if err := g.h.Outside(); err != nil {
			c.Fail("LowerFlat: %v", err)
		}
		if !cabi.Equal(held, v) {
			c.Fail("LowerFlat changed the host value to %s", cabi.Show(v))
		}
		c.Event("flat lowering confined")
	}
	c.Eval()
}
