package checks

import (
	"fmt"
	"sort"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A16",
		Rule:     "a case stores, lowers, lowers spilled, copies, transcodes or passes to a call a generated value, sometimes with an allocator that fails at some point, replays the recorded requests to the allocator and compares the blocks that are left with the strings, lists and spilled values a guest finds; a state is the type with the encoding, the operation and the number of requests",
		Quick:    250000,
		Thorough: 2500000,
		Need:     append(typeEvents(), "store", "lower", "lower spilled", "CanonLift", "copy", "transcode", "block resized", "several blocks", "empty block", "allocator failed", "block of a string", "block of a list", "block of a tuple"),
		Run:      runA16,
	})
}

// block is memory the guest handed out.
type block struct {
	size, align uint32
}

// replay follows the requests to an allocator and reports the blocks left.
func replay(c *mon.Case, calls []cabi.Call) map[uint32]block {
	live := map[uint32]block{}
	empty := map[uint32]bool{}
	for i, k := range calls {
		if k.Align == 0 || k.Align > 8 || k.Align&(k.Align-1) != 0 {
			c.Fail("request %d asks for alignment %d", i, k.Align)
		}
		if k.OrigSize == 0 {
			if k.Orig != 0 && !empty[k.Orig] {
				c.Fail("request %d names a block of 0 bytes at %d the allocator has not handed out", i, k.Orig)
			}
		} else {
			b, ok := live[k.Orig]
			if !ok {
				c.Fail("request %d resizes a block at %d the allocator has not handed out", i, k.Orig)
			}
			if b.size != k.OrigSize {
				c.Fail("request %d resizes the block at %d of %d bytes as one of %d", i, k.Orig, b.size, k.OrigSize)
			}
			if b.align != k.Align {
				c.Fail("request %d resizes a block aligned to %d as one aligned to %d", i, b.align, k.Align)
			}
			c.Event("block resized")
		}
		if k.Err != nil {
			continue
		}
		if k.OrigSize > 0 {
			delete(live, k.Orig)
		}
		if k.Size > 0 {
			live[k.Ptr] = block{k.Size, k.Align}
		} else {
			empty[k.Ptr] = true
			c.Event("empty block")
		}
	}
	return live
}

// sameBlocks compares the blocks left with those the value needs.
func sameBlocks(c *mon.Case, live map[uint32]block, need []cabi.Region) {
	show := func(m map[uint32]block) string {
		var s []string
		for p, b := range m {
			s = append(s, fmt.Sprintf("%d bytes at %d aligned to %d", b.size, p, b.align))
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	}
	want := map[uint32]block{}
	for _, r := range need {
		if r.Len == 0 {
			continue
		}
		want[uint32(r.Ptr)] = block{uint32(r.Len), uint32(r.Align)}
		c.Event("block of a " + r.What)
	}
	if len(want) > 1 {
		c.Event("several blocks")
	}
	same := len(live) == len(want)
	for p, b := range want {
		if live[p] != b {
			same = false
		}
	}
	if !same {
		c.Fail("the guest was asked for %s, the value takes %s", shorten(show(live)), shorten(show(want)))
	}
}

func runA16(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c, others()...)
	t := gen.Type()
	op := c.R.IntN(6)
	if op >= 4 {
		t = cabi.Prim(cabi.String)
	}
	for i := 0; op == 2 && len(t.Flat()) == 0; i++ {
		t = gen.Type()
		if i > 5 {
			t = cabi.Prim(cabi.String)
		}
	}
	v := gen.Value(t)
	observe(c, t)
	ptr := g.h.Alloc(t.Size(), t.Align())
	name := []string{"store", "lower", "lower spilled", "CanonLift", "copy", "transcode"}[op]
	c.Event(name)
	failAt := -1
	if c.Chance(6) {
		failAt = c.R.IntN(4)
	}
	failed := false
	g.h.Fault = func(n int, p, align, size uint32) (uint32, error, bool) {
		if n != failAt {
			return 0, nil, false
		}
		failed = true
		return 0, cabi.ErrRealloc, true
	}
	c.Log("%s %s as %s (%s), failing %d", name, cabi.Show(v), t, g.enc, failAt)
	c.Sample("%s %s as %s (%s), failing %d", name, cabi.Show(v), t, g.enc, failAt)
	r := g.reader(true)
	check := func(what string, err error) {
		if err != nil && !failed {
			c.Fail("%s of a valid value failed: %v", what, err)
		}
		if err == nil && failed {
			c.Fail("%s succeeded although the allocator failed", what)
		}
	}
	var need []cabi.Region
	// follow finds what the value takes, in core values
	follow := func(flat []values.Value) {
		r.Mem = g.h.Mem()
		core, err := cabi.FromValues(flat)
		if err != nil {
			c.Fail("%v", err)
		}
		if err := r.CheckFlat(t, v, core); err != nil {
			c.Fail("%s of %s as %s gave %v: %v", name, cabi.Show(v), t, core, err)
		}
	}
	at := func(p uint64) {
		r.Mem = g.h.Mem()
		if _, err := r.Load(t, p); err != nil {
			c.Fail("a guest can not read the value: %v", err)
		}
	}
	var err error
	switch op {
	case 0:
		c.Try("Store", func() { err = io.Store(g.cx(), v, t.Val(), uint32(ptr)) })
		check("Store", err)
		if err == nil {
			at(ptr)
		}
	case 1:
		var flat []values.Value
		c.Try("LowerFlat", func() { flat, err = io.LowerFlat(g.cx(), v, t.Val()) })
		check("LowerFlat", err)
		if err == nil {
			follow(flat)
		}
	case 2:
		var out []any
		c.Try("LowerValues", func() { out, err = io.LowerValues(g.cx(), 0, []any{v}, []types.ValType{t.Val()}, nil) })
		check("LowerValues", err)
		if err == nil {
			core, cerr := cabi.FromAny(out)
			if cerr != nil || len(core) != 1 {
				c.Fail("LowerValues gave %v (%v) instead of a pointer", out, cerr)
			}
			need = append(need, cabi.Region{Ptr: core[0].Bits, Len: t.Size(), Align: t.Align(), What: "tuple"})
			at(core[0].Bits)
		}
	case 3:
		var flat []any
		done := false
		limit := 16
		if c.Chance(3) {
			limit = c.R.IntN(4)
		}
		ft := types.NewFuncType([]types.Parameter{{Name: "x", Type: t.Val()}}, nil)
		c.Try("CanonLift", func() {
			_, _, err = io.CanonLift(g.opts, g.inst, func(in any) (any, error) {
				flat, done = in.([]any)
				return []any{}, nil
			}, ft, []any{v}, limit, 1)
		})
		if err == nil && !done {
			c.Fail("CanonLift did not call")
		}
		if len(t.Flat()) > 0 && err != nil && done && !failed {
			// borrowed handles the callee kept
			err = nil
		}
		check("CanonLift", err)
		if err == nil {
			core, cerr := cabi.FromAny(flat)
			if cerr != nil {
				c.Fail("CanonLift called with %v: %v", flat, cerr)
			}
			r.Mem = g.h.Mem()
			if len(t.Flat()) > limit {
				need = append(need, cabi.Region{Ptr: core[0].Bits, Len: t.Size(), Align: t.Align(), What: "tuple"})
				at(core[0].Bits)
			} else if err := r.CheckFlat(t, v, core); err != nil {
				c.Fail("CanonLift passed %v: %v", core, err)
			}
		}
	case 4, 5:
		s := v.(string)
		var p, n uint32
		if op == 4 {
			g.enc = cabi.EncUTF8
			r.Enc = g.enc
			c.Try("StoreStringCopy", func() {
				p, n, err = io.StoreStringCopy(g.cx(), s, uint32(len(s)), 1, 1, encoding.NewUTF8())
			})
		} else {
			g.enc = cabi.EncUTF16
			r.Enc = g.enc
			c.Try("StoreUtf8ToUtf16", func() { p, n, err = io.StoreUtf8ToUtf16(g.cx(), s, uint32(len(s))) })
		}
		check(name, err)
		if err == nil {
			follow([]values.Value{values.U32(p), values.U32(n)})
		}
	}
	live := replay(c, g.h.Calls)
	if failed {
		c.Event("allocator failed")
	} else {
		sameBlocks(c, live, append(need, r.Regions...))
	}
	c.State(t.String(), g.enc, op, min(len(g.h.Calls), 10), failed)
	c.Eval()
}
