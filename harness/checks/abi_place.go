package checks

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A17",
		Rule:     "a case calls an imported function whose results go to a place in memory the guest names, or lowers values to such a place, with a place that is good, at the very end of memory, misaligned, partly or wholly outside, wrapping, missing or not a 32 bit integer, compares what is there with the results and the rest of memory with a shadow copy; a state is the results with the kind of the place and the way they were passed",
		Quick:    250000,
		Thorough: 2500000,
		Need:     append(except(typeEvents(), "type:borrow"), "good place", "place at the end", "misaligned place", "place partly outside", "place outside", "place that wraps", "missing place", "place of another kind", "call", "lowering", "arguments spilled", "arguments flat", "several results"),
		Run:      runA17,
	})
}

func except(all []string, one string) []string {
	var out []string
	for _, s := range all {
		if s != one {
			out = append(out, s)
		}
	}
	return out
}

func runA17(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c, others()...)
	var ts []*cabi.T
	var vals []types.ValType
	var vs, host []any
	for n := 1 + c.R.IntN(3)*c.R.IntN(2); n > 0 || len(cabi.FlatAll(ts)) == 0; n-- {
		t := gen.Type()
		for t.Has(cabi.Borrow) {
			t = gen.Type()
		}
		v := gen.Value(t)
		observe(c, t)
		ts, vs = append(ts, t), append(vs, v)
		vals = append(vals, t.Val())
		host = append(host, cabi.Normal(t, v))
	}
	if len(ts) > 1 {
		c.Event("several results")
	}
	limit := c.R.IntN(min(4, len(cabi.FlatAll(ts))))
	tuple := tupleOf(ts)
	size, align := tuple.Size(), tuple.Align()

	call := c.Chance(2)
	var params []*cabi.T
	var args []any
	var core []cabi.Core
	maxP := 16
	if call {
		c.Event("call")
		for n := c.R.IntN(3); n > 0; n-- {
			gen.Depth = 1
			t := gen.Type()
			params, args = append(params, t), append(args, gen.Value(t))
		}
		maxP = c.R.IntN(17)
		core = g.pass(params, args, maxP)
		switch {
		case len(cabi.FlatAll(params)) > maxP:
			c.Event("arguments spilled")
		case len(core) > 0:
			c.Event("arguments flat")
		}
	} else {
		c.Event("lowering")
	}

	var place uint64
	kind := pickOf(c, "good place", "place at the end", "misaligned place", "place partly outside", "place outside", "place that wraps", "missing place", "place of another kind")
	if kind == "misaligned place" && align == 1 || kind == "place partly outside" && size <= align {
		kind = "place outside"
	}
	place = g.h.Alloc(size, align)
	switch kind {
	case "place at the end":
		g.h.Gap = 0
		g.h.Reserve(uint64(g.h.Buf.Len()))
		place = g.h.Alloc(size, align)
		if place+size != uint64(g.h.Buf.Len()) {
			kind = "good place"
		}
	case "misaligned place":
		g.h.Alloc(align, align)
		place += 1 + c.R.Uint64N(align-1)
	}
	n := uint64(g.h.Buf.Len())
	switch kind {
	case "place partly outside":
		// the last aligned place that does not fit, or a later one
		place = (n - min(n, size) + align) / align * align
		for c.Chance(2) && place+align < n {
			place += align
		}
		if place+size <= n || place > n {
			kind = "place outside"
			place = (n + align - 1) / align * align
		}
	case "place outside":
		place = (n + align - 1) / align * align
		if c.Chance(2) {
			place = c.R.Uint64N(1<<32-n) + n
			place = min((place+align-1)/align*align, 1<<32-align)
		}
	case "place that wraps":
		// the end is again inside memory when it is kept in 32 bits
		place = (1<<32 - 1 - c.R.Uint64N(min(size, 1<<31))) / align * align
		if c.Chance(2) && size > n {
			place = (1<<32 - size) / align * align
		}
	}
	good := kind == "good place" || kind == "place at the end"
	out := []values.Value{values.U32(place)}
	switch kind {
	case "missing place":
		out = nil
	case "place of another kind":
		out[0] = []values.Value{values.U64(place), values.Float32(float32(place)), values.Float64(float64(place))}[c.R.IntN(3)]
	}
	c.Event(kind)
	c.Log("results %s (%s) of %d bytes aligned to %d, %s at %d of %d, limit %d, call %v with %s, limit %d (%s)", cabi.Show(vs), tuple, size, align, kind, place, n, limit, call, cabi.Show(args), maxP, g.enc)
	c.Sample("results %s of %d bytes aligned to %d, %s at %d of %d, call %v (%s)", tuple, size, align, kind, place, n, call, g.enc)
	c.State(tuple.String(), kind, call, limit, maxP)

	g.h.Watch()
	var err error
	if call {
		ft := (&cabi.Func{Params: params, Results: ts}).Type()
		in := cabi.ToAny(core)
		for _, o := range out {
			in = append(in, o)
		}
		c.Try("CanonLower", func() {
			_, err = io.CanonLower(g.opts, g.inst, func([]any) ([]any, types.PostReturnFunc, error) { return host, nil, nil }, c.Chance(2), ft, in, maxP, limit)
		})
	} else {
		c.Try("LowerValues", func() {
			_, err = io.LowerValues(g.cx(), limit, host, vals, values.NewIterator(out...))
		})
	}
	c.Eval()
	var dst []cabi.Region
	if good {
		dst = append(dst, cabi.Region{Ptr: place, Len: size})
	}
	if oerr := g.h.Outside(dst...); oerr != nil {
		c.Fail("%s at %d: %v (%v)", kind, place, oerr, err)
	}
	switch {
	case good && err != nil:
		c.Fail("the results were not written to a %s: %v", kind, err)
	case good:
		if err := g.receiveAt(ts, vs, place); err != nil {
			c.Fail("results at %d: %v", place, err)
		}
	case err == nil && (out == nil || kind == "place of another kind" || place+size > uint64(g.h.Buf.Len()) || place%align != 0):
		c.Fail("results of %d bytes aligned to %d were written although there was a %s (%v) in %d bytes of memory", size, align, kind, out, g.h.Buf.Len())
	}
}
