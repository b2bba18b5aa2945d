package checks

import (
	"errors"
	"fmt"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A10",
		Rule:     "a case makes one or more calls host to guest, guest to host or guest to guest with generated signatures around the flat limits, different memories and encodings, handles, and signatures related by refinement; independent guests on both sides observe arguments and results; a state is the topology with the signature, the encodings and what was spilled",
		Quick:    70000,
		Thorough: 700000,
		Need:     append(typeEvents(), "host to guest", "guest to host", "guest to guest", "params spilled", "params flat", "results spilled", "results flat", "post return once", "refined case narrowed", "own transferred", "own returned", "borrow lent", "callee failed"),
		Run:      runA10,
	})
}

// narrow derives a type whose variants lack some refining cases and list the
// others in another order.
func narrow(c *mon.Case, t *cabi.T) *cabi.T {
	if t == nil {
		return nil
	}
	out := &cabi.T{K: t.K, Labels: t.Labels, Res: t.Res}
	out.Elem = narrow(c, t.Elem)
	for _, e := range t.Elems {
		out.Elems = append(out.Elems, narrow(c, e))
	}
	for _, f := range t.Fields {
		out.Fields = append(out.Fields, cabi.Field{Label: f.Label, T: narrow(c, f.T)})
	}
	if t.K != cabi.Variant {
		return out
	}
	if len(t.Cases) > 20 {
		out.Cases = t.Cases
		return out
	}
	// the payload of a case and of the cases that refine it have to agree
	payload := map[*cabi.T]*cabi.T{}
	for _, k := range t.Cases {
		if k.Refines != "" && c.R.IntN(2) == 0 {
			continue
		}
		p, ok := payload[k.T]
		if !ok {
			p = narrow(c, k.T)
			payload[k.T] = p
		}
		out.Cases = append(out.Cases, cabi.Case{Label: k.Label, T: p, Refines: k.Refines})
	}
	if c.R.IntN(2) == 0 {
		c.R.Shuffle(len(out.Cases), func(i, j int) { out.Cases[i], out.Cases[j] = out.Cases[j], out.Cases[i] })
	}
	return out
}

func narrowAll(c *mon.Case, ts []*cabi.T) []*cabi.T {
	var out []*cabi.T
	for _, t := range ts {
		out = append(out, narrow(c, t))
	}
	return out
}

func tupleOf(ts []*cabi.T) *cabi.T { return &cabi.T{K: cabi.Tuple, Elems: ts} }

func asTuple(vs []any) map[string]any {
	m := map[string]any{}
	for i, v := range vs {
		m[fmt.Sprint(i)] = v
	}
	return m
}

// pass produces the core values with which guest g passes vs.
func (g *guest) pass(ts []*cabi.T, vs []any, limit int) []cabi.Core {
	w := g.writer()
	if len(cabi.FlatAll(ts)) <= limit {
		var out []cabi.Core
		for i, t := range ts {
			out = append(out, w.LowerFlat(t, vs[i])...)
		}
		return out
	}
	t := tupleOf(ts)
	ptr := g.h.Alloc(t.Size(), t.Align())
	w.Store(t, asTuple(vs), ptr)
	return []cabi.Core{{K: cabi.I32, Bits: ptr}}
}

// receive verifies that the core values are the canonical form of vs.
func (g *guest) receive(ts []*cabi.T, want []any, core []cabi.Core, limit int) error {
	r := g.reader(true)
	if len(cabi.FlatAll(ts)) <= limit {
		for i, t := range ts {
			n := len(t.Flat())
			if len(core) < n {
				return fmt.Errorf("%d core values are left for %s", len(core), t)
			}
			if err := r.CheckFlat(t, want[i], core[:n]); err != nil {
				return fmt.Errorf("value %d: %w", i, err)
			}
			core = core[n:]
		}
		if len(core) != 0 {
			return fmt.Errorf("%d core values too many", len(core))
		}
		return nil
	}
	if len(core) != 1 || core[0].K != cabi.I32 {
		return fmt.Errorf("core values %v instead of a pointer", core)
	}
	return g.receiveAt(ts, want, core[0].Bits)
}

func (g *guest) receiveAt(ts []*cabi.T, want []any, ptr uint64) error {
	t := tupleOf(ts)
	if ptr%t.Align() != 0 {
		return fmt.Errorf("pointer %d is not aligned to %d", ptr, t.Align())
	}
	got, err := g.reader(true).Load(t, ptr)
	if err != nil {
		return err
	}
	if w := cabi.Normal(t, asTuple(want)); !same(got, w) {
		return fmt.Errorf("guest reads %s, expected %s", cabi.Show(got), cabi.Show(w))
	}
	return nil
}

// handleUse is a handle that occurs in a value.
type handleUse struct {
	t   *cabi.T
	rep uint32
}

// handles lists the handles in a value.
func handles(t *cabi.T, v any, out *[]handleUse) {
	var ns []node
	nodes(t, v, func(any) {}, &ns)
	for _, n := range ns {
		if n.t.K == cabi.Own || n.t.K == cabi.Borrow {
			*out = append(*out, handleUse{n.t, n.v.(uint32)})
		}
	}
}

func allHandles(ts []*cabi.T, vs []any) []handleUse {
	var out []handleUse
	for i, t := range ts {
		handles(t, vs[i], &out)
	}
	return out
}

// live counts the handles with a representation in the table of g.
func (g *guest) live(rt types.ResourceType) map[uint32][]*types.HandleElem {
	out := map[uint32][]*types.HandleElem{}
	t := g.inst.Handles.ResourceTypeToTable[rt]
	if t == nil {
		return out
	}
	for i := range t.Array {
		if h, err := g.inst.Handles.Get(rt, uint32(i)); err == nil {
			out[h.Rep] = append(out[h.Rep], h)
		}
	}
	return out
}

// dropBorrows makes guest g drop every borrow handle it holds, as the code of
// a guest has to before it returns.
func (g *guest) dropBorrows(res []types.ResourceType) {
	for _, rt := range res {
		t := g.inst.Handles.ResourceTypeToTable[rt]
		if t == nil {
			continue
		}
		for i := range t.Array {
			h, err := g.inst.Handles.Get(rt, uint32(i))
			if err == nil && !h.Own {
				if err := io.CanonResourceDrop(g.inst, rt, uint32(i)); err != nil {
					g.c.Fail("dropping a borrow handle failed: %v", err)
				}
			}
		}
	}
}

func runA10(c *mon.Case) {
	a, b := newGuest(c), newGuest(c)
	dtors := 0
	dtor := func(uint32) { dtors++ }
	res := []types.ResourceType{
		types.NewResourceType(dtor, newInstance()),
		types.NewResourceType(dtor, nil),
		types.NewResourceType(dtor, a.inst),
		types.NewResourceType(dtor, b.inst),
	}
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		oneCall(c, a, b, res)
	}
	if dtors != 0 {
		c.Fail("%d destructors ran although nothing was dropped", dtors)
	}
}

var errGuest = errors.New("guest failed")

func oneCall(c *mon.Case, a, b *guest, res []types.ResourceType) {
	rep := c.R.Uint32N(1 << 30)
	nextRep := func(*cabi.T) uint32 {
		rep++
		return rep
	}
	gen := newGen(c, res...)
	gen.Hollow = true
	gen.Rep = nextRep
	if gen.Depth > 3 {
		gen.Depth = 3
	}
	fa := gen.Signature()
	fb := &cabi.Func{Params: fa.Params, Results: fa.Results}
	refined := c.R.IntN(3) == 0
	if refined {
		// arguments travel from a to b, results from b to a
		fb.Params = narrowAll(c, fa.Params)
		fa = &cabi.Func{Params: fa.Params, Results: narrowAll(c, fb.Results)}
	}
	maxP, maxR := 16, 1
	if c.R.IntN(3) == 0 {
		maxP, maxR = c.R.IntN(20), c.R.IntN(20)
	}
	mk := func(ts []*cabi.T) []any {
		vs := []any{}
		for _, t := range ts {
			gen.Budget = 60
			vs = append(vs, gen.Value(t))
		}
		return vs
	}
	through := func(from, to []*cabi.T, vs []any) []any {
		var out []any
		for i := range vs {
			n := cabi.Normal(to[i], cabi.Normal(from[i], vs[i]))
			if refined && !cabi.Equal(n, cabi.Normal(from[i], vs[i])) {
				c.Event("refined case narrowed")
			}
			out = append(out, n)
		}
		return out
	}
	args := mk(fa.Params)
	results := mk(fb.Results)
	wantArgs := through(fa.Params, fb.Params, args)
	wantResults := through(fb.Results, fa.Results, results)

	topo := c.R.IntN(3)
	name := []string{"host to guest", "guest to host", "guest to guest"}[topo]
	failing := c.R.IntN(12) == 0
	c.Log("%s call of %s with limits %d %d (%s %s): args %s results %s failing=%v", name, fa, maxP, maxR, a.enc, b.enc, cabi.Show(args), cabi.Show(results), failing)
	c.Sample("%s call of %s with limits %d %d (%s %s)", name, fa, maxP, maxR, a.enc, b.enc)

	posts := 0
	lowered := -1
	called := 0
	done := false
	b.opts.PostReturn = func() {
		posts++
		lowered = len(a.h.Calls)
		// the guest reuses its memory
		mem := b.h.Mem()
		for i := range mem {
			mem[i] = 0xdd
		}
	}
	if topo == 2 && c.R.IntN(4) == 0 {
		b.opts.PostReturn = nil
		posts = 1
	}
	guestB := func(in any) (any, error) {
		called++
		flat, ok := in.([]any)
		if !ok {
			c.Fail("the guest was called with %T", in)
		}
		core, err := cabi.FromAny(flat)
		if err != nil {
			c.Fail("the guest was called with %v", err)
		}
		if err := b.receive(fb.Params, wantArgs, core, maxP); err != nil {
			c.Fail("arguments of %s: %v", fb, err)
		}
		if topo == 2 {
			// the caller's handles are out on loan
			for _, u := range allHandles(fa.Params, args) {
				if u.t.K != cabi.Borrow {
					continue
				}
				for _, h := range a.live(u.t.Res)[u.rep] {
					if h.LendCount <= 0 {
						c.Fail("handle for %d is not marked as lent during the call", u.rep)
					}
				}
				c.Event("borrow lent")
			}
		}
		b.dropBorrows(res)
		if failing {
			if c.Chance(2) {
				return cabi.ToAny(b.pass(fb.Results, results, maxR)), errGuest
			}
			return nil, errGuest
		}
		return cabi.ToAny(b.pass(fb.Results, results, maxR)), nil
	}

	var err error
	delivered := 0
	switch topo {
	case 0:
		var got []any
		var post types.PostReturnFunc
		c.Try("CanonLift", func() {
			hostArgs := make([]any, len(args))
			for i := range args {
				hostArgs[i] = deepCopy(cabi.Normal(fa.Params[i], args[i]))
			}
			got, post, err = io.CanonLift(b.opts, b.inst, guestB, fb.Type(), hostArgs, maxP, maxR)
		})
		delivered = len(got)
		if err == nil {
			if posts != 0 {
				c.Fail("post-return ran before the results were consumed")
			}
			if post == nil {
				c.Fail("no post-return function")
			}
			post()
			want := []any{}
			for i, t := range fb.Results {
				want = append(want, cabi.Normal(t, results[i]))
			}
			if len(got) != len(want) {
				c.Fail("%d results, expected %d", len(got), len(want))
			}
			if !same(got, want) {
				c.Fail("results %s, expected %s", cabi.Show(got), cabi.Show(want))
			}
			done = true
		}
	default:
		core := a.pass(fa.Params, args, maxP)
		spilled := len(cabi.FlatAll(fa.Results)) > maxR
		var ret uint64
		if spilled {
			t := tupleOf(fa.Results)
			ret = a.h.Alloc(t.Size(), t.Align())
			core = append(core, cabi.Core{K: cabi.I32, Bits: ret})
		}
		callee := func(in []any) ([]any, types.PostReturnFunc, error) {
			if topo == 2 {
				return io.CanonLift(b.opts, b.inst, guestB, fb.Type(), in, maxP, maxR)
			}
			called++
			want := []any{}
			for i, t := range fa.Params {
				want = append(want, cabi.Normal(t, args[i]))
			}
			if !same(append([]any{}, in...), want) {
				c.Fail("the host was called with %s, expected %s", cabi.Show(in), cabi.Show(want))
			}
			out := []any{}
			for i, t := range fb.Results {
				out = append(out, cabi.Normal(t, results[i]))
			}
			if failing {
				if c.Chance(2) {
					return out, nil, errGuest
				}
				return nil, nil, errGuest
			}
			if c.R.IntN(2) == 0 {
				posts = 1
				return out, nil, nil
			}
			return out, func() {
				posts++
				lowered = len(a.h.Calls)
			}, nil
		}
		var flat []any
		area := ""
		c.Try("CanonLower", func() {
			if spilled {
				area = string(a.h.Mem()[ret : ret+tupleOf(fa.Results).Size()])
			}
			flat, err = io.CanonLower(a.opts, a.inst, callee, c.R.IntN(2) == 0, fa.Type(), cabi.ToAny(core), maxP, maxR)
		})
		delivered = len(flat)
		if failing && spilled && area != string(a.h.Mem()[ret:ret+uint64(len(area))]) {
			delivered++
		}
		if err == nil {
			if spilled {
				if err := a.receiveAt(fa.Results, wantResults, ret); err != nil {
					c.Fail("results of %s at %d: %v", fa, ret, err)
				}
			} else {
				out, err := cabi.FromAny(flat)
				if err != nil {
					c.Fail("results: %v", err)
				}
				if err := a.receive(fa.Results, wantResults, out, maxR); err != nil {
					c.Fail("results of %s: %v", fa, err)
				}
			}
			done = true
		}
	}
	if called != 1 {
		c.Fail("the callee was called %d times (%v)", called, err)
	}
	if failing {
		if err == nil {
			c.Fail("the failure of the callee was not reported")
		}
		if !errors.Is(err, errGuest) {
			c.Fail("the failure of the callee was reported as %v", err)
		}
		if delivered != 0 {
			c.Fail("results were delivered although the callee failed")
		}
		c.Event("callee failed")
		c.Eval()
		// what a failed call leaves behind is not specified
		*a = *newGuest(c)
		*b = *newGuest(c)
		return
	}
	if err != nil || !done {
		c.Fail("the call failed: %v", err)
	}
	if posts != 1 {
		c.Fail("post-return ran %d times", posts)
	}
	c.Event("post return once")
	if topo != 0 && lowered >= 0 && lowered != len(a.h.Calls) {
		c.Fail("post-return ran before the results were copied to the caller")
	}
	if topo != 0 {
		if !a.inst.MayEnter || !a.inst.MayLeave {
			c.Fail("the caller can not be entered or left after the call")
		}
		for _, u := range allHandles(fa.Params, args) {
			hs := a.live(u.t.Res)[u.rep]
			if u.t.K == cabi.Own {
				for _, h := range hs {
					if h.Own {
						c.Fail("the caller still holds the handle for %d it gave away", u.rep)
					}
				}
				c.Event("own transferred")
			} else {
				if len(hs) != 1 || hs[0].LendCount != 0 {
					c.Fail("the lent handle for %d is gone or still lent after the call", u.rep)
				}
			}
		}
	}
	if topo != 1 {
		for _, u := range allHandles(fb.Results, results) {
			if len(b.live(u.t.Res)[u.rep]) != 0 {
				c.Fail("the callee still holds the handle for %d it returned", u.rep)
			}
			c.Event("own returned")
		}
	}
	for _, t := range append(append([]*cabi.T{}, fa.Params...), fa.Results...) {
		observe(c, t)
	}
	spill := func(n, m int, what string) string {
		if n > m {
			c.Event(what + " spilled")
			return "spilled"
		}
		c.Event(what + " flat")
		return "flat"
	}
	p := spill(len(cabi.FlatAll(fa.Params)), maxP, "params")
	r := spill(len(cabi.FlatAll(fa.Results)), maxR, "results")
	c.Event(name)
	c.State(topo, fa.String(), a.enc, b.enc, p, r)
	c.Eval()
}
