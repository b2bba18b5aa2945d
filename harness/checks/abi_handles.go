package checks

import (
	"errors"
	"fmt"
	"slices"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A11",
		Rule:     "a case runs a history of creating, reading, dropping, moving in and moving out handles over several instances and resource types, with stale and foreign indices and destructors that use the tables themselves, against a reference table; a state is the recent operations with the occupancy of the table",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"created", "read", "dropped", "moved in", "moved out", "stale index refused", "index reused", "destructor ran", "reentrant destructor", "table is compact", "crowded table", "dropped again in its destructor"},
		Run:      runA11,
	})
	mon.Register(&mon.Prop{
		ID:       "A12",
		Rule:     "a case runs a history of lending, borrowing, dropping, transferring and leaving calls over several call contexts against a reference model, or makes real calls whose guests keep borrows, give away borrows, pass a handle twice or drop a handle that is on loan; a state is the recent operations with the loan counts, or the scenario",
		Quick:    300000,
		Thorough: 3000000,
		Need:     []string{"lent", "borrowed", "drop of lent refused", "transfer of lent refused", "transfer of borrow refused", "leave refused", "left", "released after call", "call: borrow kept", "call: borrow returned as own", "call: drop while lent", "call: lent and moved", "call: moved and lent", "call: lent twice", "call: clean", "call: lent onward", "very many loans", "very many borrows"},
		Run:      runA12,
	})
	mon.Register(&mon.Prop{
		ID:       "A13",
		Rule:     "a case runs a tree of nested calls between instances and, at every callback (callee, allocator, destructor), probes whether each instance can be entered and left, comparing with a reference model of the call stack; a state is the stack with the probe and its outcome",
		Quick:    25000,
		Thorough: 250000,
		Need:     []string{"probe in callee", "probe in allocator", "entry refused", "entry allowed", "leave refused", "leave allowed", "usable after call", "refused call had no effect", "drop into busy instance refused", "reentry of local call allowed", "drop of own resource allowed", "drop into idle instance allowed", "deep stack"},
		Run:      runA13,
	})
}

type refHandle struct {
	rep   uint32
	own   bool
	lends int
	scope *refContext
}

type refContext struct {
	cx      *types.CallContext
	inst    int
	borrows int
	lenders []*refHandle
	open    bool
}

type refTable struct {
	live map[uint32]*refHandle
	ever map[uint32]bool
	peak int
}

type handleWorld struct {
	c     *mon.Case
	insts []*types.ComponentInstance
	res   []types.ResourceType
	tabs  map[[2]int]*refTable
	dtors []uint32
	expct []uint32
	rep   uint32
	// onDtor runs inside a destructor.
	onDtor func(rep uint32)
}

func newHandleWorld(c *mon.Case) *handleWorld {
	w := &handleWorld{c: c, tabs: map[[2]int]*refTable{}, rep: c.R.Uint32()}
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		w.insts = append(w.insts, newInstance())
	}
	dtor := func(rep uint32) {
		w.dtors = append(w.dtors, rep)
		if w.onDtor != nil {
			w.onDtor(rep)
		}
	}
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		var impl *types.ComponentInstance
		if k := c.R.IntN(len(w.insts) + 1); k < len(w.insts) {
			impl = w.insts[k]
		}
		w.res = append(w.res, types.NewResourceType(dtor, impl))
	}
	for i := range w.insts {
		for r := range w.res {
			w.tabs[[2]int{i, r}] = &refTable{live: map[uint32]*refHandle{}, ever: map[uint32]bool{}}
		}
	}
	return w
}

func (w *handleWorld) nextRep() uint32 {
	w.rep += 1 + w.c.R.Uint32N(5)
	return w.rep
}

// index picks a live, stale or foreign index.
func (w *handleWorld) index(i, r int) uint32 {
	c := w.c
	t := w.tabs[[2]int{i, r}]
	switch c.R.IntN(10) {
	case 0:
		return c.R.Uint32()
	case 1:
		return uint32(c.R.IntN(t.peak + 3))
	case 2:
		return ^uint32(0) - uint32(c.R.IntN(2))
	}
	if len(t.live) == 0 {
		return uint32(c.R.IntN(t.peak + 2))
	}
	k := c.R.IntN(len(t.live))
	for idx := uint32(0); ; idx++ {
		if _, ok := t.live[idx]; ok {
			if k == 0 {
				return idx
			}
			k--
		}
	}
}

// added records a new handle and checks its index.
func (w *handleWorld) added(i, r int, idx uint32, h *refHandle) {
	t := w.tabs[[2]int{i, r}]
	if old, ok := t.live[idx]; ok {
		w.c.Fail("index %d was given to a new handle while it belongs to the live handle for %d", idx, old.rep)
	}
	if t.ever[idx] {
		w.c.Event("index reused")
	}
	t.ever[idx] = true
	t.live[idx] = h
	if len(t.live) > t.peak {
		t.peak = len(t.live)
	}
	if int(idx) >= t.peak {
		w.c.Fail("new handle has index %d although at most %d handles were ever live", idx, t.peak)
	}
	w.c.Event("table is compact")
}

// verify compares every live handle, and some dead indices, with the model.
func (w *handleWorld) verify() {
	for i, inst := range w.insts {
		for r, rt := range w.res {
			t := w.tabs[[2]int{i, r}]
			for idx := uint32(0); int(idx) < t.peak+2; idx++ {
				h := t.live[idx]
				rep, err := io.CanonResourceRep(inst, rt, idx)
				if h == nil {
					if err == nil {
						w.c.Fail("instance %d resource %d: index %d is dead but gives %d", i, r, idx, rep)
					}
				} else if err != nil || rep != h.rep {
					w.c.Fail("instance %d resource %d: index %d gives %d, %v, expected %d", i, r, idx, rep, err, h.rep)
				}
			}
		}
	}
	if fmt.Sprint(w.dtors) != fmt.Sprint(w.expct) {
		w.c.Fail("destructors ran for %v, expected %v", w.dtors, w.expct)
	}
}

// crowd fills one table with many handles, removes some in random order and
// creates others.
func crowd(c *mon.Case) {
	n := 200 + c.R.IntN(400)
	switch {
	case c.Chance(10):
		n = 65536 + c.R.IntN(5000)
	case c.Chance(4):
		n = 1000 + c.R.IntN(9000)
	}
	peak := 0
	inst := newInstance()
	dropped := map[uint32]int{}
	rt := types.NewResourceType(func(rep uint32) { dropped[rep]++ }, []*types.ComponentInstance{inst, nil, newInstance()}[c.R.IntN(3)])
	live := map[uint32]uint32{}
	expect := map[uint32]int{}
	rep := c.R.Uint32()
	create := func(k int) {
		for ; k > 0; k-- {
			rep++
			v, err := io.CanonResourceNew(inst, rt, rep)
			idx, ok := v.(uint32)
			if err != nil || !ok {
				c.Fail("creating handle %d failed: %v, %v", len(live), v, err)
			}
			if _, ok := live[idx]; ok {
				c.Fail("index %d was given out twice, with %d handles live", idx, len(live))
			}
			live[idx] = rep
			peak = max(peak, len(live))
			if idx >= uint32(peak) {
				c.Fail("the new index is %d although at most %d handles were live, %d are now", idx, peak, len(live))
			}
		}
	}
	c.Sample("%d handles in one table", n)
	c.Try("crowd", func() {
		create(n)
		for round := 0; round < 3; round++ {
			var idx []uint32
			for i := range live {
				idx = append(idx, i)
			}
			slices.Sort(idx)
			switch c.R.IntN(3) {
			case 0:
				c.R.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
			case 1:
				slices.Reverse(idx)
			}
			for _, i := range idx[:c.R.IntN(len(idx))] {
				if err := io.CanonResourceDrop(inst, rt, i); err != nil {
					c.Fail("dropping handle %d failed: %v", i, err)
				}
				expect[live[i]]++
				delete(live, i)
			}
			for k := 0; k < 50; k++ {
				i := c.R.Uint32N(uint32(n + 10))
				_, ok := live[i]
				_, err := io.CanonResourceRep(inst, rt, i)
				if ok != (err == nil) {
					c.Fail("index %d, live=%v: %v", i, ok, err)
				}
			}
			if len(live) < n {
				create(c.R.IntN(n - len(live) + 1))
			}
			for i, want := range live {
				got, err := io.CanonResourceRep(inst, rt, i)
				if err != nil || got != want {
					c.Fail("index %d gives %d, %v, expected %d", i, got, err, want)
				}
			}
			if len(expect) != len(dropped) {
				c.Fail("%d destructors ran, expected %d", len(dropped), len(expect))
			}
			for r, k := range expect {
				if dropped[r] != k {
					c.Fail("the destructor of %d ran %d times, expected %d", r, dropped[r], k)
				}
			}
			c.Eval()
			c.State("crowd", n > 65535, round, len(live)/64)
			c.Event("crowded table")
			if len(live) == 0 {
				return
			}
		}
	})
}

// manyLoans lends a handle very often, or borrows very many.
func manyLoans(c *mon.Case) {
	n := 200 + c.R.IntN(400)
	if c.Chance(10) {
		n = 65536 + c.R.IntN(3)
	}
	inst := newInstance()
	rt := types.NewResourceType(nil, newInstance())
	if c.Chance(2) {
		v, err := io.CanonResourceNew(inst, rt, 77)
		if err != nil {
			c.Fail("creating a handle failed: %v", err)
		}
		idx := v.(uint32)
		ctxs := []*types.CallContext{{Instance: inst}}
		for i := c.R.IntN(3); i > 0; i-- {
			ctxs = append(ctxs, &types.CallContext{Instance: inst})
		}
		c.Sample("a handle lent %d times to %d calls", n, len(ctxs))
		c.Try("many loans", func() {
			for i := 0; i < n; i++ {
				if rep, err := io.LiftBorrow(ctxs[i%len(ctxs)], idx, types.NewBorrow(rt)); err != nil || rep != 77 {
					c.Fail("loan %d gave %d, %v", i, rep, err)
				}
				if i > n-5 || i%256 == 255 || i%65536 == 65535 {
					if err := io.CanonResourceDrop(inst, rt, idx); err == nil {
						c.Fail("the handle was dropped while lent %d times", i+1)
					}
					if _, err := io.LiftOwn(ctxs[0], idx, types.NewOwn(rt)); err == nil {
						c.Fail("the handle was moved while lent %d times", i+1)
					}
				}
			}
			for i, cx := range ctxs {
				if err := io.CanonResourceDrop(inst, rt, idx); err == nil {
					c.Fail("the handle was dropped while %d of %d calls are open", len(ctxs)-i, len(ctxs))
				}
				if err := cx.ExitCall(); err != nil {
					c.Fail("call %d could not end: %v", i, err)
				}
			}
			if err := io.CanonResourceDrop(inst, rt, idx); err != nil {
				c.Fail("the handle can not be dropped after %d loans ended: %v", n, err)
			}
		})
		c.Event("very many loans")
		c.State("loans", n > 65535, len(ctxs))
	} else {
		cx := &types.CallContext{Instance: inst}
		c.Sample("%d borrows in one call", n)
		c.Try("many borrows", func() {
			var idx []uint32
			for i := 0; i < n; i++ {
				v, err := io.LowerBorrow(cx, uint32(i), types.NewBorrow(rt))
				if err != nil {
					c.Fail("borrow %d failed: %v", i, err)
				}
				idx = append(idx, v)
				if i%256 == 255 || i > n-4 {
					if err := cx.ExitCall(); err == nil {
						c.Fail("the call ended with %d borrows", i+1)
					}
				}
			}
			c.R.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
			for i, x := range idx {
				if i%256 == 0 || i > n-4 {
					if err := cx.ExitCall(); err == nil {
						c.Fail("the call ended with %d borrows", n-i)
					}
				}
				if err := io.CanonResourceDrop(inst, rt, x); err != nil {
					c.Fail("dropping borrow %d failed: %v", x, err)
				}
			}
			if err := cx.ExitCall(); err != nil {
				c.Fail("the call could not end after %d borrows were dropped: %v", n, err)
			}
		})
		c.Event("very many borrows")
		c.State("borrows", n > 65535)
	}
	c.Eval()
}

func runA11(c *mon.Case) {
	if c.Chance(400) {
		crowd(c)
		return
	}
	w := newHandleWorld(c)
	steps := 20 + c.R.IntN(180)
	bias := c.R.IntN(3)
	var recent [3]string
	create := func(i, r int) {
		rep := w.nextRep()
		v, err := io.CanonResourceNew(w.insts[i], w.res[r], rep)
		idx, ok := v.(uint32)
		if err != nil || !ok {
			c.Fail("creating a handle gave %v, %v", v, err)
		}
		c.Log("new(%d,%d,%d) = %d", i, r, rep, idx)
		w.added(i, r, idx, &refHandle{rep: rep, own: true})
		c.Event("created")
	}
	depth := 0
	var dying [][3]int
	var drop func(i, r int, idx uint32)
	drop = func(i, r int, idx uint32) {
		t := w.tabs[[2]int{i, r}]
		h := t.live[idx]
		if h != nil {
			delete(t.live, idx)
			w.expct = append(w.expct, h.rep)
		}
		before := len(w.dtors)
		c.Log("drop(%d,%d,%d)", i, r, idx)
		dying = append(dying, [3]int{i, r, int(idx)})
		err := io.CanonResourceDrop(w.insts[i], w.res[r], idx)
		dying = dying[:len(dying)-1]
		if h == nil {
			if err == nil {
				c.Fail("dropping the dead index %d of instance %d resource %d succeeded", idx, i, r)
			}
			if len(w.dtors) != before {
				c.Fail("dropping a dead index ran a destructor")
			}
			c.Event("stale index refused")
			return
		}
		if err != nil {
			c.Fail("dropping the handle for %d failed: %v", h.rep, err)
		}
		c.Event("dropped")
		c.Event("destructor ran")
	}
	w.onDtor = func(rep uint32) {
		if depth > 2 || c.R.IntN(4) != 0 {
			return
		}
		depth++
		defer func() { depth-- }()
		c.Log("in the destructor of %d", rep)
		c.Event("reentrant destructor")
		i, r := c.R.IntN(len(w.insts)), c.R.IntN(len(w.res))
		switch c.R.IntN(4) {
		case 3:
			// the handle that is being dropped is gone already
			d := dying[len(dying)-1]
			drop(d[0], d[1], uint32(d[2]))
			c.Event("dropped again in its destructor")
		case 0:
			create(i, r)
		case 1:
			drop(i, r, w.index(i, r))
		default:
			create(i, r)
			drop(i, r, w.index(i, r))
		}
	}
	for s := 0; s < steps; s++ {
		i, r := c.R.IntN(len(w.insts)), c.R.IntN(len(w.res))
		inst, rt := w.insts[i], w.res[r]
		t := w.tabs[[2]int{i, r}]
		op := c.R.IntN(10)
		if bias == 1 && s < steps/2 && op > 4 || bias == 2 && s%20 < 8 {
			op = c.R.IntN(2)
		}
		name := ""
		c.Try("handle operation", func() {
			switch op {
			case 0, 1:
				name = "new"
				create(i, r)
			case 2:
				name = "lower"
				rep := w.nextRep()
				cx := &types.CallContext{Instance: inst}
				idx, err := io.LowerOwn(cx, rep, types.NewOwn(rt))
				if err != nil {
					c.Fail("moving in %d failed: %v", rep, err)
				}
				c.Log("lowerOwn(%d,%d,%d) = %d", i, r, rep, idx)
				w.added(i, r, idx, &refHandle{rep: rep, own: true})
				c.Event("moved in")
			case 3, 4, 5:
				name = "drop"
				drop(i, r, w.index(i, r))
			case 6, 7:
				name = "lift"
				idx := w.index(i, r)
				h := t.live[idx]
				cx := &types.CallContext{Instance: inst}
				rep, err := io.LiftOwn(cx, idx, types.NewOwn(rt))
				c.Log("liftOwn(%d,%d,%d) = %d, %v", i, r, idx, rep, err)
				if h == nil {
					if err == nil {
						c.Fail("moving out the dead index %d gave %d", idx, rep)
					}
					c.Event("stale index refused")
				} else {
					if err != nil || rep != h.rep {
						c.Fail("moving out index %d gave %d, %v, expected %d", idx, rep, err, h.rep)
					}
					delete(t.live, idx)
					c.Event("moved out")
				}
			default:
				name = "rep"
				idx := w.index(i, r)
				h := t.live[idx]
				rep, err := io.CanonResourceRep(inst, rt, idx)
				if (h != nil) != (err == nil) || h != nil && rep != h.rep {
					c.Fail("index %d of instance %d resource %d gives %d, %v", idx, i, r, rep, err)
				}
				c.Event("read")
			}
		})
		if s%8 == 0 || s == steps-1 {
			c.Try("verification", w.verify)
		}
		recent = [3]string{recent[1], recent[2], name}
		c.State(recent, len(t.live), t.peak)
		c.Eval()
	}
	c.Sample("%d steps over %d instances and %d resource types, %d destructors", steps, len(w.insts), len(w.res), len(w.dtors))
}

func runA12(c *mon.Case) {
	if c.Chance(1000) {
		manyLoans(c)
		return
	}
	if c.R.IntN(2) == 0 {
		lendCalls(c)
		return
	}
	w := newHandleWorld(c)
	var ctxs []*refContext
	steps := 20 + c.R.IntN(120)
	var recent [3]string
	for s := 0; s < steps; s++ {
		i, r := c.R.IntN(len(w.insts)), c.R.IntN(len(w.res))
		inst, rt := w.insts[i], w.res[r]
		t := w.tabs[[2]int{i, r}]
		var open []*refContext
		for _, x := range ctxs {
			if x.open && x.inst == i {
				open = append(open, x)
			}
		}
		name := ""
		c.Try("lending", func() {
			op := c.R.IntN(12)
			if len(open) == 0 && op > 3 {
				op = 3
			}
			switch op {
			case 0, 1:
				name = "new"
				rep := w.nextRep()
				v, err := io.CanonResourceNew(inst, rt, rep)
				if err != nil {
					c.Fail("creating a handle failed: %v", err)
				}
				w.added(i, r, v.(uint32), &refHandle{rep: rep, own: true})
				c.Log("new(%d,%d,%d) = %v", i, r, rep, v)
			case 2, 4, 5:
				name = "drop"
				idx := w.index(i, r)
				h := t.live[idx]
				before := len(w.dtors)
				err := io.CanonResourceDrop(inst, rt, idx)
				c.Log("drop(%d,%d,%d) = %v", i, r, idx, err)
				switch {
				case h == nil:
					if err == nil {
						c.Fail("dropping a dead index succeeded")
					}
				case h.lends > 0:
					if err == nil {
						c.Fail("dropping the handle for %d succeeded while it is lent %d times", h.rep, h.lends)
					}
					if len(w.dtors) != before {
						c.Fail("the destructor ran for a lent handle")
					}
					c.Event("drop of lent refused")
				default:
					if err != nil {
						c.Fail("dropping the handle for %d failed: %v", h.rep, err)
					}
					delete(t.live, idx)
					if h.own {
						w.expct = append(w.expct, h.rep)
					} else if h.scope != nil {
						h.scope.borrows--
					}
				}
			case 3:
				name = "enter"
				x := &refContext{inst: i, open: true, cx: &types.CallContext{Instance: inst}}
				ctxs = append(ctxs, x)
				c.Log("context %d of instance %d", len(ctxs)-1, i)
			case 6, 7:
				name = "lend"
				x := open[c.R.IntN(len(open))]
				idx := w.index(i, r)
				h := t.live[idx]
				rep, err := io.LiftBorrow(x.cx, idx, types.NewBorrow(rt))
				c.Log("liftBorrow(%d,%d,%d) = %d, %v", i, r, idx, rep, err)
				if h == nil {
					if err == nil {
						c.Fail("lending a dead index gave %d", rep)
					}
				} else {
					if err != nil || rep != h.rep {
						c.Fail("lending index %d gave %d, %v, expected %d", idx, rep, err, h.rep)
					}
					h.lends++
					x.lenders = append(x.lenders, h)
					c.Event("lent")
				}
			case 8:
				name = "borrow"
				x := open[c.R.IntN(len(open))]
				rep := w.nextRep()
				idx, err := io.LowerBorrow(x.cx, rep, types.NewBorrow(rt))
				c.Log("lowerBorrow(%d,%d,%d) = %d, %v", i, r, rep, idx, err)
				if err != nil {
					c.Fail("borrowing %d failed: %v", rep, err)
				}
				if rt.Impl() == inst {
					if idx != rep {
						c.Fail("the implementing instance received %d instead of the representation %d", idx, rep)
					}
				} else {
					w.added(i, r, idx, &refHandle{rep: rep, scope: x})
					x.borrows++
				}
				c.Event("borrowed")
			case 9:
				name = "transfer"
				idx := w.index(i, r)
				h := t.live[idx]
				rep, err := io.LiftOwn(open[0].cx, idx, types.NewOwn(rt))
				c.Log("liftOwn(%d,%d,%d) = %d, %v", i, r, idx, rep, err)
				switch {
				case h == nil:
					if err == nil {
						c.Fail("moving out a dead index succeeded")
					}
				case h.lends > 0:
					if err == nil {
						c.Fail("the handle for %d moved while it is lent %d times", h.rep, h.lends)
					}
					c.Event("transfer of lent refused")
				case !h.own:
					if err == nil {
						c.Fail("the borrow handle for %d moved as if it was owned", h.rep)
					}
					c.Event("transfer of borrow refused")
				default:
					if err != nil || rep != h.rep {
						c.Fail("moving out index %d gave %d, %v, expected %d", idx, rep, err, h.rep)
					}
					delete(t.live, idx)
				}
			default:
				name = "leave"
				x := open[c.R.IntN(len(open))]
				err := x.cx.ExitCall()
				c.Log("exitCall of instance %d with %d borrows and %d loans = %v", i, x.borrows, len(x.lenders), err)
				if x.borrows > 0 {
					if err == nil {
						c.Fail("the call ended although %d borrows are held", x.borrows)
					}
					c.Event("leave refused")
				} else {
					if err != nil {
						c.Fail("the call could not end: %v", err)
					}
					for _, h := range x.lenders {
						h.lends--
					}
					if len(x.lenders) > 0 {
						c.Event("released after call")
					}
					x.open = false
					c.Event("left")
				}
			}
		})
		if s%8 == 0 || s == steps-1 {
			c.Try("verification", w.verify)
		}
		lends := 0
		for _, h := range t.live {
			lends += h.lends
		}
		recent = [3]string{recent[1], recent[2], name}
		c.State(recent, len(t.live), lends)
		c.Eval()
	}
	c.Sample("%d steps over %d instances, %d contexts", steps, len(w.insts), len(ctxs))
}

// lendCalls makes real calls whose guests use and misuse loans.
func lendCalls(c *mon.Case) {
	a, b, d := newGuest(c), newGuest(c), newGuest(c)
	var dropped []uint32
	impl := newInstance()
	var rt types.ResourceType
	dtor := func(rep uint32) { dropped = append(dropped, rep) }
	switch c.R.IntN(3) {
	case 0:
		rt = types.NewResourceType(dtor, impl)
	case 1:
		rt = types.NewResourceType(dtor, nil)
	default:
		rt = types.NewResourceType(dtor, a.inst)
	}
	own := &cabi.T{K: cabi.Own, Res: rt}
	borrow := &cabi.T{K: cabi.Borrow, Res: rt}
	scenarios := []string{"clean", "borrow kept", "borrow returned as own", "drop while lent", "lent and moved", "moved and lent", "lent twice", "lent onward"}
	sc := scenarios[c.R.IntN(len(scenarios))]
	rep := c.R.Uint32()
	idx, err := io.CanonResourceNew(a.inst, rt, rep)
	if err != nil {
		c.Fail("creating a handle failed: %v", err)
	}
	index := idx.(uint32)
	// unrelated handles around it
	for n := c.R.IntN(3); n > 0; n-- {
		io.CanonResourceNew(a.inst, rt, c.R.Uint32())
	}
	params := []*cabi.T{borrow}
	results := []*cabi.T{}
	switch sc {
	case "lent and moved":
		params = []*cabi.T{borrow, own}
	case "moved and lent":
		params = []*cabi.T{own, borrow}
	case "lent twice":
		params = []*cabi.T{borrow, borrow}
	case "borrow returned as own":
		results = []*cabi.T{own}
	}
	pad := c.R.IntN(3) * 8
	for i := 0; i < pad; i++ {
		params = append(params, cabi.Prim(cabi.U32))
	}
	f := &cabi.Func{Params: params, Results: results}
	c.Log("%s: rep %d at %d, %d padding parameters, implemented by %v", sc, rep, index, pad, rt.Impl() != nil)
	c.Sample("%s: rep %d at %d, %d padding parameters", sc, rep, index, pad)
	bCalled := false
	take := func(g *guest, in any) []uint32 {
		core, err := cabi.FromAny(in.([]any))
		if err != nil {
			c.Fail("%v", err)
		}
		var idxs []uint32
		get := func(t *cabi.T, i uint32) (any, error) {
			idxs = append(idxs, i)
			return i, nil
		}
		r := &cabi.Reader{Mem: g.h.Mem(), Enc: g.enc, Handle: get}
		if len(cabi.FlatAll(params)) > 16 {
			if _, err := r.Load(tupleOf(params), core[0].Bits); err != nil {
				c.Fail("%v", err)
			}
		} else {
			for _, t := range params {
				_, core, err = r.LiftFlat(t, core)
				if err != nil {
					c.Fail("%v", err)
				}
			}
		}
		return idxs
	}
	calleeB := func(in any) (any, error) {
		bCalled = true
		idxs := take(b, in)
		for _, i := range idxs {
			got, err := io.CanonResourceRep(b.inst, rt, i)
			if err != nil || got != rep {
				c.Fail("the borrow resolves to %d, %v in the callee, expected %d", got, err, rep)
			}
		}
		if err := io.CanonResourceDrop(a.inst, rt, index); err == nil {
			c.Fail("the owner dropped a handle that is on loan")
		}
		if _, err := io.LiftOwn(a.cx(), index, types.NewOwn(rt)); err == nil {
			c.Fail("the owner gave away a handle that is on loan")
		}
		if len(dropped) != 0 {
			c.Fail("the destructor ran for a handle that is on loan")
		}
		switch sc {
		case "borrow kept":
			return []any{}, nil
		case "borrow returned as own":
			return []any{values.U32(idxs[0])}, nil
		case "lent onward":
			inner := &cabi.Func{Params: []*cabi.T{borrow}}
			calleeD := func(in any) (any, error) {
				core, _ := cabi.FromAny(in.([]any))
				i := uint32(core[0].Bits)
				got, err := io.CanonResourceRep(d.inst, rt, i)
				if err != nil || got != rep {
					c.Fail("the borrow resolves to %d, %v in the inner callee, expected %d", got, err, rep)
				}
				if err := io.CanonResourceDrop(b.inst, rt, idxs[0]); err == nil {
					c.Fail("a borrow was dropped while it is lent onward")
				}
				if err := io.CanonResourceDrop(d.inst, rt, i); err != nil {
					c.Fail("dropping the inner borrow failed: %v", err)
				}
				return []any{}, nil
			}
			_, err := io.CanonLower(b.opts, b.inst, func(in []any) ([]any, types.PostReturnFunc, error) {
				return io.CanonLift(d.opts, d.inst, calleeD, inner.Type(), in, 16, 1)
			}, true, inner.Type(), []any{values.U32(idxs[0])}, 16, 1)
			if err != nil {
				c.Fail("lending onward failed: %v", err)
			}
		}
		for _, i := range idxs {
			if err := io.CanonResourceDrop(b.inst, rt, i); err != nil {
				c.Fail("dropping a borrow failed: %v", err)
			}
		}
		if len(dropped) != 0 {
			c.Fail("dropping a borrow ran the destructor")
		}
		return []any{}, nil
	}
	w := a.writer()
	w.Handle = func(*cabi.T, any) uint32 { return index }
	vs := []any{}
	for _, t := range params {
		if t.K == cabi.U32 {
			vs = append(vs, c.R.Uint32())
		} else {
			vs = append(vs, rep)
		}
	}
	var core []cabi.Core
	if len(cabi.FlatAll(params)) > 16 {
		t := tupleOf(params)
		p := a.h.Alloc(t.Size(), t.Align())
		w.Store(t, asTuple(vs), p)
		core = []cabi.Core{{K: cabi.I32, Bits: p}}
	} else {
		for i, t := range params {
			core = append(core, w.LowerFlat(t, vs[i])...)
		}
	}
	var callErr error
	c.Try("call", func() {
		_, callErr = io.CanonLower(a.opts, a.inst, func(in []any) ([]any, types.PostReturnFunc, error) {
			return io.CanonLift(b.opts, b.inst, calleeB, f.Type(), in, 16, 1)
		}, true, f.Type(), cabi.ToAny(core), 16, 1)
	})
	c.Event("call: " + sc)
	c.State(sc, pad, rt.Impl() == nil, rt.Impl() == a.inst, index)
	c.Eval()
	switch sc {
	case "clean", "lent twice", "lent onward":
		if callErr != nil {
			c.Fail("the call failed: %v", callErr)
		}
		c.Try("drop after the call", func() {
			if err := io.CanonResourceDrop(a.inst, rt, index); err != nil {
				c.Fail("the handle can not be dropped after the call: %v", err)
			}
		})
		if fmt.Sprint(dropped) != fmt.Sprint([]uint32{rep}) {
			c.Fail("destructors ran for %v, expected %d", dropped, rep)
		}
	case "drop while lent":
		if callErr != nil {
			c.Fail("the call failed: %v", callErr)
		}
	default:
		if callErr == nil {
			c.Fail("%s was not reported", sc)
		}
		if !errors.Is(callErr, types.Trap()) {
			c.Fail("%s was reported as %v, not as a trap", sc, callErr)
		}
		if (sc == "lent and moved" || sc == "moved and lent") && bCalled {
			c.Fail("the callee ran although %s", sc)
		}
		if len(dropped) != 0 {
			c.Fail("a destructor ran")
		}
	}
}

// gate models one instance.
type gate struct {
	g     *guest
	enter bool
	leave bool
}

func runA13(c *mon.Case) {
	n := 2 + c.R.IntN(3)
	deep := c.Chance(100)
	if deep {
		n = 5 + c.R.IntN(25)
		if c.Chance(4) {
			n = 270
		}
		c.Event("deep stack")
	}
	var gs []*gate
	for i := 0; i < n; i++ {
		gs = append(gs, &gate{g: newGuest(c), enter: true, leave: true})
	}
	empty := (&cabi.Func{}).Type()
	var stack []string
	push := func(s string) { stack = append(stack, s) }
	pop := func() { stack = stack[:len(stack)-1] }
	dtorRan := false
	rt := make([]types.ResourceType, n)
	for i := range gs {
		rt[i] = types.NewResourceType(func(uint32) { dtorRan = true }, gs[i].g.inst)
	}
	probing := false
	var probe func(where string)
	probe = func(where string) {
		if probing {
			return
		}
		probing = true
		defer func() { probing = false }()
		c.Event("probe in " + where)
		for i, g := range gs {
			if deep && !c.Chance(n) && i > 1 {
				continue
			}
			ran := false
			callsBefore := len(g.g.h.Calls)
			ok := g.enter && g.leave
			_, _, err := io.CanonLift(g.g.opts, g.g.inst, func(any) (any, error) { ran = true; return []any{}, nil }, empty, []any{}, 16, 1)
			if ok != (err == nil) || ok != ran {
				c.Fail("entering instance %d with stack %v: expected allowed=%v, got %v, callee ran=%v", i, stack, ok, err, ran)
			}
			if ok {
				c.Event("entry allowed")
			} else {
				c.Event("entry refused")
			}
			ran = false
			_, err = io.CanonLower(g.g.opts, g.g.inst, func([]any) ([]any, types.PostReturnFunc, error) { ran = true; return []any{}, nil, nil }, c.R.IntN(2) == 0, empty, []any{}, 16, 1)
			if ok != (err == nil) || ok != ran {
				c.Fail("leaving instance %d with stack %v: expected allowed=%v, got %v, callee ran=%v", i, stack, ok, err, ran)
			}
			if ok {
				c.Event("leave allowed")
			} else {
				c.Event("leave refused")
				if len(g.g.h.Calls) != callsBefore {
					c.Fail("a refused call reached the allocator")
				}
				c.Event("refused call had no effect")
			}
			c.State(stack, i, ok)
			c.Eval()
			if c.R.IntN(6) == 0 {
				// an instance may always drop what it implements itself
				idx, err := io.CanonResourceNew(g.g.inst, rt[i], 7)
				if err != nil {
					c.Fail("creating a handle failed: %v", err)
				}
				dtorRan = false
				err = io.CanonResourceDrop(g.g.inst, rt[i], idx.(uint32))
				if err != nil || !dtorRan {
					c.Fail("instance %d could not drop its own resource with stack %v (%v)", i, stack, err)
				}
				c.Event("drop of own resource allowed")
			}
			// dropping a resource implemented by the instance from outside
			o := gs[(i+1)%n]
			if g.enter && c.R.IntN(6) == 0 {
				idx, err := io.CanonResourceNew(o.g.inst, rt[i], 7)
				if err != nil {
					c.Fail("creating a handle failed: %v", err)
				}
				dtorRan = false
				err = io.CanonResourceDrop(o.g.inst, rt[i], idx.(uint32))
				if err != nil || !dtorRan {
					c.Fail("the destructor of instance %d was refused with stack %v (%v)", i, stack, err)
				}
				c.Event("drop into idle instance allowed")
			}
			if !g.enter && c.R.IntN(3) == 0 {
				idx, err := io.CanonResourceNew(o.g.inst, rt[i], 7)
				if err != nil {
					c.Fail("creating a handle failed: %v", err)
				}
				dtorRan = false
				err = io.CanonResourceDrop(o.g.inst, rt[i], idx.(uint32))
				if err == nil || dtorRan {
					c.Fail("the destructor of instance %d was entered with stack %v (%v)", i, stack, err)
				}
				c.Event("drop into busy instance refused")
			}
		}
	}
	for _, g := range gs {
		g.g.h.OnCall = func(int) {
			if c.R.IntN(3) == 0 {
				probe("allocator")
			}
		}
	}
	gen := newGen(c)
	gen.Depth = 2
	var call func(from, to, depth int)
	call = func(from, to, depth int) {
		x, y := gs[from], gs[to]
		f := gen.Signature()
		mk := func(ts []*cabi.T) []any {
			vs := []any{}
			for _, t := range ts {
				gen.Budget = 15
				vs = append(vs, gen.Value(t))
			}
			return vs
		}
		args, results := mk(f.Params), mk(f.Results)
		core := x.g.pass(f.Params, args, 16)
		if len(cabi.FlatAll(f.Results)) > 1 {
			t := tupleOf(f.Results)
			core = append(core, cabi.Core{K: cabi.I32, Bits: x.g.h.Alloc(t.Size(), t.Align())})
		}
		body := func(any) (any, error) {
			// lowering the arguments into y is over
			y.leave = true
			push(fmt.Sprintf("in %d", to))
			defer pop()
			probe("callee")
			k := c.R.IntN(3)
			if deep {
				k = 1
			}
			for ; k > 0 && depth > 0; k-- {
				// another call from y into an instance that can be entered
				var can []int
				for j, g := range gs {
					if g.enter && g.leave && j != to {
						can = append(can, j)
					}
				}
				if len(can) > 0 && y.enter {
					call(to, can[c.R.IntN(len(can))], depth-1)
					probe("callee")
				}
			}
			return cabi.ToAny(y.g.pass(f.Results, results, 1)), nil
		}
		importing := c.R.IntN(4) != 0
		push(fmt.Sprintf("%d->%d %v", from, to, importing))
		if importing {
			x.enter = false
		}
		callee := func(in []any) ([]any, types.PostReturnFunc, error) {
			probe("callee")
			if !importing && c.R.IntN(2) == 0 {
				c.Event("reentry of local call allowed")
			}
			y.leave = false
			rs, post, err := io.CanonLift(y.g.opts, y.g.inst, body, f.Type(), in, 16, 1)
			if err != nil {
				c.Fail("a call into instance %d with stack %v failed: %v", to, stack, err)
			}
			y.leave = true
			// lowering the results into x follows
			x.leave = false
			return rs, post, nil
		}
		_, err := io.CanonLower(x.g.opts, x.g.inst, callee, importing, f.Type(), cabi.ToAny(core), 16, 1)
		if err != nil {
			c.Fail("a call from instance %d with stack %v failed: %v", from, stack, err)
		}
		x.leave = true
		if importing {
			x.enter = true
		}
		pop()
	}
	c.Try("calls", func() {
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			from := c.R.IntN(n)
			depth := c.R.IntN(4)
			if deep {
				depth = n
				k = 1
			}
			call(from, (from+1+c.R.IntN(n-1))%n, depth)
			probe("callee")
			c.Event("usable after call")
		}
	})
	c.Sample("%d instances, %d probes", n, c.Evals)
}
