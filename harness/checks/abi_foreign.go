package checks

import (
	"fmt"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/cabi"
	"verif/harness/mon"
)

var foreignWraps = []string{"record", "tuple", "variant", "option", "result", "union", "list"}

func init() {
	need := []string{"foreign itself", "case not chosen", "empty list", "size", "flatten", "signature lower", "signature lift", "load", "store", "lift", "lower", "lift values", "lift spilled", "lower values", "lower spilled", "CanonLower", "CanonLift", "CanonLower result", "CanonLift result"}
	for _, w := range foreignWraps {
		need = append(need, "in "+w)
	}
	mon.Register(&mon.Prop{
		ID:       "A15",
		Rule:     "a case puts a type without a layout (a stream) at a generated place inside records, tuples, variants, options, results, unions and lists, asks for layout and signatures, loads, stores, lifts and lowers with otherwise valid values and memory, and requires an error wherever the layout of that part is needed; a state is the chain of containers with the operation",
		Quick:    300000,
		Thorough: 3000000,
		Need:     need,
		Run:      runA15,
	})
}

// foreign is a type with a part that has no layout.
type foreign struct {
	t    types.ValType
	v    any
	desc string
	// below is set when the part is the element of a list.
	below bool
	// reached is set when the value contains the part or its list.
	reached bool
}

func newForeign(c *mon.Case, gen *cabi.Gen) *foreign {
	f := &foreign{t: types.NewStream(types.NewU8(), types.NewU8()), v: pickAny(c, uint8(1), "x", map[string]any{}, nil), desc: "stream", reached: true}
	depth := c.R.IntN(5)
	if depth == 0 {
		c.Event("foreign itself")
	}
	for ; depth > 0; depth-- {
		f.wrap(c, gen)
	}
	return f
}

// wrap puts the type into a container, among generated types.
func (f *foreign) wrap(c *mon.Case, gen *cabi.Gen) {
	kind := foreignWraps[c.R.IntN(len(foreignWraps))]
	c.Event("in " + kind)
	n := 1 + c.R.IntN(4)
	at := c.R.IntN(n)
	// other gives the type and value of the part at i
	var part []types.ValType
	var val []any
	for i := 0; i < n; i++ {
		if i == at {
			part, val = append(part, f.t), append(val, f.v)
			continue
		}
		t := gen.Type()
		if c.Chance(2) {
			t = cabi.Prim([]cabi.Kind{cabi.U8, cabi.U32, cabi.Char, cabi.Bool}[c.R.IntN(4)])
		}
		part, val = append(part, t.Val()), append(val, gen.Value(t))
	}
	desc := f.desc
	f.desc = fmt.Sprintf("%s[%d/%d] of %s", kind, at, n, desc)
	chosen := at
	if c.Chance(3) {
		chosen = c.R.IntN(n)
	}
	choose := func(label string) {
		f.v = map[string]any{label: val[chosen]}
		if chosen != at {
			f.reached = false
			c.Event("case not chosen")
		}
	}
	switch kind {
	case "record":
		var fs []types.Field
		m := map[string]any{}
		for i := range part {
			l := "f" + itoa(i)
			fs = append(fs, types.Field{Label: l, Type: part[i]})
			m[l] = val[i]
		}
		f.t, f.v = types.NewRecord(fs...), m
	case "tuple":
		m := map[string]any{}
		for i := range part {
			m[itoa(i)] = val[i]
		}
		f.t, f.v = types.NewTuple(part...), m
	case "variant":
		var cs []types.Case
		for i := range part {
			t := part[i]
			if i != at && c.Chance(4) {
				t, val[i] = nil, nil
			}
			cs = append(cs, types.NewCase("c"+itoa(i), t))
		}
		f.t = types.NewVariant(cs...)
		choose("c" + itoa(chosen))
	case "union":
		f.t = types.NewUnion(part...)
		choose(itoa(chosen))
	case "option":
		f.t = types.NewOption(f.t)
		f.v = map[string]any{"some": f.v}
		if c.Chance(3) {
			f.v = map[string]any{"none": nil}
			f.reached = false
			c.Event("case not chosen")
		}
	case "result":
		other := gen.Type()
		ov := gen.Value(other)
		labels := []string{"ok", "error"}
		hole := c.R.IntN(2)
		ts := []types.ValType{other.Val(), other.Val()}
		ts[hole] = f.t
		f.t = types.NewResult(ts[0], ts[1])
		if c.Chance(3) {
			f.v = map[string]any{labels[1-hole]: ov}
			f.reached = false
			c.Event("case not chosen")
		} else {
			f.v = map[string]any{labels[hole]: f.v}
		}
	case "list":
		var l []any
		k := c.R.IntN(3)
		for i := 0; i < k; i++ {
			l = append(l, f.v)
		}
		if l == nil {
			l = []any{}
			if f.below {
				// the inner list is not there any more
				f.reached = false
			}
			c.Event("empty list")
		}
		f.t, f.v = types.NewList(f.t), l
		if !f.below {
			// the list needs the layout of its elements; an empty one need not
			f.reached = k > 0
		}
		f.below = true
	}
}

func runA15(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c, others()...)
	gen.Budget = 60
	gen.Depth = 2
	f := newForeign(c, gen)
	ptr := g.h.Alloc(4096, 16)
	// zero is a valid discriminant, length and pointer
	if b := g.h.Mem()[ptr : ptr+4096]; c.Chance(2) {
		for i := range b {
			b[i] = 0
		}
	}
	c.Log("%s, needs a list: %v, in the value: %v", f.desc, f.below, f.reached)
	c.Sample("%s, needs a list: %v, in the value: %v", f.desc, f.below, f.reached)
	// refused reports whether the operation has to fail
	check := func(op string, refused bool, fn func() error) {
		var err error
		c.Try(op, func() { err = fn() })
		c.Eval()
		c.Event(op)
		c.State(f.desc, op, err == nil)
		c.Log("%s: %v", op, err)
		if refused && err == nil {
			c.Fail("%s accepted a type without layout: %s", op, f.desc)
		}
	}
	layout := !f.below
	ft := types.NewFuncType([]types.Parameter{{Name: "a", Type: types.NewU8()}, {Name: "x", Type: f.t}}, nil)
	rt := types.NewFuncType([]types.Parameter{{Name: "a", Type: types.NewU8()}}, []types.Parameter{{Name: "a", Type: types.NewU8()}, {Name: "x", Type: f.t}})
	pair := []types.ValType{types.NewU8(), f.t}
	zeros := cabi.ToAny(zeroCores())
	one := func() values.ValueIterator { return values.NewIterator(cabi.ToValues(zeroCores())...) }
	maxP, maxR := 16, 1
	if c.Chance(2) {
		maxP, maxR = c.R.IntN(4), c.R.IntN(4)
	}
	switch c.R.IntN(10) {
	case 0:
		check("size", layout, func() error { _, err := io.Size(f.t); return err })
		check("alignment", layout, func() error { _, err := io.Alignment(f.t); return err })
		check("flatten", layout, func() error { _, err := io.FlattenType(f.t); return err })
		check("flatten", layout, func() error { _, err := io.FlattenTypes(pair); return err })
	case 1:
		t := ft
		if c.Chance(2) {
			t = rt
		}
		check("signature lower", layout, func() error { _, err := io.FlattenFuncTypeLower(t, maxP, maxR); return err })
		check("signature lift", layout, func() error { _, err := io.FlattenFuncTypeLift(t, maxP, maxR); return err })
	case 2:
		check("load", layout, func() error { _, err := io.Load(g.cx(), f.t, uint32(ptr)); return err })
	case 3:
		check("store", layout || f.reached, func() error { return io.Store(g.cx(), f.v, f.t, uint32(ptr)) })
	case 4:
		check("lift", layout, func() error { _, err := io.LiftFlat(g.cx(), one(), f.t); return err })
	case 5:
		check("lower", layout || f.reached, func() error { _, err := io.LowerFlat(g.cx(), f.v, f.t); return err })
	case 6:
		check("lift values", layout, func() error { _, err := io.LiftValues(g.cx(), 1000, one(), pair); return err })
		check("lift spilled", layout, func() error { _, err := io.LiftValues(g.cx(), 0, one(), pair); return err })
	case 7:
		check("lower values", layout || f.reached, func() error {
			_, err := io.LowerValues(g.cx(), 1000, []any{uint8(1), f.v}, pair, nil)
			return err
		})
		check("lower spilled", layout || f.reached, func() error {
			_, err := io.LowerValues(g.cx(), 0, []any{uint8(1), f.v}, pair, nil)
			return err
		})
	case 8:
		called := false
		check("CanonLower", layout, func() error {
			_, err := io.CanonLower(g.opts, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
				called = true
				return []any{}, func() {}, nil
			}, c.Chance(2), ft, zeros, maxP, maxR)
			return err
		})
		if layout && called {
			c.Fail("CanonLower called the callee with a value of a type without layout: %s", f.desc)
		}
		called = false
		check("CanonLift", layout || f.reached, func() error {
			_, _, err := io.CanonLift(g.opts, newInstance(), func(any) (any, error) {
				called = true
				return []any{}, nil
			}, ft, []any{uint8(1), f.v}, maxP, maxR)
			return err
		})
		if (layout || f.reached) && called {
			c.Fail("CanonLift called the callee with a value of a type without layout: %s", f.desc)
		}
	case 9:
		check("CanonLower result", layout || f.reached, func() error {
			_, err := io.CanonLower(g.opts, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
				return []any{uint8(1), f.v}, func() {}, nil
			}, c.Chance(2), rt, zeros, maxP, maxR)
			return err
		})
		check("CanonLift result", layout, func() error {
			_, _, err := io.CanonLift(g.opts, newInstance(), func(any) (any, error) { return zeros, nil }, rt, []any{uint8(1)}, maxP, maxR)
			return err
		})
	}
}

// zeroCores gives core values that are zero.
func zeroCores() []cabi.Core {
	var cs []cabi.Core
	for i := 0; i < 12; i++ {
		cs = append(cs, cabi.Core{K: cabi.I32})
	}
	return cs
}
