package checks

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func replacedEvents() []string {
	var s []string
	for k := cabi.Bool; k <= cabi.Borrow; k++ {
		s = append(s, "replaced "+k.String())
	}
	return s
}

type node struct {
	t   *cabi.T
	v   any
	set func(any)
}

// nodes lists every place in a value.
func nodes(t *cabi.T, v any, set func(any), out *[]node) {
	*out = append(*out, node{t, v, set})
	switch t.K {
	case cabi.List:
		for i, e := range v.([]any) {
			nodes(t.Elem, e, func(x any) { v.([]any)[i] = x }, out)
		}
	case cabi.Record:
		for _, f := range t.Fields {
			nodes(f.T, v.(map[string]any)[f.Label], func(x any) { v.(map[string]any)[f.Label] = x }, out)
		}
	case cabi.Tuple:
		for i, e := range t.Elems {
			l := itoa(i)
			nodes(e, v.(map[string]any)[l], func(x any) { v.(map[string]any)[l] = x }, out)
		}
	case cabi.Variant, cabi.Enum, cabi.Union, cabi.Option, cabi.Result:
		cs := t.CasesOf()
		i, p := cabi.Match(cs, v)
		if cs[i].T != nil {
			for k := range v.(map[string]any) {
				nodes(cs[i].T, p, func(x any) { v.(map[string]any)[k] = x }, out)
			}
		}
	}
}

func itoa(i int) string {
	if i >= 10 {
		return itoa(i/10) + itoa(i%10)
	}
	return string(rune('0' + i))
}

type alien struct{ X int }

// wrong gives something that is not a value of type t, and its description.
func wrong(c *mon.Case, t *cabi.T, v any) (any, string) {
	aliens := []struct {
		v any
		s string
	}{
		{nil, "nil"}, {"text", "string"}, {true, "bool"}, {int(1), "int"}, {uint(1), "uint"},
		{float32(1), "float32"}, {float64(1), "float64"}, {[]any{uint8(1)}, "list"},
		{map[string]any{"no-such-label": uint8(1)}, "map"}, {alien{1}, "struct"}, {&alien{1}, "pointer"},
		{[]byte{1}, "bytes"}, {map[string]bool{"a": true}, "typed map"}, {complex64(1), "complex"},
		{uintptr(1), "uintptr"}, {uint64(1), "uint64"}, {int64(1), "int64"},
	}
	special := c.R.IntN(2) == 0
	switch t.K {
	case cabi.U8:
		if special {
			return pickAny(c, uint16(256), uint32(math.MaxUint32), uint64(1)<<40, int8(-1), int32(1)), "range"
		}
	case cabi.U16:
		if special {
			return pickAny(c, uint32(65536), uint64(1)<<33, int16(-1), int64(5)), "range"
		}
	case cabi.U32:
		if special {
			return pickAny(c, uint64(1)<<32, uint64(math.MaxUint64), int32(-1), int64(7)), "range"
		}
	case cabi.U64:
		if special {
			return pickAny(c, int64(-1), int64(1), int8(3)), "range"
		}
	case cabi.S8:
		if special {
			return pickAny(c, int16(128), int16(-129), int32(1000), int64(math.MinInt64), uint8(1)), "range"
		}
	case cabi.S16:
		if special {
			return pickAny(c, int32(32768), int32(-32769), int64(1)<<40, uint16(1)), "range"
		}
	case cabi.S32:
		if special {
			return pickAny(c, int64(1)<<31, int64(-1)<<40, uint32(1)), "range"
		}
	case cabi.S64:
		if special {
			return pickAny(c, uint64(1), uint64(math.MaxUint64)), "range"
		}
	case cabi.Char:
		if special {
			return pickAny(c, rune(0xd800), rune(0xdfff), rune(0x110000), rune(-1), rune(math.MaxInt32), rune(math.MinInt32)), "range"
		}
	case cabi.Record, cabi.Tuple:
		m := v.(map[string]any)
		if special && len(m) > 0 {
			out := map[string]any{}
			skip := c.R.IntN(len(m))
			i := 0
			// the field to leave out is chosen by position in the type
			var labels []string
			if t.K == cabi.Record {
				for _, f := range t.Fields {
					labels = append(labels, f.Label)
				}
			} else {
				for i := range t.Elems {
					labels = append(labels, itoa(i))
				}
			}
			for _, l := range labels {
				if i != skip {
					out[l] = m[l]
				}
				i++
			}
			return out, "missing field"
		}
	case cabi.Flags:
		m := v.(map[string]any)
		if special && len(t.Labels) > 0 {
			out := map[string]any{}
			for k, x := range m {
				out[k] = x
			}
			l := t.Labels[c.R.IntN(len(t.Labels))]
			if c.R.IntN(2) == 0 {
				delete(out, l)
				return out, "missing flag"
			}
			out[l] = pickAny(c, uint8(1), "true", nil)
			return out, "flag of another type"
		}
	case cabi.Variant, cabi.Enum, cabi.Union, cabi.Option, cabi.Result:
		if special {
			cs := t.CasesOf()
			switch c.R.IntN(4) {
			case 0:
				return map[string]any{}, "no case"
			case 1:
				m := map[string]any{"no-such-label": nil}
				for k, x := range v.(map[string]any) {
					m[k] = x
				}
				return m, "two cases"
			case 2:
				return map[string]any{"no-such-label|nor-this": nil}, "unknown case"
			}
			for _, k := range cs {
				if k.T != nil {
					return map[string]any{k.Label: &alien{2}}, "alien payload"
				}
			}
			return cs[0].Label, "label only"
		}
	}
	for {
		a := aliens[c.R.IntN(len(aliens))]
		switch t.K {
		case cabi.Bool:
			if a.s == "bool" {
				continue
			}
		case cabi.String:
			if a.s == "string" {
				continue
			}
		case cabi.F32:
			if a.s == "float32" {
				continue
			}
		case cabi.F64:
			if a.s == "float64" {
				continue
			}
		case cabi.List:
			if a.s == "list" {
				return []any{&alien{3}}, "list of aliens"
			}
		case cabi.Record, cabi.Tuple, cabi.Flags:
			if a.s == "map" {
				// extra labels are ignored; without labels of its own the
				// type accepts any map
				if t.Size() == 0 {
					continue
				}
				if t.K != cabi.Flags {
					continue
				}
			}
		case cabi.U64, cabi.U32, cabi.U16, cabi.U8:
			if a.s == "uint64" {
				continue
			}
		case cabi.S64, cabi.S32, cabi.S16, cabi.S8:
			if a.s == "int64" {
				continue
			}
		}
		return a.v, a.s
	}
}

func pickAny(c *mon.Case, vs ...any) any { return vs[c.R.IntN(len(vs))] }

func runA08(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c, others()...)
	gen.Budget = 80
	t := gen.Type()
	v := gen.Value(t)
	if c.Chance(10) {
		wrongNumber(c, g, gen, t, v)
		return
	}
	root := deepCopy(v)
	var ns []node
	nodes(t, root, func(x any) { root = x }, &ns)
	n := ns[c.R.IntN(len(ns))]
	bad, what := wrong(c, n.t, n.v)
	n.set(bad)
	op := c.R.IntN(4)
	ptr := g.h.Alloc(t.Size(), t.Align())
	g.h.Watch()
	c.Log("op %d with %s in place of a %s in %s (%s)", op, what, n.t, cabi.Show(root), t)
	c.Sample("op %d with %s in place of a %s in %s", op, what, n.t, t)
	var err error
	c.Try("operation with an ill-typed value", func() {
		switch op {
		case 0:
			err = io.Store(g.cx(), root, t.Val(), uint32(ptr))
			c.Event("store")
		case 1:
			_, err = io.LowerFlat(g.cx(), root, t.Val())
			c.Event("lower")
		case 2:
			_, err = io.LowerValues(g.cx(), 1000, []any{uint8(1), root}, []types.ValType{types.NewU8(), t.Val()}, nil)
			c.Event("lower values")
		case 3:
			_, err = io.LowerValues(g.cx(), 0, []any{uint8(1), root}, []types.ValType{types.NewU8(), t.Val()}, nil)
			c.Event("lower spilled")
		}
	})
	if err == nil {
		c.Fail("%s in place of a %s was accepted: %s as %s", what, n.t, cabi.Show(root), t)
	}
	var dst []cabi.Region
	if op == 0 {
		dst = append(dst, cabi.Region{Ptr: ptr, Len: t.Size()})
	}
	if err := g.h.Outside(dst...); err != nil {
		c.Fail("refused value: %v", err)
	}
	c.Event("replaced " + n.t.K.String())
	c.State(n.t.K, what, op)
	c.Eval()
}

// wrongNumber passes more or fewer values than there are types.
func wrongNumber(c *mon.Case, g *guest, gen *cabi.Gen, t *cabi.T, v any) {
	ts := []types.ValType{t.Val()}
	vs := []any{v}
	for n := c.R.IntN(3); n > 0; n-- {
		u := gen.Type()
		at := c.R.IntN(len(ts) + 1)
		ts = append(ts[:at], append([]types.ValType{u.Val()}, ts[at:]...)...)
		vs = append(vs[:at], append([]any{gen.Value(u)}, vs[at:]...)...)
	}
	what := "too few values"
	if c.Chance(2) {
		what = "too many values"
		for n := 1 + c.R.IntN(2); n > 0; n-- {
			vs = append(vs, deepCopy(vs[c.R.IntN(len(vs))]))
		}
	} else {
		vs = vs[:c.R.IntN(len(vs))]
	}
	limit := pickInt(c, 0, 1, 16, 1000)
	g.h.Watch()
	c.Log("%d values for %d types, limit %d", len(vs), len(ts), limit)
	var err error
	c.Try("lowering the wrong number of values", func() {
		_, err = io.LowerValues(g.cx(), limit, vs, ts, nil)
	})
	if err == nil {
		c.Fail("%d values for %d types were accepted", len(vs), len(ts))
	}
	if err := g.h.Outside(); err != nil {
		c.Fail("refused values: %v", err)
	}
	c.Event(what)
	c.State(what, limit, len(vs), len(ts))
	c.Eval()
}

func pickInt(c *mon.Case, vs ...int) int { return vs[c.R.IntN(len(vs))] }
