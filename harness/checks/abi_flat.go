package checks

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A07",
		Rule:     "a case lowers values to core values and compares every core value and the memory behind it with an independent computation, lifts core values produced by an independent guest that leaves noise in ignored bits, and round-trips sequences of values through one iterator; a state is the type, encoding and direction",
		Quick:    400000,
		Thorough: 4000000,
		Need:     append(typeEvents(), "lowered", "lifted", "round trip", "consumed exactly"),
		Run:      runA07,
	})
}

func runA07(c *mon.Case) {
	g := newGuest(c)
	defer g.highGuest()()
	op := c.R.IntN(3)
	res := others()
	if op != 2 {
		res = append(res, types.NewResourceType(nil, g.inst))
	}
	gen := newGen(c, res...)
	gen.Hollow = true
	var ts []*cabi.T
	var vs []any
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		t := gen.Type()
		gen.Budget = 200
		ts = append(ts, t)
		vs = append(vs, gen.Value(t))
		observe(c, t)
		c.State(t.String(), g.enc, op)
	}
	c.Sample("%s as %s (%s)", cabi.Show(vs[0]), ts[0], g.enc)
	switch op {
	case 0:
		for i, t := range ts {
			c.Log("lower %s as %s (%s)", cabi.Show(vs[i]), t, g.enc)
			var flat []values.Value
			c.Try("LowerFlat", func() {
				var err error
				flat, err = io.LowerFlat(g.cx(), vs[i], t.Val())
				if err != nil {
					c.Fail("LowerFlat of a valid value failed: %v", err)
				}
			})
			core, err := cabi.FromValues(flat)
			if err != nil {
				c.Fail("LowerFlat: %v", err)
			}
			r := g.reader(true)
			if err := r.CheckFlat(t, vs[i], core); err != nil {
				c.Fail("LowerFlat of %s as %s gave %v: %v", cabi.Show(vs[i]), t, core, err)
			}
			checkRegions(c, g, r)
			c.Event("lowered")
			c.Eval()
		}
	case 1:
		var core []cabi.Core
		var marks []int
		w := g.writer()
		for i, t := range ts {
			core = append(core, w.LowerFlat(t, vs[i])...)
			marks = append(marks, len(core))
		}
		core = append(core, cabi.Core{K: cabi.I32, Bits: 0xfeedface})
		c.Log("lift %v as %v (%s)", core, ts, g.enc)
		vi := values.NewIterator(cabi.ToValues(core)...)
		cx := g.cx()
		for i, t := range ts {
			c.Try("LiftFlat", func() {
				got, err := io.LiftFlat(cx, vi, t.Val())
				if err != nil {
					c.Fail("LiftFlat of valid core values failed: %v", err)
				}
				if want := cabi.Normal(t, vs[i]); !same(got, want) {
					c.Fail("lifted %s, expected %s as %s", cabi.Show(got), cabi.Show(want), t)
				}
			})
			c.Event("lifted")
			c.Eval()
		}
		rest, err := vi.Next(kind.U32)
		if err != nil || rest != uint32(0xfeedface) {
			c.Fail("after lifting %v the next core value is %v (%v)", ts, rest, err)
		}
		c.Event("consumed exactly")
	default:
		var flat []values.Value
		cx := g.cx()
		for i, t := range ts {
			c.Log("lower %s as %s (%s)", cabi.Show(vs[i]), t, g.enc)
			c.Try("LowerFlat", func() {
				f, err := io.LowerFlat(cx, vs[i], t.Val())
				if err != nil {
					c.Fail("LowerFlat of a valid value failed: %v", err)
				}
				flat = append(flat, f...)
			})
		}
		vi := values.NewIterator(flat...)
		for i, t := range ts {
			c.Try("LiftFlat", func() {
				got, err := io.LiftFlat(cx, vi, t.Val())
				if err != nil {
					c.Fail("LiftFlat of lowered values failed: %v", err)
				}
				if want := cabi.Normal(t, vs[i]); !same(got, want) {
					c.Fail("lifted %s, lowered %s as %s", cabi.Show(got), cabi.Show(want), t)
				}
			})
			c.Event("round trip")
			c.Eval()
		}
	}
}
