package checks

import (
	"fmt"
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A03",
		Rule:     "a case generates a type or signature and compares its size, alignment, discriminant width, flat core types and core signatures with an independent computation, dense around 8/16/32/64 labels, 256 and 65536 cases and the flat limits; a state is the type or signature with the limits",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append(typeEvents(), "layout compared", "signature compared", "params spilled", "results spilled", "discriminant 1", "discriminant 2", "discriminant 4", "pointer aligned"),
		Run:      runA03,
	})
}

var kindNames = map[kind.Kind]string{kind.U32: cabi.I32, kind.U64: cabi.I64, kind.Float32: cabi.FL32, kind.Float64: cabi.FL64}

func kinds(ks []kind.Kind) []string {
	var out []string
	for _, k := range ks {
		n, ok := kindNames[k]
		if !ok {
			n = fmt.Sprintf("kind(%v)", k)
		}
		out = append(out, n)
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runA03(c *mon.Case) {
	gen := newGen(c, others()...)
	switch c.R.IntN(8) {
	case 0, 1, 2:
		f := gen.Signature()
		maxP, maxR := 16, 1
		if c.R.IntN(3) == 0 {
			maxP, maxR = c.R.IntN(20), c.R.IntN(20)
		}
		for _, t := range append(append([]*cabi.T{}, f.Params...), f.Results...) {
			observe(c, t)
		}
		params, results := cabi.FlatAll(f.Params), cabi.FlatAll(f.Results)
		if len(params) > maxP {
			params = []string{cabi.I32}
			c.Event("params spilled")
		}
		lowered, lifted := params, params
		loweredR, liftedR := results, results
		if len(results) > maxR {
			lowered = append(append([]string{}, params...), cabi.I32)
			loweredR = nil
			liftedR = []string{cabi.I32}
			c.Event("results spilled")
		}
		c.Log("signature %s with limits %d %d", f, maxP, maxR)
		c.Sample("signature %s with limits %d %d", f, maxP, maxR)
		c.Try("FlattenFuncType", func() {
			lower, err := io.FlattenFuncTypeLower(f.Type(), maxP, maxR)
			if err != nil {
				c.Fail("FlattenFuncTypeLower: %v", err)
			}
			if !sameStrings(kinds(lower.Params()), lowered) || !sameStrings(kinds(lower.Results()), loweredR) {
				c.Fail("lowered signature is %v -> %v, expected %v -> %v", kinds(lower.Params()), kinds(lower.Results()), lowered, loweredR)
			}
			lift, err := io.FlattenFuncTypeLift(f.Type(), maxP, maxR)
			if err != nil {
				c.Fail("FlattenFuncTypeLift: %v", err)
			}
			if !sameStrings(kinds(lift.Params()), lifted) || !sameStrings(kinds(lift.Results()), liftedR) {
				c.Fail("lifted signature is %v -> %v, expected %v -> %v", kinds(lift.Params()), kinds(lift.Results()), lifted, liftedR)
			}
		})
		c.Event("signature compared")
		c.State(f.String(), maxP, maxR)
	case 3:
		// pointers
		for i := 0; i < 20; i++ {
			align := uint32(1) << c.R.IntN(4)
			ptr := c.R.Uint32()
			if c.R.IntN(2) == 0 {
				ptr = math.MaxUint32 - uint32(c.R.IntN(20))
			} else if c.R.IntN(2) == 0 {
				ptr = uint32(c.R.IntN(100))
			}
			want := (uint64(ptr) + uint64(align) - 1) / uint64(align) * uint64(align)
			c.Try("AlignTo", func() {
				got, err := io.AlignTo(ptr, align)
				if want > math.MaxUint32 {
					if err == nil {
						c.Fail("AlignTo(%d, %d) = %d although nothing is aligned up there", ptr, align, got)
					}
				} else if err != nil || uint64(got) != want {
					c.Fail("AlignTo(%d, %d) = %d, %v, expected %d", ptr, align, got, err, want)
				}
			})
			c.Event("pointer aligned")
			c.State("align", align, ptr%align, want > math.MaxUint32)
		}
	default:
		t := gen.Type()
		observe(c, t)
		c.Log("type %s", t)
		c.Sample("type %s", t)
		c.Try("layout", func() {
			size, err := io.Size(t.Val())
			if err != nil || uint64(size) != t.Size() {
				c.Fail("Size(%s) = %d, %v, expected %d", t, size, err, t.Size())
			}
			align, err := io.Alignment(t.Val())
			if err != nil || uint64(align) != t.Align() {
				c.Fail("Alignment(%s) = %d, %v, expected %d", t, align, err, t.Align())
			}
			flat, err := io.FlattenType(t.Val())
			if err != nil || !sameStrings(kinds(flat), t.Flat()) {
				c.Fail("FlattenType(%s) = %v, %v, expected %v", t, kinds(flat), err, t.Flat())
			}
		})
		t.Walk(func(x *cabi.T) {
			switch x.K {
			case cabi.Variant, cabi.Enum, cabi.Union, cabi.Option, cabi.Result:
				n := len(x.CasesOf())
				switch {
				case n <= 256:
					c.Event("discriminant 1")
				case n <= 65536:
					c.Event("discriminant 2")
				default:
					c.Event("discriminant 4")
				}
			}
		})
		c.Event("layout compared")
		c.State(t.String())
	}
	c.Eval()
}
