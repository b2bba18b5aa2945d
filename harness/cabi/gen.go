package cabi

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/types"
)

// Gen generates types and values.
type Gen struct {
	R *rand.Rand
	// Depth limits nesting.
	Depth int
	// Budget limits the number of nodes of a value.
	Budget int
	// Hollow permits lists of elements that take no space.
	Hollow bool
	// Big allows shapes with many cases, labels or elements.
	Big bool
	// Resources are the resource types available for handles.
	Resources []types.ResourceType
	// Rep produces the representation for a handle value.
	Rep func(t *T) uint32
	// NoBorrow forbids borrow handles (results).
	NoBorrow bool
}

func (g *Gen) n(k int) int { return g.R.IntN(k) }

func pick[E any](r *rand.Rand, s []E) E { return s[r.IntN(len(s))] }

// Labels with shared prefixes, digits and case differences.
func labels(r *rand.Rand, n int) []string {
	out := make([]string, n)
	style := r.IntN(4)
	for i := range out {
		switch style {
		case 0:
			out[i] = fmt.Sprintf("l%d", i)
		case 1:
			out[i] = strings.Repeat("a", 1+i%7) + fmt.Sprint(i/7)
		case 2:
			out[i] = fmt.Sprintf("%d", n-1-i)
		default:
			out[i] = fmt.Sprintf("x-%x-y", i*7919)
		}
	}
	return out
}

var flagCounts = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 66, 95, 96, 97, 128, 129, 200, 256, 257, 513, 1025}
var caseCounts = []int{2, 3, 17, 127, 128, 129, 255, 256, 257, 300}
var hugeCounts = []int{65535, 65536, 65537}

// Type generates a type.
func (g *Gen) Type() *T { return g.typ(g.Depth) }

func (g *Gen) typ(d int) *T {
	if d <= 0 || g.n(4) == 0 {
		return g.leaf()
	}
	switch g.n(13) {
	case 0, 1:
		return g.leaf()
	case 2:
		return g.List(d)
	case 3, 4:
		n := g.n(6)
		if g.n(8) == 0 {
			n = 6 + g.n(14)
		}
		ls := labels(g.R, n)
		t := &T{K: Record}
		for _, l := range ls {
			t.Fields = append(t.Fields, Field{l, g.typ(d - 1)})
		}
		if wide := g.wide(); wide > 0 {
			t.Fields = nil
			for _, l := range labels(g.R, wide) {
				t.Fields = append(t.Fields, Field{l, g.leaf()})
			}
		}
		return t
	case 5:
		t := &T{K: Tuple}
		g.elems(t, d)
		return t
	case 6, 7:
		return g.Variant(d)
	case 8:
		t := &T{K: Union}
		g.elems(t, d)
		return t
	case 9:
		if g.n(40) == 0 {
			return g.chain()
		}
		return &T{K: Option, Elem: g.typ(d - 1)}
	case 10:
		t := &T{K: Result, Elems: []*T{nil, nil}}
		for i := range t.Elems {
			if g.n(3) != 0 {
				t.Elems[i] = g.typ(d - 1)
			}
		}
		return t
	case 11:
		return g.FlagsType()
	}
	return g.EnumType()
}

// wide is sometimes a large number of components.
func (g *Gen) wide() int {
	switch {
	case g.n(40) == 0:
		return 9 + g.n(30)
	case g.Big && g.n(8) == 0:
		return 100 + g.n(200)
	}
	return 0
}

func (g *Gen) elems(t *T, d int) {
	if n := g.wide(); n > 0 {
		for ; n > 0; n-- {
			t.Elems = append(t.Elems, g.leaf())
		}
		return
	}
	for n := 1 + g.n(5); n > 0; n-- {
		t.Elems = append(t.Elems, g.typ(d-1))
	}
}

// chain generates a type nested many levels deep.
func (g *Gen) chain() *T {
	t := g.leaf()
	n := 6 + g.n(30)
	if g.Big && g.n(4) == 0 {
		n = 100 + g.n(200)
	}
	for ; n > 0; n-- {
		switch g.n(5) {
		case 0, 1:
			t = &T{K: Option, Elem: t}
		case 2:
			t = &T{K: Tuple, Elems: []*T{t}}
		case 3:
			t = &T{K: Result, Elems: []*T{nil, t}}
		default:
			t = &T{K: Variant, Cases: []Case{{Label: "a"}, {Label: "b", T: t}}}
		}
	}
	return t
}

// List generates a list whose elements take space.
func (g *Gen) List(d int) *T {
	for {
		e := g.typ(d - 1)
		if e.Size() > 0 || g.Hollow {
			return &T{K: List, Elem: e}
		}
	}
}

// FlagsType generates flags.
func (g *Gen) FlagsType() *T {
	n := pick(g.R, flagCounts)
	if g.n(3) == 0 {
		n = g.n(40)
	}
	return &T{K: Flags, Labels: labels(g.R, n)}
}

// EnumType generates an enum.
func (g *Gen) EnumType() *T {
	n := 1 + g.n(5)
	if g.n(4) == 0 {
		n = pick(g.R, caseCounts)
	}
	if g.Big && g.n(12) == 0 {
		n = pick(g.R, hugeCounts)
	}
	return &T{K: Enum, Labels: labels(g.R, n)}
}

// Variant generates a variant, sometimes with refinements.
func (g *Gen) Variant(d int) *T {
	n := 1 + g.n(5)
	if g.n(6) == 0 {
		n = pick(g.R, caseCounts)
	}
	if g.Big && g.n(30) == 0 {
		n = pick(g.R, hugeCounts)
	}
	ls := labels(g.R, n)
	t := &T{K: Variant}
	refine := g.n(3) == 0
	for i, l := range ls {
		c := Case{Label: l}
		if g.n(3) != 0 {
			if n > 20 {
				if g.n(n) < 12 {
					c.T = g.leaf()
				}
			} else {
				c.T = g.typ(d - 1)
			}
		}
		if refine && i > 0 && g.n(2) == 0 {
			// refine an earlier case; same payload
			j := g.n(i)
			c.Refines = ls[j]
			c.T = t.Cases[j].T
		}
		t.Cases = append(t.Cases, c)
	}
	return t
}

func (g *Gen) leaf() *T {
	if len(g.Resources) > 0 && g.n(5) == 0 {
		k := Own
		if !g.NoBorrow && g.n(2) == 0 {
			k = Borrow
		}
		return &T{K: k, Res: pick(g.R, g.Resources)}
	}
	return Prim(Kind(g.n(int(String) + 1)))
}

var chars = []rune{0, 'a', 'Z', 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff}

func (g *Gen) Char() rune {
	if g.n(2) == 0 {
		return pick(g.R, chars)
	}
	for {
		c := rune(g.n(0x110000))
		if c < 0xd800 || c >= 0xe000 {
			return c
		}
	}
}

// Str generates a string over one of several alphabets.
func (g *Gen) Str() string {
	n := g.n(10)
	huge := false
	switch {
	case g.n(4) == 0:
		n = 0
	case g.n(6) == 0:
		n = g.n(200)
	case g.n(60) == 0:
		n = 1000 + g.n(5000)
	case g.Big && g.n(100) == 0:
		n = 60000 + g.n(20000)
		if g.n(20) == 0 {
			n = 1<<20 - 10 + g.n(1000)
			huge = g.n(8) == 0
		}
	}
	alphabet := g.n(6)
	if huge {
		n = 1<<24 - 10 + g.n(1000)
		alphabet = g.n(2)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch alphabet {
		case 0:
			sb.WriteByte(byte(g.n(128)))
		case 1:
			sb.WriteRune(rune(g.n(256)))
		case 2:
			sb.WriteRune(rune(0x80 + g.n(0x780)))
		case 3:
			c := rune(g.n(0x10000))
			if c >= 0xd800 && c < 0xe000 {
				c = 0xfeff
			}
			sb.WriteRune(c)
		case 4:
			// latin1 except for a late character
			if i == n-1 {
				sb.WriteRune(g.Char())
			} else {
				sb.WriteRune(rune(0x20 + g.n(0xe0)))
			}
		default:
			sb.WriteRune(g.Char())
		}
	}
	return sb.String()
}

func (g *Gen) uint(n int) uint64 {
	m := uint64(math.MaxUint64) >> (64 - n)
	switch g.n(6) {
	case 0:
		return uint64(g.n(3))
	case 1:
		return m - uint64(g.n(3))
	case 2:
		return m/2 + uint64(g.n(3)) - 1
	case 3:
		return (uint64(1) << g.n(n)) & m
	}
	return g.R.Uint64() & m
}

func (g *Gen) f32() float32 {
	special := []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0x7f800001, 0xffc00000, 0xffffffff, 1, 0x80000001, 0x7f7fffff, 0x3f800000, 0x00800000, 0x007fffff}
	if g.n(2) == 0 {
		return math.Float32frombits(pick(g.R, special))
	}
	return math.Float32frombits(g.R.Uint32())
}

func (g *Gen) f64() float64 {
	special := []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xffffffffffffffff, 1, 0x7fefffffffffffff, 0x3ff0000000000000, 0x0010000000000000}
	if g.n(2) == 0 {
		return math.Float64frombits(pick(g.R, special))
	}
	return math.Float64frombits(g.R.Uint64())
}

// Value generates a value of type t.
func (g *Gen) Value(t *T) any {
	g.Budget--
	switch t.K {
	case Bool:
		return g.n(2) == 0
	case U8:
		return uint8(g.uint(8))
	case U16:
		return uint16(g.uint(16))
	case U32:
		return uint32(g.uint(32))
	case U64:
		return g.uint(64)
	case S8:
		return int8(g.uint(8))
	case S16:
		return int16(g.uint(16))
	case S32:
		return int32(g.uint(32))
	case S64:
		return int64(g.uint(64))
	case F32:
		return g.f32()
	case F64:
		return g.f64()
	case Char:
		return g.Char()
	case String:
		return g.Str()
	case List:
		n := g.n(5)
		if g.n(8) == 0 {
			n = g.n(40)
		}
		if g.Big && g.n(30) == 0 && t.Elem.K < String {
			n = 200 + g.n(3000)
			if g.n(40) == 0 {
				n = 65530 + g.n(20)
				if g.n(10) == 0 {
					n = 1<<20 - 10 + g.n(20)
				}
			}
		}
		if g.Budget <= 0 {
			n = 0
		} else if t.Elem.Size() == 0 && g.Hollow && g.n(300) == 0 {
			n = 65530 + g.n(10000)
		}
		out := []any{}
		for ; n > 0; n-- {
			out = append(out, g.Value(t.Elem))
		}
		return out
	case Record, Tuple:
		m := map[string]any{}
		for _, f := range t.fields() {
			m[f.Label] = g.Value(f.T)
		}
		return m
	case Flags:
		m := map[string]any{}
		style := g.n(4)
		for i, l := range t.Labels {
			switch style {
			case 0:
				m[l] = true
			case 1:
				m[l] = i == len(t.Labels)-1
			default:
				m[l] = g.n(2) == 0
			}
		}
		return m
	case Own, Borrow:
		return g.Rep(t)
	}
	cs := t.CasesOf()
	i := g.n(len(cs))
	if g.n(4) == 0 {
		i = len(cs) - 1
	}
	var p any
	if cs[i].T != nil {
		p = g.Value(cs[i].T)
	}
	label := cs[i].Label
	if g.n(2) == 0 {
		label = CaseLabel(cs, i)
	}
	return map[string]any{label: p}
}

// Func is a generated signature.
type Func struct{ Params, Results []*T }

// Type converts the signature.
func (f *Func) Type() types.FuncType {
	conv := func(ts []*T) []types.Parameter {
		var out []types.Parameter
		for i, t := range ts {
			out = append(out, types.Parameter{Name: fmt.Sprintf("p%d", i), Type: t.Val()})
		}
		return out
	}
	return types.NewFuncType(conv(f.Params), conv(f.Results))
}

func (f *Func) String() string {
	s := []string{}
	for _, p := range f.Params {
		s = append(s, p.String())
	}
	r := []string{}
	for _, p := range f.Results {
		r = append(r, p.String())
	}
	return "(" + strings.Join(s, ", ") + ") -> (" + strings.Join(r, ", ") + ")"
}

// Signature generates a function type. Parameters are dense around the flat
// limits.
func (g *Gen) Signature() *Func {
	f := &Func{}
	np := g.n(5)
	if g.n(4) == 0 {
		np = 12 + g.n(8)
		if g.n(20) == 0 {
			np = 20 + g.n(300)
		}
	}
	for i := 0; i < np; i++ {
		if np >= 12 {
			f.Params = append(f.Params, g.leaf())
		} else {
			f.Params = append(f.Params, g.Type())
		}
	}
	nb := g.NoBorrow
	g.NoBorrow = true
	nr := g.n(3)
	if g.n(6) == 0 {
		nr = 3 + g.n(12)
		if g.n(20) == 0 {
			nr = 20 + g.n(300)
		}
	}
	for i := 0; i < nr; i++ {
		if nr >= 20 {
			f.Results = append(f.Results, g.leaf())
		} else {
			f.Results = append(f.Results, g.Type())
		}
	}
	g.NoBorrow = nb
	return f
}
