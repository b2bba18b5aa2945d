package checks

import (
	"bytes"
	"errors"
	stdio "io"
	"math"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "E03",
		Rule:     "a case looks up names in the default set of codecs or in a set of recording codecs with generated names, uses what it finds, and compares with a map; a state is the kind of set with its size and the outcome",
		Quick:    500000,
		Thorough: 5000000,
		Need:     []string{"default found", "default missing", "own found", "own missing", "used"},
		Run:      runE03,
	})
	mon.Register(&mon.Prop{
		ID:       "A14",
		Rule:     "a case reads a sequence of core values through an iterator, plain or behind one or two coercing ones, with right and wrong kinds and beyond the end, and compares each value, error, index and length with a model; a state is the pair of kinds with the outcome and whether values are left",
		Quick:    1000000,
		Thorough: 10000000,
		Need:     []string{"plain", "coerced", "coerced twice", "wrong kind", "exhausted", "flat types used up", "u32 as float32", "u64 as u32", "u64 as float32", "u64 as float64"},
		Run:      runA14,
	})
}

// fakeCodec is a codec that writes its name.
type fakeCodec struct {
	name encoding.Encoding
	id   int
}

func (f *fakeCodec) Encode(dst stdio.Writer, src stdio.Reader) error {
	_, err := dst.Write([]byte(f.name))
	return err
}
func (f *fakeCodec) Decode(dst stdio.Writer, src stdio.Reader) error {
	_, err := dst.Write([]byte("decoded by " + string(f.name)))
	return err
}
func (f *fakeCodec) Encoding() encoding.Encoding { return f.name }
func (f *fakeCodec) Alignment() int              { return f.id }
func (f *fakeCodec) RuneSize() int               { return f.id + 1 }

func runE03(c *mon.Case) {
	// alignment and size of a code unit
	known := map[encoding.Encoding][2]int{
		"utf-8": {1, 1}, "utf-16": {2, 2}, "utf-16-be": {2, 2}, "utf-16-le": {2, 2}, "latin1": {2, 1}, "latin1+utf16": {2, 1},
	}
	var f encoding.Factory
	var own map[encoding.Encoding]*fakeCodec
	name := func() encoding.Encoding {
		s := pickOf(c, "utf-8", "utf-16", "utf-16-be", "utf-16-le", "latin1", "latin1+utf16", "utf8", "UTF-8", "utf-16le", "utf-32", "ascii", "", "latin-1", "utf-16-", " utf-8", "utf-8 ", "latin1+utf-16", "x")
		if c.Chance(6) {
			s += pickOf(c, "-", "8", "x", "\x00")
		}
		return encoding.Encoding(s)
	}
	if c.Chance(2) {
		c.Try("DefaultFactory", func() { f = encoding.DefaultFactory() })
	} else {
		own = map[encoding.Encoding]*fakeCodec{}
		var cs []encoding.Codec
		for i := c.R.IntN(8); i > 0; i-- {
			n := name()
			if own[n] == nil {
				own[n] = &fakeCodec{n, i}
				cs = append(cs, own[n])
			}
		}
		c.Try("NewFactory", func() { f = encoding.NewFactory(cs...) })
	}
	for i := 0; i < 4; i++ {
		n := name()
		c.Log("own set %v, looking for %q", own, n)
		c.Sample("set of %d, looking for %q", len(own), n)
		var a, b encoding.Codec
		var ok bool
		var err error
		c.Try("lookup", func() {
			a, ok = f.Lookup(n)
			b, err = f.Get(n)
		})
		c.Eval()
		if ok != (err == nil) {
			c.Fail("looking up %q gives %v, getting it gives %v", n, ok, err)
		}
		var want bool
		set := "own"
		if own != nil {
			want = own[n] != nil
		} else {
			set = "default"
			_, want = known[n]
		}
		c.State(set, len(own), want, len(n))
		if ok != want {
			c.Fail("looking up %q gives %v in the %s set %v", n, ok, set, own)
		}
		if !ok {
			if !errors.Is(err, encoding.ErrNotExist) {
				c.Fail("getting the unknown codec %q fails with %v", n, err)
			}
			c.Event(set + " missing")
			continue
		}
		c.Event(set + " found")
		for _, codec := range []encoding.Codec{a, b} {
			if codec.Encoding() != n {
				c.Fail("the codec for %q calls itself %q", n, codec.Encoding())
			}
			if own != nil {
				if codec != encoding.Codec(own[n]) {
					c.Fail("the codec for %q is not the one registered", n)
				}
				var x []byte
				var y string
				c.Try("use", func() {
					x, err = encoding.EncodeString(codec, "text")
					if err != nil {
						c.Fail("encoding with %q failed: %v", n, err)
					}
					y, err = encoding.DecodeString(codec, strings.NewReader("text"))
					if err != nil {
						c.Fail("decoding with %q failed: %v", n, err)
					}
				})
				if string(x) != string(n) || y != "decoded by "+string(n) {
					c.Fail("the codec %q gave %q and %q", n, x, y)
				}
			} else {
				if w := known[n]; codec.Alignment() != w[0] || codec.RuneSize() != w[1] {
					c.Fail("the codec %q has alignment %d and code units of %d bytes, expected %v", n, codec.Alignment(), codec.RuneSize(), w)
				}
				rs := []rune{rune('a' + c.R.IntN(26)), rune(0xa0 + c.R.IntN(0x60))}
				want, _ := encodeModel(n, rs)
				if n == encoding.Latin1Utf16 {
					want, _ = encodeModel(encoding.Latin1, rs)
				}
				c.Try("use", func() {
					x, err := encoding.EncodeString(codec, string(rs))
					if err != nil || !bytes.Equal(x, want) {
						c.Fail("the codec %q encodes %q as %x, %v", n, string(rs), x, err)
					}
				})
			}
			c.Event("used")
		}
	}
}

var coreKinds = []kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}

// coreValue makes a core value with its Go value.
func coreValue(c *mon.Case, k kind.Kind) (values.Value, any) {
	bits := c.R.Uint64()
	switch c.R.IntN(6) {
	case 0:
		bits = uint64(c.R.IntN(3))
	case 1:
		bits = math.MaxUint64 - uint64(c.R.IntN(3))
	case 2:
		bits = 1 << 31 << uint(c.R.IntN(33))
	}
	switch k {
	case kind.U32:
		return values.U32(uint32(bits)), uint32(bits)
	case kind.U64:
		return values.U64(bits), bits
	case kind.Float32:
		f := math.Float32frombits(uint32(bits))
		return values.Float32(f), f
	}
	f := math.Float64frombits(bits)
	return values.Float64(f), f
}

// coreBits makes core values comparable.
func coreBits(v any) any {
	switch x := v.(type) {
	case float32:
		return [2]any{"float32", math.Float32bits(x)}
	case float64:
		return [2]any{"float64", math.Float64bits(x)}
	}
	return v
}

// coerced gives what a value of one kind is as another kind.
func coerced(v any, have, want kind.Kind) any {
	switch {
	case have == kind.U32 && want == kind.Float32:
		return math.Float32frombits(v.(uint32))
	case have == kind.U64 && want == kind.U32:
		return uint32(v.(uint64))
	case have == kind.U64 && want == kind.Float32:
		return math.Float32frombits(uint32(v.(uint64)))
	case have == kind.U64 && want == kind.Float64:
		return math.Float64frombits(v.(uint64))
	}
	return v
}

// below are the kinds that can be carried by a kind.
var below = map[kind.Kind][]kind.Kind{
	kind.U32:     {kind.U32, kind.Float32},
	kind.U64:     {kind.U64, kind.U32, kind.Float32, kind.Float64},
	kind.Float32: {kind.Float32},
	kind.Float64: {kind.Float64},
}

func runA14(c *mon.Case) {
	n := c.R.IntN(8)
	var vals []values.Value
	var model []any
	var ks []kind.Kind
	for i := 0; i < n; i++ {
		k := coreKinds[c.R.IntN(4)]
		v, m := coreValue(c, k)
		if v.Kind() != k || coreBits(v.Value()) != coreBits(m) {
			c.Fail("the value of %v is %v of kind %v", m, v.Value(), v.Kind())
		}
		vals, model, ks = append(vals, v), append(model, m), append(ks, k)
	}
	var it values.ValueIterator = values.NewIterator(vals...)
	layers := c.R.IntN(3)
	c.Event([]string{"plain", "coerced", "coerced twice"}[layers])
	// the kinds each layer asks the one below for
	path := make([][]kind.Kind, n)
	for i := range path {
		path[i] = []kind.Kind{ks[i]}
	}
	short := n
	for l := 0; l < layers; l++ {
		var flat []kind.Kind
		for i := range path {
			last := path[i][len(path[i])-1]
			if l > 0 {
				opts := below[last]
				last = opts[c.R.IntN(len(opts))]
				path[i] = append(path[i], last)
			}
			flat = append(flat, last)
		}
		if l == layers-1 && c.Chance(3) && n > 0 {
			// fewer types than values
			short = c.R.IntN(n)
			flat = flat[:short]
		}
		it = values.NewCoerceValueIterator(it, flat)
	}
	c.Log("values %v, path %v, short %d", model, path, short)
	c.Sample("values %v, path %v", model, path)
	if it.Length() != n || it.Index() != 0 {
		c.Fail("an iterator over %d values has length %d and index %d", n, it.Length(), it.Index())
	}
	for i := 0; i <= n+1; i++ {
		if i >= short || i >= n {
			var v any
			var err error
			c.Try("Next", func() { v, err = it.Next(coreKinds[c.R.IntN(4)]) })
			c.Eval()
			if err == nil {
				c.Fail("reading value %d of %d gave %v", i, min(n, short), v)
			}
			if short < n {
				c.Event("flat types used up")
			} else {
				c.Event("exhausted")
			}
			c.State("end", layers, short < n)
			if short < n {
				return
			}
			continue
		}
		have := path[i][len(path[i])-1]
		want := have
		if layers > 0 {
			opts := below[have]
			want = opts[c.R.IntN(len(opts))]
		} else if c.Chance(8) {
			want = coreKinds[c.R.IntN(4)]
		}
		var v any
		var err error
		c.Try("Next", func() { v, err = it.Next(want) })
		c.Eval()
		c.Log("next %v: %v, %v", want, v, err)
		c.State(have, want, err == nil, i < n-1)
		if layers == 0 && want != have {
			if err == nil {
				c.Fail("a value of kind %v was read as %v: %v", have, want, v)
			}
			c.Event("wrong kind")
			// whether the value was taken is not specified
			return
		}
		if err != nil {
			c.Fail("reading value %d of kind %v as %v failed: %v", i, have, want, err)
		}
		m := model[i]
		for j := 1; j < len(path[i]); j++ {
			m = coerced(m, path[i][j-1], path[i][j])
		}
		m = coerced(m, have, want)
		if have != want {
			c.Event(strings.ToLower(have.String() + " as " + want.String()))
		}
		if coreBits(v) != coreBits(m) {
			c.Fail("value %d (%v) read as %v is %v, expected %v", i, model[i], want, coreBits(v), coreBits(m))
		}
		if it.Index() != i+1 || it.Length() != n {
			c.Fail("after %d of %d values the index is %d and the length %d", i+1, n, it.Index(), it.Length())
		}
	}
}
