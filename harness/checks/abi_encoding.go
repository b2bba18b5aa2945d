package checks

import (
	"bytes"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A18",
		Rule:     "a case names one of the six known encodings or an unknown one in the options of a guest and stores, lowers, loads, lifts or passes between two guests a text, alone or inside a list, record or option; the bytes are compared with an independent encoder and a strict decoder; a state is the encoding with the operation, the place of the text and the classes of its characters",
		Quick:    400000,
		Thorough: 4000000,
		Need:     []string{"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16", "unknown", "store", "lower", "load", "lift", "call", "text that does not fit", "malformed text", "well-formed text", "nested text", "unknown refused", "large length", "misaligned"},
		Run:      runA18,
	})
}

var knownEncodings = []string{"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16"}

// written is how a text looks in memory in an encoding.
func written(enc, s string) (b []byte, units, tag uint32, ok bool) {
	b, ok = encodeModel(encoding.Encoding(enc), []rune(s))
	if !ok && enc == "latin1+utf16" {
		b, _ = encodeModel(encoding.UTF16LE, []rune(s))
		return b, uint32(len(b) / 2), 1 << 31, true
	}
	if enc[:5] == "utf-1" {
		return b, uint32(len(b) / 2), 0, ok
	}
	return b, uint32(len(b)), 0, ok
}

// readText is what bytes in memory mean in an encoding.
func readText(enc string, b []byte, tag uint32) (string, bool) {
	switch {
	case enc == "utf-8":
		return string(b), utf8.Valid(b)
	case enc == "latin1", enc == "latin1+utf16" && tag == 0:
		return cabi.FromLatin1(b), true
	case enc == "utf-16-be":
		swapped := make([]byte, len(b))
		for i := range b {
			swapped[i^1] = b[i]
		}
		b = swapped
	}
	return cabi.FromUTF16LE(b)
}

// encodingOf picks the encoding of a guest and reports if it is known.
func encodingOf(c *mon.Case, g *guest) (string, bool) {
	enc := pickOf(c, knownEncodings...)
	if c.Chance(8) {
		enc = pickOf(c, "utf-7", "utf-32", "", "utf8", "UTF-8", "utf-16-xe", "latin", "latin1+utf8", "ascii", "utf-16-l", "latin1+utf16 ")
		c.Event("unknown")
		g.opts.StringEncoding = encoding.Encoding(enc)
		return enc, false
	}
	c.Event(enc)
	g.opts.StringEncoding = encoding.Encoding(enc)
	return enc, true
}

// lowBytes makes a text fit into one byte per character.
func lowBytes(s string) string {
	rs := []rune(s)
	for i := range rs {
		rs[i] &= 0xff
	}
	return string(rs)
}

func runA18(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c)
	enc, known := encodingOf(c, g)
	s := gen.Str()
	for s == "" || len(s) > 1<<20 {
		s = string(gen.Char())
	}
	if c.Chance(3) {
		s = lowBytes(s)
	}
	switch c.R.IntN(3) {
	case 0:
		encodedWrite(c, g, enc, known, s)
	case 1:
		encodedRead(c, g, enc, known, s)
	default:
		encodedCall(c, g, enc, known, s)
	}
	c.Eval()
}

// wrap puts a text into a value; at is where the text begins in its image.
func wrap(c *mon.Case, s string) (t *cabi.T, v any, at uint64, list bool) {
	str := cabi.Prim(cabi.String)
	switch c.R.IntN(6) {
	case 0:
		c.Event("nested text")
		return &cabi.T{K: cabi.Tuple, Elems: []*cabi.T{cabi.Prim(cabi.U8), str}}, map[string]any{"0": uint8(7), "1": s}, 4, false
	case 1:
		c.Event("nested text")
		return &cabi.T{K: cabi.Option, Elem: str}, map[string]any{"some": s}, 4, false
	case 2:
		c.Event("nested text")
		return &cabi.T{K: cabi.List, Elem: str}, []any{s}, 0, true
	}
	return str, s, 0, false
}

func encodedWrite(c *mon.Case, g *guest, enc string, known bool, s string) {
	t, v, at, list := wrap(c, s)
	ptr := g.h.Alloc(t.Size(), t.Align())
	var want []byte
	var units, tag uint32
	fits := false
	if known {
		want, units, tag, fits = written(enc, s)
	}
	store := c.Chance(2)
	c.Log("write %q as %s, %q, store %v", s, t, enc, store)
	c.Sample("write %q as %s, %q, store %v", s, t, enc, store)
	c.State("write", enc, t.String(), classOf(s), sizeClass(len(s)), store)
	g.h.Watch()
	var err error
	var flat []values.Value
	var dst []cabi.Region
	if store {
		c.Event("store")
		c.Try("Store", func() { err = io.Store(g.cx(), v, t.Val(), uint32(ptr)) })
		dst = append(dst, cabi.Region{Ptr: ptr, Len: t.Size()})
	} else {
		c.Event("lower")
		c.Try("LowerFlat", func() { flat, err = io.LowerFlat(g.cx(), v, t.Val()) })
	}
	if oerr := g.h.Outside(dst...); oerr != nil {
		c.Fail("writing %q in %q: %v", s, enc, oerr)
	}
	if !fits {
		if err == nil {
			c.Fail("%q was written in the encoding %q", s, enc)
		}
		if known {
			c.Event("text that does not fit")
		} else {
			c.Event("unknown refused")
		}
		return
	}
	if err != nil {
		c.Fail("%q could not be written in the encoding %q: %v", s, enc, err)
	}
	mem := g.h.Mem()
	u32 := func(p uint64) uint64 {
		if p+4 > uint64(len(mem)) {
			c.Fail("pointer %d outside of %d bytes of memory", p, len(mem))
		}
		return uint64(mem[p]) | uint64(mem[p+1])<<8 | uint64(mem[p+2])<<16 | uint64(mem[p+3])<<24
	}
	var p, n uint64
	switch {
	case store:
		p, n = u32(ptr+at), u32(ptr+at+4)
		if list {
			p, n = u32(p), u32(p+4)
		}
	default:
		core, cerr := cabi.FromValues(flat)
		if cerr != nil || len(core) < 2 {
			c.Fail("lowering %s gave %v (%v)", t, flat, cerr)
		}
		p, n = core[len(core)-2].Bits, core[len(core)-1].Bits
		if list {
			p, n = u32(p), u32(p+4)
		}
	}
	if n != uint64(units|tag) {
		c.Fail("%q in %s has the length %#x, expected %#x", s, enc, n, units|tag)
	}
	if p+uint64(len(want)) > uint64(len(mem)) || !bytes.Equal(mem[p:][:len(want)], want) {
		c.Fail("%q in %s at %d of %d is not %x", s, enc, p, len(mem), want)
	}
	if p%2 != 0 && len(want) == 2*int(units) && enc != "utf-8" {
		c.Fail("%q in %s at odd address %d", s, enc, p)
	}
}

func encodedRead(c *mon.Case, g *guest, enc string, known bool, s string) {
	b, units, tag, fits := written("utf-8", s)
	if known {
		b, units, tag, fits = written(enc, s)
		if !fits {
			s = lowBytes(s)
			b, units, tag, _ = written(enc, s)
		}
	}
	size := len(b) / int(units)
	b = append([]byte{}, b...)
	if c.Chance(2) {
		for n := 1 + c.R.IntN(2); n > 0; n-- {
			b[c.R.IntN(len(b))] = byte(c.R.IntN(256))
		}
		if c.Chance(4) {
			m := malformed[c.R.IntN(len(malformed))]
			copy(b[c.R.IntN(len(b))/2*2:], m)
		}
	}
	p := g.h.Alloc(uint64(len(b)), 2)
	copy(g.h.Mem()[p:], b)
	want, ok := "", false
	if known {
		want, ok = readText(enc, b, tag)
	}
	if ok {
		c.Event("well-formed text")
	} else if known {
		c.Event("malformed text")
	}
	n := uint64(units | tag)
	switch c.R.IntN(12) {
	case 0:
		// more than there is
		c.Event("large length")
		n = uint64(g.h.Buf.Len())/uint64(size) + 1 + c.R.Uint64N(1<<30)
		if c.Chance(2) {
			n |= 1 << 31
		}
		ok = false
	case 1:
		if size == 2 {
			c.Event("misaligned")
			p++
			ok = false
		}
	}
	c.Log("read %x as %q: %q %v", b, enc, want, ok)
	c.Sample("read %d bytes as %q: %v", len(b), enc, ok)
	str := cabi.Prim(cabi.String)
	var got any
	var err error
	if c.Chance(2) {
		c.Event("lift")
		c.Try("LiftFlat", func() {
			got, err = io.LiftFlat(g.cx(), values.NewIterator(values.U32(p), values.U32(n)), str.Val())
		})
	} else {
		c.Event("load")
		ptr := g.h.Alloc(8, 4)
		for i := uint64(0); i < 4; i++ {
			g.h.Mem()[ptr+i] = byte(p >> (8 * i))
			g.h.Mem()[ptr+4+i] = byte(n >> (8 * i))
		}
		c.Try("Load", func() { got, err = io.Load(g.cx(), str.Val(), uint32(ptr)) })
	}
	c.State("read", enc, classOf(want), ok, sizeClass(len(b)))
	switch {
	case !ok && err == nil:
		c.Fail("%d units at %d of %d bytes with %x in %q were read as %q", n, p, g.h.Buf.Len(), b, enc, got)
	case ok && err != nil:
		c.Fail("%x in %q was refused: %v", b, enc, err)
	case ok && got != want:
		c.Fail("%x in %q was read as %q, expected %q", b, enc, got, want)
	}
	if !known {
		c.Event("unknown refused")
	}
}

func encodedCall(c *mon.Case, a *guest, aEnc string, aKnown bool, s string) {
	b := newGuest(c)
	bEnc, bKnown := encodingOf(c, b)
	c.Event("call")
	if aKnown {
		if _, _, _, ok := written(aEnc, s); !ok {
			s = lowBytes(s)
		}
	}
	good := aKnown && bKnown
	if good {
		_, _, _, good = written(bEnc, s)
	}
	put := func(g *guest, enc string, known bool) []any {
		if !known {
			enc = "utf-8"
		}
		bs, units, tag, _ := written(enc, s)
		p := g.h.Alloc(uint64(len(bs)), 2)
		copy(g.h.Mem()[p:], bs)
		return []any{values.U32(p), values.U32(units | tag)}
	}
	c.Log("call from %q to %q with %q", aEnc, bEnc, s)
	c.Sample("call from %q to %q with %q", aEnc, bEnc, s)
	c.State("call", aEnc, bEnc, classOf(s), sizeClass(len(s)))
	str := types.NewString()
	ft := types.NewFuncType([]types.Parameter{{Name: "x", Type: str}}, []types.Parameter{{Name: "y", Type: str}})
	called := false
	callee := func(in []any) ([]any, types.PostReturnFunc, error) {
		return io.CanonLift(b.opts, b.inst, func(x any) (any, error) {
			called = true
			core, err := cabi.FromAny(x.([]any))
			if err != nil || len(core) != 2 {
				c.Fail("called with %v (%v)", x, err)
			}
			if bKnown {
				want, units, tag, _ := written(bEnc, s)
				mem := b.h.Mem()
				if p := core[0].Bits; core[1].Bits != uint64(units|tag) || p+uint64(len(want)) > uint64(len(mem)) || !bytes.Equal(mem[p:][:len(want)], want) {
					c.Fail("%q passed from %s to %s arrived as %#x units at %d, expected %#x units %x", s, aEnc, bEnc, core[1].Bits, p, units|tag, want)
				}
			}
			return put(b, bEnc, bKnown), nil
		}, ft, in, 16, 16)
	}
	var err error
	var out []any
	c.Try("CanonLower", func() { out, err = io.CanonLower(a.opts, a.inst, callee, true, ft, put(a, aEnc, aKnown), 16, 16) })
	if !good {
		if err == nil || called {
			c.Fail("%q was passed from %q to %q (%v)", s, aEnc, bEnc, err)
		}
		if aKnown && bKnown {
			c.Event("text that does not fit")
		} else {
			c.Event("unknown refused")
		}
		return
	}
	if err != nil {
		c.Fail("%q could not be passed from %s to %s: %v", s, aEnc, bEnc, err)
	}
	core, cerr := cabi.FromAny(out)
	if cerr != nil || len(core) != 2 {
		c.Fail("the results are %v (%v)", out, cerr)
	}
	want, units, tag, _ := written(aEnc, s)
	mem := a.h.Mem()
	if p := core[0].Bits; core[1].Bits != uint64(units|tag) || p+uint64(len(want)) > uint64(len(mem)) || !bytes.Equal(mem[p:][:len(want)], want) {
		c.Fail("%q passed back from %s to %s arrived as %#x units at %d, expected %#x units %x", s, bEnc, aEnc, core[1].Bits, p, units|tag, want)
	}
}
