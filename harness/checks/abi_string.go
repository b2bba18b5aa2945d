package checks

import (
	"bytes"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A09",
		Rule:     "a case passes a string (including one that is not valid utf-8 on the host side) from a guest with one encoding to a guest with another and inspects code units, tag, alignment and bytes in both memories; a state is the pair of encodings with the character class and length class of the string",
		Quick:    400000,
		Thorough: 4000000,
		Need:     []string{"utf-8 to utf-8", "utf-8 to utf-16", "utf-8 to latin1+utf16", "utf-16 to utf-8", "utf-16 to utf-16", "utf-16 to latin1+utf16", "latin1+utf16 to utf-8", "latin1+utf16 to utf-16", "latin1+utf16 to latin1+utf16", "stored as latin1", "stored as tagged utf-16", "malformed host string", "worst case transcoding", "copied"},
		Run:      runA09,
	})
}

func classOf(s string) string {
	k := "ascii"
	for _, r := range s {
		switch {
		case r > 0xffff:
			return "supplementary"
		case r > 0xff:
			k = "bmp"
		case r > 0x7f && k == "ascii":
			k = "latin1"
		}
	}
	return k
}

func sizeClass(n int) int {
	k := 0
	for n > 0 {
		n /= 2
		k++
	}
	return k
}

func runA09(c *mon.Case) {
	src, dst := newGuest(c), newGuest(c)
	gen := newGen(c)
	gen.Big = c.Chance(3)
	s := gen.Str()
	if gen.Big && c.Chance(3) {
		s += gen.Str() + gen.Str()
	}
	str := cabi.Prim(cabi.String)
	check := func(g *guest, ptr uint64, want string, what string) {
		r := g.reader(true)
		got, err := r.Load(str, ptr)
		if err != nil {
			c.Fail("%s: the guest can not read the string: %v", what, err)
		}
		if got != want {
			c.Fail("%s: the guest (%s) reads %q, expected %q", what, g.enc, got, want)
		}
		checkRegions(c, g, r)
		if g.enc == cabi.EncLatin1 {
			if cabi.IsLatin1(want) {
				c.Event("stored as latin1")
			} else {
				c.Event("stored as tagged utf-16")
			}
		}
	}
	switch c.R.IntN(6) {
	case 0:
		// a host string that is not valid utf-8
		b := []byte(s + "x")
		for n := 1 + c.R.IntN(3); n > 0; n-- {
			b[c.R.IntN(len(b))] = byte(0x80 + c.R.IntN(0x80))
		}
		if utf8.Valid(b) {
			c.Eval()
			return
		}
		want := string([]rune(string(b)))
		ptr := dst.h.Alloc(8, 4)
		c.Log("store %q (%s)", b, dst.enc)
		c.Try("Store", func() {
			if err := io.Store(dst.cx(), string(b), types.NewString(), uint32(ptr)); err != nil {
				// refusing the string is as good as repairing it
				want = ""
				c.Event("malformed host string refused")
			} else {
				check(dst, ptr, want, "malformed host string")
			}
		})
		c.Event("malformed host string")
		c.State("malformed", dst.enc, classOf(want), sizeClass(len(b)))
	case 1:
		if c.Chance(2) {
			// the exported copy between encodings with as many code units
			name := encoding.Encoding(dst.enc)
			if dst.enc == cabi.EncLatin1 {
				name = encoding.UTF16LE
				if cabi.IsLatin1(s) {
					name = encoding.Latin1
				}
			}
			codec := getCodec(c, name)
			want, _ := encodeModel(name, []rune(s))
			units := uint32(len(want) / codec.RuneSize())
			c.Log("StoreStringCopy %q as %s", s, name)
			c.Try("StoreStringCopy", func() {
				ptr, n, err := io.StoreStringCopy(dst.cx(), s, units, uint32(codec.RuneSize()), uint32(codec.Alignment()), codec)
				if err != nil {
					c.Fail("StoreStringCopy: %v", err)
				}
				mem := dst.h.Mem()
				if n != units || uint64(ptr)+uint64(len(want)) > uint64(len(mem)) || !bytes.Equal(mem[ptr:][:len(want)], want) {
					c.Fail("StoreStringCopy of %q as %s gave %d units at %d, expected %d", s, name, n, ptr, units)
				}
			})
			c.Event("copied")
			c.State("copy", name, classOf(s), sizeClass(len(s)))
			c.Eval()
			return
		}
		// the exported worst case transcoder
		c.Log("StoreUtf8ToUtf16 %q", s)
		dst.enc = cabi.EncUTF16
		c.Try("StoreUtf8ToUtf16", func() {
			ptr, units, err := io.StoreUtf8ToUtf16(dst.cx(), s, uint32(len(s)))
			if err != nil {
				c.Fail("StoreUtf8ToUtf16: %v", err)
			}
			got, _, err := dst.reader(true).LiftFlat(str, []cabi.Core{{K: cabi.I32, Bits: uint64(ptr)}, {K: cabi.I32, Bits: uint64(units)}})
			if err != nil || got != s {
				c.Fail("StoreUtf8ToUtf16 stored %q (%v), expected %q", got, err, s)
			}
		})
		c.Event("worst case transcoding")
		c.State("worst", classOf(s), sizeClass(len(s)))
	default:
		p := src.h.Alloc(8, 4)
		src.writer().Store(str, s, p)
		q := dst.h.Alloc(8, 4)
		c.Log("%q from %s to %s", s, src.enc, dst.enc)
		c.Sample("%q from %s to %s", s, src.enc, dst.enc)
		c.Try("Load and Store", func() {
			v, err := io.Load(src.cx(), types.NewString(), uint32(p))
			if err != nil {
				c.Fail("Load of a valid string failed: %v", err)
			}
			if v != s {
				c.Fail("loaded %q, the guest (%s) wrote %q", v, src.enc, s)
			}
			if err := io.Store(dst.cx(), v, types.NewString(), uint32(q)); err != nil {
				c.Fail("Store of a valid string failed: %v", err)
			}
		})
		check(dst, q, s, "transcoded string")
		c.Event(src.enc + " to " + dst.enc)
		c.State(src.enc, dst.enc, classOf(s), sizeClass(len(s)))
	}
	c.Eval()
}
