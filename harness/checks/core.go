package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/leb128"
	rt "github.com/patrickhuber/go-wasm/runtime"

	"verif/harness/mon"
	"verif/harness/wbin"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "E01",
		Rule:     "a case encodes a generated text with one codec, compares the bytes with an independent encoder, and decodes them back; texts mix character classes and, for encoding, bytes that are not text; a state is the codec with the character classes and the length class of the text",
		Quick:    500000,
		Thorough: 5000000,
		Need:     []string{"exact", "round trip", "unencodable refused", "invalid bytes replaced", "long text", "byte order mark kept", "valid part kept"},
		Run:      runE01,
	})
	mon.Register(&mon.Prop{
		ID:       "E02",
		Rule:     "a case sends the same text through a codec with sources and destinations that deliver or accept it in different pieces or fail at a chosen offset, and checks that the output does not depend on the pieces, that a fault is reported, and that what was written before it is a prefix of the right output; a state is the codec, the direction, the kind of fault and the position class",
		Quick:    150000,
		Thorough: 1500000,
		Need:     []string{"chunked encode", "chunked decode", "source fault reported", "sink fault reported", "larger than a buffer"},
		Run:      runE02,
	})
	mon.Register(&mon.Prop{
		ID:       "L01",
		Rule:     "a case encodes a sequence of integers, compares the bytes with the shortest encoding computed independently, and reads the sequence back with each decoder, followed by data that must stay unread; a state is the lengths of the encodings with the decoder",
		Quick:    1500000,
		Thorough: 15000000,
		Need:     []string{"encoded 1", "encoded 2", "encoded 3", "encoded 4", "encoded 5", "decoded by Decode", "decoded by DecodeReader", "decoded by DecodeSlice", "padded decoded", "writer fault reported"},
		Run:      runL01,
	})
	mon.Register(&mon.Prop{
		ID:       "L02",
		Rule:     "a case gives the same bytes to all decoders, complete, cut off, too long or too large, through readers that deliver pieces or fail, and compares with an independent decoder; a state is the byte pattern (continuation bits and the last byte) with the outcome",
		Quick:    2000000,
		Thorough: 20000000,
		Need:     []string{"value", "truncated refused", "too long refused", "too large refused", "reader fault reported"},
		Run:      runL02,
	})
	mon.Register(&mon.Prop{
		ID:       "R01",
		Rule:     "a case instantiates a sequence of generated modules, some with exports of functions they do not have, in one store and after each looks up every export and unknown names of every instance; a state is the number of instances and functions in the store with the shape of the module",
		Quick:    200000,
		Thorough: 2000000,
		Need:     []string{"export resolved", "unknown name refused", "bad module refused", "earlier instance checked", "same module twice"},
		Run:      runR01,
	})
}

var codecNames = []encoding.Encoding{encoding.UTF8, encoding.UTF16, encoding.UTF16LE, encoding.UTF16BE, encoding.Latin1, encoding.Latin1Utf16}

// encodeModel encodes code points independently; ok is false when the
// encoding has no representation for one of them.
func encodeModel(name encoding.Encoding, rs []rune) (out []byte, ok bool) {
	switch name {
	case encoding.UTF8:
		for _, r := range rs {
			out = utf8.AppendRune(out, r)
		}
	case encoding.Latin1, encoding.Latin1Utf16:
		for _, r := range rs {
			if r > 0xff {
				return nil, false
			}
			out = append(out, byte(r))
		}
	default:
		for _, u := range utf16.Encode(rs) {
			if name == encoding.UTF16BE {
				out = append(out, byte(u>>8), byte(u))
			} else {
				out = append(out, byte(u), byte(u>>8))
			}
		}
	}
	return out, true
}

// text generates code points of a mix of classes.
func text(c *mon.Case) (rs []rune, classes int, length string) {
	n := c.R.IntN(24)
	length = "short"
	switch c.R.IntN(40) {
	case 0:
		n = 4080 + c.R.IntN(40)
		length = "4096"
	case 1:
		n = 1350 + c.R.IntN(30)
		length = "1365"
	case 2:
		n = 2030 + c.R.IntN(40)
		length = "2048"
	case 3:
		n = 100 + c.R.IntN(2000)
		length = "middle"
	case 4:
		if c.R.IntN(6) == 0 {
			n = 32700 + c.R.IntN(200)
			length = "32768"
		}
		if c.R.IntN(60) == 0 {
			n = []int{65530, 131060, 262130}[c.R.IntN(3)] + c.R.IntN(20)
			length = "65536"
			c.Event("very long text")
		}
		if c.R.IntN(1000) == 0 {
			n = 1<<20<<c.R.IntN(2) - 10 + c.R.IntN(20)
			length = "megabyte"
			c.Event("text of a megabyte")
		}
	}
	if n == 0 {
		length = "empty"
	}
	mask := 1 + c.R.IntN(63)
	if c.R.IntN(3) == 0 {
		mask = 1 << c.R.IntN(6)
	}
	for len(rs) < n {
		k := c.R.IntN(6)
		if mask&(1<<k) == 0 {
			continue
		}
		classes |= 1 << k
		switch k {
		case 0:
			rs = append(rs, rune(c.R.IntN(0x80)))
		case 1:
			rs = append(rs, rune(0x80+c.R.IntN(0x80)))
		case 2:
			rs = append(rs, rune(0x100+c.R.IntN(0x700)))
		case 3:
			r := rune(0x800 + c.R.IntN(0xf800))
			if r >= 0xd800 && r < 0xe000 {
				r = 0xd7ff
			}
			rs = append(rs, r)
		case 4:
			rs = append(rs, rune(0x10000+c.R.IntN(0x100000)))
		case 5:
			rs = append(rs, []rune{0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0x10000, 0x10ffff}[c.R.IntN(15)])
		}
	}
	return
}

func getCodec(c *mon.Case, name encoding.Encoding) encoding.Codec {
	codec, err := encoding.DefaultFactory().Get(name)
	if err != nil {
		c.Fail("codec %s: %v", name, err)
	}
	if codec.Encoding() != name {
		c.Fail("codec %s calls itself %s", name, codec.Encoding())
	}
	return codec
}

func show(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("lengths %d and %d, first difference at %d: % x / % x", len(a), len(b), i, a[max(0, i-4):min(len(a), i+8)], b[max(0, i-4):min(len(b), i+8)])
}

func runE01(c *mon.Case) {
	name := codecNames[c.R.IntN(len(codecNames))]
	codec := getCodec(c, name)
	rs, classes, length := text(c)
	if c.R.IntN(3) == 0 && (name == encoding.Latin1 || name == encoding.Latin1Utf16) {
		for i, r := range rs {
			rs[i] = r & 0xff
		}
	}
	s := string(rs)
	c.Log("codec %s text %s", name, show(s))
	c.Sample("codec %s text %s", name, show(s))
	if length != "short" && length != "empty" {
		c.Event("long text")
	}
	want, ok := encodeModel(name, rs)
	var got []byte
	var err error
	c.Try("EncodeString", func() { got, err = encoding.EncodeString(codec, s) })
	if !ok {
		if err == nil {
			c.Fail("%s accepted a text it can not represent: %s", name, show(s))
		}
		c.Event("unencodable refused")
	} else {
		if err != nil {
			c.Fail("%s refused %s: %v", name, show(s), err)
		}
		if !bytes.Equal(got, want) {
			c.Fail("%s encoded %s wrong: %s", name, show(s), firstDiff(got, want))
		}
		c.Event("exact")
		var back string
		c.Try("DecodeString", func() { back, err = encoding.DecodeString(codec, bytes.NewReader(want)) })
		if err != nil || back != s {
			c.Fail("%s decoded % x to %s, %v, expected %s", name, clip(want), show(back), err, show(s))
		}
		c.Event("round trip")
		if len(rs) > 0 && rs[0] == 0xfeff {
			c.Event("byte order mark kept")
		}
	}
	c.State(name, classes, length, ok)
	c.Eval()
	if c.R.IntN(3) == 0 && len(s) < 5000 {
		// bytes that are not text: each is replaced, or the text is refused
		b := []byte(s)
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			at := c.R.IntN(len(b) + 1)
			bad := [][]byte{{0x80}, {0xff}, {0xc0, 0xaf}, {0xed, 0xa0, 0x80}, {0xe2, 0x82}, {0xf0, 0x9f, 0x98}, {0xf5}, {0xc3}}[c.R.IntN(8)]
			b = append(b[:at:at], append(append([]byte{}, bad...), b[at:]...)...)
		}
		rs := []rune(string(b))
		want, ok := encodeModel(name, rs)
		c.Log("codec %s bytes % x", name, clip(b))
		c.Try("EncodeString", func() { got, err = encoding.EncodeString(codec, string(b)) })
		if err == nil {
			if !ok {
				c.Fail("%s accepted bytes it can not represent: % x", name, clip(b))
			}
			if !bytes.Equal(got, want) {
				c.Fail("%s encoded % x wrong: %s", name, clip(b), firstDiff(got, want))
			}
			c.Event("invalid bytes replaced")
		}
		c.Eval()
	}
	if c.R.IntN(3) == 0 && ok {
		// a valid part followed by noise: the part is kept, the rest is text
		noise := make([]byte, c.R.IntN(12))
		for i := range noise {
			noise[i] = byte(c.R.IntN(256))
		}
		in := append(bytes.Clone(want), noise...)
		var back string
		c.Log("codec %s bytes % x", name, clip(in))
		c.Try("DecodeString", func() { back, err = encoding.DecodeString(codec, bytes.NewReader(in)) })
		if err == nil {
			if !strings.HasPrefix(back, s) {
				c.Fail("%s decoded % x to %s, which does not begin with %s", name, clip(in), show(back), show(s))
			}
			if !utf8.ValidString(back) {
				c.Fail("%s decoded % x to invalid text %s", name, clip(in), show(back))
			}
			c.Event("valid part kept")
		}
		c.Eval()
	}
}

func runE02(c *mon.Case) {
	name := codecNames[c.R.IntN(len(codecNames))]
	codec := getCodec(c, name)
	rs, classes, length := text(c)
	if name == encoding.Latin1 || name == encoding.Latin1Utf16 {
		for i, r := range rs {
			rs[i] = r & 0xff
		}
	}
	plain := []byte(string(rs))
	encoded, _ := encodeModel(name, rs)
	encode := c.R.IntN(2) == 0
	in, out := encoded, plain
	dir := "decode"
	op := codec.Decode
	if encode {
		in, out = plain, encoded
		dir = "encode"
		op = codec.Encode
	}
	if len(in) > 4096 {
		c.Event("larger than a buffer")
	}
	c.Log("%s %s of %d bytes", name, dir, len(in))
	c.Sample("%s %s of %d bytes, classes %d", name, dir, len(in), classes)
	for mode := 0; mode < chunkModes; mode++ {
		if len(in) > 3000 && mode != c.R.IntN(chunkModes) {
			continue
		}
		w := &sink{limit: -1}
		var err error
		c.Try(dir, func() { err = op(w, &chunks{c: c, b: in, mode: mode, err: io.EOF}) })
		if err != nil {
			c.Fail("%s %s failed for a source that delivers pieces (mode %d): %v", name, dir, mode, err)
		}
		if !bytes.Equal(w.b, out) {
			c.Fail("%s %s depends on the pieces of the source (mode %d): %s", name, dir, mode, firstDiff(w.b, out))
		}
		c.Event("chunked " + dir)
		c.State(name, dir, mode, length, classes)
		c.Eval()
	}
	// the source fails
	for n := 0; n < 3; n++ {
		k := c.R.IntN(len(in) + 1)
		if n == 0 {
			k = len(in)
		}
		w := &sink{limit: -1}
		mode := c.R.IntN(chunkModes)
		var err error
		c.Try(dir, func() { err = op(w, &chunks{c: c, b: in[:k], mode: mode, err: errInjected}) })
		if !errors.Is(err, errInjected) {
			c.Fail("%s %s: the source failed at %d of %d and the outcome is %v", name, dir, k, len(in), err)
		}
		c.Event("source fault reported")
		if !bytes.HasPrefix(out, w.b) {
			// an incomplete unit at the end may have been replaced
			if len(w.b) > len(out)+8 || !bytes.HasPrefix(out, w.b[:max(0, len(w.b)-6)]) {
				c.Fail("%s %s: before the fault something else was written: %s", name, dir, firstDiff(w.b, out))
			}
		}
		c.State(name, dir, "source", mode, k == 0, k == len(in), length)
		c.Eval()
	}
	// the destination fails
	for n := 0; n < 3 && len(out) > 0; n++ {
		k := c.R.IntN(len(out))
		w := &sink{limit: k, short: c.R.IntN(2) == 0}
		mode := c.R.IntN(chunkModes)
		if len(in) > 3000 {
			mode = 0
		}
		var err error
		c.Try(dir, func() { err = op(w, &chunks{c: c, b: in, mode: mode, err: io.EOF}) })
		if !errors.Is(err, errInjected) {
			c.Fail("%s %s: the destination failed at %d of %d and the outcome is %v", name, dir, k, len(out), err)
		}
		if !bytes.HasPrefix(out, w.b) {
			c.Fail("%s %s: before the fault something else was written: %s", name, dir, firstDiff(w.b, out))
		}
		c.Event("sink fault reported")
		c.State(name, dir, "sink", mode, w.short, k == 0, k == len(out)-1, length)
		c.Eval()
	}
}

func number(c *mon.Case) uint32 {
	switch c.R.IntN(4) {
	case 0:
		return c.R.Uint32() >> c.R.IntN(32)
	case 1:
		return uint32(1)<<c.R.IntN(32) - uint32(c.R.IntN(2))
	case 2:
		return []uint32{0, 1, 63, 64, 127, 128, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe}[c.R.IntN(18)]
	}
	return c.R.Uint32()
}

func runL01(c *mon.Case) {
	n := 1 + c.R.IntN(12)
	var vs []uint32
	for i := 0; i < n; i++ {
		vs = append(vs, number(c))
	}
	c.Log("values %v", vs)
	c.Sample("values %v", vs)
	e := &wbin.Encoder{R: c.R}
	var want []byte
	var lens []int
	for _, v := range vs {
		x := e.U32(v)
		lens = append(lens, len(x))
		want = append(want, x...)
	}
	c.Try("Encode", func() {
		var buf bytes.Buffer
		w := bufio.NewWriterSize(&buf, 16)
		for i, v := range vs {
			k, err := leb128.Encode(w, v)
			if err != nil || k != lens[i] {
				c.Fail("Encode(%d) = %d, %v, expected %d bytes", v, k, err, lens[i])
			}
			c.Event(fmt.Sprint("encoded ", k))
		}
		w.Flush()
		if !bytes.Equal(buf.Bytes(), want) {
			c.Fail("encoded to % x, expected % x", buf.Bytes(), want)
		}
	})
	c.Eval()
	// a writer that fails
	if c.R.IntN(3) == 0 {
		limit := c.R.IntN(len(want))
		c.Try("Encode", func() {
			s := &sink{limit: limit, short: c.R.IntN(2) == 0}
			w := bufio.NewWriterSize(s, 16)
			var failed error
			for _, v := range vs {
				if _, err := leb128.Encode(w, v); err != nil && failed == nil {
					failed = err
				}
			}
			if err := w.Flush(); err != nil && failed == nil {
				failed = err
			}
			if !errors.Is(failed, errInjected) {
				c.Fail("the writer failed at %d of %d and the outcome is %v", limit, len(want), failed)
			}
			c.Event("writer fault reported")
		})
		c.Eval()
	}
	// decoding, with integers that are longer than necessary too
	data := want
	if c.R.IntN(2) == 0 {
		e.Pad = 1 + c.R.IntN(3)
		data = nil
		lens = nil
		for _, v := range vs {
			x := e.U32(v)
			lens = append(lens, len(x))
			data = append(data, x...)
		}
		if e.Long > 0 {
			c.Event("padded decoded")
		}
	}
	rest := make([]byte, c.R.IntN(4))
	for i := range rest {
		rest[i] = byte(c.R.IntN(256))
	}
	data = append(bytes.Clone(data), rest...)
	c.Log("data % x", data)
	mode := c.R.IntN(chunkModes)
	kind := c.R.IntN(3)
	c.Try("decoding", func() {
		var next func() (uint32, int, error)
		var left func() []byte
		var name string
		switch kind {
		case 0:
			name = "Decode"
			r := bufio.NewReaderSize(&chunks{c: c, b: data, mode: mode, err: io.EOF}, 16)
			next = func() (uint32, int, error) { return leb128.Decode(r) }
			left = func() []byte { b, _ := io.ReadAll(r); return b }
		case 1:
			name = "DecodeReader"
			r := &chunks{c: c, b: data, mode: mode, err: io.EOF}
			next = func() (uint32, int, error) { return leb128.DecodeReader(r) }
			left = func() []byte { return r.b }
		default:
			name = "DecodeSlice"
			b := data
			next = func() (uint32, int, error) {
				v, k, err := leb128.DecodeSlice(b)
				if err == nil {
					b = b[min(k, len(b)):]
				}
				return v, k, err
			}
			left = func() []byte { return b }
		}
		for i, v := range vs {
			got, k, err := next()
			if err != nil || got != v || k != lens[i] {
				c.Fail("%s of value %d gave %d, %d bytes, %v, expected %d from %d bytes", name, i, got, k, err, v, lens[i])
			}
		}
		if l := left(); !bytes.Equal(l, rest) {
			c.Fail("%s left % x unread, expected % x", name, l, rest)
		}
		c.Event("decoded by " + name)
	})
	c.State(lens, kind, mode)
	c.Eval()
}

func runL02(c *mon.Case) {
	// bytes
	var b []byte
	for n := c.R.IntN(8); n > 0; n-- {
		x := byte(c.R.IntN(256))
		if c.R.IntN(2) == 0 {
			x = []byte{0x80, 0xff, 0x00, 0x7f, 0x8f, 0x0f, 0x10, 0x1f, 0x70, 0xf0, 0x01}[c.R.IntN(11)]
		}
		if len(b) < 4 && c.R.IntN(3) != 0 {
			x |= 0x80
		}
		b = append(b, x)
	}
	v, rest, err := wbin.U32(b)
	c.Log("bytes % x", b)
	c.Sample("bytes % x", b)
	want := "value"
	if err != nil {
		want = err.Error()
	}
	pattern := ""
	for i, x := range b {
		if i > 5 {
			break
		}
		if x&0x80 != 0 {
			pattern += "+"
		} else {
			pattern += "-"
		}
		if i == 4 {
			pattern += fmt.Sprintf("%x", x&0x7f)
		}
	}
	mode := c.R.IntN(chunkModes)
	c.Try("decoding", func() {
		check := func(name string, got uint32, k int, gotErr error) {
			if err != nil {
				if gotErr == nil {
					c.Fail("%s(% x) = %d, %d, expected an error (%v)", name, b, got, k, err)
				}
				return
			}
			if gotErr != nil || got != v || k != len(b)-len(rest) {
				c.Fail("%s(% x) = %d, %d, %v, expected %d, %d", name, b, got, k, gotErr, v, len(b)-len(rest))
			}
		}
		got, k, e := leb128.DecodeSlice(b)
		check("DecodeSlice", got, k, e)
		got, k, e = leb128.Decode(bufio.NewReader(&chunks{c: c, b: b, mode: mode, err: io.EOF}))
		check("Decode", got, k, e)
		got, k, e = leb128.DecodeReader(&chunks{c: c, b: b, mode: mode, err: io.EOF})
		check("DecodeReader", got, k, e)
		c.Eval()
		switch want {
		case "value":
			c.Event("value")
		case "truncated":
			c.Event("truncated refused")
		case "integer too long":
			c.Event("too long refused")
		default:
			c.Event("too large refused")
		}
		// the source fails inside the integer
		if err == nil || want == "truncated" {
			n := len(b)
			if err == nil {
				n = c.R.IntN(len(b) - len(rest))
			}
			_, _, e := leb128.DecodeReader(&chunks{c: c, b: b[:n], mode: mode, err: errInjected})
			if !errors.Is(e, errInjected) {
				c.Fail("DecodeReader(% x) with a fault at %d gave %v", b, n, e)
			}
			_, _, e = leb128.Decode(bufio.NewReader(&chunks{c: c, b: b[:n], mode: mode, err: errInjected}))
			if !errors.Is(e, errInjected) {
				c.Fail("Decode(% x) with a fault at %d gave %v", b, n, e)
			}
			c.Event("reader fault reported")
			c.Eval()
		}
	})
	c.State(pattern, want, mode)
}

func runR01(c *mon.Case) {
	store := &rt.Store{}
	type inst struct {
		m     *api.Module
		model *wbin.Module
		mi    *rt.ModuleInstance
	}
	var insts []inst
	var expected, snapshot []instance.Function
	shape := ""
	verify := func() {
		if len(store.Funcs) != len(expected) {
			c.Fail("the store has %d functions, expected %d", len(store.Funcs), len(expected))
		}
		for i, f := range snapshot {
			if store.Funcs[i] != f {
				c.Fail("function %d of the store was replaced", i)
			}
		}
		snapshot = append(snapshot[:0:0], store.Funcs...)
		owner := map[int][2]int{}
		for k, in := range insts {
			for _, e := range in.model.Exports {
				x, ok := in.mi.GetExport(e.Name)
				if !ok {
					c.Fail("instance %d does not know its export %q", k, e.Name)
				}
				if x.Name != e.Name {
					c.Fail("asked for %q and got %q", e.Name, x.Name)
				}
				// the address leads to the function that was exported
				var addr int
				if _, err := fmt.Sscan(fmt.Sprint(x.Value), &addr); err != nil {
					c.Fail("address of %q is %v", e.Name, x.Value)
				}
				if addr < 0 || addr >= len(store.Funcs) {
					c.Fail("address %d of %q is not in the store", addr, e.Name)
				}
				if store.Funcs[addr] != instance.Function(in.m.Funcs[e.Func]) {
					c.Fail("export %q of instance %d leads to another function (address %d), expected function %d of the module", e.Name, k, addr, e.Func)
				}
				me := [2]int{k, int(e.Func)}
				if o, ok := owner[addr]; ok && o != me {
					c.Fail("export %q of instance %d and function %d of instance %d share address %d", e.Name, k, o[1], o[0], addr)
				}
				owner[addr] = me
				c.Event("export resolved")
			}
			names := map[string]bool{}
			for _, e := range in.model.Exports {
				names[e.Name] = true
			}
			for _, n := range []string{"", "no-such-export", "a", "memory"} {
				if _, ok := in.mi.GetExport(n); ok && !names[n] {
					c.Fail("instance %d claims to export %q", k, n)
				} else if !ok {
					c.Event("unknown name refused")
				}
			}
			if len(in.mi.FunctionAddresses) != len(in.m.Funcs) {
				c.Fail("instance %d has %d functions, expected %d", k, len(in.mi.FunctionAddresses), len(in.m.Funcs))
			}
			if k < len(insts)-1 {
				c.Event("earlier instance checked")
			}
		}
	}
	for n := 1 + c.R.IntN(5); n > 0; n-- {
		model := (&wbin.Gen{R: c.R}).Module()
		for len(model.Funcs) > 20 {
			model = (&wbin.Gen{R: c.R}).Module()
		}
		again := len(insts) > 0 && c.R.IntN(6) == 0
		var m *api.Module
		if again {
			k := c.R.IntN(len(insts))
			model, m = insts[k].model, insts[k].m
			c.Event("same module twice")
		} else {
			doc, err := binary.Read(bytes.NewReader((&wbin.Encoder{R: c.R}).Module(model)))
			if err != nil {
				c.Fail("reading a module failed: %v", err)
			}
			m = doc.Directive.(*api.Module)
		}
		if !again && c.R.IntN(5) == 0 {
			// an export of a function that does not exist
			bad := api.Export{Name: "bad", Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(len(m.Funcs) + c.R.IntN(3))}}
			if c.R.IntN(3) == 0 {
				bad.Description = &api.FuncExportDescription{FuncIdx: 0xffffffff}
			}
			at := c.R.IntN(len(m.Exports) + 1)
			x := append([]api.Export{}, m.Exports[:at]...)
			x = append(x, bad)
			m.Exports = append(x, m.Exports[at:]...)
			var err error
			c.Try("NewModuleInstance", func() { _, err = rt.NewModuleInstance(store, m) })
			if err == nil {
				c.Fail("a module that exports a function it does not have was instantiated")
			}
			c.Event("bad module refused")
			shape += "!"
		} else {
			var mi *rt.ModuleInstance
			var err error
			c.Try("NewModuleInstance", func() { mi, err = rt.NewModuleInstance(store, m) })
			if err != nil {
				c.Fail("instantiation failed: %v", err)
			}
			insts = append(insts, inst{m, model, mi})
			for _, f := range m.Funcs {
				expected = append(expected, f)
			}
			shape += fmt.Sprintf("%d/%d ", len(m.Funcs), len(m.Exports))
		}
		c.Try("lookup", verify)
		c.State(len(insts), len(expected), shape)
		c.Eval()
	}
	c.Log("%s", shape)
	c.Sample("functions/exports: %s", shape)
}
