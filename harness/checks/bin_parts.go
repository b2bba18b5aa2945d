package checks

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"

	"verif/harness/mon"
	"verif/harness/wbin"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "B04",
		Rule:     "a case encodes a sequence of parts of binary modules (preamble, section header, numbers, bytes, names, types, exports, locals, instructions, expressions), reads them one after the other through the same reader with a generated delivery, cut or failing at an offset, and compares each value and the number of bytes taken with what was encoded; a state is the part with the delivery and the outcome",
		Quick:    400000,
		Thorough: 4000000,
		Need:     append(append([]string{}, partKinds...), "cut inside", "cut at the start", "fault", "invalid part", "long integer"),
		Run:      runB04,
	})
}

var partKinds = []string{"preamble", "section header", "u32", "u16", "byte", "bytes", "leb", "value type", "value types", "result type", "func type", "func", "export", "name", "locals", "instruction", "opcode", "expression"}

// part is an encoded part of a binary.
type part struct {
	kind  string
	b     []byte
	want  string
	bytes int
	bad   bool
}

func valNames(ts []api.ValType) string {
	names := map[api.ValType]string{api.I32Type: "i32", api.I64Type: "i64", api.F32Type: "f32", api.F64Type: "f64"}
	var out []string
	for _, t := range ts {
		n, ok := names[t]
		if !ok {
			n = fmt.Sprintf("?%v", t)
		}
		out = append(out, n)
	}
	return strings.Join(out, ",")
}

func instrName(in api.Instruction) string {
	switch x := in.(type) {
	case api.LocalGet:
		return fmt.Sprintf("local.get %d", x.Index)
	case api.I32Add:
		return "i32.add"
	case api.End:
		return "end"
	}
	return fmt.Sprintf("%T", in)
}

// newPart generates a part and what it denotes.
func newPart(c *mon.Case, e *wbin.Encoder) *part {
	p := &part{kind: partKinds[c.R.IntN(len(partKinds))]}
	num := func() uint32 {
		switch c.R.IntN(4) {
		case 0:
			return c.R.Uint32()
		case 1:
			return uint32(c.R.IntN(300))
		}
		return c.R.Uint32() >> c.R.IntN(32)
	}
	codes := map[string]byte{"i32": 0x7f, "i64": 0x7e, "f32": 0x7d, "f64": 0x7c}
	vt := func() (byte, string) {
		n := pickOf(c, "i32", "i64", "f32", "f64")
		return codes[n], n
	}
	vec := func() ([]byte, string) {
		n := c.R.IntN(5)
		if c.Chance(20) {
			n = 60 + c.R.IntN(140)
		}
		b := e.U32(uint32(n))
		var ns []string
		for ; n > 0; n-- {
			x, s := vt()
			b = append(b, x)
			ns = append(ns, s)
		}
		return b, strings.Join(ns, ",")
	}
	name := func() ([]byte, string) {
		var s strings.Builder
		n := c.R.IntN(9)
		if c.Chance(20) {
			n = c.R.IntN(1200)
		}
		for ; n > 0; n-- {
			s.WriteString(pickOf(c, "a", "ä", "€", "😀", "\x00", "z"))
		}
		return append(e.U32(uint32(s.Len())), s.String()...), s.String()
	}
	instr := func() ([]byte, string) {
		switch c.R.IntN(3) {
		case 0:
			return []byte{0x6a}, "i32.add"
		case 1:
			i := num()
			return append([]byte{0x20}, e.U32(i)...), fmt.Sprintf("local.get %d", i)
		}
		return []byte{0x0b}, "end"
	}
	switch p.kind {
	case "preamble":
		v, l := c.R.IntN(65536), c.R.IntN(65536)
		p.b = []byte{0, 'a', 's', 'm', byte(v), byte(v >> 8), byte(l), byte(l >> 8)}
		p.want = fmt.Sprint(v, l)
		if c.Chance(10) {
			p.b[c.R.IntN(4)] ^= 1 << c.R.IntN(8)
			p.bad = true
		}
	case "section header":
		id, n := byte(c.R.IntN(256)), num()
		p.b = append([]byte{id}, e.U32(n)...)
		p.want = fmt.Sprint(id, n)
	case "u32":
		n := num()
		p.b = []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		p.want = fmt.Sprint(n)
	case "u16":
		n := num() & 0xffff
		p.b = []byte{byte(n), byte(n >> 8)}
		p.want = fmt.Sprint(n)
	case "byte", "opcode":
		n := num() & 0xff
		p.b = []byte{byte(n)}
		p.want = fmt.Sprint(n)
	case "bytes":
		p.bytes = 1 + c.R.IntN(20)
		if c.Chance(20) {
			p.bytes = 1 + c.R.IntN(5000)
		}
		for i := 0; i < p.bytes; i++ {
			p.b = append(p.b, byte(c.R.IntN(256)))
		}
		p.want = fmt.Sprintf("%x", p.b)
	case "leb", "func":
		n := num()
		p.b = e.U32(n)
		p.want = fmt.Sprint(n)
		if c.Chance(15) {
			// too long, or too large
			p.b = append([]byte{0x80, 0x80, 0x80, 0x80}, pickOf(c, "\x80\x00", "\x10", "\x7f", "\x80\x80\x01")...)
			p.bad = true
		}
	case "value type":
		x, s := vt()
		p.b, p.want = []byte{x}, s
		if c.Chance(10) {
			p.b[0] = byte(c.R.IntN(0x6f))
			p.bad = true
		}
	case "value types", "result type":
		p.b, p.want = vec()
	case "func type":
		a, as := vec()
		r, rs := vec()
		p.b, p.want = append(append([]byte{0x60}, a...), r...), as+" -> "+rs
		if c.Chance(10) {
			p.b[0] = byte(c.R.IntN(0x60))
			p.bad = true
		}
	case "name":
		p.b, p.want = name()
		if c.Chance(10) {
			s := pickOf(c, "\xff", "a\x80", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82")
			p.b = append(e.U32(uint32(len(s))), s...)
			p.bad = true
		}
	case "export":
		n, s := name()
		i := num()
		p.b, p.want = append(append(n, 0), e.U32(i)...), fmt.Sprintf("%q %d", s, i)
	case "locals":
		k := c.R.IntN(4)
		p.b = e.U32(uint32(k))
		var ns []string
		for ; k > 0; k-- {
			n := c.R.IntN(5)
			if c.Chance(50) {
				n = c.R.IntN(2000)
			}
			x, s := vt()
			p.b = append(append(p.b, e.U32(uint32(n))...), x)
			for ; n > 0; n-- {
				ns = append(ns, s)
			}
		}
		p.want = strings.Join(ns, ",")
	case "instruction":
		p.b, p.want = instr()
		if c.Chance(10) {
			p.b = []byte{0xff}
			p.bad = true
		}
	case "expression":
		var ns []string
		n := c.R.IntN(6)
		if c.Chance(30) {
			n = c.R.IntN(300)
		}
		for ; n > 0; n-- {
			b, s := instr()
			if s == "end" {
				continue
			}
			p.b, ns = append(p.b, b...), append(ns, s)
		}
		p.b, ns = append(p.b, 0x0b), append(ns, "end")
		p.want = strings.Join(ns, ";")
	}
	return p
}

// readPart reads with the function for the part.
func readPart(p *part, r io.Reader) (string, error) {
	switch p.kind {
	case "preamble":
		x, err := binary.ReadPreamble(r)
		return fmt.Sprint(x.Version, x.Layer), err
	case "section header":
		id, n, err := binary.ReadSectionHeader(r)
		return fmt.Sprint(byte(id), n), err
	case "u32":
		n, err := binary.ReadUInt32(r)
		return fmt.Sprint(n), err
	case "u16":
		n, err := binary.ReadUInt16(r)
		return fmt.Sprint(n), err
	case "byte":
		n, err := binary.ReadByte(r)
		return fmt.Sprint(n), err
	case "opcode":
		n, err := binary.ReadOpCode(r)
		return fmt.Sprint(uint32(n)), err
	case "bytes":
		b, err := binary.ReadBytes(r, p.bytes)
		return fmt.Sprintf("%x", b), err
	case "leb":
		n, err := binary.ReadLebU128(r)
		return fmt.Sprint(n), err
	case "func":
		f, err := binary.ReadFunc(r)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(uint32(f.Type)), nil
	case "value type":
		t, err := binary.ReadValueType(r)
		return valNames([]api.ValType{t}), err
	case "value types":
		ts, err := binary.ReadValueTypeVector(r)
		return valNames(ts), err
	case "result type":
		t, err := binary.ReadResultType(r)
		return valNames(t.Types), err
	case "func type":
		t, err := binary.ReadType(r)
		if err != nil {
			return "", err
		}
		return valNames(t.Parameters.Types) + " -> " + valNames(t.Returns.Types), nil
	case "name":
		return binary.ReadString(r)
	case "export":
		x, err := binary.ReadExport(r)
		if err != nil {
			return "", err
		}
		d, ok := x.Description.(*api.FuncExportDescription)
		if !ok {
			return fmt.Sprintf("%T", x.Description), nil
		}
		return fmt.Sprintf("%q %d", x.Name, d.FuncIdx), nil
	case "locals":
		ts, err := binary.ReadLocals(r)
		return valNames(ts), err
	case "instruction":
		in, err := binary.ReadInstruction(r)
		return instrName(in), err
	case "expression":
		x, err := binary.ReadExpression(r)
		if err != nil {
			return "", err
		}
		var ns []string
		for _, in := range x.Instructions {
			ns = append(ns, instrName(in))
		}
		return strings.Join(ns, ";"), nil
	}
	panic("unreachable")
}

func runB04(c *mon.Case) {
	e := &wbin.Encoder{R: c.R}
	if c.Chance(2) {
		e.Pad = 1 + c.R.IntN(4)
	}
	var parts []*part
	var all []byte
	for n := 1 + c.R.IntN(6); n > 0; n-- {
		p := newPart(c, e)
		parts = append(parts, p)
		all = append(all, p.b...)
	}
	c.EventN("long integer", e.Long)
	end, fault := len(all), error(io.EOF)
	switch c.R.IntN(4) {
	case 0:
		// something else follows
		for n := c.R.IntN(20); n >= 0; n-- {
			all = append(all, byte(c.R.IntN(256)))
		}
		end = len(all)
	case 1:
		end = c.R.IntN(len(all) + 1)
	case 2:
		end = c.R.IntN(len(all) + 1)
		fault = errInjected
	}
	mode := c.R.IntN(chunkModes)
	r := &chunks{c: c, b: all[:end], mode: mode, err: fault}
	c.Log("%d parts, %x, end %d of %d, %v, delivery %d", len(parts), clip(all), end, len(all), fault, mode)
	c.Sample("%d parts, %x, end %d of %d, %v, delivery %d", len(parts), clip(all), end, len(all), fault, mode)
	at := 0
	for _, p := range parts {
		var got string
		var err error
		before := end - len(r.b)
		c.Try("reading a "+p.kind, func() { got, err = readPart(p, r) })
		c.Eval()
		c.Log("%s at %d: %s, %v", p.kind, at, shorten(got), err)
		c.State(p.kind, mode, err == nil, p.bad, at+len(p.b) <= end, fault == errInjected)
		if before != at {
			c.Fail("the part at %d was read from %d", at, before)
		}
		if at+len(p.b) > end {
			if err == nil {
				c.Fail("a %s of %d bytes was read from %d bytes as %s", p.kind, len(p.b), end-at, shorten(got))
			}
			if fault == errInjected {
				if !p.bad && !errors.Is(err, errInjected) {
					c.Fail("a %s with a fault after %d of %d bytes gives %v", p.kind, end-at, len(p.b), err)
				}
				c.Event("fault")
			} else if end == at {
				c.Event("cut at the start")
			} else {
				c.Event("cut inside")
			}
			return
		}
		if p.bad {
			if err == nil {
				c.Fail("an invalid %s %x was read as %s", p.kind, p.b, got)
			}
			c.Event("invalid part")
			return
		}
		if err != nil {
			if fault == errInjected && at+len(p.b) == end && errors.Is(err, errInjected) {
				// the fault came together with the last byte
				return
			}
			c.Fail("a %s %x is refused: %v", p.kind, clip(p.b), err)
		}
		if got != p.want {
			c.Fail("a %s %x was read as %s, expected %s", p.kind, clip(p.b), shorten(got), shorten(p.want))
		}
		at += len(p.b)
		if took := end - len(r.b); took != at {
			c.Fail("a %s of %d bytes was read and %d bytes were taken", p.kind, len(p.b), took-at+len(p.b))
		}
		c.Event(p.kind)
	}
}
