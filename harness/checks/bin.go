package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"

	"verif/harness/mon"
	"verif/harness/wbin"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "B01",
		Rule:     "a case generates a module, encodes it with an independent encoder that varies integer lengths and adds sections the reader skips, reads it with the library and compares types, functions, locals, bodies and exports; a state is the shape of the module (counts, largest function, padding, skipped sections)",
		Quick:    200000,
		Thorough: 2000000,
		Need:     []string{"types", "functions", "locals", "exports", "long integers", "skipped sections", "empty sections", "component", "more than 127 elements", "more than 16383 elements", "more than 65535 elements", "long function", "repeated locals"},
		Run:      runB01,
	})
	mon.Register(&mon.Prop{
		ID:       "B02",
		Rule:     "a case corrupts a module (bytes, counts, sizes, truncation, duplicated, swapped or spliced sections) and compares the library's verdict and content with an independent decoder, while the bytes allocated are measured; a state is the reference verdict with its reason and the kind of corruption",
		Quick:    150000,
		Thorough: 1500000,
		Serial:   true,
		Need:     []string{"refused", "accepted", "huge count", "allocation measured", "mutation bytes", "mutation count", "mutation truncate", "mutation sections", "mutation insert", "mutation random", "mutation preamble", "mutation leb"},
		Run:      runB02,
	})
	mon.Register(&mon.Prop{
		ID:       "B03",
		Rule:     "a case reads one module through readers that deliver it in different pieces, cut it at each offset and fail at an offset, and compares with the outcome for the same bytes delivered at once and with an independent decoder; a state is the delivery mode with the position class of the fault",
		Quick:    12000,
		Thorough: 120000,
		Need:     []string{"chunked", "prefix refused", "prefix accepted", "fault reported", "fault at section boundary", "long file"},
		Run:      runB03,
	})
}

// dumpModule renders what the library read like the model does.
func dumpModule(doc *api.Document) string {
	var b strings.Builder
	if doc == nil {
		return "no document"
	}
	if _, ok := doc.Directive.(*api.Component); ok {
		return "component"
	}
	m, ok := doc.Directive.(*api.Module)
	if !ok {
		return fmt.Sprintf("directive %T", doc.Directive)
	}
	names := map[api.ValType]string{api.I32Type: "i32", api.I64Type: "i64", api.F32Type: "f32", api.F64Type: "f64"}
	list := func(ts []api.ValType) []string {
		var out []string
		for _, t := range ts {
			n, ok := names[t]
			if !ok {
				n = fmt.Sprintf("?%v", t)
			}
			out = append(out, n)
		}
		return out
	}
	for i, t := range m.Types {
		fmt.Fprintf(&b, "type %d %v -> %v\n", i, list(t.Parameters.Types), list(t.Returns.Types))
	}
	for i, f := range m.Funcs {
		fmt.Fprintf(&b, "func %d type %d locals", i, f.Type)
		for _, l := range list(f.Locals) {
			b.WriteString(" ")
			b.WriteString(l)
		}
		b.WriteString("\n")
		if f.Body == nil {
			b.WriteString("  no body\n")
			continue
		}
		for _, in := range f.Body.Instructions {
			switch x := in.(type) {
			case api.LocalGet:
				fmt.Fprintf(&b, "  local.get %d\n", x.Index)
			case api.I32Add:
				b.WriteString("  i32.add 0\n")
			case api.End:
				b.WriteString("  end 0\n")
			default:
				fmt.Fprintf(&b, "  %T\n", in)
			}
		}
	}
	for _, e := range m.Exports {
		d, ok := e.Description.(*api.FuncExportDescription)
		if !ok {
			fmt.Fprintf(&b, "export %q %T\n", e.Name, e.Description)
			continue
		}
		fmt.Fprintf(&b, "export %q func %d\n", e.Name, d.FuncIdx)
	}
	return b.String()
}

func shorten(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

// difference shows where two renderings part.
func difference(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	at := func(s string) string {
		return s[max(0, i-60):min(len(s), i+120)]
	}
	return fmt.Sprintf("at %d: got ...%q, expected ...%q", i, at(got), at(want))
}

func genModule(c *mon.Case) (*wbin.Module, []byte, *wbin.Encoder) {
	m := (&wbin.Gen{R: c.R, Large: c.Chance(2000)}).Module()
	if c.R.IntN(60) == 0 {
		m = &wbin.Module{Component: true}
	}
	e := &wbin.Encoder{R: c.R, Explicit: c.R.IntN(3) == 0, Noise: c.R.IntN(2) == 0, Mega: c.Chance(8000)}
	if c.R.IntN(2) == 0 {
		e.Pad = 1 + c.R.IntN(6)
	}
	return m, e.Module(m), e
}

func checkPreamble(c *mon.Case, doc *api.Document, component bool) {
	want := api.Preamble{Version: 1}
	if component {
		want = api.Preamble{Version: 0x0a, Layer: 1}
	}
	if doc.Preamble != want {
		c.Fail("preamble is %+v, expected %+v", doc.Preamble, want)
	}
}

func runB01(c *mon.Case) {
	m, b, e := genModule(c)
	c.Log("bytes %x", b)
	c.Sample("%d types, %d functions, %d exports in %d bytes", len(m.Types), len(m.Funcs), len(m.Exports), len(b))
	var doc *api.Document
	var err error
	c.Try("Read", func() { doc, err = binary.Read(bytes.NewReader(b)) })
	if err != nil {
		c.Fail("a well-formed module is refused: %v\n%s", err, shorten(m.String()))
	}
	if got, want := dumpModule(doc), m.String(); got != want {
		c.Fail("the module was misread %s", difference(got, want))
	}
	checkPreamble(c, doc, m.Component)
	// reading again gives the same and leaves the first answer alone
	if c.R.IntN(4) == 0 {
		var again *api.Document
		c.Try("Read", func() { again, err = binary.Read(bytes.NewReader(b)) })
		if err != nil || dumpModule(again) != dumpModule(doc) {
			c.Fail("reading twice gives different modules")
		}
	}
	c.Eval()
	longest, locals := 0, 0
	for _, f := range m.Funcs {
		longest = max(longest, len(f.Body))
		for _, g := range f.Groups {
			locals += int(g.N)
			if g.N > 1 {
				c.Event("repeated locals")
			}
		}
	}
	c.EventN("types", len(m.Types))
	c.EventN("functions", len(m.Funcs))
	c.EventN("locals", locals)
	c.EventN("exports", len(m.Exports))
	c.EventN("long integers", e.Long)
	c.EventN("skipped sections", e.Skipped)
	if e.Explicit {
		c.Event("empty sections")
	}
	if m.Component {
		c.Event("component")
	}
	if len(m.Types) > 127 || len(m.Funcs) > 127 || len(m.Exports) > 127 {
		c.Event("more than 127 elements")
	}
	if max(len(m.Types), len(m.Funcs), len(m.Exports)) > 16383 {
		c.Event("more than 16383 elements")
	}
	if max(len(m.Types), len(m.Funcs), len(m.Exports)) > 65535 {
		c.Event("more than 65535 elements")
	}
	if longest > 16383 {
		c.Event("long function")
	}
	c.State(len(m.Types), len(m.Funcs), len(m.Exports), longest, locals, e.Long, e.Skipped)
}

// section finds the sections of an encoded module: offsets of id and end.
func sections(b []byte) [][3]int {
	var out [][3]int
	i := 8
	for i < len(b) {
		size, rest, err := wbin.U32(b[i+1:])
		if err != nil || uint64(size) > uint64(len(rest)) {
			break
		}
		body := len(b) - len(rest)
		out = append(out, [3]int{i, body, body + int(size)})
		i = body + int(size)
	}
	return out
}

func hugeCount(c *mon.Case) []byte {
	vs := []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0x10000000, 1 << 20, 50000, 50001, 65536, 128, uint32(c.R.IntN(1000))}
	return (&wbin.Encoder{R: c.R}).U32(vs[c.R.IntN(len(vs))])
}

func corrupt(c *mon.Case, b []byte) ([]byte, string) {
	b = bytes.Clone(b)
	secs := sections(b)
	switch c.R.IntN(10) {
	case 0, 1:
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			b[c.R.IntN(len(b))] = byte(c.R.IntN(256))
		}
		return b, "bytes"
	case 2:
		// a count at the beginning of a section becomes huge; the size of the
		// section is kept right
		if len(secs) == 0 {
			return append(b, append([]byte{1}, append((&wbin.Encoder{R: c.R}).U32(5), 0xff, 0xff, 0xff, 0xff, 0x0f)...)...), "count"
		}
		s := secs[c.R.IntN(len(secs))]
		old, rest, err := wbin.U32(b[s[1]:s[2]])
		_ = old
		if err != nil {
			return b[:len(b)-1], "truncate"
		}
		body := append(hugeCount(c), rest...)
		out := append([]byte{}, b[:s[0]+1]...)
		out = append(out, (&wbin.Encoder{R: c.R}).U32(uint32(len(body)))...)
		out = append(out, body...)
		return append(out, b[s[2]:]...), "count"
	case 3:
		return b[:c.R.IntN(len(b))], "truncate"
	case 4:
		// sections duplicated, swapped, removed
		if len(secs) == 0 {
			return append(b, 1, 1), "sections"
		}
		out := append([]byte{}, b[:8]...)
		for k := 1 + c.R.IntN(len(secs)+1); k > 0; k-- {
			s := secs[c.R.IntN(len(secs))]
			out = append(out, b[s[0]:s[2]]...)
		}
		return out, "sections"
	case 5:
		at := c.R.IntN(len(b) + 1)
		ins := make([]byte, 1+c.R.IntN(4))
		for i := range ins {
			ins[i] = byte(c.R.IntN(256))
		}
		out := append([]byte{}, b[:at]...)
		out = append(out, ins...)
		if c.R.IntN(2) == 0 {
			return append(out, b[at:]...), "insert"
		}
		return append(out, b[min(len(b), at+len(ins)):]...), "insert"
	case 6:
		out := append([]byte{}, b[:8]...)
		for n := c.R.IntN(30); n > 0; n-- {
			switch c.R.IntN(4) {
			case 0:
				out = append(out, hugeCount(c)...)
			case 1:
				out = append(out, byte(c.R.IntN(14)))
			case 2:
				out = append(out, []byte{0x60, 0x7f, 0x7e, 0x7d, 0x7c, 0x0b, 0x20, 0x6a}[c.R.IntN(8)])
			default:
				out = append(out, byte(c.R.IntN(256)))
			}
		}
		return out, "random"
	case 7:
		i := c.R.IntN(8)
		if c.R.IntN(2) == 0 {
			b[i] ^= 1 << c.R.IntN(8)
		} else {
			b[i] = []byte{0, 1, 2, 0x0a, 0x0d, 0xff}[c.R.IntN(6)]
		}
		if c.R.IntN(3) == 0 {
			return b[:8], "preamble"
		}
		return b, "preamble"
	case 8:
		// an integer made longer, right or wrong
		var at []int
		for i := 8; i < len(b); i++ {
			at = append(at, i)
		}
		if len(at) == 0 {
			return append(b, 0x80), "leb"
		}
		i := at[c.R.IntN(len(at))]
		pad := [][]byte{{0x80, 0}, {0x80, 0x80, 0}, {0x80, 0x80, 0x80, 0}, {0x80, 0x80, 0x80, 0x80, 0}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x1f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0}, {0x80, 0x80, 0x80, 0x80, 0x10}}[c.R.IntN(8)]
		out := append([]byte{}, b[:i]...)
		out = append(out, pad...)
		return append(out, b[i+1:]...), "leb"
	default:
		// locals: a code section of its own
		e := &wbin.Encoder{R: c.R}
		code := e.U32(uint32(1 + c.R.IntN(3)))
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			code = append(code, hugeCount(c)...)
			code = append(code, []byte{0x7f, 0x7e, 0x7b, 0x70}[c.R.IntN(4)])
		}
		code = append(code, 0x0b)
		out := append([]byte{}, b[:8]...)
		out = append(out, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 10)
		out = append(out, e.U32(uint32(len(code)+2))...)
		out = append(out, 1)
		out = append(out, e.U32(uint32(len(code)))...)
		return append(out, code...), "count"
	}
}

// judge compares an answer of the library with the reference decoder.
func judge(c *mon.Case, b []byte, doc *api.Document, err error, d *wbin.Decoded) string {
	switch d.V {
	case wbin.Bad:
		if err == nil {
			c.Fail("malformed input (%s) was accepted: %x\nas %s", d.Reason, clip(b), shorten(dumpModule(doc)))
		}
		return "refused"
	case wbin.Good:
		if err != nil {
			c.Fail("well-formed input was refused with %v: %x", err, clip(b))
		}
	case wbin.Open:
		if err != nil {
			return "open"
		}
	case wbin.Any:
		return "open"
	}
	if got, want := dumpModule(doc), d.M.String(); got != want {
		c.Fail("the module was misread %s\n%x", difference(got, want), clip(b))
	}
	checkPreamble(c, doc, d.M.Component)
	return "accepted"
}

func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func runB02(c *mon.Case) {
	_, b, _ := genModule(c)
	var kind string
	for k := 1 + c.R.IntN(2); k > 0 && len(b) >= 8; k-- {
		b, kind = corrupt(c, b)
	}
	c.Log("mutation %s: %x", kind, clip(b))
	c.Sample("mutation %s: %x", kind, clip(b))
	d := wbin.Decode(b)
	var doc *api.Document
	var err error
	r := bytes.NewReader(b)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	c.Try("Read", func() { doc, err = binary.Read(r) })
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	c.Event("allocation measured")
	limit := uint64(8<<20) + 2000*uint64(len(b)) + 256*d.Locals
	if used > limit {
		c.Fail("reading %d bytes allocated %d bytes: %x", len(b), used, clip(b))
	}
	out := judge(c, b, doc, err, d)
	c.Event(out)
	c.Event("mutation " + kind)
	if kind == "count" {
		c.Event("huge count")
	}
	c.State(kind, out, d.V, d.Reason)
	c.Eval()
}

func runB03(c *mon.Case) {
	m, b, _ := genModule(c)
	for big := c.Chance(60); len(b) > 3000 && !big || len(b) > 200000; {
		m, b, _ = genModule(c)
	}
	if c.R.IntN(3) == 0 {
		b, _ = corrupt(c, b)
	}
	c.Log("bytes %x", clip(b))
	c.Sample("%d bytes, %d functions", len(b), len(m.Funcs))
	d := wbin.Decode(b)
	read := func(r io.Reader) (doc *api.Document, err error) {
		c.Try("Read", func() { doc, err = binary.Read(r) })
		return
	}
	// different deliveries of the same bytes
	for mode := 0; mode < chunkModes; mode++ {
		doc, err := read(&chunks{c: c, b: b, mode: mode, err: io.EOF})
		c.Log("delivery %d: %v", mode, err)
		out := judge(c, b, doc, err, d)
		c.Event("chunked")
		c.State("delivery", mode, out, d.Reason, len(d.M.Types), len(d.M.Funcs), len(d.M.Exports))
		c.Eval()
	}
	bounds := map[int]bool{8: true}
	for _, s := range sections(b) {
		bounds[s[2]] = true
	}
	step := 1
	if len(b) > 300 {
		step = 1 + c.R.IntN(len(b)/100)
	}
	if len(b) > 3000 {
		step = len(b)/(5+c.R.IntN(20)) + c.R.IntN(100)
		c.Event("long file")
	}
	for k := 0; k < len(b); k += step {
		p := b[:k]
		dp := wbin.Decode(p)
		doc, err := read(&chunks{c: c, b: p, mode: c.R.IntN(chunkModes), err: io.EOF})
		c.Log("prefix %d: %v", k, err)
		out := judge(c, p, doc, err, dp)
		c.Event("prefix " + out)
		c.State("prefix", out, dp.Reason, len(dp.M.Types), len(dp.M.Funcs), len(dp.M.Exports))
		c.Eval()
	}
	// faults
	for n := 0; n < 12; n++ {
		k := c.R.IntN(len(b) + 1)
		if n < 6 && len(bounds) > 0 {
			for x := range sections(b) {
				if c.R.IntN(3) == 0 {
					k = sections(b)[x][2]
				}
			}
		}
		mode := c.R.IntN(chunkModes)
		doc, err := read(&chunks{c: c, b: b[:k], mode: mode, err: errInjected})
		c.Log("fault at %d: %v", k, err)
		dk := wbin.Decode(b[:k])
		if dk.M.Component || (len(b) >= 8 && b[4] == 0x0a) {
			// the content of a component is not read
			continue
		}
		if err == nil {
			c.Fail("reading failed at offset %d of %d and a module was returned: %s", k, len(b), shorten(dumpModule(doc)))
		}
		if !errors.Is(err, errInjected) {
			// a malformed prefix may be refused for that reason
			if dk.V == wbin.Good || dk.V == wbin.Open && dk.Reason != "many locals" {
				c.Fail("reading failed at offset %d but the error is %v", k, err)
			}
		} else {
			c.Event("fault reported")
		}
		if bounds[k] {
			c.Event("fault at section boundary")
		}
		c.State("fault", mode, bounds[k], dk.V)
		c.Eval()
	}
}
