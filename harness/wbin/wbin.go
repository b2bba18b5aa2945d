// Package wbin is an independent model of the WebAssembly binary format, as
// far as the library supports it: a generator, an encoder and a reference
// decoder.
package wbin

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"
)

// FuncType is a function type; value types are named i32, i64, f32 and f64.
type FuncType struct{ Params, Results []string }

// Func is a function with its code.
type Func struct {
	Type   uint32
	Groups []Group
	Body   []Instr
}

// Group is a run of locals of the same type.
type Group struct {
	N    uint32
	Type string
}

// Instr is "local.get", "i32.add" or "end".
type Instr struct {
	Op    string
	Index uint32
}

// Export is an exported function.
type Export struct {
	Name string
	Func uint32
}

// Module is what a binary module contains.
type Module struct {
	Component bool
	Types     []FuncType
	Funcs     []Func
	Exports   []Export
}

// String renders the module in a form that is compared with the library's.
func (m *Module) String() string {
	var b strings.Builder
	if m.Component {
		return "component"
	}
	for i, t := range m.Types {
		fmt.Fprintf(&b, "type %d %v -> %v\n", i, t.Params, t.Results)
	}
	for i, f := range m.Funcs {
		fmt.Fprintf(&b, "func %d type %d locals", i, f.Type)
		for _, g := range f.Groups {
			if g.N > 0 {
				b.WriteString(strings.Repeat(" "+g.Type, int(g.N)))
			}
		}
		b.WriteString("\n")
		for _, in := range f.Body {
			fmt.Fprintf(&b, "  %s %d\n", in.Op, in.Index)
		}
	}
	for _, e := range m.Exports {
		fmt.Fprintf(&b, "export %q func %d\n", e.Name, e.Func)
	}
	return b.String()
}

var valTypes = map[string]byte{"i32": 0x7f, "i64": 0x7e, "f32": 0x7d, "f64": 0x7c}
var typeNames = []string{"i32", "i64", "f32", "f64"}

// Gen generates modules.
type Gen struct {
	R *rand.Rand
	// Large asks for a module with many elements.
	Large bool
}

func (g *Gen) count(max int) int {
	switch g.R.IntN(12) {
	case 0:
		return 0
	case 1:
		return g.R.IntN(max*8 + 1)
	case 2:
		return 126 + g.R.IntN(6)
	}
	return g.R.IntN(max + 1)
}

func (g *Gen) types(max int) []string {
	n := g.R.IntN(max + 1)
	if g.R.IntN(40) == 0 {
		n = 60 + g.R.IntN(100)
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, typeNames[g.R.IntN(4)])
	}
	return out
}

func (g *Gen) name() string {
	n := g.R.IntN(8)
	if g.R.IntN(20) == 0 {
		n = 100 + g.R.IntN(300)
	} else if g.R.IntN(300) == 0 {
		n = []int{127, 128, 255, 256, 4095, 4096, 4097, 16383, 16384, 16385}[g.R.IntN(10)]
		return strings.Repeat("n", n-1) + string(rune('a'+g.R.IntN(26)))
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch g.R.IntN(6) {
		case 0:
			b.WriteRune(rune(0x80 + g.R.IntN(0x700)))
		case 1:
			b.WriteRune(rune(0x10000 + g.R.IntN(0x100000)))
		case 2:
			b.WriteByte(byte(g.R.IntN(0x80)))
		default:
			b.WriteByte(byte('a' + g.R.IntN(26)))
		}
	}
	return b.String()
}

// large generates a module with indices that take three bytes, or more than
// sixteen bits.
func (g *Gen) large() *Module {
	m := &Module{}
	size := func(huge int) int {
		if g.R.IntN(4) == huge {
			return 65536 + g.R.IntN(3000)
		}
		return 300 + g.R.IntN(17000)
	}
	// pick prefers the last elements
	pick := func(n int) uint32 {
		if g.R.IntN(3) == 0 {
			return uint32(n - 1 - g.R.IntN(min(n, 100)))
		}
		return uint32(g.R.IntN(n))
	}
	for n := size(0); n > 0; n-- {
		m.Types = append(m.Types, FuncType{g.types(2), g.types(1)})
	}
	if g.R.IntN(4) == 0 {
		// one type with very many parameters or results
		list := make([]string, size(0))
		for i := range list {
			list[i] = typeNames[g.R.IntN(4)]
		}
		t := &m.Types[g.R.IntN(len(m.Types))]
		if g.R.IntN(2) == 0 {
			t.Params = list
		} else {
			t.Results = list
		}
	}
	for n := size(1); n > 0; n-- {
		m.Funcs = append(m.Funcs, Func{Type: pick(len(m.Types)), Body: []Instr{{"end", 0}}})
	}
	if g.R.IntN(3) == 0 {
		// one long function with many locals
		f := &m.Funcs[g.R.IntN(len(m.Funcs))]
		left := 50000
		for left > 0 && len(f.Groups) < 3000 {
			n := min(left, g.R.IntN([]int{3, 300, 50001}[g.R.IntN(3)]))
			if g.R.IntN(400) == 0 {
				n = left
			}
			f.Groups = append(f.Groups, Group{uint32(n), typeNames[g.R.IntN(4)]})
			left -= n
		}
		locals := 50000 - left + len(m.Types[f.Type].Params)
		f.Body = nil
		n := size(2)
		if g.R.IntN(3) == 0 {
			n = 400000
		}
		for ; n > 0; n-- {
			if locals > 0 && g.R.IntN(4) != 0 {
				f.Body = append(f.Body, Instr{"local.get", pick(locals)})
			} else {
				f.Body = append(f.Body, Instr{"i32.add", 0})
			}
		}
		f.Body = append(f.Body, Instr{"end", 0})
	}
	for n := size(3); n > 0; n-- {
		m.Exports = append(m.Exports, Export{fmt.Sprint("e", n), pick(len(m.Funcs))})
	}
	if g.R.IntN(4) == 0 {
		e := &m.Exports[g.R.IntN(len(m.Exports))]
		e.Name = strings.Repeat("long", size(0)) + e.Name
		if g.R.IntN(3) == 0 {
			e.Name = strings.Repeat("megabyte", 1<<17) + e.Name
		}
	}
	return m
}

// Module generates a module whose indices are in range.
func (g *Gen) Module() *Module {
	m := &Module{}
	if g.Large {
		return g.large()
	}
	for n := g.count(4); n > 0; n-- {
		m.Types = append(m.Types, FuncType{g.types(6), g.types(5)})
	}
	if len(m.Types) > 0 {
		for n := g.count(4); n > 0; n-- {
			f := Func{Type: uint32(g.R.IntN(len(m.Types)))}
			locals := len(m.Types[f.Type].Params)
			for k := g.R.IntN(4); k > 0; k-- {
				gr := Group{uint32(g.R.IntN(4)), typeNames[g.R.IntN(4)]}
				switch g.R.IntN(30) {
				case 2:
					if g.R.IntN(20) == 0 {
						gr.N = uint32(g.R.IntN(17000))
					}
				case 0:
					gr.N = uint32(g.R.IntN(1000))
				case 1:
					gr.N = uint32(100 + g.R.IntN(100))
				}
				f.Groups = append(f.Groups, gr)
				locals += int(gr.N)
			}
			n := g.R.IntN(6)
			if g.R.IntN(15) == 0 {
				n = g.R.IntN(300)
			}
			for k := n; k > 0; k-- {
				if locals > 0 && g.R.IntN(2) == 0 {
					f.Body = append(f.Body, Instr{"local.get", uint32(g.R.IntN(locals))})
				} else {
					f.Body = append(f.Body, Instr{"i32.add", 0})
				}
			}
			f.Body = append(f.Body, Instr{"end", 0})
			m.Funcs = append(m.Funcs, f)
		}
	}
	if len(m.Funcs) > 0 {
		seen := map[string]bool{}
		for n := g.count(3); n > 0; n-- {
			e := Export{g.name(), uint32(g.R.IntN(len(m.Funcs)))}
			if !seen[e.Name] {
				seen[e.Name] = true
				m.Exports = append(m.Exports, e)
			}
		}
	}
	return m
}

// Encoder writes modules, using the freedom the format leaves.
type Encoder struct {
	R *rand.Rand
	// Pad is the chance (one in n) of a longer than necessary integer; zero
	// means never.
	Pad int
	// Noise adds sections the library skips.
	Noise bool
	// Mega adds a section of more than a megabyte.
	Mega bool
	// Explicit writes empty sections too.
	Explicit bool
	// Long counts the integers that were written longer than necessary.
	Long int
	// Skipped counts the sections of other kinds.
	Skipped int
}

// U32 encodes an integer.
func (e *Encoder) U32(v uint32) []byte {
	var out []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 {
			out = append(out, b)
			break
		}
		out = append(out, b|0x80)
	}
	if e.Pad > 0 && len(out) < 5 && e.R.IntN(e.Pad) == 0 {
		e.Long++
		n := len(out) + 1 + e.R.IntN(5-len(out))
		out[len(out)-1] |= 0x80
		for len(out) < n-1 {
			out = append(out, 0x80)
		}
		out = append(out, 0)
	}
	return out
}

func (e *Encoder) valTypes(ts []string) []byte {
	out := e.U32(uint32(len(ts)))
	for _, t := range ts {
		out = append(out, valTypes[t])
	}
	return out
}

// Skips lists well-formed contents of sections the library does not parse.
var Skips = map[byte][][]byte{
	2:  {{0}, {1, 1, 'm', 1, 'f', 0, 0}, {2, 0, 0, 0, 0, 1, 'x', 1, 'y', 2, 0, 1}},
	4:  {{0}, {1, 0x70, 0, 1}},
	5:  {{0}, {1, 0, 1}, {1, 1, 1, 2}},
	6:  {{0}, {1, 0x7f, 0, 0x41, 0, 0x0b}},
	8:  {{0}},
	9:  {{0}, {1, 0, 0x41, 0, 0x0b, 1, 0}},
	11: {{0}, {1, 0, 0x41, 0, 0x0b, 1, 'a'}},
	12: {{0}, {1}},
}

// Module encodes m.
func (e *Encoder) Module(m *Module) []byte {
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	if m.Component {
		out[4], out[6] = 0x0a, 1
		return out
	}
	segments := -1
	section := func(id byte, body []byte) {
		out = append(out, id)
		out = append(out, e.U32(uint32(len(body)))...)
		out = append(out, body...)
	}
	custom := func() {
		for e.Noise && e.R.IntN(6) == 0 {
			name := (&Gen{R: e.R}).name()
			body := append(e.U32(uint32(len(name))), name...)
			for n := e.R.IntN(40); n > 0; n-- {
				body = append(body, byte(e.R.IntN(256)))
			}
			if e.R.IntN(20) == 0 {
				body = append(body, make([]byte, e.R.IntN([]int{10000, 10000, 10000, 200000}[e.R.IntN(4)]))...)
			}
			section(0, body)
			e.Skipped++
		}
	}
	other := func(id byte) {
		custom()
		if !e.Noise || e.R.IntN(6) != 0 {
			if !(id == 11 && segments > 0) {
				return
			}
		}
		k := e.R.IntN(len(Skips[id]))
		if id == 12 {
			segments = k
		}
		if id == 11 && segments >= 0 {
			k = segments
		}
		section(id, Skips[id][k])
		e.Skipped++
	}
	custom()
	if len(m.Types) > 0 || e.Explicit {
		body := e.U32(uint32(len(m.Types)))
		for _, t := range m.Types {
			body = append(body, 0x60)
			body = append(body, e.valTypes(t.Params)...)
			body = append(body, e.valTypes(t.Results)...)
		}
		section(1, body)
	}
	if e.Mega {
		section(0, append([]byte{1, 'm'}, make([]byte, 1<<20+e.R.IntN(1<<24))...))
		e.Skipped++
	}
	other(2)
	if len(m.Funcs) > 0 || e.Explicit {
		body := e.U32(uint32(len(m.Funcs)))
		for _, f := range m.Funcs {
			body = append(body, e.U32(f.Type)...)
		}
		section(3, body)
	}
	other(4)
	other(5)
	other(6)
	if len(m.Exports) > 0 || e.Explicit {
		body := e.U32(uint32(len(m.Exports)))
		for _, x := range m.Exports {
			body = append(body, e.U32(uint32(len(x.Name)))...)
			body = append(body, x.Name...)
			body = append(body, 0)
			body = append(body, e.U32(x.Func)...)
		}
		section(7, body)
	}
	if len(m.Funcs) > 0 {
		other(8)
	}
	other(9)
	other(12)
	if len(m.Funcs) > 0 || e.Explicit {
		body := e.U32(uint32(len(m.Funcs)))
		for _, f := range m.Funcs {
			code := e.U32(uint32(len(f.Groups)))
			for _, g := range f.Groups {
				code = append(code, e.U32(g.N)...)
				code = append(code, valTypes[g.Type])
			}
			for _, in := range f.Body {
				switch in.Op {
				case "local.get":
					code = append(code, 0x20)
					code = append(code, e.U32(in.Index)...)
				case "i32.add":
					code = append(code, 0x6a)
				case "end":
					code = append(code, 0x0b)
				}
			}
			body = append(body, e.U32(uint32(len(code)))...)
			body = append(body, code...)
		}
		section(10, body)
	}
	other(11)
	custom()
	return out
}

// Verdict of the reference decoder.
type Verdict int

// Bad means that the input has to be refused, Good that it has to be accepted
// with the given content, Open that it may be refused or accepted with the
// given content, and Any that nothing is known about the answer.
const (
	Bad Verdict = iota
	Good
	Open
	Any
)

// Decoded is the answer of the reference decoder.
type Decoded struct {
	V      Verdict
	M      *Module
	Reason string
	Locals uint64
}

var errShort = errors.New("truncated")

type cursor struct{ b []byte }

func (c *cursor) byte() (byte, error) {
	if len(c.b) == 0 {
		return 0, errShort
	}
	x := c.b[0]
	c.b = c.b[1:]
	return x, nil
}

// U32 decodes an integer and returns the rest.
func U32(b []byte) (uint32, []byte, error) {
	var v uint64
	for i := 0; i < 5; i++ {
		if i >= len(b) {
			return 0, nil, errShort
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i]&0x80 == 0 {
			if v > 0xffffffff {
				return 0, nil, errors.New("integer too large")
			}
			return uint32(v), b[i+1:], nil
		}
	}
	return 0, nil, errors.New("integer too long")
}

func (c *cursor) u32() (uint32, error) {
	v, rest, err := U32(c.b)
	if err != nil {
		return 0, err
	}
	c.b = rest
	return v, nil
}

func (c *cursor) take(n uint32) ([]byte, error) {
	if uint64(n) > uint64(len(c.b)) {
		return nil, errShort
	}
	x := c.b[:n]
	c.b = c.b[n:]
	return x, nil
}

func (c *cursor) valType() (string, error) {
	b, err := c.byte()
	if err != nil {
		return "", err
	}
	for n, x := range valTypes {
		if x == b {
			return n, nil
		}
	}
	return "", fmt.Errorf("value type %#x", b)
}

func (c *cursor) valTypes() ([]string, error) {
	n, err := c.u32()
	if err != nil {
		return nil, err
	}
	var out []string
	for ; n > 0; n-- {
		t, err := c.valType()
		if err != nil {
			return nil, err
		}
		out = append(out, t)
	}
	return out, nil
}

var order = map[byte]int{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}

// Decode is the reference decoder.
func Decode(b []byte) *Decoded {
	d := &Decoded{V: Good, M: &Module{}}
	if err := d.decode(b); err != nil {
		d.V = Bad
		d.Reason = err.Error()
	}
	return d
}

func (d *Decoded) open(reason string) {
	if d.V == Good {
		d.V = Open
		d.Reason = reason
	}
}

func (d *Decoded) decode(b []byte) error {
	m := d.M
	c := &cursor{b}
	head, err := c.take(8)
	if err != nil {
		return err
	}
	if !bytes.Equal(head[:4], []byte{0, 'a', 's', 'm'}) {
		return errors.New("magic")
	}
	version, layer := binary.LittleEndian.Uint16(head[4:]), binary.LittleEndian.Uint16(head[6:])
	switch {
	case version == 0x0a && layer == 1:
		m.Component = true
		if len(c.b) > 0 {
			d.V, d.Reason = Open, "content of a component"
		}
		return nil
	case version == 1 && layer == 0:
	default:
		return errors.New("version or layer")
	}
	last, codes, haveCode := 0, 0, false
	dataCount, segments := -1, 0
	types := 0
	for len(c.b) > 0 {
		id, _ := c.byte()
		size, err := c.u32()
		if err != nil {
			return fmt.Errorf("section size: %w", err)
		}
		body, err := c.take(size)
		if err != nil {
			return fmt.Errorf("section content: %w", err)
		}
		if o := order[id]; o > 0 {
			if o <= last {
				return errors.New("section order")
			}
			last = o
		}
		s := &cursor{body}
		switch id {
		case 1:
			n, err := s.u32()
			if err != nil {
				return err
			}
			for ; n > 0; n-- {
				f, err := s.byte()
				if err != nil {
					return err
				}
				if f != 0x60 {
					return errors.New("type form")
				}
				var t FuncType
				if t.Params, err = s.valTypes(); err != nil {
					return err
				}
				if t.Results, err = s.valTypes(); err != nil {
					return err
				}
				m.Types = append(m.Types, t)
			}
			types = len(m.Types)
		case 3:
			n, err := s.u32()
			if err != nil {
				return err
			}
			for ; n > 0; n-- {
				t, err := s.u32()
				if err != nil {
					return err
				}
				if t >= uint32(types) {
					d.open("type index out of range")
				}
				m.Funcs = append(m.Funcs, Func{Type: t})
			}
		case 7:
			n, err := s.u32()
			if err != nil {
				return err
			}
			seen := map[string]bool{}
			for ; n > 0; n-- {
				l, err := s.u32()
				if err != nil {
					return err
				}
				name, err := s.take(l)
				if err != nil {
					return err
				}
				if !utf8.Valid(name) {
					return errors.New("name is not utf-8")
				}
				kind, err := s.byte()
				if err != nil {
					return err
				}
				idx, err := s.u32()
				if err != nil {
					return err
				}
				if kind != 0 {
					return fmt.Errorf("export kind %d", kind)
				}
				if seen[string(name)] {
					d.open("duplicate export")
				}
				seen[string(name)] = true
				if idx >= uint32(len(m.Funcs)) {
					d.open("function index out of range")
				}
				m.Exports = append(m.Exports, Export{string(name), idx})
			}
		case 10:
			haveCode = true
			n, err := s.u32()
			if err != nil {
				return err
			}
			if uint64(n) != uint64(len(m.Funcs)) {
				return errors.New("number of functions")
			}
			for i := range m.Funcs {
				f := &m.Funcs[i]
				size, err := s.u32()
				if err != nil {
					return err
				}
				code, err := s.take(size)
				if err != nil {
					return err
				}
				if err := d.code(f, &cursor{code}); err != nil {
					return err
				}
			}
			codes = int(n)
		default:
			if id > 12 {
				d.open("unknown section")
				s.b = nil
				break
			}
			if id == 0 {
				l, err := s.u32()
				if err != nil {
					d.open("custom section")
				} else if name, err := s.take(l); err != nil || !utf8.Valid(name) {
					d.open("custom section")
				}
			} else {
				known := false
				for k, x := range Skips[id] {
					if bytes.Equal(x, body) {
						known = true
						if id == 11 {
							segments = k
						}
						if id == 12 {
							dataCount = k
						}
					}
				}
				if !known {
					d.open("content of a section that is skipped")
				}
			}
			s.b = nil
		}
		if len(s.b) > 0 {
			return errors.New("bytes after the content of a section")
		}
	}
	if codes != len(m.Funcs) {
		return errors.New("functions without code")
	}
	if dataCount >= 0 && dataCount != segments {
		d.open("data count")
	}
	_ = haveCode
	return nil
}

func (d *Decoded) code(f *Func, c *cursor) error {
	groups, err := c.u32()
	if err != nil {
		return err
	}
	var total uint64
	for ; groups > 0; groups-- {
		n, err := c.u32()
		if err != nil {
			return err
		}
		t, err := c.valType()
		if err != nil {
			return err
		}
		total += uint64(n)
		if total > 0xffffffff {
			return errors.New("too many locals")
		}
		if total > 50000 {
			d.V, d.Reason = Any, "many locals"
		} else {
			f.Groups = append(f.Groups, Group{n, t})
			d.Locals += uint64(n)
		}
	}
	for {
		op, err := c.byte()
		if err != nil {
			return err
		}
		switch op {
		case 0x0b:
			f.Body = append(f.Body, Instr{"end", 0})
			if len(c.b) > 0 {
				return errors.New("bytes after the end of a function")
			}
			return nil
		case 0x20:
			i, err := c.u32()
			if err != nil {
				return err
			}
			f.Body = append(f.Body, Instr{"local.get", i})
		case 0x6a:
			f.Body = append(f.Body, Instr{"i32.add", 0})
		default:
			return fmt.Errorf("opcode %#x", op)
		}
	}
}
