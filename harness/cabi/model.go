package cabi

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

// Trap is the model's verdict that an operation has to fail.
type Trap struct {
	Msg string
	// Open marks situations the specification of this library leaves open:
	// any error or value is accepted.
	Open bool
}

func (t *Trap) Error() string { return t.Msg }

func trap(format string, args ...any) error { return &Trap{Msg: fmt.Sprintf(format, args...)} }

func open(format string, args ...any) error {
	return &Trap{Msg: fmt.Sprintf(format, args...), Open: true}
}

// IsOpen tells whether the model leaves the outcome open.
func IsOpen(err error) bool {
	t, ok := err.(*Trap)
	return ok && t.Open
}

// String encodings, spelled as the library spells them.
const (
	EncUTF8   = "utf-8"
	EncUTF16  = "utf-16"
	EncLatin1 = "latin1+utf16"
)

// Encodings are the canonical string encodings.
var Encodings = []string{EncUTF8, EncUTF16, EncLatin1}

const tagBit = uint32(1) << 31

// Region is a piece of memory that a value refers to.
type Region struct {
	Ptr, Len, Align uint64
	What            string
}

// Reader interprets linear memory as a guest compiled for the ABI would.
type Reader struct {
	Mem []byte
	Enc string
	// Handle resolves own and borrow handles.
	Handle func(t *T, index uint32) (any, error)
	// Regions collects the memory referred to by strings and lists.
	Regions []Region
	// Budget limits the number of decoded nodes.
	Budget int
	// Strict accepts only the canonical choice where a reader would accept
	// several: what the library itself has to write.
	Strict bool
}

func (r *Reader) strict(ok bool, format string, args ...any) error {
	if r.Strict && !ok {
		return trap("not canonical: "+format, args...)
	}
	return nil
}

func (r *Reader) bytes(ptr, n uint64) ([]byte, error) {
	if ptr > uint64(len(r.Mem)) || n > uint64(len(r.Mem))-ptr {
		return nil, trap("[%d,+%d) is out of bounds of %d", ptr, n, len(r.Mem))
	}
	return r.Mem[ptr : ptr+n], nil
}

func (r *Reader) uint(ptr, n uint64) (uint64, error) {
	b, err := r.bytes(ptr, n)
	if err != nil {
		return 0, err
	}
	v := uint64(0)
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v, nil
}

// Load reads a value of type t at ptr.
func (r *Reader) Load(t *T, ptr uint64) (any, error) {
	if r.Budget > 0 {
		r.Budget--
		if r.Budget == 0 {
			return nil, open("too many nodes")
		}
	}
	switch t.K {
	case Bool:
		v, err := r.uint(ptr, 1)
		if err == nil {
			err = r.strict(v <= 1, "bool %d", v)
		}
		return v != 0, err
	case U8:
		v, err := r.uint(ptr, 1)
		return uint8(v), err
	case U16:
		v, err := r.uint(ptr, 2)
		return uint16(v), err
	case U32:
		v, err := r.uint(ptr, 4)
		return uint32(v), err
	case U64:
		v, err := r.uint(ptr, 8)
		return v, err
	case S8:
		v, err := r.uint(ptr, 1)
		return int8(v), err
	case S16:
		v, err := r.uint(ptr, 2)
		return int16(v), err
	case S32:
		v, err := r.uint(ptr, 4)
		return int32(v), err
	case S64:
		v, err := r.uint(ptr, 8)
		return int64(v), err
	case F32:
		v, err := r.uint(ptr, 4)
		if err == nil {
			err = r.strict(math.Float32bits(canon32(uint32(v))) == uint32(v), "f32 %#x", v)
		}
		return canon32(uint32(v)), err
	case F64:
		v, err := r.uint(ptr, 8)
		if err == nil {
			err = r.strict(math.Float64bits(canon64(v)) == v, "f64 %#x", v)
		}
		return canon64(v), err
	case Char:
		v, err := r.uint(ptr, 4)
		if err != nil {
			return nil, err
		}
		return toChar(v)
	case String:
		b, err := r.uint(ptr, 4)
		if err != nil {
			return nil, err
		}
		n, err := r.uint(ptr+4, 4)
		if err != nil {
			return nil, err
		}
		return r.str(b, uint32(n))
	case List:
		b, err := r.uint(ptr, 4)
		if err != nil {
			return nil, err
		}
		n, err := r.uint(ptr+4, 4)
		if err != nil {
			return nil, err
		}
		return r.list(t.Elem, b, n)
	case Record, Tuple:
		m := map[string]any{}
		for _, f := range t.fields() {
			ptr = alignUp(ptr, f.T.Align())
			v, err := r.Load(f.T, ptr)
			if err != nil {
				return nil, err
			}
			m[f.Label] = v
			ptr += f.T.Size()
		}
		return m, nil
	case Flags:
		m := map[string]any{}
		if len(t.Labels) == 0 {
			return m, nil
		}
		size, _ := flagsLayout(len(t.Labels))
		b, err := r.bytes(ptr, size)
		if err != nil {
			return nil, err
		}
		for i := len(t.Labels); i < 8*len(b); i++ {
			if err := r.strict(b[i/8]>>(i%8)&1 == 0, "bit %d of %d flags", i, len(t.Labels)); err != nil {
				return nil, err
			}
		}
		for i, l := range t.Labels {
			m[l] = b[i/8]>>(i%8)&1 == 1
		}
		return m, nil
	case Own, Borrow:
		v, err := r.uint(ptr, 4)
		if err != nil {
			return nil, err
		}
		return r.handle(t, uint32(v))
	}
	cs := t.CasesOf()
	d, err := r.uint(ptr, discSize(len(cs)))
	if err != nil {
		return nil, err
	}
	if d >= uint64(len(cs)) {
		return nil, trap("case %d of %d", d, len(cs))
	}
	var v any
	if cs[d].T != nil {
		v, err = r.Load(cs[d].T, ptr+payloadOffset(cs))
		if err != nil {
			return nil, err
		}
	}
	return map[string]any{CaseLabel(cs, int(d)): v}, nil
}

func (r *Reader) handle(t *T, i uint32) (any, error) {
	if r.Handle == nil {
		return nil, open("no handle table")
	}
	return r.Handle(t, i)
}

func toChar(v uint64) (any, error) {
	if v >= 0x110000 || (v >= 0xd800 && v < 0xe000) {
		return nil, trap("invalid code point %x", v)
	}
	return rune(v), nil
}

func canon32(b uint32) float32 {
	if b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0 {
		b = 0x7fc00000
	}
	return math.Float32frombits(b)
}

func canon64(b uint64) float64 {
	if b&0x7ff0000000000000 == 0x7ff0000000000000 && b&0xfffffffffffff != 0 {
		b = 0x7ff8000000000000
	}
	return math.Float64frombits(b)
}

func (r *Reader) str(ptr uint64, n uint32) (any, error) {
	kind := r.Enc
	align := uint64(1)
	units := uint64(n)
	switch r.Enc {
	case EncUTF16:
		align = 2
		if n&tagBit != 0 {
			return nil, open("utf-16 length with the tag bit")
		}
	case EncLatin1:
		align = 2
		kind = "latin1"
		if n&tagBit != 0 {
			kind = EncUTF16
			units = uint64(n &^ tagBit)
		}
	}
	size := units
	if kind == EncUTF16 {
		size = 2 * units
	}
	if ptr%align != 0 {
		return nil, trap("string at %d is not aligned to %d", ptr, align)
	}
	b, err := r.bytes(ptr, size)
	if err != nil {
		return nil, err
	}
	r.Regions = append(r.Regions, Region{ptr, size, align, "string"})
	switch kind {
	case EncUTF8:
		if !utf8.Valid(b) {
			return nil, trap("invalid utf-8")
		}
		return string(b), nil
	case "latin1":
		return FromLatin1(b), nil
	}
	s, ok := FromUTF16LE(b)
	if !ok {
		return nil, trap("invalid utf-16")
	}
	if r.Enc == EncLatin1 {
		if err := r.strict(!IsLatin1(s), "utf-16 for %q", s); err != nil {
			return nil, err
		}
	}
	return s, nil
}

// FromLatin1 decodes latin1.
func FromLatin1(b []byte) string {
	var sb strings.Builder
	for _, x := range b {
		sb.WriteRune(rune(x))
	}
	return sb.String()
}

// FromUTF16LE decodes strict little endian utf-16.
func FromUTF16LE(b []byte) (string, bool) {
	var sb strings.Builder
	if len(b)%2 != 0 {
		return "", false
	}
	for i := 0; i < len(b); i += 2 {
		u := rune(binary.LittleEndian.Uint16(b[i:]))
		switch {
		case u < 0xd800 || u >= 0xe000:
			sb.WriteRune(u)
		case u >= 0xdc00 || i+4 > len(b):
			return "", false
		default:
			l := rune(binary.LittleEndian.Uint16(b[i+2:]))
			if l < 0xdc00 || l >= 0xe000 {
				return "", false
			}
			sb.WriteRune(0x10000 + (u-0xd800)<<10 + (l - 0xdc00))
			i += 2
		}
	}
	return sb.String(), true
}

// ToUTF16 encodes utf-16 in the given byte order.
func ToUTF16(s string, big bool) []byte {
	var out []byte
	put := func(u uint16) {
		if big {
			out = append(out, byte(u>>8), byte(u))
		} else {
			out = append(out, byte(u), byte(u>>8))
		}
	}
	for _, c := range s {
		if c >= 0x10000 {
			c -= 0x10000
			put(uint16(0xd800 + c>>10))
			put(uint16(0xdc00 + c&0x3ff))
		} else {
			put(uint16(c))
		}
	}
	return out
}

// IsLatin1 tells whether every rune of s is below 256.
func IsLatin1(s string) bool {
	for _, c := range s {
		if c > 0xff {
			return false
		}
	}
	return true
}

// ToLatin1 encodes latin1.
func ToLatin1(s string) []byte {
	var out []byte
	for _, c := range s {
		out = append(out, byte(c))
	}
	return out
}

func (r *Reader) list(elem *T, ptr, n uint64) (any, error) {
	if ptr%elem.Align() != 0 {
		return nil, trap("list at %d is not aligned to %d", ptr, elem.Align())
	}
	size := elem.Size()
	if _, err := r.bytes(ptr, n*size); err != nil {
		return nil, err
	}
	r.Regions = append(r.Regions, Region{ptr, n * size, elem.Align(), "list"})
	out := []any{}
	for i := uint64(0); i < n; i++ {
		v, err := r.Load(elem, ptr+i*size)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

// Core is a core WebAssembly value.
type Core struct {
	K    string
	Bits uint64
}

func (c Core) String() string { return fmt.Sprintf("%s:%#x", c.K, c.Bits) }

// LiftFlat interprets core values as a value of type t. It returns the values
// that were not consumed.
func (r *Reader) LiftFlat(t *T, in []Core) (any, []Core, error) {
	next := func(k string) (uint64, error) {
		if len(in) == 0 {
			return 0, trap("out of core values")
		}
		c := in[0]
		in = in[1:]
		if c.K != k {
			return 0, trap("core value %s where %s is expected", c.K, k)
		}
		return c.Bits, nil
	}
	switch t.K {
	case Bool, U8, U16, U32, S8, S16, S32, Char, Own, Borrow:
		v, err := next(I32)
		if err != nil {
			return nil, in, err
		}
		switch t.K {
		case Bool:
			return v != 0, in, nil
		case U8:
			return uint8(v), in, nil
		case U16:
			return uint16(v), in, nil
		case U32:
			return uint32(v), in, nil
		case S8:
			return int8(v), in, nil
		case S16:
			return int16(v), in, nil
		case S32:
			return int32(v), in, nil
		case Char:
			x, err := toChar(v)
			return x, in, err
		}
		x, err := r.handle(t, uint32(v))
		return x, in, err
	case U64:
		v, err := next(I64)
		return v, in, err
	case S64:
		v, err := next(I64)
		return int64(v), in, err
	case F32:
		v, err := next(FL32)
		return canon32(uint32(v)), in, err
	case F64:
		v, err := next(FL64)
		return canon64(v), in, err
	case String, List:
		p, err := next(I32)
		if err != nil {
			return nil, in, err
		}
		n, err := next(I32)
		if err != nil {
			return nil, in, err
		}
		var v any
		if t.K == String {
			v, err = r.str(p, uint32(n))
		} else {
			v, err = r.list(t.Elem, p, n)
		}
		return v, in, err
	case Record, Tuple:
		m := map[string]any{}
		for _, f := range t.fields() {
			v, rest, err := r.LiftFlat(f.T, in)
			in = rest
			if err != nil {
				return nil, in, err
			}
			m[f.Label] = v
		}
		return m, in, nil
	case Flags:
		m := map[string]any{}
		var w uint64
		for i, l := range t.Labels {
			if i%32 == 0 {
				var err error
				w, err = next(I32)
				if err != nil {
					return nil, in, err
				}
			}
			m[l] = w>>(i%32)&1 == 1
		}
		return m, in, nil
	}
	cs := t.CasesOf()
	d, err := next(I32)
	if err != nil {
		return nil, in, err
	}
	if d >= uint64(len(cs)) {
		return nil, in, trap("case %d of %d", d, len(cs))
	}
	have := flatPayload(cs)
	// convert the joined payload to the core types of the chosen case
	var want []string
	if cs[d].T != nil {
		want = cs[d].T.Flat()
	}
	var payload []Core
	short := false
	for i, h := range have {
		v, err := next(h)
		if err != nil {
			if i >= len(want) {
				return nil, in, err
			}
			short = true
			break
		}
		if i < len(want) {
			if want[i] == I32 || want[i] == FL32 {
				v &= 0xffffffff
			}
			payload = append(payload, Core{want[i], v})
		}
	}
	var v any
	if cs[d].T != nil {
		v, _, err = r.LiftFlat(cs[d].T, payload)
		if err != nil {
			return nil, in, err
		}
	}
	if short {
		return nil, in, trap("payload is short")
	}
	return map[string]any{CaseLabel(cs, int(d)): v}, in, nil
}

// Match finds the case a variant value selects.
func Match(cs []Case, v any) (int, any) {
	for k, p := range v.(map[string]any) {
		for _, l := range strings.Split(k, "|") {
			for i := range cs {
				if cs[i].Label == l {
					return i, p
				}
			}
		}
	}
	return -1, nil
}

// Normal gives the value that has to arrive when v passes through type t.
func Normal(t *T, v any) any {
	switch t.K {
	case F32:
		return canon32(math.Float32bits(v.(float32)))
	case F64:
		return canon64(math.Float64bits(v.(float64)))
	case List:
		out := []any{}
		for _, e := range v.([]any) {
			out = append(out, Normal(t.Elem, e))
		}
		return out
	case Record, Tuple:
		m := map[string]any{}
		for _, f := range t.fields() {
			m[f.Label] = Normal(f.T, v.(map[string]any)[f.Label])
		}
		return m
	case Variant, Enum, Union, Option, Result:
		cs := t.CasesOf()
		i, p := Match(cs, v)
		if cs[i].T != nil {
			p = Normal(cs[i].T, p)
		} else {
			p = nil
		}
		return map[string]any{CaseLabel(cs, i): p}
	}
	return v
}

// Equal compares two values. Floats are compared by bits.
func Equal(a, b any) bool {
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

// Show prints a value.
func Show(v any) string {
	s := show(v)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func show(v any) string {
	switch x := v.(type) {
	case float32:
		return fmt.Sprintf("f32(%v %#x)", x, math.Float32bits(x))
	case float64:
		return fmt.Sprintf("f64(%v %#x)", x, math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case []any:
		var s []string
		for _, e := range x {
			s = append(s, show(e))
			if len(s) > 60 {
				s = append(s, fmt.Sprintf("...%d", len(x)))
				break
			}
		}
		return "[" + strings.Join(s, " ") + "]"
	case map[string]any:
		var s []string
		for k, e := range x {
			s = append(s, k+":"+show(e))
			if len(s) > 60 {
				break
			}
		}
		return "{" + strings.Join(s, " ") + "}"
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}
