package cabi

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// Writer produces values the way a guest would: it may leave any padding, any
// bits the ABI ignores and any legal representation behind.
type Writer struct {
	H   *Heap
	Enc string
	R   *rand.Rand
	// Noisy makes the writer use freedom of the ABI.
	Noisy bool
	// Handle gives the handle index for an own or borrow value.
	Handle func(t *T, v any) uint32
}

func (w *Writer) put(ptr, n, v uint64) {
	b := w.H.Mem()[ptr : ptr+n]
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
}

func bits(v any) uint64 {
	switch x := v.(type) {
	case bool:
		if x {
			return 1
		}
		return 0
	case uint8:
		return uint64(x)
	case uint16:
		return uint64(x)
	case uint32:
		return uint64(x)
	case uint64:
		return x
	case int8:
		return uint64(int64(x))
	case int16:
		return uint64(int64(x))
	case int32: // also rune
		return uint64(int64(x))
	case int64:
		return uint64(x)
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	}
	panic(fmt.Sprintf("bits of %T", v))
}

// Store writes v at ptr.
func (w *Writer) Store(t *T, v any, ptr uint64) {
	switch t.K {
	case Bool:
		b := bits(v)
		if b == 1 && w.Noisy && w.R.IntN(4) == 0 {
			b = uint64(1 + w.R.IntN(255))
		}
		w.put(ptr, 1, b)
	case U8, S8:
		w.put(ptr, 1, bits(v))
	case U16, S16:
		w.put(ptr, 2, bits(v))
	case U32, S32, Char:
		w.put(ptr, 4, bits(v))
	case U64, S64:
		w.put(ptr, 8, bits(v))
	case F32:
		w.put(ptr, 4, w.float32(v))
	case F64:
		w.put(ptr, 8, w.float64(v))
	case String:
		p, n := w.str(v.(string))
		w.put(ptr, 4, p)
		w.put(ptr+4, 4, n)
	case List:
		p, n := w.list(t.Elem, v.([]any))
		w.put(ptr, 4, p)
		w.put(ptr+4, 4, n)
	case Record, Tuple:
		for _, f := range t.fields() {
			ptr = alignUp(ptr, f.T.Align())
			w.Store(f.T, v.(map[string]any)[f.Label], ptr)
			ptr += f.T.Size()
		}
	case Flags:
		size, _ := flagsLayout(len(t.Labels))
		b := make([]byte, size)
		if w.Noisy {
			b = noise(w.R, int(size))
		}
		for i, l := range t.Labels {
			b[i/8] &^= 1 << (i % 8)
			if v.(map[string]any)[l].(bool) {
				b[i/8] |= 1 << (i % 8)
			}
		}
		copy(w.H.Mem()[ptr:], b)
	case Own, Borrow:
		w.put(ptr, 4, uint64(w.Handle(t, v)))
	default:
		cs := t.CasesOf()
		i, p := Match(cs, v)
		w.put(ptr, discSize(len(cs)), uint64(i))
		if cs[i].T != nil {
			w.Store(cs[i].T, p, ptr+payloadOffset(cs))
		}
	}
}

func (w *Writer) float32(v any) uint64 {
	f := v.(float32)
	b := math.Float32bits(f)
	if f != f && w.Noisy {
		b = 0x7f800000 | uint32(1+w.R.IntN(0x7fffff)) | w.R.Uint32()&0x80000000
	}
	return uint64(b)
}

func (w *Writer) float64(v any) uint64 {
	f := v.(float64)
	b := math.Float64bits(f)
	if f != f && w.Noisy {
		b = 0x7ff0000000000000 | (1 + w.R.Uint64N(0xfffffffffffff)) | w.R.Uint64()&(1<<63)
	}
	return b
}

func (w *Writer) str(s string) (ptr, n uint64) {
	var b []byte
	align := uint64(1)
	switch w.Enc {
	case EncUTF8:
		b = []byte(s)
		n = uint64(len(b))
	case EncUTF16:
		align = 2
		b = ToUTF16(s, false)
		n = uint64(len(b) / 2)
	case EncLatin1:
		align = 2
		if IsLatin1(s) && !(w.Noisy && w.R.IntN(4) == 0) {
			b = ToLatin1(s)
			n = uint64(len(b))
		} else {
			b = ToUTF16(s, false)
			n = uint64(len(b)/2) | uint64(tagBit)
		}
	}
	ptr = w.H.Alloc(uint64(len(b)), align)
	copy(w.H.Mem()[ptr:], b)
	return ptr, n
}

func (w *Writer) list(elem *T, vs []any) (ptr, n uint64) {
	size := elem.Size()
	ptr = w.H.Alloc(size*uint64(len(vs)), elem.Align())
	for i, v := range vs {
		w.Store(elem, v, ptr+uint64(i)*size)
	}
	return ptr, uint64(len(vs))
}

// LowerFlat produces the core values of v.
func (w *Writer) LowerFlat(t *T, v any) []Core {
	i32 := func(x uint64) []Core { return []Core{{I32, x & 0xffffffff}} }
	high := func(x uint64, n int) []Core {
		if w.Noisy && w.R.IntN(4) == 0 {
			x = x&(1<<n-1) | w.R.Uint64()<<n
		}
		return i32(x)
	}
	switch t.K {
	case Bool:
		b := bits(v)
		if b == 1 && w.Noisy && w.R.IntN(4) == 0 {
			b = uint64(1 + w.R.IntN(math.MaxInt32))
		}
		return i32(b)
	case U8, S8:
		return high(bits(v), 8)
	case U16, S16:
		return high(bits(v), 16)
	case U32, S32, Char:
		return i32(bits(v))
	case U64, S64:
		return []Core{{I64, bits(v)}}
	case F32:
		return []Core{{FL32, w.float32(v)}}
	case F64:
		return []Core{{FL64, w.float64(v)}}
	case String:
		p, n := w.str(v.(string))
		return append(i32(p), i32(n)...)
	case List:
		p, n := w.list(t.Elem, v.([]any))
		return append(i32(p), i32(n)...)
	case Record, Tuple:
		var out []Core
		for _, f := range t.fields() {
			out = append(out, w.LowerFlat(f.T, v.(map[string]any)[f.Label])...)
		}
		return out
	case Flags:
		var out []Core
		for i := 0; i < len(t.Labels); i += 32 {
			word := uint64(0)
			if w.Noisy {
				word = uint64(w.R.Uint32())
			}
			for j := i; j < len(t.Labels) && j < i+32; j++ {
				word &^= 1 << (j - i)
				if v.(map[string]any)[t.Labels[j]].(bool) {
					word |= 1 << (j - i)
				}
			}
			out = append(out, Core{I32, word})
		}
		return out
	case Own, Borrow:
		return i32(uint64(w.Handle(t, v)))
	}
	cs := t.CasesOf()
	i, p := Match(cs, v)
	out := i32(uint64(i))
	var payload []Core
	if cs[i].T != nil {
		payload = w.LowerFlat(cs[i].T, p)
	}
	for j, k := range flatPayload(cs) {
		x := uint64(0)
		if j < len(payload) {
			x = payload[j].Bits
		} else if w.Noisy {
			x = w.R.Uint64()
			if k == I32 || k == FL32 {
				x &= 0xffffffff
			}
		}
		out = append(out, Core{k, x})
	}
	return out
}

// CheckFlat verifies that the core values are exactly the canonical lowering
// of v: every bit of every value that does not depend on where the allocator
// placed something, and the memory behind the pointers.
func (r *Reader) CheckFlat(t *T, v any, in []Core) error {
	kinds := t.Flat()
	if len(kinds) != len(in) {
		return fmt.Errorf("%d core values where %d are expected", len(in), len(kinds))
	}
	for i := range kinds {
		if in[i].K != kinds[i] {
			return fmt.Errorf("core value %d is %s, expected %s", i, in[i].K, kinds[i])
		}
	}
	exact := func(want uint64) error {
		if in[0].Bits != want {
			return fmt.Errorf("core value %s for %s %s, expected %#x", in[0], t, Show(v), want)
		}
		return nil
	}
	switch t.K {
	case Bool, U8, U16, U32, S8, S16, S32, Char:
		return exact(bits(v) & 0xffffffff)
	case U64, S64:
		return exact(bits(v))
	case F32:
		return exact(uint64(math.Float32bits(canon32(math.Float32bits(v.(float32))))))
	case F64:
		return exact(math.Float64bits(canon64(math.Float64bits(v.(float64)))))
	case String, List:
		got, _, err := r.LiftFlat(t, in)
		if err != nil {
			return err
		}
		if want := Normal(t, v); !Equal(got, want) {
			return fmt.Errorf("memory holds %s, expected %s", Show(got), Show(want))
		}
		return nil
	case Record, Tuple:
		for _, f := range t.fields() {
			n := len(f.T.Flat())
			if err := r.CheckFlat(f.T, v.(map[string]any)[f.Label], in[:n]); err != nil {
				return fmt.Errorf("%s: %w", f.Label, err)
			}
			in = in[n:]
		}
		return nil
	case Flags:
		for i, c := range in {
			want := uint64(0)
			for j := 32 * i; j < len(t.Labels) && j < 32*i+32; j++ {
				if v.(map[string]any)[t.Labels[j]].(bool) {
					want |= 1 << (j - 32*i)
				}
			}
			if c.Bits != want {
				return fmt.Errorf("flags word %d is %#x, expected %#x", i, c.Bits, want)
			}
		}
		return nil
	case Own, Borrow:
		got, err := r.handle(t, uint32(in[0].Bits))
		if err != nil {
			return err
		}
		if got != v {
			return fmt.Errorf("handle resolves to %v, expected %v", got, v)
		}
		return nil
	}
	cs := t.CasesOf()
	i, p := Match(cs, v)
	if err := exact(uint64(i)); err != nil {
		return err
	}
	in = in[1:]
	n := 0
	if cs[i].T != nil {
		want := cs[i].T.Flat()
		n = len(want)
		var payload []Core
		for j, k := range want {
			x := in[j].Bits
			if k == I32 || k == FL32 {
				if x>>32 != 0 {
					return fmt.Errorf("payload %d of case %d is %s, not zero extended", j, i, in[j])
				}
			}
			payload = append(payload, Core{k, x})
		}
		if err := r.CheckFlat(cs[i].T, p, payload); err != nil {
			return fmt.Errorf("case %d: %w", i, err)
		}
	}
	for j, c := range in[n:] {
		if c.Bits != 0 {
			return fmt.Errorf("unused payload %d of case %d is %s", n+j, i, c)
		}
	}
	return nil
}

// ToValue converts a core value to the library's representation.
func (c Core) ToValue() values.Value {
	switch c.K {
	case I32:
		return values.U32(uint32(c.Bits))
	case I64:
		return values.U64(int64(c.Bits))
	case FL32:
		return values.Float32(math.Float32frombits(uint32(c.Bits)))
	}
	return values.Float64(math.Float64frombits(c.Bits))
}

// ToValues converts core values.
func ToValues(cs []Core) []values.Value {
	var out []values.Value
	for _, c := range cs {
		out = append(out, c.ToValue())
	}
	return out
}

// FromValue converts a value of the library.
func FromValue(v values.Value) (Core, error) {
	switch x := v.Value().(type) {
	case uint32:
		if v.Kind() == kind.U32 {
			return Core{I32, uint64(x)}, nil
		}
	case uint64:
		if v.Kind() == kind.U64 {
			return Core{I64, x}, nil
		}
	case float32:
		if v.Kind() == kind.Float32 {
			return Core{FL32, uint64(math.Float32bits(x))}, nil
		}
	case float64:
		if v.Kind() == kind.Float64 {
			return Core{FL64, math.Float64bits(x)}, nil
		}
	}
	return Core{}, fmt.Errorf("core value of kind %v holds %T", v.Kind(), v.Value())
}

// FromValues converts values of the library.
func FromValues(vs []values.Value) ([]Core, error) {
	var out []Core
	for _, v := range vs {
		c, err := FromValue(v)
		if err != nil {
			return nil, err
		}
		out = append(out, c)
	}
	return out, nil
}

// FromAny converts untyped core values, as calls pass them.
func FromAny(vs []any) ([]Core, error) {
	var out []Core
	for _, a := range vs {
		v, ok := a.(values.Value)
		if !ok {
			return nil, fmt.Errorf("%T is not a core value", a)
		}
		c, err := FromValue(v)
		if err != nil {
			return nil, err
		}
		out = append(out, c)
	}
	return out, nil
}

// ToAny converts core values to the untyped form calls use.
func ToAny(cs []Core) []any {
	out := []any{}
	for _, c := range cs {
		out = append(out, c.ToValue())
	}
	return out
}
