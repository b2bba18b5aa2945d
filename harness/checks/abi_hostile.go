package checks

import (
	"errors"
	"fmt"
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/cabi"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:       "A05",
		Rule:     "a case loads or lifts from memory and core values a hostile guest prepared (valid images with corrupted pointers, lengths, discriminants, handles and text; random memory; pointers around the end of memory and of the address space) and compares success, error and value with an independent reader; a state is the type with the reader's reason or shape",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append(typeEvents(), "model traps", "model accepts corrupted", "memory load", "flat lift", "spilled lift", "bad pointer", "bad char", "bad case", "bad text", "misaligned", "bad handle", "short core values", "wrong core kind", "argument that is no core value", "result that is no core value", "bare integer"),
		Run:      runA05,
	})
	mon.Register(&mon.Prop{
		ID:       "A06",
		Rule:     "a case lets the guest allocator fail, or answer with a misaligned, out of range, wrapping or overlapping pointer, at a chosen call while a value is stored or lowered; the oracle is that the operation reports an error and writes nothing outside memory it was given; a state is the type with the fault and its position",
		Quick:    120000,
		Thorough: 1200000,
		Need:     []string{"realloc failed", "realloc misaligned", "realloc out of range", "realloc wraps", "realloc overlaps", "store", "lower", "lower spilled", "copy", "transcode", "string", "list"},
		Run:      runA06,
	})
	mon.Register(&mon.Prop{
		ID:       "A08",
		Rule:     "a case replaces one node of a valid host value by something that is not a value of its type and stores or lowers it, or lowers too many or too few values; the oracle is an error, no panic, and nothing written outside the destination; a state is the kind of the node, the replacement and the operation",
		Quick:    500000,
		Thorough: 5000000,
		Need:     append(replacedEvents(), "store", "lower", "lower values", "lower spilled", "too few values", "too many values"),
		Run:      runA08,
	})
}

func reason(err error) string {
	s := err.Error()
	for _, k := range []string{"out of bounds", "not aligned", "invalid code point", "invalid utf", "case ", "handle", "out of core", "where"} {
		if i := indexOf(s, k); i >= 0 {
			return k
		}
	}
	return s
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

var reasonEvents = map[string]string{
	"out of bounds":      "bad pointer",
	"not aligned":        "misaligned",
	"invalid code point": "bad char",
	"invalid utf":        "bad text",
	"case ":              "bad case",
	"handle":             "bad handle",
	"out of core":        "short core values",
	"where":              "wrong core kind",
}

// handleModel resolves handles as lifting consumes them.
type handleModel struct {
	g    *guest
	gone map[string]bool
	lent map[string]bool
}

func (m *handleModel) handle(t *cabi.T, i uint32) (any, error) {
	key := fmt.Sprintf("%p/%d", t.Res, i)
	if m.gone[key] {
		return nil, &cabi.Trap{Msg: "handle is gone"}
	}
	h, err := m.g.inst.Handles.Get(t.Res, i)
	if err != nil {
		return nil, &cabi.Trap{Msg: "handle does not exist"}
	}
	if t.K == cabi.Own {
		if !h.Own || h.LendCount != 0 || m.lent[key] {
			return nil, &cabi.Trap{Msg: "handle can not be moved"}
		}
		m.gone[key] = true
	} else {
		m.lent[key] = true
	}
	return h.Rep, nil
}

func runA05(c *mon.Case) {
	g := newGuest(c)
	if c.R.IntN(2) == 0 {
		g.h.Alloc(uint64(8*c.R.IntN(16)), 8)
	}
	res := append(others(), types.NewResourceType(nil, g.inst))
	gen := newGen(c, res...)
	gen.Budget = 60
	// some handles a corrupted index may hit
	for _, rt := range res {
		for n := c.R.IntN(4); n > 0; n-- {
			g.inst.Handles.Add(rt, &types.HandleElem{Rep: c.R.Uint32(), Own: c.R.IntN(2) == 0})
		}
	}
	reader := func() *cabi.Reader {
		m := &handleModel{g, map[string]bool{}, map[string]bool{}}
		return &cabi.Reader{Mem: g.h.Mem(), Enc: g.enc, Handle: m.handle, Budget: 3000}
	}
	judge := func(what, shape string, got any, gotErr error, want any, wantErr error) {
		if cabi.IsOpen(wantErr) {
			c.Event("left open")
			return
		}
		if wantErr != nil {
			if gotErr == nil {
				c.Fail("%s accepted %s although it has to trap: %v", what, cabi.Show(got), wantErr)
			}
			c.Event("model traps")
			k := reason(wantErr)
			c.Event(reasonEvents[k])
			c.State(what, shape, k)
			return
		}
		if gotErr != nil {
			c.Fail("%s failed with %v although the value is valid: %s", what, gotErr, cabi.Show(want))
		}
		if !same(got, want) {
			c.Fail("%s gave %s, expected %s", what, cabi.Show(got), cabi.Show(want))
		}
		c.Event("model accepts corrupted")
		c.State(what, shape, "ok")
	}
	interesting := func() uint64 {
		n := uint64(g.h.Buf.Len())
		switch c.R.IntN(8) {
		case 6:
			// code points at the borders of what is a character
			return []uint64{0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffff, 0x110000}[c.R.IntN(8)]
		case 0:
			return n - min(n, c.R.Uint64N(20))
		case 1:
			return n + c.R.Uint64N(8)
		case 2:
			return math.MaxUint32 - c.R.Uint64N(20)
		case 3:
			return 1<<31 + c.R.Uint64N(8)
		case 4:
			return 1<<c.R.IntN(32) - c.R.Uint64N(2)
		case 5:
			return uint64(c.R.Uint32())
		}
		return c.R.Uint64N(n + 1)
	}
	corrupt := func() {
		mem := g.h.Mem()
		if len(mem) == 0 {
			return
		}
		for n := 1 + c.R.IntN(4); n > 0; n-- {
			i := c.R.IntN(len(mem))
			switch c.R.IntN(4) {
			case 0:
				mem[i] = byte(c.R.Uint32())
			case 1:
				mem[i] ^= 1 << c.R.IntN(8)
			default:
				i &^= 3
				v := interesting()
				for j := i; j < i+4 && j < len(mem); j++ {
					mem[j] = byte(v)
					v >>= 8
				}
			}
		}
	}
	if c.Chance(40) {
		runA05Junk(c, g, gen)
		return
	}
	if c.Chance(40) {
		ptr := interesting()
		if c.R.IntN(2) == 0 {
			ptr = g.h.Alloc(8, 1)
		}
		runA05Int(c, g, ptr)
		return
	}
	t := gen.Type()
	observe(c, t)
	switch c.R.IntN(9) {
	case 7, 8:
		runA05Range(c, g, gen, reader, judge)
	case 0, 1, 2:
		// memory image
		var ptr uint64
		if c.R.IntN(4) != 0 {
			ptr = g.h.Alloc(t.Size(), t.Align())
			g.writer().Store(t, gen.Value(t), ptr)
			corrupt()
			if size := int(t.Size()); size > 0 && c.R.IntN(2) == 0 {
				// aim at the value itself
				i := int(ptr) + c.R.IntN(size)
				g.h.Mem()[i] = byte(c.R.Uint32())
				if i &^= 3; c.R.IntN(4) == 0 && i >= int(ptr) && i+4 <= int(ptr)+size {
					v := interesting()
					for j := i; j < i+4; j++ {
						g.h.Mem()[j] = byte(v)
						v >>= 8
					}
				}
			}
		} else {
			g.h.Alloc(uint64(c.R.IntN(200)), 1)
			ptr = interesting() / t.Align() * t.Align()
		}
		if c.R.IntN(8) == 0 {
			ptr = interesting() / t.Align() * t.Align()
		}
		want, wantErr := reader().Load(t, ptr)
		c.Log("load %s at %d of %d (%s): model %s %v", t, ptr, g.h.Buf.Len(), g.enc, cabi.Show(want), wantErr)
		c.Sample("load %s at %d of %d (%s): model %v", t, ptr, g.h.Buf.Len(), g.enc, wantErr)
		if cabi.IsOpen(wantErr) && g.enc != cabi.EncUTF16 {
			c.Eval()
			return
		}
		before := g.h.Snapshot()
		c.Try("Load", func() {
			got, err := io.Load(g.cx(), t.Val(), uint32(ptr))
			judge("Load", t.String(), got, err, want, wantErr)
		})
		if string(before) != string(g.h.Mem()) {
			c.Fail("Load changed guest memory")
		}
		c.Event("memory load")
	case 3, 4:
		// core values
		var core []cabi.Core
		if c.R.IntN(2) == 0 {
			core = g.writer().LowerFlat(t, gen.Value(t))
		} else {
			g.h.Alloc(uint64(c.R.IntN(200)), 1)
			for _, k := range t.Flat() {
				v := interesting()
				if k == cabi.I64 || k == cabi.FL64 {
					v |= c.R.Uint64() << 32
				}
				if c.R.IntN(3) == 0 {
					v = c.R.Uint64N(4)
				}
				core = append(core, cabi.Core{K: k, Bits: v})
			}
		}
		corrupt()
		for n := c.R.IntN(3); n > 0 && len(core) > 0; n-- {
			i := c.R.IntN(len(core))
			switch c.R.IntN(6) {
			case 0:
				core = core[:len(core)-1]
			case 1:
				core[i].K = []string{cabi.I32, cabi.I64, cabi.FL32, cabi.FL64}[c.R.IntN(4)]
				if core[i].K == cabi.I32 || core[i].K == cabi.FL32 {
					core[i].Bits &= 0xffffffff
				}
			default:
				core[i].Bits = interesting()
			}
		}
		want, rest, wantErr := reader().LiftFlat(t, core)
		c.Log("lift %v as %s of %d (%s): model %s %v", core, t, g.h.Buf.Len(), g.enc, cabi.Show(want), wantErr)
		if cabi.IsOpen(wantErr) && g.enc != cabi.EncUTF16 {
			c.Eval()
			return
		}
		vi := values.NewIterator(cabi.ToValues(core)...)
		c.Try("LiftFlat", func() {
			got, err := io.LiftFlat(g.cx(), vi, t.Val())
			judge("LiftFlat", t.String(), got, err, want, wantErr)
			if err == nil && wantErr == nil && len(core)-len(rest) != vi.Index() {
				c.Fail("LiftFlat consumed %d of %d core values, expected %d", vi.Index(), len(core), len(core)-len(rest))
			}
		})
		c.Event("flat lift")
	default:
		// parameters or results passed through memory
		ts := []*cabi.T{t}
		for n := c.R.IntN(3); n > 0; n-- {
			ts = append(ts, gen.Type())
		}
		tuple := &cabi.T{K: cabi.Tuple, Elems: ts}
		n := len(tuple.Flat())
		if n == 0 {
			c.Eval()
			return
		}
		limit := c.R.IntN(n)
		ptr := g.h.Alloc(tuple.Size(), tuple.Align())
		g.writer().Store(tuple, gen.Value(tuple), ptr)
		if c.R.IntN(2) == 0 {
			corrupt()
		}
		if c.R.IntN(2) == 0 {
			ptr = interesting()
		}
		want, wantErr := reader().Load(tuple, ptr)
		if ptr%tuple.Align() != 0 {
			wantErr = &cabi.Trap{Msg: "parameters are not aligned"}
		} else if ptr+tuple.Size() > uint64(g.h.Buf.Len()) {
			wantErr = &cabi.Trap{Msg: "parameters are out of bounds"}
		}
		var vts []types.ValType
		for _, t := range ts {
			vts = append(vts, t.Val())
		}
		c.Log("lift values %s at %d of %d (%s): model %s %v", tuple, ptr, g.h.Buf.Len(), g.enc, cabi.Show(want), wantErr)
		if cabi.IsOpen(wantErr) && g.enc != cabi.EncUTF16 {
			c.Eval()
			return
		}
		vi := values.NewIterator(values.U32(uint32(ptr)))
		c.Try("LiftValues", func() {
			got, err := io.LiftValues(g.cx(), limit, vi, vts)
			m := map[string]any{}
			for i, v := range got {
				m[fmt.Sprint(i)] = v
			}
			judge("LiftValues", tuple.String(), any(m), err, want, wantErr)
		})
		c.Event("spilled lift")
	}
	c.Eval()
}

var malformed = []string{
	"\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\x80", "\xff", "\xfe", "\xc3", "\xe2\x82", "\xf0\x9f\x98",
	"\x00\xd8", "\x00\xdc", "\xff\xdb", "\xff\xdf", "\x00\xd8\x00\xd8", "\x00\xdc\x00\xd8", "\x00\xd8a\x00",
}

// runA05Range aims at the edges of the range a string or list names.
func runA05Range(c *mon.Case, g *guest, gen *cabi.Gen, reader func() *cabi.Reader, judge func(string, string, any, error, any, error)) {
	t := cabi.Prim(cabi.String)
	unit := uint64(1)
	if c.R.IntN(2) == 0 {
		for {
			gen.Depth = 1
			t = gen.List(2)
			// handles and variants in noise are nearly never valid
			if !t.Has(cabi.Own) && !t.Has(cabi.Borrow) && t.Elem.Size() < 200 {
				break
			}
		}
		unit = t.Elem.Size()
	} else if g.enc == cabi.EncUTF16 || g.enc == cabi.EncLatin1 && c.R.IntN(2) == 0 {
		unit = 2
	}
	g.h.Alloc(uint64(c.R.IntN(300)), 1)
	if t.K == cabi.String {
		// text, sometimes malformed, so that acceptance is likely
		mem := g.h.Mem()
		for i := 0; i < len(mem); {
			switch c.R.IntN(12) {
			case 0:
				i += copy(mem[i:], malformed[c.R.IntN(len(malformed))])
			case 1:
				i += copy(mem[i:], string(gen.Char()))
			default:
				mem[i] = byte(0x20 + c.R.IntN(0x5f))
				i++
			}
		}
	}
	n := uint64(g.h.Buf.Len())
	align := uint64(2)
	if t.K == cabi.List {
		align = t.Elem.Align()
	} else if g.enc == cabi.EncUTF8 {
		align = 1
	}
	ptr := c.R.Uint64N(n+1) / align * align
	length := (n - ptr) / unit
	switch c.R.IntN(8) {
	case 0:
		length++
	case 1:
		length += c.R.Uint64N(4)
	case 2:
		length = (1<<32 + unit - 1) / unit
	case 3:
		length = (1<<32)/unit + c.R.Uint64N(length+1)
	case 4:
		ptr = (1<<32 - 1 - c.R.Uint64N(32)) / align * align
	case 5:
		ptr += c.R.Uint64N(align)
	case 6:
		length = c.R.Uint64N(length + 1)
	}
	if unit == 2 && t.K == cabi.String && g.enc == cabi.EncLatin1 {
		length |= 1 << 31
	}
	length &= 0xffffffff
	core := []cabi.Core{{K: cabi.I32, Bits: ptr}, {K: cabi.I32, Bits: length}}
	want, _, wantErr := reader().LiftFlat(t, core)
	c.Log("lift %v as %s of %d bytes (%s): model %s %v", core, t, n, g.enc, cabi.Show(want), wantErr)
	c.Sample("lift %v as %s of %d bytes (%s): model %v", core, t, n, g.enc, wantErr)
	if cabi.IsOpen(wantErr) && t.K != cabi.String {
		return
	}
	if c.R.IntN(2) == 0 {
		c.Try("LiftFlat", func() {
			got, err := io.LiftFlat(g.cx(), values.NewIterator(cabi.ToValues(core)...), t.Val())
			judge("LiftFlat range", t.String(), got, err, want, wantErr)
		})
	} else {
		c.Try("LoadFromRange", func() {
			var got any
			var err error
			if t.K == cabi.String {
				got, err = io.LoadStringFromRange(g.cx(), uint32(ptr), uint32(length))
			} else {
				got, err = io.LoadListFromRange(g.cx(), uint32(ptr), uint32(length), t.Elem.Val())
			}
			judge("LoadFromRange", t.String(), got, err, want, wantErr)
		})
	}
	c.Event("edge of a range")
}

// runA05Junk passes things that are not core values where core values belong.
func runA05Junk(c *mon.Case, g *guest, gen *cabi.Gen) {
	t := gen.Type()
	flat := t.Flat()
	for i := 0; len(flat) == 0; i++ {
		t = gen.Type()
		if i > 5 {
			t = cabi.Prim(cabi.U8)
		}
		flat = t.Flat()
	}
	limit := len(flat)
	if c.R.IntN(3) == 0 {
		limit = 0
		flat = []string{cabi.I32}
	}
	var vs []any
	for _, k := range flat {
		vs = append(vs, any(cabi.ToValues([]cabi.Core{{K: k, Bits: c.R.Uint64N(3)}})[0]))
	}
	junk := []any{nil, "x", 5, uint32(1), true, []any{}, errors.New("x"), struct{}{}}
	i := c.R.IntN(len(vs))
	vs[i] = junk[c.R.IntN(len(junk))]
	if c.R.IntN(2) == 0 {
		ft := types.NewFuncType([]types.Parameter{{Name: "x", Type: t.Val()}}, nil)
		ran := false
		c.Log("CanonLower of %T at %d of %s", vs[i], i, t)
		c.Try("CanonLower", func() {
			_, err := io.CanonLower(g.opts, g.inst, func([]any) ([]any, types.PostReturnFunc, error) {
				ran = true
				return nil, nil, nil
			}, true, ft, vs, limit, 16)
			if err == nil || ran {
				c.Fail("an argument that is not a core value was accepted (%v)", err)
			}
		})
		c.Event("argument that is no core value")
	} else {
		var back any = vs
		if c.R.IntN(4) == 0 {
			back = junk[:5][c.R.IntN(5)]
		}
		ft := types.NewFuncType(nil, []types.Parameter{{Name: "x", Type: t.Val()}})
		c.Log("CanonLift of %T at %d of %s", vs[i], i, t)
		c.Try("CanonLift", func() {
			got, _, err := io.CanonLift(g.opts, g.inst, func(any) (any, error) { return back, nil }, ft, nil, 16, limit)
			if err == nil {
				c.Fail("a result that is not a core value was lifted to %s", cabi.Show(got))
			}
		})
		c.Event("result that is no core value")
	}
	c.State("junk", fmt.Sprintf("%T", vs[i]), i, limit == 0)
	c.Eval()
}

// runA05Int loads a bare integer of some size and signedness.
func runA05Int(c *mon.Case, g *guest, ptr uint64) {
	size := uint64(1) << c.R.IntN(4)
	ptr = ptr / size * size
	sign := c.R.IntN(2) == 0
	mem := g.h.Mem()
	var got any
	var err error
	c.Log("LoadIntWithSize at %d of %d, %d bytes, signed %v", ptr, len(mem), size, sign)
	c.Try("LoadIntWithSize", func() { got, err = io.LoadIntWithSize(g.cx(), uint32(ptr), uint32(size), sign) })
	c.Event("bare integer")
	c.State("int", size, sign, err == nil)
	c.Eval()
	if ptr+size > uint64(len(mem)) {
		if err == nil {
			c.Fail("%d bytes were read at %d of %d", size, ptr, len(mem))
		}
		return
	}
	var bits uint64
	for i := uint64(0); i < size; i++ {
		bits |= uint64(mem[ptr+i]) << (8 * i)
	}
	var want any
	switch size {
	case 1:
		want = uint8(bits)
		if sign {
			want = int8(bits)
		}
	case 2:
		want = uint16(bits)
		if sign {
			want = int16(bits)
		}
	case 4:
		want = uint32(bits)
		if sign {
			want = int32(bits)
		}
	case 8:
		want = bits
		if sign {
			want = int64(bits)
		}
	}
	if err != nil || got != want {
		c.Fail("read %T %v (%v), expected %T %v", got, got, err, want, want)
	}
}

func runA06(c *mon.Case) {
	g := newGuest(c)
	gen := newGen(c)
	gen.Depth = 1 + c.R.IntN(4)
	var t *cabi.T
	var v any
	for i := 0; ; i++ {
		t = gen.Type()
		if i > 20 {
			t = cabi.Prim(cabi.String)
		}
		if !t.Has(cabi.String) && !t.Has(cabi.List) {
			continue
		}
		gen.Budget = 60
		v = gen.Value(t)
		break
	}
	op := c.R.IntN(3)
	if c.Chance(10) {
		// the exported ways to store only the text of a string
		op = 3 + c.R.IntN(2)
		t = cabi.Prim(cabi.String)
		v = gen.Value(t)
	}
	ptr := g.h.Alloc(t.Size(), t.Align())
	run := func() error {
		switch op {
		case 3:
			codec := getCodec(c, encoding.UTF16LE)
			b, _ := encodeModel(encoding.UTF16LE, []rune(v.(string)))
			_, _, err := io.StoreStringCopy(g.cx(), v.(string), uint32(len(b)/2), 2, 2, codec)
			return err
		case 4:
			_, _, err := io.StoreUtf8ToUtf16(g.cx(), v.(string), uint32(len(v.(string))))
			return err
		case 0:
			return io.Store(g.cx(), v, t.Val(), uint32(ptr))
		case 1:
			_, err := io.LowerFlat(g.cx(), v, t.Val())
			return err
		}
		_, err := io.LowerValues(g.cx(), 0, []any{v}, []types.ValType{t.Val()}, nil)
		return err
	}
	c.Event([]string{"store", "lower", "lower spilled", "copy", "transcode"}[op])
	// a first run to count the calls
	c.Try("unfaulted run", func() {
		if err := run(); err != nil {
			c.Fail("a valid value was refused: %v", err)
		}
	})
	total := len(g.h.Calls)
	if total == 0 {
		c.Eval()
		return
	}
	g.h.Calls = nil
	g.h.Grants = nil
	at := c.R.IntN(total)
	fault := c.R.IntN(5)
	g.h.Watch()
	must := true
	applied := ""
	g.h.Fault = func(n int, p, align, size uint32) (uint32, error, bool) {
		if n != at {
			return 0, nil, false
		}
		mem := uint64(g.h.Buf.Len())
		switch fault {
		case 0:
			applied = "realloc failed"
			return 0, cabi.ErrRealloc, true
		case 1:
			if align == 1 {
				return 0, nil, false
			}
			applied = "realloc misaligned"
			return p + 1 + uint32(c.R.IntN(int(align)-1)), nil, true
		case 2:
			applied = "realloc out of range"
			over := mem - uint64(size) + 1
			if uint64(size) > mem {
				over = 0
			}
			q := (over + uint64(align) - 1) / uint64(align) * uint64(align)
			q += uint64(c.R.IntN(3)) * uint64(align)
			return uint32(q), nil, true
		case 3:
			applied = "realloc wraps"
			q := (math.MaxUint32 - uint64(c.R.IntN(64))) &^ (uint64(align) - 1)
			if c.R.IntN(3) == 0 && size > 0 {
				q = (1<<32 - uint64(size)) &^ (uint64(align) - 1)
			}
			return uint32(q), nil, true
		}
		// inside memory, but not memory of its own
		applied = "realloc overlaps"
		must = false
		if uint64(size) > mem {
			return 0, nil, false
		}
		q := c.R.Uint64N(mem-uint64(size)+1) &^ (uint64(align) - 1)
		g.h.Grants = append(g.h.Grants, cabi.Region{Ptr: q, Len: uint64(size)})
		return uint32(q), nil, true
	}
	var err error
	c.Log("op %d of %s as %s (%s), fault %d at call %d of %d", op, cabi.Show(v), t, g.enc, fault, at, total)
	c.Sample("op %d of %s as %s (%s), fault %d at call %d of %d", op, cabi.Show(v), t, g.enc, fault, at, total)
	c.Try("faulted run", func() { err = run() })
	if applied == "" {
		c.Eval()
		return
	}
	call := g.h.Calls[at]
	c.Event(applied)
	if must && err == nil {
		c.Fail("%s at call %d (%+v, memory %d) was not reported", applied, at, call, g.h.Buf.Len())
	}
	if fault == 0 && !errors.Is(err, cabi.ErrRealloc) {
		c.Fail("the error of the allocator was replaced by %v", err)
	}
	var dst []cabi.Region
	if op == 0 {
		dst = append(dst, cabi.Region{Ptr: ptr, Len: t.Size()})
	}
	if err := g.h.Outside(dst...); err != nil {
		c.Fail("%s: %v", applied, err)
	}
	if t.Has(cabi.List) {
		c.Event("list")
	}
	if t.Has(cabi.String) {
		c.Event("string")
	}
	c.State(t.String(), applied, at, op)
	c.Eval()
}
