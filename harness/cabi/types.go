// Package cabi is an independent executable model of the canonical ABI: type
// layout, the byte image of values in linear memory, and flat core values. It
// shares no code with the implementation it judges; only the conversion of a
// model type to the library's type objects touches the library.
package cabi

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/types"
)

// Kind of a model type.
type Kind int

const (
	Bool Kind = iota
	U8
	U16
	U32
	U64
	S8
	S16
	S32
	S64
	F32
	F64
	Char
	String
	List
	Record
	Tuple
	Variant
	Enum
	Union
	Option
	Result
	Flags
	Own
	Borrow
)

var kindNames = []string{"bool", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "f32", "f64", "char", "string", "list", "record", "tuple", "variant", "enum", "union", "option", "result", "flags", "own", "borrow"}

func (k Kind) String() string { return kindNames[k] }

// Field of a record.
type Field struct {
	Label string
	T     *T
}

// Case of a variant. T is nil for a case without payload.
type Case struct {
	Label   string
	T       *T
	Refines string
}

// T is a model type.
type T struct {
	K      Kind
	Elem   *T       // list, option
	Elems  []*T     // tuple, union; result: ok, error (may be nil)
	Fields []Field  // record
	Cases  []Case   // variant
	Labels []string // enum, flags
	Res    types.ResourceType
	val    types.ValType
}

// Prim makes a type without parameters.
func Prim(k Kind) *T { return &T{K: k} }

func (t *T) String() string {
	if t == nil {
		return "_"
	}
	list := func(ts []*T) string {
		var s []string
		for _, e := range ts {
			s = append(s, e.String())
		}
		return strings.Join(s, ",")
	}
	switch t.K {
	case List, Option:
		return t.K.String() + "<" + t.Elem.String() + ">"
	case Tuple, Union, Result:
		return t.K.String() + "<" + list(t.Elems) + ">"
	case Record:
		var s []string
		for _, f := range t.Fields {
			s = append(s, f.Label+":"+f.T.String())
		}
		return "record{" + strings.Join(s, ",") + "}"
	case Variant:
		if len(t.Cases) > 12 {
			return fmt.Sprintf("variant[%d]{%s..}", len(t.Cases), t.Cases[0].T.String())
		}
		var s []string
		for _, c := range t.Cases {
			x := c.Label + ":" + c.T.String()
			if c.Refines != "" {
				x += "<-" + c.Refines
			}
			s = append(s, x)
		}
		return "variant{" + strings.Join(s, ",") + "}"
	case Enum, Flags:
		return fmt.Sprintf("%s[%d]", t.K, len(t.Labels))
	}
	return t.K.String()
}

// Val converts the model type to the library's type object.
func (t *T) Val() types.ValType {
	if t == nil {
		return nil
	}
	if t.val == nil {
		t.val = t.build()
	}
	return t.val
}

func vals(ts []*T) []types.ValType {
	var out []types.ValType
	for _, t := range ts {
		out = append(out, t.Val())
	}
	return out
}

func (t *T) build() types.ValType {
	switch t.K {
	case Bool:
		return types.NewBool()
	case U8:
		return types.NewU8()
	case U16:
		return types.NewU16()
	case U32:
		return types.NewU32()
	case U64:
		return types.NewU64()
	case S8:
		return types.NewS8()
	case S16:
		return types.NewS16()
	case S32:
		return types.NewS32()
	case S64:
		return types.NewS64()
	case F32:
		return types.NewF32()
	case F64:
		return types.NewF64()
	case Char:
		return types.NewChar()
	case String:
		return types.NewString()
	case List:
		return types.NewList(t.Elem.Val())
	case Option:
		return types.NewOption(t.Elem.Val())
	case Tuple:
		return types.NewTuple(vals(t.Elems)...)
	case Union:
		return types.NewUnion(vals(t.Elems)...)
	case Result:
		return types.NewResult(t.Elems[0].Val(), t.Elems[1].Val())
	case Enum:
		return types.NewEnum(t.Labels...)
	case Flags:
		return types.NewFlags(t.Labels...)
	case Record:
		var fs []types.Field
		for _, f := range t.Fields {
			fs = append(fs, types.Field{Label: f.Label, Type: f.T.Val()})
		}
		return types.NewRecord(fs...)
	case Variant:
		var cs []types.Case
		for _, c := range t.Cases {
			if c.Refines != "" {
				cs = append(cs, types.NewCaseRefines(c.Label, c.T.Val(), c.Refines))
			} else {
				cs = append(cs, types.NewCase(c.Label, c.T.Val()))
			}
		}
		return types.NewVariant(cs...)
	case Own:
		return types.NewOwn(t.Res)
	case Borrow:
		return types.NewBorrow(t.Res)
	}
	panic("unreachable")
}

// fields gives the fields of a record or tuple.
func (t *T) fields() []Field {
	if t.K == Record {
		return t.Fields
	}
	var fs []Field
	for i, e := range t.Elems {
		fs = append(fs, Field{strconv.Itoa(i), e})
	}
	return fs
}

// CasesOf gives the cases of any variant-like type.
func (t *T) CasesOf() []Case {
	switch t.K {
	case Variant:
		return t.Cases
	case Option:
		return []Case{{Label: "none"}, {Label: "some", T: t.Elem}}
	case Result:
		return []Case{{Label: "ok", T: t.Elems[0]}, {Label: "error", T: t.Elems[1]}}
	case Enum:
		cs := make([]Case, len(t.Labels))
		for i, l := range t.Labels {
			cs[i].Label = l
		}
		return cs
	case Union:
		cs := make([]Case, len(t.Elems))
		for i, e := range t.Elems {
			cs[i] = Case{Label: strconv.Itoa(i), T: e}
		}
		return cs
	}
	panic("not a variant")
}

// CaseLabel is the label of case i together with the labels it refines.
func CaseLabel(cases []Case, i int) string {
	s := cases[i].Label
	r := cases[i].Refines
	for r != "" {
		found := false
		for j := range cases {
			if cases[j].Label == r {
				s += "|" + cases[j].Label
				r = cases[j].Refines
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	return s
}

func alignUp(n, a uint64) uint64 {
	for n%a != 0 {
		n++
	}
	return n
}

func discSize(n int) uint64 {
	switch {
	case n <= 1<<8:
		return 1
	case n <= 1<<16:
		return 2
	}
	return 4
}

func flagsLayout(n int) (size, align uint64) {
	switch {
	case n == 0:
		return 0, 1
	case n <= 8:
		return 1, 1
	case n <= 16:
		return 2, 2
	}
	return 4 * uint64((n+31)/32), 4
}

// Align of a type in linear memory.
func (t *T) Align() uint64 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, String, List, Own, Borrow:
		return 4
	case U64, S64, F64:
		return 8
	case Record, Tuple:
		a := uint64(1)
		for _, f := range t.fields() {
			a = max(a, f.T.Align())
		}
		return a
	case Flags:
		_, a := flagsLayout(len(t.Labels))
		return a
	}
	cs := t.CasesOf()
	return max(discSize(len(cs)), maxCaseAlign(cs))
}

func maxCaseAlign(cs []Case) uint64 {
	a := uint64(1)
	for _, c := range cs {
		if c.T != nil {
			a = max(a, c.T.Align())
		}
	}
	return a
}

// Size of a type in linear memory.
func (t *T) Size() uint64 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, Own, Borrow:
		return 4
	case U64, S64, F64, String, List:
		return 8
	case Record, Tuple:
		n := uint64(0)
		for _, f := range t.fields() {
			n = alignUp(n, f.T.Align()) + f.T.Size()
		}
		return alignUp(n, t.Align())
	case Flags:
		n, _ := flagsLayout(len(t.Labels))
		return n
	}
	cs := t.CasesOf()
	m := uint64(0)
	for _, c := range cs {
		if c.T != nil {
			m = max(m, c.T.Size())
		}
	}
	return alignUp(payloadOffset(cs)+m, t.Align())
}

func payloadOffset(cs []Case) uint64 {
	return alignUp(discSize(len(cs)), maxCaseAlign(cs))
}

// Core value kinds.
const (
	I32  = "i32"
	I64  = "i64"
	FL32 = "f32"
	FL64 = "f64"
)

func joinCore(a, b string) string {
	if a == b {
		return a
	}
	if (a == I32 && b == FL32) || (a == FL32 && b == I32) {
		return I32
	}
	return I64
}

// Flat gives the core types of a flattened type.
func (t *T) Flat() []string {
	switch t.K {
	case Bool, U8, U16, U32, S8, S16, S32, Char, Own, Borrow:
		return []string{I32}
	case U64, S64:
		return []string{I64}
	case F32:
		return []string{FL32}
	case F64:
		return []string{FL64}
	case String, List:
		return []string{I32, I32}
	case Record, Tuple:
		var out []string
		for _, f := range t.fields() {
			out = append(out, f.T.Flat()...)
		}
		return out
	case Flags:
		var out []string
		for i := 0; i < len(t.Labels); i += 32 {
			out = append(out, I32)
		}
		return out
	}
	return append([]string{I32}, flatPayload(t.CasesOf())...)
}

func flatPayload(cs []Case) []string {
	var out []string
	for _, c := range cs {
		if c.T == nil {
			continue
		}
		for i, k := range c.T.Flat() {
			if i < len(out) {
				out[i] = joinCore(out[i], k)
			} else {
				out = append(out, k)
			}
		}
	}
	return out
}

// FlatAll flattens a list of types.
func FlatAll(ts []*T) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Flat()...)
	}
	return out
}

// Walk visits every type nested in t.
func (t *T) Walk(f func(*T)) {
	if t == nil {
		return
	}
	f(t)
	t.Elem.Walk(f)
	for _, e := range t.Elems {
		e.Walk(f)
	}
	for _, x := range t.Fields {
		x.T.Walk(f)
	}
	for _, c := range t.Cases {
		c.T.Walk(f)
	}
}

// Has tells whether a kind occurs in t.
func (t *T) Has(k Kind) bool {
	found := false
	t.Walk(func(x *T) { found = found || x.K == k })
	return found
}
