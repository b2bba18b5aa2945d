package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// dumper renders syntax trees: pointers are followed, empty and missing
// lists are the same, options show what they hold, floats are shown by their
// bits, and unset embedded markers and zero fields are left out.
type dumper struct {
	b strings.Builder
	// loose shows all NaNs the same
	loose bool
}

func dump(v any, loose bool) string {
	d := &dumper{loose: loose}
	d.value(reflect.ValueOf(v), 0)
	return d.b.String()
}

// option takes apart a value with IsSome and Unwrap.
func asOption(v reflect.Value) (inner reflect.Value, some, ok bool) {
	t := v.Type()
	m, has := t.MethodByName("IsSome")
	if !has || !strings.Contains(t.String(), "Option[") && !strings.Contains(t.String(), "Some[") && !strings.Contains(t.String(), "None[") {
		return
	}
	_ = m
	if v.Kind() == reflect.Interface && v.IsNil() {
		return reflect.Value{}, false, true
	}
	if !v.MethodByName("IsSome").Call(nil)[0].Bool() {
		return reflect.Value{}, false, true
	}
	return v.MethodByName("Unwrap").Call(nil)[0], true, true
}

// zero tells whether a field says nothing.
func (d *dumper) zero(v reflect.Value) bool {
	if _, some, ok := asOption(v); ok {
		return !some
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !d.zero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(v.Float()) == 0
	}
	return v.IsZero()
}

func (d *dumper) value(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if depth > 100000 {
		d.b.WriteString("...")
		return
	}
	if inner, some, ok := asOption(v); ok {
		if !some {
			d.b.WriteString("none")
			return
		}
		d.b.WriteString("some ")
		d.value(inner, depth+1)
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.value(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteByte(' ')
			}
			d.value(v.Index(i), depth+1)
		}
		d.b.WriteByte(']')
	case reflect.Struct:
		d.b.WriteString(v.Type().Name())
		d.b.WriteByte('{')
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if d.zero(f) {
				continue
			}
			if !first {
				d.b.WriteByte(' ')
			}
			first = false
			d.b.WriteString(v.Type().Field(i).Name)
			d.b.WriteByte(':')
			d.value(f, depth+1)
		}
		d.b.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(&d.b, "%q", v.String())
	case reflect.Float32:
		f := float32(v.Float())
		if v.CanInterface() {
			// the conversion above can change the bits of a NaN
			if x, ok := v.Interface().(float32); ok {
				f = x
			}
		}
		if d.loose && f != f {
			d.b.WriteString("nan")
			return
		}
		fmt.Fprintf(&d.b, "f%08x", math.Float32bits(f))
	case reflect.Float64:
		if d.loose && v.Float() != v.Float() {
			d.b.WriteString("nan")
			return
		}
		fmt.Fprintf(&d.b, "d%016x", math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(&d.b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(&d.b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(&d.b, "%v", v.Bool())
	default:
		fmt.Fprintf(&d.b, "%v", v)
	}
}
