package main

// Deep copies and dumps of arbitrary values of the library, independent of how
// they are laid out: protobuf messages are copied and dumped as such, everything
// else field by field.

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"google.golang.org/protobuf/proto"
)

var protoType = reflect.TypeOf((*proto.Message)(nil)).Elem()

// open returns v without the read-only mark of unexported fields.
func open(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return reflect.Zero(v.Type())
		}
		return reflect.NewAt(v.Type().Elem(), unsafe.Pointer(v.Pointer()))
	}
	return v
}

func deepCopy[T any](x T) T {
	in := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	in.Set(reflect.ValueOf(&x).Elem())
	out := reflect.New(in.Type()).Elem()
	copyInto(out, in)
	return out.Interface().(T)
}

func copyInto(dst, src reflect.Value) {
	src = open(src)
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		if src.Type().Implements(protoType) {
			dst.Set(reflect.ValueOf(proto.Clone(src.Interface().(proto.Message))))
			return
		}
		n := reflect.New(src.Type().Elem())
		copyInto(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		e := src.Elem()
		n := reflect.New(e.Type()).Elem()
		t := reflect.New(e.Type()).Elem()
		t.Set(e)
		copyInto(n, t)
		dst.Set(n)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			copyInto(open(dst.Field(i)), src.Field(i))
		}
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyInto(n.Index(i), src.Index(i))
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(open(dst.Index(i)), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			dst.Set(reflect.Zero(dst.Type()))
			return
		}
		n := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			k := reflect.New(src.Type().Key()).Elem()
			k.Set(it.Key())
			v := reflect.New(src.Type().Elem()).Elem()
			t := reflect.New(src.Type().Elem()).Elem()
			t.Set(it.Value())
			copyInto(v, t)
			n.SetMapIndex(k, v)
		}
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// walk calls blob for every byte string, number and protobuf message reachable
// from v, in a fixed order, and msg for protobuf messages.
func walk(v reflect.Value, blob func([]byte), msg func(proto.Message)) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			blob([]byte("nil"))
			return
		}
		v = open(v)
		if v.Type().Implements(protoType) {
			m := v.Interface().(proto.Message)
			if msg != nil {
				msg(m)
			}
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			if err != nil {
				b = []byte("unmarshalable: " + err.Error())
			}
			blob(b)
			return
		}
		walk(v.Elem(), blob, msg)
	case reflect.Interface:
		if v.IsNil() {
			blob([]byte("nil"))
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			t := reflect.New(e.Type()).Elem()
			if e.CanInterface() {
				t.Set(e)
				walk(t, blob, msg)
			}
			return
		}
		walk(e, blob, msg)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), blob, msg)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			blob(v.Bytes())
			return
		}
		blob([]byte(fmt.Sprintf("[%d]", v.Len())))
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), blob, msg)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			blob(b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), blob, msg)
		}
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		var l []kv
		it := v.MapRange()
		for it.Next() {
			s := ""
			walk(it.Key(), func(b []byte) { s += string(b) + "|" }, nil)
			l = append(l, kv{s, it.Value()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		for _, e := range l {
			blob([]byte(e.k))
			walk(e.v, blob, msg)
		}
	case reflect.String:
		blob([]byte(v.String()))
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		blob([]byte(fmt.Sprint(v)))
	}
}

func walkAny(x any, blob func([]byte), msg func(proto.Message)) {
	walk(reflect.ValueOf(x), blob, msg)
}

// digest hashes everything reachable from x.
func digest(x any) uint64 {
	h := uint64(14695981039346656037)
	walkAny(x, func(b []byte) {
		h = (h ^ uint64(len(b))) * 1099511628211
		i := 0
		for ; i+8 <= len(b); i += 8 {
			w := uint64(b[i]) | uint64(b[i+1])<<8 | uint64(b[i+2])<<16 | uint64(b[i+3])<<24 |
				uint64(b[i+4])<<32 | uint64(b[i+5])<<40 | uint64(b[i+6])<<48 | uint64(b[i+7])<<56
			h = mix(h ^ w)
		}
		for ; i < len(b); i++ {
			h = (h ^ uint64(b[i])) * 1099511628211
		}
	}, nil)
	return mix(h)
}
