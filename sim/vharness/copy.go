//go:build go1.23

package main

import (
	"reflect"
	"unsafe"
)

// deepCopy is what writing an object to disk and reading it back gives:
// the same value in memory of its own, whatever fields it has.
func deepCopy[T any](v T) T {
	src := reflect.ValueOf(&v).Elem()
	dst := reflect.New(src.Type()).Elem()
	copyVal(dst, src)
	return dst.Interface().(T)
}

func copyVal(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		n := reflect.New(src.Type().Elem())
		copyVal(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		if flatKind(src.Type().Elem().Kind()) {
			reflect.Copy(n, src)
		} else {
			for i := 0; i < src.Len(); i++ {
				copyVal(n.Index(i), src.Index(i))
			}
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyVal(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			f, d := src.Field(i), dst.Field(i)
			if !d.CanSet() {
				d = reflect.NewAt(d.Type(), unsafe.Pointer(d.UnsafeAddr())).Elem()
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			copyVal(d, f)
		}
	default:
		dst.Set(src)
	}
}

func flatKind(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128
}
