//go:build go1.23

package main

import (
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// footprint measures what the library retains: the elements reachable from its
// package-level variables and from some of the caller's objects. It counts by
// length, not by capacity, so that growing in steps does not matter.
type footprint struct {
	seen  map[visit]bool
	todo  []reflect.Value
	units int64
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

// measure returns the size of every root;
// memory shared by two roots counts for the first one.
func measure(objs map[string]interface{}) map[string]int64 {
	f := &footprint{seen: map[visit]bool{}}
	out := map[string]int64{}
	one := func(name string, p interface{}) {
		before := f.units
		f.push(reflect.ValueOf(p))
		f.drain()
		out[name] += f.units - before
	}
	libRoots(one)
	var names []string
	for n := range objs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		one(n, objs[n])
	}
	return out
}

func (f *footprint) push(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Struct, reflect.Array, reflect.Chan, reflect.String, reflect.UnsafePointer:
		f.todo = append(f.todo, v)
	}
}

func (f *footprint) drain() {
	for len(f.todo) > 0 {
		v := f.todo[len(f.todo)-1]
		f.todo = f.todo[:len(f.todo)-1]
		f.visit(v)
	}
}

// pool counts the largest idle item only: how many there are is up to the
// garbage collector.
func (f *footprint) pool(items reflect.Value) {
	todo, before, max := f.todo, f.units, int64(0)
	f.todo = nil
	n := items.Len()
	for i := 0; i < n; i++ {
		if i == 16 && n > 48 {
			i = n - 32
		}
		u := f.units
		f.push(items.Index(i))
		f.drain()
		if d := f.units - u; d > max {
			max = d
		}
	}
	f.todo, f.units = todo, before+max
}

func scalar(k reflect.Kind) bool { return k <= reflect.Complex128 || k == reflect.Func }

// open makes unexported parts readable.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func (f *footprint) visit(v reflect.Value) {
	t := v.Type()
	switch v.Kind() {
	case reflect.String:
		f.units += int64(v.Len()+7) / 8
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := visit{v.UnsafePointer(), t, 0}
		if f.seen[k] {
			return
		}
		f.seen[k] = true
		f.units++
		f.push(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Ptr {
			c := reflect.New(e.Type()).Elem() // an addressable copy
			if !e.CanInterface() {
				return
			}
			c.Set(e)
			e = c
		}
		f.push(e)
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		k := visit{v.UnsafePointer(), t, v.Len()}
		if f.seen[k] {
			return
		}
		f.seen[k] = true
		f.units += int64(v.Len())
		if scalar(t.Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.push(open(v.Index(i)))
		}
	case reflect.Array:
		if scalar(t.Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.push(open(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := visit{v.UnsafePointer(), t, 0}
		if f.seen[k] {
			return
		}
		f.seen[k] = true
		f.units += int64(v.Len())
		it := v.MapRange()
		for it.Next() {
			for _, x := range []reflect.Value{it.Key(), it.Value()} {
				if scalar(x.Kind()) || !x.CanInterface() {
					continue
				}
				c := reflect.New(x.Type()).Elem()
				c.Set(x)
				f.push(c)
			}
		}
	case reflect.Chan:
		if !v.IsNil() {
			f.units += int64(v.Len())
		}
	case reflect.UnsafePointer:
	case reflect.Struct:
		pk := t.PkgPath()
		if strings.HasSuffix(pk, "/vsim") && t.Name() != "Map" {
			if t.Name() == "Pool" && v.CanAddr() {
				f.pool(open(v.FieldByName("items")))
			}
			return // the simulator's own state
		}
		if pk == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") && v.CanAddr() {
			et := t.Field(0).Type.Elem() // _ [0]*T
			p := *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
			if p != nil && et.Kind() == reflect.Ptr {
				f.push(reflect.NewAt(et.Elem(), p))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f.push(open(v.Field(i)))
		}
	}
}
