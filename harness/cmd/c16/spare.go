package main

import (
	"fmt"
	"reflect"
)

// sparer replaces slices by copies which have spare capacity, so that appends
// to shared slices write to shared memory.
type sparer struct {
	ptrs  map[uintptr]bool
	areas []area
}

type area struct {
	path  string
	v     reflect.Value // the spare part
	saved reflect.Value
}

const extra = 3

// walk processes a value and returns the value to use instead.
func (s *sparer) walk(path string, v reflect.Value, depth int) reflect.Value {
	if depth > 30 {
		return v
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || s.ptrs[v.Pointer()] {
			return v
		}
		s.ptrs[v.Pointer()] = true
		if e := v.Elem(); e.CanSet() && (e.Kind() == reflect.Struct || e.Kind() == reflect.Slice || e.Kind() == reflect.Map || e.Kind() == reflect.Interface) {
			e.Set(s.walk(path, e, depth+1))
		}
		return v
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		res := reflect.New(v.Type()).Elem()
		res.Set(s.walk(path, v.Elem(), depth+1))
		return res
	case reflect.Struct:
		res := reflect.New(v.Type()).Elem()
		res.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				res.Field(i).Set(s.walk(path+"."+f.Name, v.Field(i), depth+1))
			}
		}
		return res
	case reflect.Map:
		if v.IsNil() || s.ptrs[v.Pointer()] {
			return v
		}
		s.ptrs[v.Pointer()] = true
		iter := v.MapRange()
		var keys, vals []reflect.Value
		for iter.Next() {
			keys = append(keys, iter.Key())
			vals = append(vals, iter.Value())
		}
		for i := range keys {
			v.SetMapIndex(keys[i], s.walk(fmt.Sprintf("%s[%v]", path, keys[i]), vals[i], depth+1))
		}
		return v
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := v.Len()
		full := reflect.MakeSlice(v.Type(), n+extra, n+extra)
		for i := 0; i < n; i++ {
			full.Index(i).Set(s.walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), depth+1))
		}
		sp := full.Slice(n, n+extra)
		for i := 0; i < extra; i++ {
			switch e := sp.Index(i); {
			case e.CanInt():
				e.SetInt(int64(77 + i))
			case e.CanUint():
				e.SetUint(uint64(77 + i))
			case e.CanFloat():
				e.SetFloat(float64(77 + i))
			case e.Kind() == reflect.String:
				e.SetString(fmt.Sprint("spare", i))
			}
		}
		saved := reflect.MakeSlice(v.Type(), extra, extra)
		reflect.Copy(saved, sp)
		s.areas = append(s.areas, area{path, sp, saved})
		return full.Slice(0, n)
	default:
		return v
	}
}

// check returns a description of the first change to the spare capacity.
func (s *sparer) check() string {
	for _, a := range s.areas {
		if !reflect.DeepEqual(a.v.Interface(), a.saved.Interface()) {
			return fmt.Sprintf("spare capacity of %s is %v instead of %v", a.path, a.v, a.saved)
		}
	}
	return ""
}
