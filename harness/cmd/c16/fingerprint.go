package main

import (
	"hash/maphash"
	"math"
	"reflect"
	"time"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

// fingerprinter computes hashes of data structures, without changing them.
type fingerprinter struct {
	nodes int
}

var (
	seed   = maphash.MakeSeed()
	tTime  = reflect.TypeFor[time.Time]()
	prime1 = uint64(0x9E3779B97F4A7C15)
)

func mix(a, b uint64) uint64 {
	x := (a ^ b) * prime1
	x ^= x >> 29
	x = (x + a) * 0xBF58476D1CE4E5B9
	return x ^ x>>32
}

func (p *fingerprinter) walk(v reflect.Value, depth int) uint64 {
	p.nodes++
	k := uint64(v.Kind())
	if depth > 40 {
		return k
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return mix(k, 1)
		}
		return mix(k, 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mix(k, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return mix(k, v.Uint())
	case reflect.Float32, reflect.Float64:
		return mix(k, math.Float64bits(v.Float()))
	case reflect.String:
		return mix(k, maphash.String(seed, v.String()))
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return mix(k, 3)
		}
		h := mix(k, 4)
		if v.Kind() == reflect.Interface {
			h = mix(h, maphash.String(seed, v.Elem().Type().String()))
		}
		return mix(h, p.walk(v.Elem(), depth+1))
	case reflect.Struct:
		if v.Type() == tTime && v.CanInterface() {
			t := v.Interface().(time.Time)
			return mix(mix(k, uint64(t.Unix())), uint64(t.Nanosecond()))
		}
		h := k
		for i := 0; i < v.NumField(); i++ {
			h = mix(h, p.walk(v.Field(i), depth+1))
		}
		return h
	case reflect.Slice:
		if v.IsNil() {
			return mix(k, 5)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return mix(k, maphash.Bytes(seed, v.Bytes()))
		}
		fallthrough
	case reflect.Array:
		h := mix(k, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h = mix(h, p.walk(v.Index(i), depth+1))
		}
		return h
	case reflect.Map:
		if v.IsNil() {
			return mix(k, 6)
		}
		h := mix(k, uint64(v.Len()))
		iter := v.MapRange()
		for iter.Next() {
			h += mix(p.walk(iter.Key(), depth+1), p.walk(iter.Value(), depth+1))
		}
		return h
	default:
		return k // functions and channels
	}
}

// fingerprint computes a hash of all data in a font, and the number of values
// used.
func fingerprint(f *sfnt.Font) (uint64, int) {
	p := &fingerprinter{}
	h := p.walk(reflect.ValueOf(f), 0)
	if out, ok := f.Outlines.(*cff.Outlines); ok {
		h = mix(h, p.fdSelect(out))
	}
	return h, p.nodes
}

func (p *fingerprinter) fdSelect(out *cff.Outlines) uint64 {
	h := uint64(1)
	if out.FDSelect != nil {
		for i := range out.Glyphs {
			h = mix(h, uint64(out.FDSelect(glyph.ID(i))))
		}
	}
	return h
}
