// Package fdump lists the contents of a font value field by field.
package fdump

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

// Item is one value inside a font.
type Item struct {
	Path string
	S    string
	F    float64
	IsF  bool
}

func (i Item) String() string {
	if i.IsF {
		return fmt.Sprintf("%s = %v", i.Path, i.F)
	}
	s := i.S
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return fmt.Sprintf("%s = %s", i.Path, s)
}

type dumper struct {
	items []Item
	skip  map[string]bool
}

// Font lists all fields of f.  Top-level fields in skip are left out.
func Font(f *sfnt.Font, skip ...string) []Item {
	d := &dumper{skip: map[string]bool{}}
	for _, s := range skip {
		d.skip["."+s] = true
	}
	d.walk("", reflect.ValueOf(f).Elem())
	return d.items
}

// Any lists the contents of any value.
func Any(x any) []Item {
	d := &dumper{}
	d.walk("", reflect.ValueOf(x))
	return d.items
}

func (d *dumper) add(path, format string, a ...any) {
	d.items = append(d.items, Item{Path: path, S: fmt.Sprintf(format, a...)})
}

func (d *dumper) walk(path string, v reflect.Value) {
	if d.skip[path] {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		d.add(path, "nil")
	case reflect.Pointer:
		if v.IsNil() {
			d.add(path, "nil")
			return
		}
		d.walk(path, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.add(path, "nil")
			return
		}
		d.add(path+".(type)", "%s", v.Elem().Type())
		d.walk(path, v.Elem())
	case reflect.Struct:
		if v.CanInterface() {
			switch x := v.Interface().(type) {
			case time.Time:
				if x.IsZero() {
					d.add(path, "no time")
				} else {
					d.add(path, "%d", x.Unix())
				}
				return
			case cff.Outlines:
				var sb strings.Builder
				for i := range x.Glyphs {
					if x.FDSelect == nil {
						break
					}
					fmt.Fprint(&sb, x.FDSelect(glyph.ID(i)), " ")
				}
				d.add(path+".FDSelect", "%s", sb.String())
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Func {
				continue
			}
			d.walk(path+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			d.add(path, "%d bytes %x", v.Len(), v.Bytes())
			return
		}
		d.add(path+".len", "%d", v.Len())
		switch v.Type().Elem().Kind() {
		case reflect.Int, reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Uint8:
			var sb strings.Builder
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if e.CanInt() {
					fmt.Fprint(&sb, e.Int(), " ")
				} else {
					fmt.Fprint(&sb, e.Uint(), " ")
				}
			}
			d.add(path, "%s", sb.String())
			return
		}
		for i := 0; i < v.Len(); i++ {
			d.walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
		}
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		var kk []kv
		it := v.MapRange()
		for it.Next() {
			k := it.Key()
			kk = append(kk, kv{fmt.Sprintf("%v", k), it.Value()})
		}
		sort.Slice(kk, func(i, j int) bool { return kk[i].k < kk[j].k })
		d.add(path+".len", "%d", len(kk))
		for _, x := range kk {
			d.walk(path+"["+x.k+"]", x.v)
		}
	case reflect.Float64, reflect.Float32:
		d.items = append(d.items, Item{Path: path, F: v.Float(), IsF: true})
	case reflect.String:
		d.add(path, "%q", v.String())
	case reflect.Bool:
		d.add(path, "%v", v.Bool())
	case reflect.Func:
	default:
		if v.CanInt() {
			d.add(path, "%d", v.Int())
		} else if v.CanUint() {
			d.add(path, "%d", v.Uint())
		} else {
			panic("fdump: " + v.Type().String())
		}
	}
}

// Diff returns the first difference between two lists, "" if there is none.
// Numbers are compared using same, nil means exact comparison.
func Diff(got, want []Item, same func(path string, a, b float64) bool) (path, msg string) {
	for i := 0; i < len(got) && i < len(want); i++ {
		a, b := got[i], want[i]
		if a == b {
			continue
		}
		if a.Path == b.Path && a.IsF && b.IsF {
			if same != nil && same(a.Path, a.F, b.F) || same == nil && math.Float64bits(a.F) == math.Float64bits(b.F) {
				continue
			}
		}
		return a.Path, fmt.Sprintf("got %s, want %s", at(a, b), b)
	}
	if len(got) != len(want) {
		return "number of items", fmt.Sprintf("%d items, want %d", len(got), len(want))
	}
	return "", ""
}

// at shortens long values around the first difference.
func at(a, b Item) string {
	if len(a.S) > 200 && a.Path == b.Path {
		i := 0
		for i < len(a.S) && i < len(b.S) && a.S[i] == b.S[i] {
			i++
		}
		return fmt.Sprintf("%s (position %d of %d/%d: %.60s)", a.Path, i, len(a.S), len(b.S), a.S[max(0, i-10):])
	}
	return a.String()
}

// Key is the path with all indices removed.
func Key(path string) string {
	var sb strings.Builder
	depth := 0
	for _, r := range path {
		switch r {
		case '[':
			depth++
			sb.WriteString("[]")
		case ']':
			depth--
		default:
			if depth == 0 {
				sb.WriteRune(r)
			}
		}
	}
	return sb.String()
}
