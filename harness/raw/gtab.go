package raw

import (
	"errors"
	"fmt"
	"sort"
)

// LangSys is an OpenType language system.
type LangSys struct {
	Required int
	Optional []int
}

// ScriptList maps script tags to language tags ("" for the default) to
// language systems.
type ScriptList map[string]map[string]LangSys

func sub(b []byte, off, n int) ([]byte, error) {
	if off < 0 || off+n > len(b) {
		return nil, fmt.Errorf("offset %d: %d bytes outside a table of %d bytes", off, n, len(b))
	}
	return b[off:], nil
}

// ParseScriptList decodes a script list.
func ParseScriptList(b []byte) (ScriptList, error) {
	if len(b) < 2 {
		return nil, errors.New("script list too short")
	}
	n := U16(b, 0)
	if len(b) < 2+6*n {
		return nil, errors.New("script list too short")
	}
	res := ScriptList{}
	prev := ""
	for i := 0; i < n; i++ {
		tag := string(b[2+6*i : 6+6*i])
		if i > 0 && tag <= prev {
			return nil, fmt.Errorf("script tags %q, %q not sorted", prev, tag)
		}
		prev = tag
		s, err := sub(b, U16(b, 6+6*i), 4)
		if err != nil {
			return nil, fmt.Errorf("script %q: %v", tag, err)
		}
		m := map[string]LangSys{}
		k := U16(s, 2)
		if len(s) < 4+6*k {
			return nil, fmt.Errorf("script %q: too short", tag)
		}
		get := func(lang string, off int) error {
			l, err := sub(s, off, 6)
			if err != nil {
				return fmt.Errorf("script %q, language %q: %v", tag, lang, err)
			}
			if U16(l, 0) != 0 {
				return fmt.Errorf("script %q, language %q: lookup order", tag, lang)
			}
			ls := LangSys{Required: U16(l, 2)}
			c := U16(l, 4)
			if len(l) < 6+2*c {
				return fmt.Errorf("script %q, language %q: too short", tag, lang)
			}
			for j := 0; j < c; j++ {
				ls.Optional = append(ls.Optional, U16(l, 6+2*j))
			}
			m[lang] = ls
			return nil
		}
		if off := U16(s, 0); off != 0 {
			if err := get("", off); err != nil {
				return nil, err
			}
		}
		pl := ""
		for j := 0; j < k; j++ {
			lang := string(s[4+6*j : 8+6*j])
			if j > 0 && lang <= pl {
				return nil, fmt.Errorf("script %q: languages %q, %q not sorted", tag, pl, lang)
			}
			pl = lang
			if err := get(lang, U16(s, 8+6*j)); err != nil {
				return nil, err
			}
		}
		res[tag] = m
	}
	return res, nil
}

// Encode encodes a script list.
func (sl ScriptList) Encode() []byte {
	var tags []string
	for t := range sl {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	head := A16(nil, len(tags))
	var body []byte
	for _, t := range tags {
		head = append(head, t...)
		head = A16(head, 2+6*len(tags)+len(body))
		m := sl[t]
		var langs []string
		for l := range m {
			if l != "" {
				langs = append(langs, l)
			}
		}
		sort.Strings(langs)
		pos := 4 + 6*len(langs)
		var hd, bd []byte
		add := func(ls LangSys) int {
			p := pos
			bd = A16(bd, 0, ls.Required, len(ls.Optional))
			bd = A16(bd, ls.Optional...)
			pos += 6 + 2*len(ls.Optional)
			return p
		}
		d := 0
		if ls, ok := m[""]; ok {
			d = add(ls)
		}
		hd = A16(hd, d, len(langs))
		for _, l := range langs {
			hd = append(hd, l...)
			hd = A16(hd, add(m[l]))
		}
		body = append(body, hd...)
		body = append(body, bd...)
	}
	if len(head)+len(body) > 0xFFFF {
		panic("harness: script list too large")
	}
	return append(head, body...)
}

// Gtab holds the three lists of a GSUB/GPOS table.
type Gtab struct {
	Scripts  ScriptList
	Features []Feature
	Lookups  []byte // the raw lookup list
}

// Feature is an OpenType feature.
type Feature struct {
	Tag     string
	Lookups []int
}

// ParseGtab decodes the header, the script list and the feature list.
func ParseGtab(b []byte) (*Gtab, error) {
	if len(b) < 10 {
		return nil, errors.New("gtab: too short")
	}
	if U32(b, 0) != 0x10000 {
		return nil, fmt.Errorf("gtab: version %08x", U32(b, 0))
	}
	res := &Gtab{}
	if o := U16(b, 4); o != 0 {
		s, err := sub(b, o, 2)
		if err != nil {
			return nil, err
		}
		res.Scripts, err = ParseScriptList(s)
		if err != nil {
			return nil, err
		}
	}
	if o := U16(b, 6); o != 0 {
		s, err := sub(b, o, 2)
		if err != nil {
			return nil, err
		}
		n := U16(s, 0)
		if len(s) < 2+6*n {
			return nil, errors.New("feature list too short")
		}
		for i := 0; i < n; i++ {
			f := Feature{Tag: string(s[2+6*i : 6+6*i])}
			q, err := sub(s, U16(s, 6+6*i), 4)
			if err != nil {
				return nil, fmt.Errorf("feature %q: %v", f.Tag, err)
			}
			k := U16(q, 2)
			if len(q) < 4+2*k {
				return nil, fmt.Errorf("feature %q: too short", f.Tag)
			}
			for j := 0; j < k; j++ {
				f.Lookups = append(f.Lookups, U16(q, 4+2*j))
			}
			res.Features = append(res.Features, f)
		}
	}
	if o := U16(b, 8); o != 0 {
		s, err := sub(b, o, 2)
		if err != nil {
			return nil, err
		}
		res.Lookups = s
	}
	return res, nil
}

// Encode puts the lists together.
func (g *Gtab) Encode() []byte {
	sl := g.Scripts.Encode()
	fl := A16(nil, len(g.Features))
	var body []byte
	for _, f := range g.Features {
		fl = append(fl, f.Tag...)
		fl = A16(fl, 2+6*len(g.Features)+len(body))
		body = A16(body, 0, len(f.Lookups))
		body = A16(body, f.Lookups...)
	}
	fl = append(fl, body...)
	ll := g.Lookups
	if ll == nil {
		ll = []byte{0, 0}
	}
	if 10+len(sl)+len(fl) > 0xFFFF {
		panic("harness: gtab too large")
	}
	res := A32(nil, 0x10000)
	res = A16(res, 10, 10+len(sl), 10+len(sl)+len(fl))
	res = append(res, sl...)
	res = append(res, fl...)
	return append(res, ll...)
}
