// Check C14: names, glyph names and language tags survive their encodings.
package main

import (
	"bytes"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"unicode/utf16"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"

	"verif/fgen"
	"verif/h"
	"verif/raw"
)

var pick = fgen.Pick[int]

// fields lists the name ids with their own struct fields.
func field(t *name.Table, id int) *string {
	switch id {
	case 0:
		return &t.Copyright
	case 1:
		return &t.Family
	case 2:
		return &t.Subfamily
	case 3:
		return &t.Identifier
	case 4:
		return &t.FullName
	case 5:
		return &t.Version
	case 6:
		return &t.PostScriptName
	case 7:
		return &t.Trademark
	case 8:
		return &t.Manufacturer
	case 9:
		return &t.Designer
	case 10:
		return &t.Description
	case 11:
		return &t.VendorURL
	case 12:
		return &t.DesignerURL
	case 13:
		return &t.License
	case 14:
		return &t.LicenseURL
	case 16:
		return &t.TypographicFamily
	case 17:
		return &t.TypographicSubfamily
	case 18:
		return &t.MacFullName
	case 19:
		return &t.SampleText
	case 20:
		return &t.CIDFontName
	case 21:
		return &t.WWSFamily
	case 22:
		return &t.WWSSubfamily
	case 23:
		return &t.LightBackgroundPalette
	case 24:
		return &t.DarkBackgroundPalette
	case 25:
		return &t.VariationsPostScriptName
	}
	return nil
}

func mkTable(m map[int]string) *name.Table {
	t := &name.Table{}
	for id, s := range m {
		if p := field(t, id); p != nil {
			*p = s
		} else {
			if t.Extra == nil {
				t.Extra = map[name.ID]string{}
			}
			t.Extra[name.ID(id)] = s
		}
	}
	return t
}

func fromTable(t *name.Table) map[int]string {
	m := map[int]string{}
	for id := 0; id <= 25; id++ {
		if p := field(t, id); p != nil && *p != "" {
			m[id] = *p
		}
	}
	for id, s := range t.Extra {
		if s != "" {
			m[int(id)] = s
		}
	}
	return m
}

func utf16be(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

func macRoman(s string) []byte {
	var b []byte
	for _, r := range s {
		c, ok := charmap.Macintosh.EncodeRune(r)
		if !ok {
			panic("harness: not in Mac Roman")
		}
		b = append(b, c)
	}
	return b
}

func randRune(rng *rand.Rand) rune {
	for {
		var r rune
		switch rng.IntN(8) {
		case 0:
			r = rune(rng.IntN(0x110000))
		case 1:
			r = fgen.Pick[rune](rng, 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FFFF, 0x1F600, 0xFEFF)
		case 2:
			r = rune(rng.IntN(0x3000))
		case 3:
			r = rune(0x10000 + rng.IntN(0x100000))
		default:
			r = rune(32 + rng.IntN(95))
		}
		if r < 0xD800 || r > 0xDFFF {
			return r
		}
	}
}

// winText returns a string with at most n UTF-16 units.
func winText(rng *rand.Rand, n int) string {
	var sb strings.Builder
	ascii := rng.IntN(2) == 0
	for n > 0 {
		r := randRune(rng)
		if ascii {
			r = rune(32 + rng.IntN(95))
		}
		if r > 0xFFFF {
			if n < 2 {
				r = 'x'
			} else {
				n--
			}
		}
		n--
		sb.WriteRune(r)
	}
	return sb.String()
}

func macText(rng *rand.Rand, n int) string {
	rr := make([]rune, n)
	for i := range rr {
		c := rng.IntN(256)
		if rng.IntN(2) == 0 {
			c = 32 + rng.IntN(95)
		}
		rr[i] = charmap.Macintosh.DecodeByte(byte(c))
	}
	return string(rr)
}

type entry struct{ m map[int]string }

// model is the expected contents of a name table: platform -> language -> id -> string.
type model map[int]map[string]map[int]string

func (m model) equal(o model) string {
	for _, p := range []int{1, 3} {
		for l, t := range m[p] {
			for id, s := range t {
				if o[p][l][id] != s {
					return fmt.Sprintf("platform %d, language %s, name %d: %q became %q", p, l, id, cut(s), cut(o[p][l][id]))
				}
			}
		}
		for l, t := range o[p] {
			for id, s := range t {
				if m[p][l][id] != s {
					return fmt.Sprintf("platform %d, language %s, name %d: found %q, want %q", p, l, id, cut(s), cut(m[p][l][id]))
				}
			}
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d bytes)", s[:60], len(s))
	}
	return s
}

func fromInfo(info *name.Info) model {
	m := model{1: {}, 3: {}}
	for l, t := range info.Mac {
		m[1][l] = fromTable(t)
	}
	for l, t := range info.Windows {
		m[3][l] = fromTable(t)
	}
	return m
}

var macTags, winTags []string
var macIDs, winIDs = map[string][]int{}, map[string][]int{}

func init() {
	for id, l := range raw.MacLang {
		macIDs[l] = append(macIDs[l], id)
	}
	for id, l := range raw.WinLang {
		winIDs[l] = append(winIDs[l], id)
	}
	macTags = slices.Sorted(maps.Keys(macIDs))
	winTags = slices.Sorted(maps.Keys(winIDs))
}

func genModel(rng *rand.Rand) (model, string) {
	m := model{1: {}, 3: {}}
	pool := []string{}
	macPool := []string{}
	shape := "small"
	maxLen := 40
	nLang := 1 + rng.IntN(pick(rng, 1, 3, 8))
	nIDs := 1 + rng.IntN(12)
	switch rng.IntN(20) {
	case 0:
		shape = "long strings"
		maxLen = pick(rng, 2000, 32767, 16000)
		nLang = 1
		nIDs = 1 + rng.IntN(3)
	case 1:
		shape = "all languages"
		nLang = 1000
		nIDs = 1 + rng.IntN(4)
		maxLen = 12
	case 2:
		shape = "many ids"
		nLang = 1
		nIDs = pick(rng, 200, 2000, 2700, 5400, 5460, 5461, 5500)
		maxLen = pick(rng, 1, 3, 6)
	case 3:
		shape = "close to the limit"
		maxLen = 100
		nLang = 1
		nIDs = 0
	}
	for _, p := range []int{1, 3} {
		tags := macTags
		if p == 3 {
			tags = winTags
		}
		n := rng.IntN(nLang + 1)
		if nLang == 1 && p == 3 && len(m[1]) == 0 {
			n = 1
		}
		if shape == "many ids" && len(m[1]) > 0 {
			n = 0
		}
		for i := 0; i < min(n, len(tags)); i++ {
			l := tags[rng.IntN(len(tags))]
			if shape == "all languages" {
				l = tags[i]
			} else if rng.IntN(3) == 0 {
				l = []string{"en", "de", "zh-Hant"}[rng.IntN(3)]
				if p == 3 {
					l = []string{"en-US", "es-ES", "de-DE"}[rng.IntN(3)]
				}
			}
			t := map[int]string{}
			k := 1 + rng.IntN(max(nIDs, 1))
			if shape == "many ids" {
				k = nIDs
			}
			for j := 0; j < k; j++ {
				id := rng.IntN(26)
				switch {
				case shape == "many ids":
					id = j * 11
				case rng.IntN(5) == 0:
					id = pick(rng, 15, 25, 26, 255, 256, 257, 32767, 32768, 65535, rng.IntN(65536))
				}
				ln := 1 + rng.IntN(maxLen)
				if rng.IntN(8) == 0 {
					ln = maxLen
				}
				var s string
				ps := &pool
				if p == 1 {
					ps = &macPool
				}
				if len(*ps) > 0 && rng.IntN(3) == 0 {
					s = (*ps)[rng.IntN(len(*ps))]
				} else if p == 1 {
					s = macText(rng, ln)
				} else {
					s = winText(rng, ln)
				}
				if s == "" {
					s = "x"
				}
				*ps = append(*ps, s)
				t[id] = s
			}
			m[p][l] = t
		}
	}
	if shape == "close to the limit" {
		// total - longest just below/above 65535
		longest := pick(rng, 10, 1000, 60000, 65534) &^ 1
		rest := 65535 + pick(rng, -3, -2, -1, 0, 1, 2, 3, 5)
		t := map[int]string{}
		if rng.IntN(2) == 0 { // Macintosh: any byte length
			s := macText(rng, 20000)
			i := 1
			for rest > 0 {
				n := min(rest, 1+rng.IntN(min(8000, longest)))
				t[i] = charPrefix(i) + s[:0] + strings.Repeat("a", max(0, n-len(charPrefix(i))))
				rest -= len(t[i])
				i++
			}
			t[0] = strings.Repeat("z", longest)
			m = model{1: {"en": t}, 3: {}}
		} else {
			i := 1
			rest &^= 1
			for rest > 0 {
				n := min(rest, 2+2*rng.IntN(min(8000, longest)/2))
				s := charPrefix(i) + strings.Repeat("a", max(0, n/2-len(charPrefix(i))))
				t[i] = s
				rest -= 2 * len(s)
				i++
			}
			t[0] = strings.Repeat("z", longest/2)
			m = model{1: {}, 3: {"en-US": t}}
		}
	}
	return m, shape
}

func charPrefix(i int) string { return fmt.Sprintf("%d", i) }

// fits decides whether a name table with 16-bit offsets can exist without
// overlapping strings.
func (m model) fits() (bool, int) {
	records := 0
	seen := map[string]bool{}
	total, longest := 0, 0
	for _, p := range []int{1, 3} {
		for l, t := range m[p] {
			n := len(macIDs[l])
			if p == 3 {
				n = len(winIDs[l])
			}
			records += n * len(t)
			for _, s := range t {
				var b []byte
				if p == 1 {
					b = macRoman(s)
				} else {
					b = utf16be(s)
				}
				if !seen[string(b)] {
					seen[string(b)] = true
					total += len(b)
					longest = max(longest, len(b))
				}
			}
		}
	}
	return longest <= 65535 && total-longest <= 65535 && 6+12*records <= 65535, total
}

func names(c *h.Case) {
	rng := c.Rng
	m, shape := genModel(rng)
	c.Count("shape: "+shape, 1)
	info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
	for l, t := range m[1] {
		info.Mac[l] = mkTable(t)
	}
	for l, t := range m[3] {
		info.Windows[l] = mkTable(t)
	}
	encID := pick(rng, 1, 1, 1, 10)
	fits, total := m.fits()
	var data []byte
	r, stack := h.Catch(func() { data = info.Encode(uint16(encID)) })
	if r != nil {
		if fits {
			c.Violation("name table refused", "%s, %d bytes of strings: %v\n%s", shape, total, r, stack)
		}
		c.Count("name tables refused", 1)
		return
	}
	if d := m.equal(fromInfo(info)); d != "" {
		c.Violation("argument modified", "%s", d)
	}
	c.NonTrivial(data)
	c.Max("name table bytes", len(data))
	c.Sample("%s: %d bytes", shape, len(data))
	recs, err := raw.ParseName(data)
	if err != nil {
		c.Violation("name table malformed", "%s: %v", shape, err)
		return
	}
	got := model{1: {}, 3: {}}
	seen := map[string]int{}
	for _, r := range recs {
		var l, s string
		switch r.Platform {
		case 1:
			l = raw.MacLang[r.Language]
			var rr []rune
			for _, b := range r.Data {
				rr = append(rr, charmap.Macintosh.DecodeByte(b))
			}
			s = string(rr)
			if r.Encoding != 0 {
				c.Violation("name table malformed", "Macintosh encoding %d", r.Encoding)
			}
		case 3:
			l = raw.WinLang[r.Language]
			if r.Encoding != encID {
				c.Violation("name table malformed", "Windows encoding %d", r.Encoding)
			}
			if len(r.Data)%2 != 0 {
				c.Violation("name table malformed", "odd length")
				return
			}
			u := make([]uint16, len(r.Data)/2)
			for i := range u {
				u[i] = uint16(raw.U16(r.Data, 2*i))
			}
			s = string(utf16.Decode(u))
		}
		if l == "" {
			c.Violation("name table malformed", "platform %d, language %d", r.Platform, r.Language)
			return
		}
		if got[r.Platform][l] == nil {
			got[r.Platform][l] = map[int]string{}
		}
		if old, ok := got[r.Platform][l][r.Name]; ok && old != s {
			c.Violation("name table malformed", "two values for %d/%s/%d", r.Platform, l, r.Name)
		}
		got[r.Platform][l][r.Name] = s
		if o, ok := seen[string(r.Data)]; ok {
			if o != r.Offset {
				c.Count("equal strings stored twice", 1)
			} else {
				c.Count("shared strings", 1)
			}
		} else {
			seen[string(r.Data)] = r.Offset
		}
		c.Count("records", 1)
	}
	if d := m.equal(got); d != "" {
		c.Violation("name table contents", "%s: %s", shape, d)
		return
	}
	orig := bytes.Clone(data)
	var back *name.Info
	if !c.Guard("name.Decode", func() { back, err = name.Decode(data) }) {
		return
	}
	if err != nil {
		c.Violation("round trip", "%s: name.Decode: %v", shape, err)
		return
	}
	if !bytes.Equal(orig, data) {
		c.Violation("argument modified", "name.Decode changes its input")
	}
	if d := m.equal(fromInfo(back)); d != "" {
		c.Violation("round trip", "%s, encoding %d: %s", shape, encID, d)
		return
	}
	c.Eval(len(recs))
	for i := 0; i < 2; i++ {
		var again []byte
		if !c.Guard("Encode", func() { again = back.Encode(uint16(encID)) }) {
			return
		}
		if !bytes.Equal(again, data) {
			c.Violation("not a fixed point", "%s: re-encoding gives different bytes", shape)
			return
		}
	}
	if encID == 1 && len(data) < 20000 {
		thirdName(c, data, m)
	}
	choose(c, back.Windows, m[3])
	choose(c, back.Mac, m[1])
}

// choose checks that the preferred language is found.
func choose(c *h.Case, tt name.Tables, m map[string]map[int]string) {
	rng := c.Rng
	if len(m) == 0 {
		t, conf := tt.Choose(language.English)
		if t != nil || conf != language.No {
			c.Violation("Choose", "found a table in an empty set")
		}
		return
	}
	if len(m) > 20 && rng.IntN(4) != 0 {
		return
	}
	keys := slices.Sorted(maps.Keys(m))
	for i := 0; i < 3; i++ {
		l := keys[rng.IntN(len(keys))]
		var t *name.Table
		if !c.Guard("Choose", func() { t, _ = tt.Choose(language.MustParse(l)) }) {
			return
		}
		if t == nil {
			c.Violation("Choose", "no table for %s", l)
			return
		}
		if t != tt[l] {
			// another table of the same language may match equally well
			for k, v := range tt {
				if v == t {
					b1, _ := language.MustParse(k).Base()
					b2, _ := language.MustParse(l).Base()
					c.Count("Choose: other region or language", 1)
					if b1 != b2 {
						if _, _, conf := language.NewMatcher([]language.Tag{language.MustParse(k)}).Match(language.MustParse(l)); conf == language.No {
							c.Violation("Choose", "asked for %s, which is present, got %s", l, k)
						}
					}
				}
			}
		} else {
			c.Count("Choose: exact", 1)
		}
	}
	t, _ := tt.Choose(language.MustParse("tlh"))
	if t == nil {
		c.Violation("Choose", "no default table")
	}
}

func thirdName(c *h.Case, data []byte, m model) {
	mn := &raw.Min{NumGlyphs: 1, UnitsPerEm: 1000}
	tables := mn.Tables()
	tables["glyf"] = []byte{0, 0}
	tables["loca"] = make([]byte, 4)
	tables["name"] = data
	f, err := xsfnt.Parse(raw.Build(0x00010000, tables, c.Rng))
	if err != nil {
		c.Count("x/image: "+err.Error(), 1)
		return
	}
	want := map[int]map[string]bool{}
	for _, p := range []int{1, 3} {
		for _, t := range m[p] {
			for id, s := range t {
				if want[id] == nil {
					want[id] = map[string]bool{}
				}
				if p == 3 { // x/image does not decode surrogates
					var rr []rune
					for _, u := range utf16.Encode([]rune(s)) {
						rr = append(rr, rune(u))
					}
					s = string(rr)
				}
				want[id][s] = true
			}
		}
	}
	k := 0
	for _, id := range slices.Sorted(maps.Keys(want)) {
		if k++; k > 60 {
			break
		}
		s, err := f.Name(nil, xsfnt.NameID(id))
		if err != nil {
			c.Violation("third party disagrees", "x/image: name %d: %v", id, err)
			return
		}
		if !want[id][s] {
			c.Violation("third party disagrees", "x/image: name %d is %q", id, cut(s))
			return
		}
		c.Count("names agreed with x/image", 1)
	}
	for _, id := range []int{0, 1, 3, 7, 99, 65535} {
		if _, err := f.Name(nil, xsfnt.NameID(id)); err == nil && want[id] == nil {
			c.Violation("third party disagrees", "x/image finds a name %d", id)
		}
	}
}

// foreign: name tables as found in files.
func foreign(c *h.Case) {
	rng := c.Rng
	type rec struct {
		p, e, l, id int
		data        []byte
		off         int
	}
	n := rng.IntN(pick(rng, 3, 10, 60))
	seen := map[[4]int]bool{}
	var recs []rec
	m := model{1: {}, 3: {}}
	for i := 0; i < n; i++ {
		r := rec{p: pick(rng, 0, 1, 1, 2, 3, 3, 3, 4), e: pick(rng, 0, 1, 1, 2, 10, 3), id: pick(rng, rng.IntN(30), rng.IntN(65536))}
		switch r.p {
		case 1:
			r.l = pick(rng, 0, 0, rng.IntN(160), rng.IntN(65536))
		case 3:
			r.l = pick(rng, 0x409, 0x409, 0x407, 0x40a, 0xc0a, 0x8000, rng.IntN(65536))
			if ks := slices.Sorted(maps.Keys(raw.WinLang)); rng.IntN(3) == 0 {
				r.l = ks[rng.IntN(len(ks))]
			}
		default:
			r.l = rng.IntN(10)
		}
		k := [4]int{r.p, r.e, r.l, r.id}
		if seen[k] {
			continue
		}
		seen[k] = true
		ln := rng.IntN(30)
		if r.p == 1 {
			r.data = macRoman(macText(rng, ln))
		} else {
			r.data = utf16be(winText(rng, ln))
		}
		recs = append(recs, r)
	}
	sort.Slice(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		for _, d := range [][2]int{{a.p, b.p}, {a.e, b.e}, {a.l, b.l}, {a.id, b.id}} {
			if d[0] != d[1] {
				return d[0] < d[1]
			}
		}
		return false
	})
	// storage, with overlapping strings
	var storage []byte
	for _, i := range rng.Perm(len(recs)) {
		r := &recs[i]
		if p := bytes.Index(storage, r.data); p >= 0 && rng.IntN(2) == 0 {
			r.off = p
			continue
		}
		storage = append(storage, fgen.Bytes(rng, rng.IntN(3))...)
		r.off = len(storage)
		storage = append(storage, r.data...)
	}
	amb := map[[3]string]bool{}
	version := pick(rng, 0, 0, 1)
	start := 6 + 12*len(recs)
	var extra []byte
	if version == 1 {
		k := rng.IntN(3)
		extra = raw.A16(nil, k)
		for i := 0; i < k; i++ {
			s := utf16be("de-AT")
			extra = raw.A16(extra, len(s), len(storage))
			storage = append(storage, s...)
		}
	}
	gap := rng.IntN(2) * rng.IntN(8)
	data := raw.A16(nil, version, len(recs), start+len(extra)+gap)
	for _, r := range recs {
		data = raw.A16(data, r.p, r.e, r.l, r.id, len(r.data), r.off)
		var l, s string
		switch {
		case r.p == 1 && r.e == 0:
			l = raw.MacLang[r.l]
			var rr []rune
			for _, b := range r.data {
				rr = append(rr, charmap.Macintosh.DecodeByte(b))
			}
			s = string(rr)
		case r.p == 3 && r.e == 1:
			l = raw.WinLang[r.l]
			u := make([]uint16, len(r.data)/2)
			for i := range u {
				u[i] = uint16(raw.U16(r.data, 2*i))
			}
			s = string(utf16.Decode(u))
		}
		if r.p == 3 && r.e != 1 {
			amb[[3]string{"3", raw.WinLang[r.l], fmt.Sprint(r.id)}] = true
		}
		if l == "" || s == "" {
			continue
		}
		if m[r.p][l] == nil {
			m[r.p][l] = map[int]string{}
		}
		if _, ok := m[r.p][l][r.id]; ok {
			amb[[3]string{fmt.Sprint(r.p), l, fmt.Sprint(r.id)}] = true
		}
		m[r.p][l][r.id] = s
	}
	data = append(data, extra...)
	data = append(data, make([]byte, gap)...)
	data = append(data, storage...)
	c.NonTrivial(data)
	c.Eval(len(recs))
	c.Sample("version %d, %d records, %d bytes", version, len(recs), len(data))
	var info *name.Info
	var err error
	if !c.Guard("name.Decode", func() { info, err = name.Decode(data) }) {
		return
	}
	if err != nil {
		c.Violation("legal name table rejected", "version %d, %d records: %v", version, len(recs), err)
		return
	}
	got := fromInfo(info)
	for k := range amb {
		var p, id int
		fmt.Sscan(k[0], &p)
		fmt.Sscan(k[2], &id)
		delete(got[p][k[1]], id)
		delete(m[p][k[1]], id)
	}
	if d := m.equal(got); d != "" {
		c.Violation("name.Decode", "%s", d)
	}
}

// codec: the Mac Roman codec.
func codec(c *h.Case) {
	rng := c.Rng
	if c.Index == 0 {
		for i := 0; i < 256; i++ {
			want := charmap.Macintosh.DecodeByte(byte(i))
			if r := mac.DecodeOne(byte(i)); r != want {
				c.Violation("Mac Roman", "DecodeOne(%#x) = %U, want %U", i, r, want)
			}
			if s := mac.Decode([]byte{byte(i)}); s != string(want) {
				c.Violation("Mac Roman", "Decode(%#x) = %q, want %q", i, s, want)
			}
			if b := mac.Encode(string(want)); len(b) != 1 || b[0] != byte(i) {
				c.Violation("Mac Roman", "Encode(%U) = %x, want %x", want, b, i)
			}
		}
		for r := rune(0); r < 0x110000; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			b := mac.Encode(string(r))
			want, ok := charmap.Macintosh.EncodeRune(r)
			if !ok {
				want = '?'
			}
			if len(b) != 1 || b[0] != want {
				c.Violation("Mac Roman", "Encode(%U) = %x, want %x", r, b, want)
				break
			}
		}
		c.Eval(0x110000)
	}
	b := fgen.Bytes(rng, rng.IntN(pick(rng, 4, 300, 5000)))
	orig := bytes.Clone(b)
	s := mac.Decode(b)
	if !bytes.Equal(mac.Encode(s), orig) || !bytes.Equal(b, orig) {
		c.Violation("Mac Roman", "% x is decoded and encoded as % x", h.Trunc(orig), h.Trunc(mac.Encode(s)))
	}
	t := macText(rng, rng.IntN(300))
	if got := mac.Decode(mac.Encode(t)); got != t {
		c.Violation("Mac Roman", "%q becomes %q", t, got)
	}
	c.NonTrivial(b)
	c.Eval(2)
}

var std []string // the standard Macintosh glyph names, as known to golang.org/x/image

func init() {
	var idx []int
	for i := 0; i < 258; i++ {
		idx = append(idx, i)
	}
	data := raw.A32(nil, 0x00020000)
	data = append(data, make([]byte, 28)...)
	data = raw.A16(data, 258)
	data = raw.A16(data, idx...)
	f, err := postFont(data, 258)
	if err != nil {
		panic(err)
	}
	for i := range idx {
		s, err := f.GlyphName(nil, xsfnt.GlyphIndex(i))
		if err != nil {
			panic(err)
		}
		std = append(std, s)
	}
	if std[0] != ".notdef" || std[3] != "space" || std[36] != "A" || std[257] != "dcroat" {
		panic("harness: unexpected standard names")
	}
}

func postFont(data []byte, n int) (*xsfnt.Font, error) {
	mn := &raw.Min{NumGlyphs: n, UnitsPerEm: 1000, LocaFormat: 0}
	tables := mn.Tables()
	tables["glyf"] = []byte{0, 0}
	tables["loca"] = make([]byte, 2*n+2)
	tables["post"] = data
	return xsfnt.Parse(raw.Build(0x00010000, tables, rand.New(rand.NewPCG(1, 2))))
}

func glyphName(rng *rand.Rand) string {
	n := 1 + rng.IntN(12)
	if rng.IntN(20) == 0 {
		n = pick(rng, 0, 1, 31, 63, 127, 128, 254, 255)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._"[rng.IntN(44)]
		if rng.IntN(200) == 0 {
			b[i] = byte(rng.IntN(256))
		}
	}
	return string(b)
}

func genNames(rng *rand.Rand) ([]string, string) {
	switch rng.IntN(12) {
	case 0:
		return slices.Clone(std), "standard order"
	case 1:
		s := slices.Clone(std)
		i, j := rng.IntN(258), rng.IntN(258)
		s[i], s[j] = s[j], s[i]
		return s, "two names swapped"
	case 2:
		s := slices.Clone(std)
		s[rng.IntN(258)] = glyphName(rng)
		return s, "one name changed"
	case 3:
		return slices.Clone(std[:rng.IntN(258)]), "prefix"
	case 4:
		s := slices.Clone(std)
		for i := 0; i < 1+rng.IntN(5); i++ {
			s = append(s, glyphName(rng))
		}
		return s, "standard order and more"
	case 5:
		return nil, "no names"
	case 6:
		if rng.IntN(10) == 0 {
			n := pick(rng, 65535, 65278, 65279, 65277, 40000, 32768, 32767)
			s := make([]string, n)
			for i := range s {
				s[i] = fmt.Sprintf("g%d", i)
				if rng.IntN(3) == 0 && n != 65278 && n != 65279 {
					s[i] = std[rng.IntN(258)]
				}
			}
			return s, "many glyphs"
		}
		n := pick(rng, 65535, 3000, 40000)
		s := make([]string, n)
		k := 1 + rng.IntN(2000)
		for i := range s {
			s[i] = fmt.Sprintf("g%d", rng.IntN(k))
		}
		return s, "many repeated names"
	}
	n := 1 + rng.IntN(pick(rng, 3, 40, 400))
	s := make([]string, n)
	for i := range s {
		if rng.IntN(3) == 0 {
			s[i] = std[rng.IntN(258)]
		} else {
			s[i] = glyphName(rng)
		}
		if i > 0 && rng.IntN(10) == 0 {
			s[i] = s[rng.IntN(i)]
		}
	}
	return s, "mixed"
}

func glyphNames(c *h.Case) {
	rng := c.Rng
	ns, shape := genNames(rng)
	info := &post.Info{
		ItalicAngle:        float64(int32(rng.Uint32())) / 65536,
		UnderlinePosition:  funit.Int16(rng.Uint32()),
		UnderlineThickness: funit.Int16(rng.Uint32()),
		IsFixedPitch:       rng.IntN(2) == 0,
		Names:              slices.Clone(ns),
	}
	custom := map[string]bool{}
	for _, s := range ns {
		if !slices.Contains(std[:min(len(std), 258)], s) {
			custom[s] = true
		}
	}
	c.Count("shape: "+shape, 1)
	var data []byte
	r, stack := h.Catch(func() { data = info.Encode() })
	if r != nil {
		if len(custom) <= 65536-258 {
			c.Violation("post table refused", "%d names, %d custom: %v\n%s", len(ns), len(custom), r, stack)
		}
		c.Count("refused", 1)
		return
	}
	if !slices.Equal(info.Names, ns) {
		c.Violation("argument modified", "Encode changes the names")
	}
	c.NonTrivial(data)
	c.Sample("%s: %d names, %d bytes", shape, len(ns), len(data))
	c.Count(fmt.Sprintf("format %08x", raw.U32(data, 0)), 1)
	pn, err := raw.ParsePostNames(data, std, len(ns))
	if err != nil {
		c.Violation("post table malformed", "%s (%d names): %v", shape, len(ns), err)
		return
	}
	cmp := func(what string, got []string) bool {
		if (got == nil) != (ns == nil) || len(got) != len(ns) {
			c.Violation(what, "%s: %d names, want %d", shape, len(got), len(ns))
			return false
		}
		for i := range ns {
			if got[i] != ns[i] {
				c.Violation(what, "%s: glyph %d is %q, want %q", shape, i, got[i], ns[i])
				return false
			}
		}
		return true
	}
	if len(ns) > 0 && pn == nil {
		c.Violation("glyph names lost", "%s: format %08x for %d names", shape, raw.U32(data, 0), len(ns))
		return
	}
	if len(ns) > 0 && !cmp("post table contents", pn) {
		return
	}
	var back *post.Info
	if !c.Guard("post.Read", func() { back, err = post.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("round trip", "%s: post.Read: %v", shape, err)
		return
	}
	if !cmp("round trip", back.Names) {
		return
	}
	if back.ItalicAngle != info.ItalicAngle || back.UnderlinePosition != info.UnderlinePosition || back.UnderlineThickness != info.UnderlineThickness || back.IsFixedPitch != info.IsFixedPitch {
		c.Violation("round trip", "post fields: %v, want %v", back, info)
	}
	c.Eval(len(ns) + 1)
	if again := back.Encode(); !bytes.Equal(again, data) {
		c.Violation("not a fixed point", "%s: re-encoding gives different bytes", shape)
	}
	// The list returned for format 1 must not be damaged by other users.
	if len(ns) > 0 && len(ns) < 20000 {
		f, err := postFont(data, len(ns))
		if err != nil {
			c.Count("x/image: "+err.Error(), 1)
			return
		}
		for k := 0; k < min(len(ns), 300); k++ {
			i := k
			if len(ns) > 300 {
				i = rng.IntN(len(ns))
			}
			s, err := f.GlyphName(nil, xsfnt.GlyphIndex(i))
			if err != nil || s != ns[i] {
				c.Violation("third party disagrees", "x/image: glyph %d is %q (%v), want %q", i, s, err, ns[i])
				return
			}
			c.Count("glyph names agreed with x/image", 1)
		}
	}
}

// foreignPost: format 2 tables with unusual string order.
func foreignPost(c *h.Case) {
	rng := c.Rng
	n := 1 + rng.IntN(pick(rng, 5, 300))
	ns := rng.IntN(pick(rng, 2, 50, 400))
	var strs []string
	for i := 0; i < ns; i++ {
		strs = append(strs, glyphName(rng))
	}
	data := raw.A32(nil, 0x00020000)
	data = append(data, make([]byte, 28)...)
	data = raw.A16(data, n)
	want := make([]string, n)
	for i := range want {
		if ns > 0 && rng.IntN(2) == 0 {
			k := rng.IntN(ns)
			want[i] = strs[k]
			data = raw.A16(data, 258+k)
		} else {
			k := rng.IntN(258)
			want[i] = std[k]
			data = raw.A16(data, k)
		}
	}
	for _, s := range strs {
		data = append(data, byte(len(s)))
		data = append(data, s...)
	}
	c.NonTrivial(data)
	c.Eval(n)
	var info *post.Info
	var err error
	if !c.Guard("post.Read", func() { info, err = post.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		c.Violation("legal post table rejected", "%v", err)
		return
	}
	if !slices.Equal(info.Names, want) {
		c.Violation("post.Read", "names differ (%d glyphs, %d strings)", n, ns)
		return
	}
	var back *post.Info
	if !c.Guard("post.Encode", func() { back, err = post.Read(bytes.NewReader(info.Encode())) }) {
		return
	}
	if err != nil || !slices.Equal(back.Names, want) {
		c.Violation("round trip", "names lost (%v)", err)
	}
}

// wellKnown holds language codes about which there is no doubt.
var wellKnown = map[string]string{
	"DEU ": "de", "FRA ": "fr", "ENG ": "en", "ESP ": "es", "ITA ": "it", "NLD ": "nl", "SVE ": "sv", "DAN ": "da",
	"PLK ": "pl", "RUS ": "ru", "TRK ": "tr", "ROM ": "ro", "CSY ": "cs", "HUN ": "hu", "FIN ": "fi", "ELL ": "el",
	"BGR ": "bg", "UKR ": "uk", "KOR ": "ko", "VIT ": "vi", "THA ": "th", "HIN ": "hi", "TAM ": "ta",
}
var wellKnownScript = map[string]string{
	"latn": "Latn", "cyrl": "Cyrl", "grek": "Grek", "arab": "Arab", "hebr": "Hebr", "deva": "Deva", "dev2": "Deva",
	"thai": "Thai", "hang": "Hang", "hani": "Hani", "DFLT": "Zzzz", "lao ": "Laoo", "yi  ": "Yiii", "nko ": "Nkoo", "vai ": "Vaii",
}

// altScripts lists pairs of tags for the same script, which are not listed
// in wellKnownScript.
var altScripts = map[string]bool{"dev3deva": true, "dev3dev2": true, "jamohang": true}

// plainTags lists the OpenType tags for language tags without extension.
var plainTags = map[string][2]string{
	"zh": {"hani", "ZHP "}, "zh-Hans": {"hani", "ZHS "}, "zh-Hant": {"hani", "ZHT "},
	"en-Latn": {"latn", "ENG "}, "de-Latn": {"latn", "DEU "}, "ru-Cyrl": {"cyrl", "RUS "}, "el-Grek": {"grek", "ELL "},
	"tr-Latn": {"latn", "TRK "}, "hu-Latn": {"latn", "HUN "}, "th-Thai": {"thai", "THA "},
	"und-Latn": {"latn", ""}, "und-Cyrl": {"cyrl", ""}, "und-Grek": {"grek", ""}, "und-Zzzz": {"DFLT", ""},
}

// plain writes script lists with tags which did not come from a file.
func plain(c *h.Case) {
	rng := c.Rng
	sl := gtab.ScriptListInfo{}
	want := raw.ScriptList{}
	for _, tag := range slices.Sorted(maps.Keys(plainTags)) {
		if rng.IntN(3) == 0 {
			continue
		}
		ls := langSys(rng)
		f := &gtab.Features{Required: gtab.FeatureIndex(ls.Required)}
		for _, x := range ls.Optional {
			f.Optional = append(f.Optional, gtab.FeatureIndex(x))
		}
		t := language.MustParse(tag)
		switch {
		case tag == "zh" && rng.IntN(2) == 0:
			t = language.Chinese
		case tag == "zh-Hans" && rng.IntN(2) == 0:
			t = language.SimplifiedChinese
		case tag == "zh-Hant" && rng.IntN(2) == 0:
			t = language.TraditionalChinese
		}
		sl[t] = f
		x := plainTags[tag]
		if want[x[0]] == nil {
			want[x[0]] = map[string]raw.LangSys{}
		}
		want[x[0]][x[1]] = ls
	}
	info := &gtab.Info{ScriptList: sl, FeatureList: gtab.FeatureListInfo{}, LookupList: gtab.LookupList{}}
	var enc []byte
	if !c.Guard("Encode", func() { enc = info.Encode() }) {
		return
	}
	c.NonTrivial(enc)
	c.Eval(len(sl))
	p, err := raw.ParseGtab(enc)
	if err != nil {
		c.Violation("script list malformed", "%v", err)
		return
	}
	if d := diffScripts(want, p.Scripts); d != "" {
		c.Violation("BCP 47 tag", "%v: %s", slices.Collect(maps.Keys(sl)), d)
		return
	}
	back, err := gtab.Read(bytes.NewReader(enc), gtab.TypeGsub)
	if err != nil || len(back.ScriptList) != len(sl) {
		c.Violation("language systems lost", "%d of %d language systems found, %v", len(back.ScriptList), len(sl), err)
		return
	}
	for t := range sl {
		// The tag without the private extension is the original one.
		b, s, _ := t.Raw()
		found := false
		for u, f := range back.ScriptList {
			b2, s2, _ := u.Raw()
			if b == b2 && (s == s2 || t == language.Chinese || t.String() == "zh") && f.Required == sl[t].Required && slices.Equal(f.Optional, sl[t].Optional) {
				found = true
			}
		}
		if !found {
			c.Violation("BCP 47 tag", "tag %s lost", t)
		}
	}
}

// checkScripts sends a script list through gtab.Read and Encode.
func checkScripts(c *h.Case, sl raw.ScriptList, n int) {
	rng := c.Rng
	g := &raw.Gtab{Scripts: sl, Features: []raw.Feature{{Tag: "test"}}}
	data := g.Encode()
	tp := gtab.Type(gtab.TypeGsub)
	if rng.IntN(2) == 0 {
		tp = gtab.TypeGpos
	}
	var info *gtab.Info
	var err error
	if !c.Guard("gtab.Read", func() { info, err = gtab.Read(bytes.NewReader(data), tp) }) {
		return
	}
	if err != nil {
		c.Violation("legal script list rejected", "%d language systems: %v", n, err)
		return
	}
	if len(info.ScriptList) != n {
		c.Violation("language systems lost", "%d of %d language systems found (%s)", len(info.ScriptList), n, describe(sl))
		return
	}
	var enc []byte
	if !c.Guard("Encode", func() { enc = info.Encode() }) {
		return
	}
	back, err := raw.ParseGtab(enc)
	if err != nil {
		c.Violation("script list malformed", "%v", err)
		return
	}
	if d := diffScripts(sl, back.Scripts); d != "" {
		c.Violation("script list changed", "%s", d)
		return
	}
	for i := 0; i < 2; i++ {
		if again := info.Encode(); !bytes.Equal(again, enc) {
			c.Violation("not deterministic", "two encodings of the same script list differ")
			return
		}
	}
	info2, err := gtab.Read(bytes.NewReader(enc), tp)
	if err != nil {
		c.Violation("round trip", "%v", err)
		return
	}
	if len(info2.ScriptList) != len(info.ScriptList) {
		c.Violation("round trip", "%d language systems, want %d", len(info2.ScriptList), len(info.ScriptList))
		return
	}
	for tag, f := range info.ScriptList {
		f2 := info2.ScriptList[tag]
		if f2 == nil || f2.Required != f.Required || !slices.Equal(f.Optional, f2.Optional) {
			c.Violation("round trip", "tag %s: %v becomes %v", tag, f, f2)
			return
		}
	}
	c.Eval(n)
	c.Count("language systems", n)
}

func describe(sl raw.ScriptList) string {
	var ss []string
	for s, m := range sl {
		for l := range m {
			ss = append(ss, s+"/"+l)
		}
	}
	sort.Strings(ss)
	if len(ss) > 5 {
		ss = ss[:5]
	}
	return fmt.Sprint(ss)
}

func diffScripts(a, b raw.ScriptList) string {
	for s, m := range a {
		for l, f := range m {
			g, ok := b[s][l]
			if !ok {
				return fmt.Sprintf("%q/%q lost", s, l)
			}
			if f.Required != g.Required || !slices.Equal(f.Optional, g.Optional) {
				return fmt.Sprintf("%q/%q: %v becomes %v", s, l, f, g)
			}
		}
	}
	for s, m := range b {
		if a[s] == nil {
			return fmt.Sprintf("new script %q", s)
		}
		for l := range m {
			if _, ok := a[s][l]; !ok {
				return fmt.Sprintf("new language %q/%q", s, l)
			}
		}
	}
	return ""
}

func langSys(rng *rand.Rand) raw.LangSys {
	ls := raw.LangSys{Required: 0xFFFF}
	if rng.IntN(3) == 0 {
		ls.Required = pick(rng, 0, 1, 65534, rng.IntN(65536))
	}
	for i := rng.IntN(pick(rng, 1, 4, 10)); i > 0; i-- {
		ls.Optional = append(ls.Optional, rng.IntN(65535))
	}
	return ls
}

// allPairs: one script with all languages.
func allPairs(c *h.Case) {
	rng := c.Rng
	script := raw.OTScripts[c.Index%len(raw.OTScripts)]
	m := map[string]raw.LangSys{"": langSys(rng)}
	for _, l := range raw.OTLangs {
		m[l] = langSys(rng)
	}
	c.NonTrivial([]byte(script))
	checkScripts(c, raw.ScriptList{script: m}, len(m))
}

// scripts: random script lists.
func scripts(c *h.Case) {
	rng := c.Rng
	sl := raw.ScriptList{}
	n := 0
	for i := 1 + rng.IntN(pick(rng, 1, 4, 30)); i > 0; i-- {
		s := raw.OTScripts[rng.IntN(len(raw.OTScripts))]
		if rng.IntN(3) == 0 {
			s = []string{"DFLT", "latn", "lao ", "beng", "bng2", "hani", "yi  "}[rng.IntN(7)]
		}
		if sl[s] != nil {
			continue
		}
		m := map[string]raw.LangSys{}
		if rng.IntN(3) > 0 {
			m[""] = langSys(rng)
		}
		for j := rng.IntN(pick(rng, 1, 5, 20)); j > 0; j-- {
			m[raw.OTLangs[rng.IntN(len(raw.OTLangs))]] = langSys(rng)
		}
		if len(m) == 0 {
			m[""] = langSys(rng)
		}
		sl[s] = m
		n += len(m)
	}
	c.NonTrivial([]byte(fmt.Sprint(sl)))
	c.Sample("%d scripts, %d language systems", len(sl), n)
	checkScripts(c, sl, n)
}

// tags: the BCP 47 tags of well-known languages.
func tags(c *h.Case) {
	rng := c.Rng
	script := slices.Sorted(maps.Keys(wellKnownScript))[c.Index%len(wellKnownScript)]
	for lang, want := range wellKnown {
		ls := langSys(rng)
		g := &raw.Gtab{Scripts: raw.ScriptList{script: {lang: ls}}, Features: []raw.Feature{{Tag: "test"}}}
		info, err := gtab.Read(bytes.NewReader(g.Encode()), gtab.TypeGsub)
		if err != nil || len(info.ScriptList) != 1 {
			c.Violation("legal script list rejected", "%q/%q: %v", script, lang, err)
			return
		}
		for tag := range info.ScriptList {
			b, s, _ := tag.Raw()
			if b.String() != want || s.String() != wellKnownScript[script] {
				c.Violation("BCP 47 tag", "%q/%q becomes %s", script, lang, tag)
			}
			// A tag with region or without extension selects the same system.
			plain := gtab.ScriptListInfo{language.MustParse(want + "-" + wellKnownScript[script]): {Required: gtab.FeatureIndex(ls.Required)}}
			var enc []byte
			if !c.Guard("Encode", func() {
				enc = (&gtab.Info{ScriptList: plain, FeatureList: gtab.FeatureListInfo{}, LookupList: gtab.LookupList{}}).Encode()
			}) {
				return
			}
			p, err := raw.ParseGtab(enc)
			if err != nil {
				c.Violation("script list malformed", "tag %s-%s: %v", want, wellKnownScript[script], err)
				return
			}
			for s, m := range p.Scripts {
				for l := range m {
					if l != lang {
						i2, err := gtab.Read(bytes.NewReader(enc), gtab.TypeGsub)
						ok := false
						if err == nil {
							for t := range i2.ScriptList {
								b2, _, _ := t.Raw()
								ok = b2.String() == want
							}
						}
						if !ok {
							c.Violation("BCP 47 tag", "tag %s-%s becomes %q/%q", want, wellKnownScript[script], s, l)
						}
					}
				}
				if s != script && wellKnownScript[s] != wellKnownScript[script] && !altScripts[s+script] {
					c.Violation("BCP 47 tag", "tag %s-%s becomes script %q", want, wellKnownScript[script], s)
				}
			}
			if len(p.Scripts) != 1 {
				c.Violation("BCP 47 tag", "tag %s-%s: %d scripts", want, wellKnownScript[script], len(p.Scripts))
			}
		}
		c.NonTrivial([]byte(script + lang))
		c.Eval(1)
	}
}

func main() {
	h.Main(&h.Check{
		ID:    "C14",
		Level: "exploration",
		Rule:  "random name tables, glyph name lists and script lists are encoded; the bytes are decoded by independent parsers, by golang.org/x/image and by the library; hand-made tables are read. Non-trivial: distinct tables",
		Assumptions: []string{
			"Mac Roman reference: golang.org/x/text charmap.Macintosh; standard glyph names: golang.org/x/image",
			"a name table which cannot be expressed with 16-bit offsets and disjoint strings may be refused",
			"the supported languages and OpenType tags are those listed in harness/raw/tags.go",
		},
		Groups: []h.Group{
			{Name: "codec", Quick: 2000, Run: codec},
			{Name: "names", Quick: 4000, Run: names},
			{Name: "foreign", Quick: 8000, Run: foreign},
			{Name: "glyphNames", Quick: 4000, Run: glyphNames},
			{Name: "foreignPost", Quick: 4000, Run: foreignPost},
			{Name: "allPairs", Quick: len(raw.OTScripts), Thorough: 4 * len(raw.OTScripts), Run: allPairs},
			{Name: "scripts", Quick: 4000, Run: scripts},
			{Name: "tags", Quick: 30, Run: tags},
			{Name: "plain", Quick: 200, Run: plain},
		},
	})
}
