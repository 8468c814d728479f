package h

// Generated by tools/mkadapt.py.

import (
	"github.com/infobloxopen/go-trees/strtree"
	"github.com/infobloxopen/go-trees/uintX/strtree16"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
	"github.com/infobloxopen/go-trees/uintX/strtree64"
	"github.com/infobloxopen/go-trees/uintX/strtree8"
)

// newStr makes an empty string tree, generic (0) or typed, with a comparison or the default one.
func newStr(ty int, c func(a, b string) int) mapT {
	switch ty {
	case 0:
		return strgNew(c)
	case 8:
		return str8New(c)
	case 16:
		return str16New(c)
	case 32:
		return str32New(c)
	}
	return str64New(c)
}

type strg struct{ t *strtree.Tree }

func strgNew(c func(a, b string) int) mapT {
	if c == nil {
		return strg{strtree.NewTree()}
	}
	return strg{strtree.NewTreeWithCustomComparison(c)}
}
func (t strg) insert(k mkey, v uint64) mapT { return strg{t.t.Insert(k.s, gval(v))} }
func (t strg) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, gval(v)) }
func (t strg) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return ungval(v, ok), ok
}
func (t strg) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return strg{r}, ok
}
func (t strg) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, ungval(p.Value, true)}, true
	}
}
func (t strg) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t strg) empty() bool           { return t.t.IsEmpty() }
func (t strg) raw() interface{}      { return t.t }
func (t strg) none() mapT            { return strg{} }

type str8 struct{ t *strtree8.Tree }

func str8New(c func(a, b string) int) mapT {
	if c == nil {
		return str8{strtree8.NewTree()}
	}
	return str8{strtree8.NewTreeWithCustomComparison(c)}
}
func (t str8) insert(k mkey, v uint64) mapT { return str8{t.t.Insert(k.s, uint8(v))} }
func (t str8) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, uint8(v)) }
func (t str8) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return uint64(v), ok
}
func (t str8) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return str8{r}, ok
}
func (t str8) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t str8) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t str8) empty() bool           { return t.t.IsEmpty() }
func (t str8) raw() interface{}      { return t.t }
func (t str8) none() mapT            { return str8{} }

type str16 struct{ t *strtree16.Tree }

func str16New(c func(a, b string) int) mapT {
	if c == nil {
		return str16{strtree16.NewTree()}
	}
	return str16{strtree16.NewTreeWithCustomComparison(c)}
}
func (t str16) insert(k mkey, v uint64) mapT { return str16{t.t.Insert(k.s, uint16(v))} }
func (t str16) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, uint16(v)) }
func (t str16) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return uint64(v), ok
}
func (t str16) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return str16{r}, ok
}
func (t str16) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t str16) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t str16) empty() bool           { return t.t.IsEmpty() }
func (t str16) raw() interface{}      { return t.t }
func (t str16) none() mapT            { return str16{} }

type str32 struct{ t *strtree32.Tree }

func str32New(c func(a, b string) int) mapT {
	if c == nil {
		return str32{strtree32.NewTree()}
	}
	return str32{strtree32.NewTreeWithCustomComparison(c)}
}
func (t str32) insert(k mkey, v uint64) mapT { return str32{t.t.Insert(k.s, uint32(v))} }
func (t str32) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, uint32(v)) }
func (t str32) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return uint64(v), ok
}
func (t str32) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return str32{r}, ok
}
func (t str32) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t str32) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t str32) empty() bool           { return t.t.IsEmpty() }
func (t str32) raw() interface{}      { return t.t }
func (t str32) none() mapT            { return str32{} }

type str64 struct{ t *strtree64.Tree }

func str64New(c func(a, b string) int) mapT {
	if c == nil {
		return str64{strtree64.NewTree()}
	}
	return str64{strtree64.NewTreeWithCustomComparison(c)}
}
func (t str64) insert(k mkey, v uint64) mapT { return str64{t.t.Insert(k.s, uint64(v))} }
func (t str64) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, uint64(v)) }
func (t str64) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return uint64(v), ok
}
func (t str64) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return str64{r}, ok
}
func (t str64) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t str64) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t str64) empty() bool           { return t.t.IsEmpty() }
func (t str64) raw() interface{}      { return t.t }
func (t str64) none() mapT            { return str64{} }
