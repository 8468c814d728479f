package h

// Generated by tools/mkadapt.py.

import (
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
	"github.com/infobloxopen/go-trees/uintX/domaintree32"
	"github.com/infobloxopen/go-trees/uintX/domaintree64"
	"github.com/infobloxopen/go-trees/uintX/domaintree8"
)

// newDom makes an empty domain tree, generic (0) or typed.
func newDom(ty int) domT {
	switch ty {
	case 0:
		return domgNew()
	case 8:
		return dom8New()
	case 16:
		return dom16New()
	case 32:
		return dom32New()
	}
	return dom64New()
}

type domg struct{ t *domaintree.Node }

func domgNew() domT                                { return domg{&domaintree.Node{}} }
func (t domg) insert(n domain.Name, v uint64) domT { return domg{t.t.Insert(n, gval(v))} }
func (t domg) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, gval(v)) }
func (t domg) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return ungval(v, ok), ok
}
func (t domg) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return domg{r}, ok
}
func (t domg) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return domg{r}, ok
}
func (t domg) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, ungval(p.Value, true)}, true
	}
}
func (t domg) enum() []mapkv    { return allOf(t.iter()) }
func (t domg) raw() interface{} { return t.t }
func (t domg) none() domT       { return domg{} }

type dom8 struct{ t *domaintree8.Node }

func dom8New() domT                                { return dom8{&domaintree8.Node{}} }
func (t dom8) insert(n domain.Name, v uint64) domT { return dom8{t.t.Insert(n, uint8(v))} }
func (t dom8) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, uint8(v)) }
func (t dom8) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return uint64(v), ok
}
func (t dom8) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return dom8{r}, ok
}
func (t dom8) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return dom8{r}, ok
}
func (t dom8) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t dom8) enum() []mapkv    { return allOf(t.iter()) }
func (t dom8) raw() interface{} { return t.t }
func (t dom8) none() domT       { return dom8{} }

type dom16 struct{ t *domaintree16.Node }

func dom16New() domT                                { return dom16{&domaintree16.Node{}} }
func (t dom16) insert(n domain.Name, v uint64) domT { return dom16{t.t.Insert(n, uint16(v))} }
func (t dom16) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, uint16(v)) }
func (t dom16) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return uint64(v), ok
}
func (t dom16) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return dom16{r}, ok
}
func (t dom16) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return dom16{r}, ok
}
func (t dom16) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t dom16) enum() []mapkv    { return allOf(t.iter()) }
func (t dom16) raw() interface{} { return t.t }
func (t dom16) none() domT       { return dom16{} }

type dom32 struct{ t *domaintree32.Node }

func dom32New() domT                                { return dom32{&domaintree32.Node{}} }
func (t dom32) insert(n domain.Name, v uint64) domT { return dom32{t.t.Insert(n, uint32(v))} }
func (t dom32) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, uint32(v)) }
func (t dom32) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return uint64(v), ok
}
func (t dom32) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return dom32{r}, ok
}
func (t dom32) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return dom32{r}, ok
}
func (t dom32) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t dom32) enum() []mapkv    { return allOf(t.iter()) }
func (t dom32) raw() interface{} { return t.t }
func (t dom32) none() domT       { return dom32{} }

type dom64 struct{ t *domaintree64.Node }

func dom64New() domT                                { return dom64{&domaintree64.Node{}} }
func (t dom64) insert(n domain.Name, v uint64) domT { return dom64{t.t.Insert(n, uint64(v))} }
func (t dom64) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, uint64(v)) }
func (t dom64) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return uint64(v), ok
}
func (t dom64) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return dom64{r}, ok
}
func (t dom64) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return dom64{r}, ok
}
func (t dom64) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, uint64(p.Value)}, true
	}
}
func (t dom64) enum() []mapkv    { return allOf(t.iter()) }
func (t dom64) raw() interface{} { return t.t }
func (t dom64) none() domT       { return dom64{} }
