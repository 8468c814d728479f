package h

import (
	"net"

	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/uintX/iptree16"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
	"github.com/infobloxopen/go-trees/uintX/iptree64"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
	"verifharness/sym"
)

// Adapters giving the generic and the typed IP trees one face. Values are numbers; in the generic tree
// zero is stored as a nil interface.

type ipT interface {
	insert(n *net.IPNet, v uint64) ipT
	inplace(n *net.IPNet, v uint64)
	insertIP(ip net.IP, v uint64) ipT
	inplaceIP(ip net.IP, v uint64)
	get(n *net.IPNet) (uint64, bool)
	getIP(ip net.IP) (uint64, bool)
	del(n *net.IPNet) (ipT, bool)
	delIP(ip net.IP) (ipT, bool)
	iter() func() (ipkv, bool) // starts an enumeration and gives its next entry
	enum() []ipkv
	each(f func(n *net.IPNet, v uint64))
	raw() interface{}
	none() ipT // a nil tree
}

func allNets(next func() (ipkv, bool)) []ipkv {
	var out []ipkv
	for {
		x, ok := next()
		if !ok {
			return out
		}
		out = append(out, x)
	}
}

// gval and ungval carry numbers through interface values. A miss must come without a value.
func gval(v uint64) interface{} {
	if sym.Param("full", 0) == 0 && v == 0 {
		return nil
	}
	if sym.Param("vref", 0) == 1 {
		return []uint64{v}
	}
	return v
}

func ungval(v interface{}, ok bool) uint64 {
	if !ok {
		sym.Assert(v == nil, "a miss comes with no value")
		return 0
	}
	if v == nil {
		return 0
	}
	if l, ok := v.([]uint64); ok {
		sym.Assert(len(l) == 1 && sym.Param("vref", 0) == 1, "another value came back")
		return l[0]
	}
	x, ok := v.(uint64)
	sym.Assert(ok, "a value of another type came back")
	return x
}

// newIP makes an empty tree of the type chosen by the parameter ty (0 generic, 8, 16, 32, 64 typed).
func newIP() ipT { return newIPOf(sym.Param("ty", 0)) }

func newIPOf(ty int) ipT {
	switch ty {
	case 0:
		return ipgNew()
	case 8:
		return ip8New()
	case 16:
		return ip16New()
	case 32:
		return ip32New()
	}
	return ip64New()
}

type ipg struct{ t *iptree.Tree }

func ipgNew() ipT                               { return ipg{iptree.NewTree()} }
func (t ipg) insert(n *net.IPNet, v uint64) ipT { return ipg{t.t.InsertNet(n, gval(v))} }
func (t ipg) inplace(n *net.IPNet, v uint64)    { t.t.InplaceInsertNet(n, gval(v)) }
func (t ipg) insertIP(ip net.IP, v uint64) ipT  { return ipg{t.t.InsertIP(ip, gval(v))} }
func (t ipg) inplaceIP(ip net.IP, v uint64)     { t.t.InplaceInsertIP(ip, gval(v)) }
func (t ipg) get(n *net.IPNet) (uint64, bool) {
	v, ok := t.t.GetByNet(n)
	return ungval(v, ok), ok
}
func (t ipg) getIP(ip net.IP) (uint64, bool) {
	v, ok := t.t.GetByIP(ip)
	return ungval(v, ok), ok
}
func (t ipg) del(n *net.IPNet) (ipT, bool) {
	r, ok := t.t.DeleteByNet(n)
	return ipg{r}, ok
}
func (t ipg) delIP(ip net.IP) (ipT, bool) {
	r, ok := t.t.DeleteByIP(ip)
	return ipg{r}, ok
}
func (t ipg) iter() func() (ipkv, bool) {
	c := t.t.Enumerate()
	return func() (ipkv, bool) {
		p, ok := <-c
		if !ok {
			return ipkv{}, false
		}
		return unnet(p.Key, ungval(p.Value, true)), true
	}
}
func (t ipg) enum() []ipkv { return allNets(t.iter()) }
func (t ipg) each(f func(n *net.IPNet, v uint64)) {
	for p := range t.t.Enumerate() {
		f(p.Key, ungval(p.Value, true))
	}
}
func (t ipg) raw() interface{} { return t.t }
func (t ipg) none() ipT        { return ipg{} }

type ip8 struct{ t *iptree8.Tree }

func ip8New() ipT                               { return ip8{iptree8.NewTree()} }
func (t ip8) insert(n *net.IPNet, v uint64) ipT { return ip8{t.t.InsertNet(n, uint8(v))} }
func (t ip8) inplace(n *net.IPNet, v uint64)    { t.t.InplaceInsertNet(n, uint8(v)) }
func (t ip8) insertIP(ip net.IP, v uint64) ipT  { return ip8{t.t.InsertIP(ip, uint8(v))} }
func (t ip8) inplaceIP(ip net.IP, v uint64)     { t.t.InplaceInsertIP(ip, uint8(v)) }
func (t ip8) get(n *net.IPNet) (uint64, bool) {
	v, ok := t.t.GetByNet(n)
	return uint64(v), ok
}
func (t ip8) getIP(ip net.IP) (uint64, bool) {
	v, ok := t.t.GetByIP(ip)
	return uint64(v), ok
}
func (t ip8) del(n *net.IPNet) (ipT, bool) {
	r, ok := t.t.DeleteByNet(n)
	return ip8{r}, ok
}
func (t ip8) delIP(ip net.IP) (ipT, bool) {
	r, ok := t.t.DeleteByIP(ip)
	return ip8{r}, ok
}
func (t ip8) iter() func() (ipkv, bool) {
	c := t.t.Enumerate()
	return func() (ipkv, bool) {
		p, ok := <-c
		if !ok {
			return ipkv{}, false
		}
		return unnet(p.Key, uint64(p.Value)), true
	}
}
func (t ip8) enum() []ipkv { return allNets(t.iter()) }
func (t ip8) each(f func(n *net.IPNet, v uint64)) {
	for p := range t.t.Enumerate() {
		f(p.Key, uint64(p.Value))
	}
}
func (t ip8) raw() interface{} { return t.t }
func (t ip8) none() ipT        { return ip8{} }

type ip16 struct{ t *iptree16.Tree }

func ip16New() ipT                               { return ip16{iptree16.NewTree()} }
func (t ip16) insert(n *net.IPNet, v uint64) ipT { return ip16{t.t.InsertNet(n, uint16(v))} }
func (t ip16) inplace(n *net.IPNet, v uint64)    { t.t.InplaceInsertNet(n, uint16(v)) }
func (t ip16) insertIP(ip net.IP, v uint64) ipT  { return ip16{t.t.InsertIP(ip, uint16(v))} }
func (t ip16) inplaceIP(ip net.IP, v uint64)     { t.t.InplaceInsertIP(ip, uint16(v)) }
func (t ip16) get(n *net.IPNet) (uint64, bool) {
	v, ok := t.t.GetByNet(n)
	return uint64(v), ok
}
func (t ip16) getIP(ip net.IP) (uint64, bool) {
	v, ok := t.t.GetByIP(ip)
	return uint64(v), ok
}
func (t ip16) del(n *net.IPNet) (ipT, bool) {
	r, ok := t.t.DeleteByNet(n)
	return ip16{r}, ok
}
func (t ip16) delIP(ip net.IP) (ipT, bool) {
	r, ok := t.t.DeleteByIP(ip)
	return ip16{r}, ok
}
func (t ip16) iter() func() (ipkv, bool) {
	c := t.t.Enumerate()
	return func() (ipkv, bool) {
		p, ok := <-c
		if !ok {
			return ipkv{}, false
		}
		return unnet(p.Key, uint64(p.Value)), true
	}
}
func (t ip16) enum() []ipkv { return allNets(t.iter()) }
func (t ip16) each(f func(n *net.IPNet, v uint64)) {
	for p := range t.t.Enumerate() {
		f(p.Key, uint64(p.Value))
	}
}
func (t ip16) raw() interface{} { return t.t }
func (t ip16) none() ipT        { return ip16{} }

type ip32 struct{ t *iptree32.Tree }

func ip32New() ipT                               { return ip32{iptree32.NewTree()} }
func (t ip32) insert(n *net.IPNet, v uint64) ipT { return ip32{t.t.InsertNet(n, uint32(v))} }
func (t ip32) inplace(n *net.IPNet, v uint64)    { t.t.InplaceInsertNet(n, uint32(v)) }
func (t ip32) insertIP(ip net.IP, v uint64) ipT  { return ip32{t.t.InsertIP(ip, uint32(v))} }
func (t ip32) inplaceIP(ip net.IP, v uint64)     { t.t.InplaceInsertIP(ip, uint32(v)) }
func (t ip32) get(n *net.IPNet) (uint64, bool) {
	v, ok := t.t.GetByNet(n)
	return uint64(v), ok
}
func (t ip32) getIP(ip net.IP) (uint64, bool) {
	v, ok := t.t.GetByIP(ip)
	return uint64(v), ok
}
func (t ip32) del(n *net.IPNet) (ipT, bool) {
	r, ok := t.t.DeleteByNet(n)
	return ip32{r}, ok
}
func (t ip32) delIP(ip net.IP) (ipT, bool) {
	r, ok := t.t.DeleteByIP(ip)
	return ip32{r}, ok
}
func (t ip32) iter() func() (ipkv, bool) {
	c := t.t.Enumerate()
	return func() (ipkv, bool) {
		p, ok := <-c
		if !ok {
			return ipkv{}, false
		}
		return unnet(p.Key, uint64(p.Value)), true
	}
}
func (t ip32) enum() []ipkv { return allNets(t.iter()) }
func (t ip32) each(f func(n *net.IPNet, v uint64)) {
	for p := range t.t.Enumerate() {
		f(p.Key, uint64(p.Value))
	}
}
func (t ip32) raw() interface{} { return t.t }
func (t ip32) none() ipT        { return ip32{} }

type ip64 struct{ t *iptree64.Tree }

func ip64New() ipT                               { return ip64{iptree64.NewTree()} }
func (t ip64) insert(n *net.IPNet, v uint64) ipT { return ip64{t.t.InsertNet(n, uint64(v))} }
func (t ip64) inplace(n *net.IPNet, v uint64)    { t.t.InplaceInsertNet(n, uint64(v)) }
func (t ip64) insertIP(ip net.IP, v uint64) ipT  { return ip64{t.t.InsertIP(ip, uint64(v))} }
func (t ip64) inplaceIP(ip net.IP, v uint64)     { t.t.InplaceInsertIP(ip, uint64(v)) }
func (t ip64) get(n *net.IPNet) (uint64, bool) {
	v, ok := t.t.GetByNet(n)
	return uint64(v), ok
}
func (t ip64) getIP(ip net.IP) (uint64, bool) {
	v, ok := t.t.GetByIP(ip)
	return uint64(v), ok
}
func (t ip64) del(n *net.IPNet) (ipT, bool) {
	r, ok := t.t.DeleteByNet(n)
	return ip64{r}, ok
}
func (t ip64) delIP(ip net.IP) (ipT, bool) {
	r, ok := t.t.DeleteByIP(ip)
	return ip64{r}, ok
}
func (t ip64) iter() func() (ipkv, bool) {
	c := t.t.Enumerate()
	return func() (ipkv, bool) {
		p, ok := <-c
		if !ok {
			return ipkv{}, false
		}
		return unnet(p.Key, uint64(p.Value)), true
	}
}
func (t ip64) enum() []ipkv { return allNets(t.iter()) }
func (t ip64) each(f func(n *net.IPNet, v uint64)) {
	for p := range t.t.Enumerate() {
		f(p.Key, uint64(p.Value))
	}
}
func (t ip64) raw() interface{} { return t.t }
func (t ip64) none() ipT        { return ip64{} }
