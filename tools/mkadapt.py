#!/usr/bin/env python3
"""Writes the adapters of the generic and typed string and domain trees (harness/h/stradapt.go, domadapt.go)."""
import os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "h")
STR = '''
type str@ struct{ t *strtree@.Tree }

func str@New(c func(a, b string) int) mapT {
	if c == nil {
		return str@{strtree@.NewTree()}
	}
	return str@{strtree@.NewTreeWithCustomComparison(c)}
}
func (t str@) insert(k mkey, v uint64) mapT { return str@{t.t.Insert(k.s, #(v))} }
func (t str@) inplace(k mkey, v uint64)     { t.t.InplaceInsert(k.s, #(v)) }
func (t str@) get(k mkey) (uint64, bool) {
	v, ok := t.t.Get(k.s)
	return ~(v, ok), ok
}
func (t str@) del(k mkey) (mapT, bool) {
	r, ok := t.t.Delete(k.s)
	return str@{r}, ok
}
func (t str@) iter(raw bool) func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, ~(p.Value, true)}, true
	}
}
func (t str@) enum(raw bool) []mapkv { return allOf(t.iter(raw)) }
func (t str@) empty() bool      { return t.t.IsEmpty() }
func (t str@) raw() interface{} { return t.t }
func (t str@) none() mapT       { return str@{} }
'''
DOM = '''
type dom@ struct{ t *domaintree@.Node }

func dom@New() domT { return dom@{&domaintree@.Node{}} }
func (t dom@) insert(n domain.Name, v uint64) domT { return dom@{t.t.Insert(n, #(v))} }
func (t dom@) inplace(n domain.Name, v uint64)     { t.t.InplaceInsert(n, #(v)) }
func (t dom@) get(n domain.Name) (uint64, bool) {
	v, ok := t.t.Get(n)
	return ~(v, ok), ok
}
func (t dom@) del(n domain.Name) (domT, bool) {
	r, ok := t.t.Delete(n)
	return dom@{r}, ok
}
func (t dom@) delSub(n domain.Name) (domT, bool) {
	r, ok := t.t.DeleteSubdomains(n)
	return dom@{r}, ok
}
func (t dom@) iter() func() (mapkv, bool) {
	c := t.t.Enumerate()
	return func() (mapkv, bool) {
		p, ok := <-c
		if !ok {
			return mapkv{}, false
		}
		return mapkv{p.Key, ~(p.Value, true)}, true
	}
}
func (t dom@) enum() []mapkv { return allOf(t.iter()) }
func (t dom@) raw() interface{} { return t.t }
func (t dom@) none() domT       { return dom@{} }
'''
def gen(tpl, b):
    if b == "":
        return tpl.replace("@{", "g{").replace("str@", "strg").replace("dom@", "domg").replace("@", "").replace("#(v)", "gval(v)").replace("~(", "ungval(")
    return tpl.replace("@", b).replace("#(v)", "uint%s(v)" % b).replace("~(v, ok)", "uint64(v)").replace("~(p.Value, true)", "uint64(p.Value)")
def pick(name, iface, arg, call, doc):
    return '''
%s
func %s(ty int%s) %s {
	switch ty {
	case 0:
		return %sgNew(%s)
	case 8:
		return %s8New(%s)
	case 16:
		return %s16New(%s)
	case 32:
		return %s32New(%s)
	}
	return %s64New(%s)
}
''' % ((doc, name, arg, iface) + sum(((p, call) for p in [name[3:].lower()] * 5), ()))
def imports(stem, more=()):
    l = ["github.com/infobloxopen/go-trees/" + stem] + ["github.com/infobloxopen/go-trees/uintX/%s%s" % (stem, b) for b in ("8", "16", "32", "64")] + list(more)
    return "package h\n\n// Generated by tools/mkadapt.py.\n\nimport (\n" + "".join('\t"%s"\n' % x for x in sorted(l)) + ")\n"
open(os.path.join(H, "stradapt.go"), "w").write(imports("strtree") + pick("newStr", "mapT", ", c func(a, b string) int", "c", "// newStr makes an empty string tree, generic (0) or typed, with a comparison or the default one.") + "".join(gen(STR, b) for b in ("", "8", "16", "32", "64")))
open(os.path.join(H, "domadapt.go"), "w").write(imports("domaintree", ["github.com/infobloxopen/go-trees/domain"]) + pick("newDom", "domT", "", "", "// newDom makes an empty domain tree, generic (0) or typed.") + "".join(gen(DOM, b) for b in ("", "8", "16", "32", "64")))
