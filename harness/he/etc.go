// Package he holds the harnesses for the template tool.
package he

import (
	"path/filepath"

	"verifharness/etcx"
	"verifharness/sym"
)

// All lists the harness entry points by name.
var All = map[string]func(){
	"EtcSplit":    EtcSplit,
	"EtcRel":      EtcRel,
	"EtcSel":      EtcSel,
	"EtcSelPlain": EtcSelPlain,
}

// path text: a concrete head of components, a window of symbolic bytes, a concrete tail.
func pathText(name string) string {
	s := ""
	for i := 0; i < sym.Param(name+"head", 0); i++ {
		s += "/" + string([]byte{byte('a' + i%26)})
	}
	if x := sym.Param(name+"headx", 0); x > 0 {
		for i := sym.Choose(name+".head", x+1); i > 0; i-- {
			s += "/h"
		}
	}
	if sym.Param(name+"abs", 0) == 1 {
		s += "/"
	}
	n := sym.Param(name+"win", 3)
	if sym.Param("any", 0) == 1 {
		n = sym.Choose(name+".len", n+1)
	}
	s += sym.Str(name, n)
	for i := 0; i < sym.Param(name+"tail", 0); i++ {
		s += "/" + string([]byte{byte('a' + i%26)})
	}
	return s
}

// clean reads a path: whether it is rooted, and its components without empty and dot ones and with dot-dot resolved.
func clean(s string) (rooted bool, out []string) {
	rooted = len(s) > 0 && s[0] == '/'
	var cur []byte
	flush := func() {
		c := cur
		cur = nil
		if len(c) == 0 || len(c) == 1 && c[0] == '.' {
			return
		}
		if len(c) == 2 && c[0] == '.' && c[1] == '.' {
			if len(out) > 0 && out[len(out)-1] != ".." {
				out = out[:len(out)-1]
			} else if !rooted {
				out = append(out, "..")
			}
			return
		}
		out = append(out, string(c))
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			flush()
		} else {
			cur = append(cur, s[i])
		}
	}
	flush()
	return
}

func text(rooted bool, c []string) string {
	s := ""
	for i, x := range c {
		if i > 0 {
			s += "/"
		}
		s += x
	}
	if rooted {
		return "/" + s
	}
	if s == "" {
		return "."
	}
	return s
}

// EtcSplit: the components of any path join back to the cleaned path.
func EtcSplit() {
	s := pathText("p")
	got := etcx.FullSplit(s)
	rooted, c := clean(s)
	want := c
	if rooted {
		want = append([]string{"/"}, c...)
	} else if len(c) == 0 {
		want = []string{"."}
	}
	sym.Assert(len(got) == len(want), "splitting gives the components of the path")
	for i := range got {
		sym.Assert(sym.EqStr(got[i], want[i]), "splitting gives the components of the path")
	}
	sym.Assert(sym.EqStr(filepath.Join(got...), text(rooted, c)), "the components join back to the cleaned path")
	switch {
	case len(got) > 10:
		sym.Cover("more than ten")
	case rooted:
		sym.Cover("rooted")
	default:
		sym.Cover("relative")
	}
	sym.Observe("parts", got)
}

// EtcRel: names relative to the directory of a template given by an absolute path.
func EtcRel() {
	t := pathText("t")
	rt, tc := clean(t)
	if !rt || len(tc) == 0 {
		return // made absolute by the working directory, or the root, which has no base name
	}
	dir := tc[:len(tc)-1]
	p := pathText("p")
	rp, pc := clean(p)
	got := etcx.GetRelName(p, etcx.MakePrefix(t))
	under := rp && len(pc) >= len(dir)
	if under {
		for i := range dir {
			under = sym.And(under, sym.EqStr(dir[i], pc[i]))
		}
	}
	sym.Observe("rel", got)
	if sym.ConcretizeBool(under) {
		if len(pc) == len(dir) {
			return // the directory itself
		}
		sym.Cover("under")
		sym.Assert(sym.EqStr(got, text(false, pc[len(dir):])), "a name below the template's directory is reported relative to it")
		sym.Assert(sym.EqStr(filepath.Join(text(true, dir), got), text(true, pc)), "joining the relative name to the directory gives the cleaned name")
		return
	}
	sym.Cover("elsewhere")
	want := filepath.Base(p)
	sym.Assert(sym.EqStr(got, want), "another name is reported by its last component")
}

type m = map[interface{}]interface{}

// list is what a map is built from, in order; of equal keys the last counts.
type list []struct{ k, v interface{} }

func (l list) build() m {
	d := m{}
	for _, e := range l {
		if sub, ok := e.v.(list); ok {
			d[e.k] = sub.build()
		} else {
			d[e.k] = e.v
		}
	}
	return d
}

// data is a nested map; the values are concrete, some keys symbolic.
func data() list {
	k := func(name string) string { return sym.Str(name, sym.Param("key", 1)) }
	in := list{{"b", 12}, {"", 13}, {7, 14}, {k("k1"), 11}}
	return list{
		{"a", list{{"a", 21}, {"c", in}, {"dd", list{{"e", 31}}}}},
		{"b", 5},
		{"cc", list{{"a", "text"}, {"b", nil}}},
		{"", list{{"a", 41}}},
		{9, 6},
		{k("k0"), 1},
	}
}

// follow is the reading of a dotted path; ok is false if it leads nowhere.
func follow(path string, d list) (interface{}, bool) {
	var v interface{} = d
	for i := 0; ; {
		j := i
		for j < len(path) && path[j] != '.' {
			j++
		}
		cur, isMap := v.(list)
		if !isMap {
			return nil, false
		}
		found := false
		for n := len(cur) - 1; n >= 0 && !found; n-- {
			if s, isStr := cur[n].k.(string); isStr && s == path[i:j] {
				v, found = cur[n].v, true
			}
		}
		if !found {
			return nil, false
		}
		if j == len(path) {
			return v, true
		}
		i = j + 1
	}
}

// id tells values apart: numbers and texts by value, maps by size and a known entry.
func id(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case int:
		return "n" + string([]byte{byte('0' + x/10), byte('0' + x%10)})
	case string:
		return "s" + x
	case list:
		return id(x.build())
	case m:
		return "m" + string([]byte{byte('0' + len(x))})
	}
	return "?"
}

func EtcSel() {
	n := sym.Param("win", 3)
	if sym.Param("any", 0) == 1 {
		n = sym.Choose("len", n+1)
	}
	p := sym.Str("p", n)
	switch sym.Choose("head", sym.Param("heads", 3)) {
	case 1:
		p = "a." + p
	case 2:
		p = "a.c." + p
	}
	d := data()
	checkSel(p, d)
}

func checkSel(p string, l list) {
	d := l.build()
	got, err := etcx.Sel(p, d)
	if p == "" {
		sym.Assert(err == nil && id(got) == id(d), "an empty path selects everything")
		sym.Cover("everything")
		return
	}
	if p[len(p)-1] == '.' {
		return // a trailing dot: not settled by the statement
	}
	want, ok := follow(p, l)
	sym.Observe("ok", err == nil)
	if !ok {
		sym.Assert(err != nil, "a path that leads nowhere is an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "a path that leads somewhere is no error")
	sym.Assert(id(got) == id(want), "a path selects the value it leads to")
	sym.Observe("id", id(got))
	sym.Cover("found")
}

// EtcSelPlain follows a chain of maps of the given depth with symbolic keys.
func EtcSelPlain() {
	n := sym.Param("depth", 3)
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, sym.Str("k", 1))
	}
	var v interface{} = 7
	for i := n - 1; i >= 0; i-- {
		x := list{{keys[i], v}}
		if sym.Param("extra", 0) == 1 {
			x = list{{"x", i}, {keys[i], v}}
		}
		v = x
	}
	p := ""
	for i := 0; i < n+sym.Choose("more", 2); i++ {
		if i > 0 {
			p += "."
		}
		p += sym.Str("p", 1)
	}
	checkSel(p, v.(list))
}
