package h

import (
	"fmt"
	"strconv"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
	"verifharness/sym"
)

// ---- V01: Graphviz dumps

// dotGraph is a parsed dump: texts of the nodes and their children (-1: none given).
type dotGraph struct {
	text []string
	chld [][2]int
}

// parseDot reads a dump line by line: a node "N<i> <text>" or edges "N<i> -> { N<a> N<b> }".
func parseDot(s, what string) *dotGraph {
	const head, tail = "digraph d {\n", "}\n"
	sym.Assert(len(s) >= len(head)+len(tail) && s[:len(head)] == head && s[len(s)-len(tail):] == tail, what+" (frame)")
	s = s[len(head) : len(s)-len(tail)]
	g := &dotGraph{}
	for len(s) > 0 {
		end := 0
		for end < len(s) && s[end] != '\n' {
			end++
		}
		sym.Assert(end < len(s), what+" (line)")
		l := s[:end]
		s = s[end+1:]
		i, l := dotID(l, what)
		sym.Assert(len(l) > 0 && l[0] == ' ', what+" (line)")
		l = l[1:]
		if len(l) > 5 && l[:5] == "-> { " {
			sym.Assert(i < len(g.chld) && g.chld[i][0] < 0, what+" (edges)")
			a, l := dotID(l[5:], what)
			sym.Assert(len(l) > 0 && l[0] == ' ', what+" (edges)")
			b, l := dotID(l[1:], what)
			sym.Assert(l == " }", what+" (edges)")
			g.chld[i] = [2]int{a, b}
			continue
		}
		sym.Assert(i == len(g.text), what+" (node numbers)")
		g.text = append(g.text, l)
		g.chld = append(g.chld, [2]int{-1, -1})
	}
	return g
}

func dotID(s, what string) (int, string) {
	sym.Assert(len(s) > 1 && s[0] == 'N' && s[1] >= '0' && s[1] <= '9', what+" (node name)")
	n, i := 0, 1
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		n = 10*n + int(s[i]-'0')
		i++
	}
	return n, s[i:]
}

const (
	dotNil   = `[label="nil" style=filled fontcolor=white fillcolor=black]`
	dotRed   = ` style=filled fillcolor=red]`
	dotBlack = ` style=filled fontcolor=white fillcolor=black]`
)

// dotWalk is the walk over the dump of an ordered map: which entry comes next, and the nodes seen.
type dotWalk struct {
	g    *dotGraph
	seen int
	want []string // labels of the entries in order
	next int
}

// node checks the tree under node i and returns its number of black nodes on every path and whether it is red.
func (d *dotWalk) node(i int) (int, bool) {
	const what = "a dump has exactly the nodes of the tree, in its order"
	sym.Assert(i >= 0 && i < len(d.g.text), what)
	d.seen++
	sym.Assert(d.seen <= len(d.g.text), what)
	t, c := d.g.text[i], d.g.chld[i]
	if t == dotNil {
		sym.Assert(c[0] < 0, what)
		return 0, false
	}
	var l, r int
	var lr, rr bool
	if c[0] >= 0 {
		l, lr = d.node(c[0])
	}
	sym.Assert(d.next < len(d.want), what)
	w := d.want[d.next]
	d.next++
	red := len(t) > len(dotRed) && t[len(t)-len(dotRed):] == dotRed
	if red {
		t = t[:len(t)-len(dotRed)]
	} else {
		sym.Assert(len(t) > len(dotBlack) && t[len(t)-len(dotBlack):] == dotBlack, "a node has a colour")
		t = t[:len(t)-len(dotBlack)]
	}
	sym.Assert(t == w, "a node is labelled with its key and value")
	if c[0] >= 0 {
		r, rr = d.node(c[1])
	}
	sym.Assert(!red || !lr && !rr, "no red node has a red child")
	sym.Assert(l == r, "every path has the same number of black nodes")
	if !red {
		l++
	}
	return l, red
}

func checkMapDot(s string, want []string) {
	g := parseDot(s, "a dump is well-formed")
	if len(want) == 0 {
		sym.Cover("empty")
		sym.Assert(len(g.text) == 0 || len(g.text) == 1 && g.text[0] == dotNil, "the dump of an empty tree has no nodes")
		return
	}
	d := &dotWalk{g: g, want: want}
	_, red := d.node(0)
	sym.Assert(!red, "the root is black")
	sym.Assert(d.seen == len(g.text) && d.next == len(want), "a dump has exactly the nodes of the tree")
	if len(want) > 1 {
		sym.Cover("many")
	}
}

// dotLabel is the label of an entry.
func dotLabel(key string, v uint64) string {
	k := strconv.Quote(key)
	if ty := sym.Param("ty", 0); ty != 0 {
		return `[label="k: \"` + k[1:len(k)-1] + `\" v: \"` + digits(int(v)) + `\""`
	}
	if v == 0 {
		return `[label=` + k
	}
	return dotLabelText(key, fmt.Sprintf("%#v", v))
}

func dotLabelText(key, value string) string {
	k, q := strconv.Quote(key), strconv.Quote(value)
	return `[label="k: \"` + k[1:len(k)-1] + `\" v: \"` + q[1:len(q)-1] + `\""`
}

// MapDot dumps string and label trees.
func MapDot() {
	m := mapHistory()
	l := m.t.enum(true)
	var want []string
	for _, e := range l {
		want = append(want, dotLabel(e.k, e.v))
	}
	s := m.t.raw().(interface{ Dot() string }).Dot()
	checkMapDot(s, want)
	sym.Assert(len(want) == m.count(), "a dump has exactly the stored entries")
	sym.Observe("dot", s)
}

// MapDotText dumps trees of one or two entries with texts as values.
func MapDotText() {
	a := sym.Str("value", sym.Choose("len", sym.Param("vlen", 2)+1))
	var s string
	if sym.Param("tree", 0) == 1 {
		t := dltree.NewTree().RawInsert("\x01", a)
		t.RawInplaceInsert("\x03", false)
		s = t.Dot()
	} else {
		t := strtree.NewTree().Insert("\x01", a)
		t.InplaceInsert("\x03", false)
		s = t.Dot()
	}
	checkMapDot(s, []string{dotLabelText("\x01", strconv.Quote(a)), dotLabelText("\x03", "false")})
	sym.Observe("dot", s)
}

// NumDot dumps numeric trees and compares the dump with the tree as its exported fields show it.
func NumDot() {
	w := numWidth()
	t, m := numHistory(w)
	var s string
	var leaves []kbv
	const what = "a dump has exactly the nodes of the tree"
	var node func(g *dotGraph, i int, n numNode) int
	node = func(g *dotGraph, i int, n numNode) int {
		sym.Assert(i >= 0 && i < len(g.text), what)
		c := g.chld[i]
		if n == nil {
			sym.Assert(g.text[i] == `[label="nil"]` && c[0] < 0, what)
			return 1
		}
		k, b, leaf, v := n.fields()
		want := `[label="k: ` + hexText(k, w/4) + `, b: ` + digits(sym.Concretize(b))
		if leaf {
			leaves = append(leaves, kbv{k, b, unval(v)})
			q := strconv.Quote(fmt.Sprintf("%#v", v))
			want += `, v: \"` + q[1:len(q)-1] + `\"`
		}
		sym.Assert(g.text[i] == want+`"]`, "a node is labelled with its key, length and value")
		l, r := n.children()
		if c[0] < 0 {
			sym.Assert(l == nil && r == nil, what)
			return 1
		}
		return 1 + node(g, c[0], l) + node(g, c[1], r)
	}
	var root numNode
	if w == 32 {
		n := t.(num32).t
		s = n.Dot()
		root = node32(n)
	} else {
		n := t.(num64).t
		s = n.Dot()
		root = node64(n)
	}
	g := parseDot(s, "a dump is well-formed")
	sym.Assert(node(g, 0, root) == len(g.text), what)
	m.content(leaves, true, "a dump has exactly the stored entries")
	switch len(leaves) {
	case 0:
		sym.Cover("empty")
	case 1:
	default:
		sym.Cover("many")
	}
	sym.Observe("dot", s)
}

type numNode interface {
	fields() (uint64, int, bool, interface{})
	children() (numNode, numNode)
}

type nn32 struct{ n *numtree.Node32 }
type nn64 struct{ n *numtree.Node64 }

func node32(n *numtree.Node32) numNode {
	if n == nil {
		return nil
	}
	return nn32{n}
}
func node64(n *numtree.Node64) numNode {
	if n == nil {
		return nil
	}
	return nn64{n}
}
func (x nn32) fields() (uint64, int, bool, interface{}) {
	return uint64(x.n.Key), int(x.n.Bits), x.n.Leaf, x.n.Value
}
func (x nn64) fields() (uint64, int, bool, interface{}) {
	return x.n.Key, int(x.n.Bits), x.n.Leaf, x.n.Value
}
func (x nn32) children() (numNode, numNode) {
	l, r := x.n.Children()
	return node32(l), node32(r)
}
func (x nn64) children() (numNode, numNode) {
	l, r := x.n.Children()
	return node64(l), node64(r)
}

// hexText is x in n hexadecimal digits.
func hexText(x uint64, n int) string {
	b := make([]byte, n)
	for i := range b {
		d := x >> uint(4*(n-1-i)) & 15
		b[i] = byte(sym.IteU64(d < 10, d+'0', d+'a'-10))
	}
	return string(b)
}
