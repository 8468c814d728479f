package h

import (
	"errors"
	"reflect"

	"github.com/infobloxopen/go-trees/domain"
	"verifharness/sym"
)

// Labels and names of package domain. Texts are a concrete prefix of units, a window of symbolic bytes and a
// concrete suffix of units. Parameters: win window length (0..win with any=1), pre/suf number of units,
// prek/sufk their kind: 1 a plain lower-case letter, 2 backslash and letter, 3 \DDD, 4 a label "x.", 5 "x." after 62
// letters, 6 mixed.

func unit(kind, i int) string {
	switch kind {
	case 2:
		return "\\" + string([]byte{byte('f' + i%10)})
	case 3:
		return []string{"\\007", "\\255", "\\097", "\\046"}[i%4]
	case 4:
		return "x."
	case 5:
		s := ""
		for j := 0; j < 63; j++ {
			s += "q"
		}
		return s + "."
	case 6:
		return unit(1+i%3, i)
	case 7:
		return ".x"
	}
	return string([]byte{byte('a' + i%26)})
}

func units(kind, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += unit(kind, i)
	}
	return s
}

func text(name string) string {
	w := sym.Param("win", 4)
	if sym.Param("any", 0) == 1 {
		w = sym.Choose(name+".len", w+1)
	}
	pre := sym.Param("pre", 0)
	if x := sym.Param("prex", 0); x > 0 {
		pre += sym.Choose(name+".pre", x+1)
	}
	suf := sym.Param("suf", 0)
	if x := sym.Param("sufx", 0); x > 0 {
		suf += sym.Choose(name+".suf", x+1)
	}
	head := units(sym.Param("prek", 1), pre)
	if x := sym.Param("head", 0); x > 0 {
		head += units(1, x)
	}
	return head + sym.Str(name, w) + units(sym.Param("sufk", 1), suf)
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// spec is the reading of a text by the rules of the documentation.
type spec struct {
	labels  [][]byte // in order of the text
	invalid bool     // truncated escape, non-digit or value above 255
	empty   bool     // an empty label
	inner   bool     // an unescaped dot before the last character
	dot     bool     // one trailing dot
}

// readSpec reads s. After an invalid escape the rest is not looked at.
func readSpec(s string) spec {
	var r spec
	cur := []byte{}
	open := false // the current label has begun
	for i := 0; i < len(s); {
		c := s[i]
		if c == '.' {
			if !open {
				r.empty = true
			}
			r.labels = append(r.labels, cur)
			cur, open = []byte{}, false
			if i < len(s)-1 {
				r.inner = true
			} else {
				r.dot = true
			}
			i++
			continue
		}
		open = true
		if c != '\\' {
			cur = append(cur, upper(c))
			i++
			continue
		}
		if i+1 >= len(s) {
			r.invalid = true
			return r
		}
		if !isDigit(s[i+1]) {
			cur = append(cur, upper(s[i+1]))
			i += 2
			continue
		}
		if i+3 >= len(s) || !isDigit(s[i+2]) || !isDigit(s[i+3]) {
			r.invalid = true
			return r
		}
		v := int(s[i+1]-'0')*100 + int(s[i+2]-'0')*10 + int(s[i+3]-'0')
		if v > 255 {
			r.invalid = true
			return r
		}
		cur = append(cur, upper(byte(v)))
		i += 4
	}
	if open {
		r.labels = append(r.labels, cur)
	}
	return r
}

// ---- D01

func LabelParse() {
	s := text("s")
	r := readSpec(s)
	if r.inner {
		return // outside the contract
	}
	l, err := domain.MakeLabel(s)
	n := 0
	var want []byte
	if len(r.labels) > 0 {
		want = r.labels[0]
		n = len(want)
	}
	switch {
	case r.invalid:
		sym.Assert(err != nil, "an invalid escape is rejected")
		if len(s) <= domain.MaxLabel {
			sym.Assert(err == domain.ErrInvalidEscape, "an invalid escape is rejected as such")
		}
		sym.Cover("invalid escape")
	case n > domain.MaxLabel:
		sym.Assert(err == domain.ErrLabelTooLong, "a label of more than 63 bytes is rejected as too long")
		sym.Cover("too long")
	default:
		sym.Assert(err == nil, "a valid label is accepted")
		sym.Assert(sym.EqStr(l, string(want)), "parsing decodes the escapes and upper-cases letters")
		sym.Cover("accepted")
	}
	sym.Observe("label", l)
	sym.Observe("ok", err == nil)
}

// ---- D02

// classByte makes a byte of a class: 1 upper-case letter, 2 dot or backslash, 3 to be written as \DDD, 4 other, 5 any.
func classByte(name string, k int) byte {
	c := sym.U8(name)
	up := sym.And(c >= 'A', c <= 'Z')
	esc := sym.Or(c == '.', c == '\\')
	bin := sym.Or(c < '!', c > '~')
	switch k {
	case 1:
		sym.Assume(up)
	case 2:
		sym.Assume(esc)
	case 3:
		sym.Assume(bin)
	case 4:
		sym.Assume(sym.Not(sym.Or(up, sym.Or(esc, bin))))
	}
	return c
}

// LabelHuman: every byte is symbolic. Parameters c0, c1, ...: class*1000 + count, up to nx more chosen for the last.
func LabelHuman() {
	var b []byte
	for i := 0; sym.Param("c"+digits(i), 0) > 0; i++ {
		x := sym.Param("c"+digits(i), 0)
		n := x % 1000
		if sym.Param("c"+digits(i+1), 0) == 0 {
			if nx := sym.Param("nx", 0); nx > 0 {
				n += sym.Choose("n", nx+1)
			}
		}
		for j := 0; j < n; j++ {
			b = append(b, classByte("b", x/1000))
		}
	}
	s := domain.MakeHumanReadableLabel(string(b))
	sym.Observe("s", s)
	if len(b) > domain.MaxLabel {
		sym.Cover("over-long")
		return
	}
	esc := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assert(sym.And(c > ' ', c < 0x7f), "the human-readable form is printable")
		sym.Assert(sym.Not(sym.And(c >= 'A', c <= 'Z')), "the human-readable form has no upper-case letter")
		sym.Assert(sym.Or(esc, c != '.'), "the human-readable form has no unescaped dot")
		esc = sym.And(c == '\\', sym.Not(esc))
	}
	l, err := domain.MakeLabel(s)
	sym.Assert(err == nil, "the human-readable form is a valid label")
	sym.Assert(sym.EqStr(l, upperStr(string(b))), "the human-readable form parses back to the label")
	sym.Cover("round trip")
}

// ---- D03

func NameParse() {
	s := text("s")
	r := readSpec(s)
	n, err := domain.MakeNameFromString(s)
	sym.Observe("ok", err == nil)
	sym.Assert(err == nil || err == domain.ErrTooManyLabels || err == domain.ErrEmptyLabel || err == domain.ErrLabelTooLong ||
		err == domain.ErrNameTooLong || err == domain.ErrInvalidEscape, "an error is one of the documented ones")
	sym.Assert(sym.EqStr(n.String(), s), "the string form is the text")
	if len(s) == 0 || len(s) == 1 && s[0] == '.' {
		sym.Assert(err == nil, "the root domain is accepted")
		sym.Cover("root")
		sameAsSpec(n, nil)
		return
	}
	total, long := 0, false
	for _, l := range r.labels {
		total += len(l) + 1
		if len(l) > domain.MaxLabel {
			long = true
		}
	}
	many, big := len(r.labels) > domain.MaxLabels, total > domain.MaxName
	if r.invalid {
		sym.Cover("invalid escape")
		sym.Assert(err != nil, "an invalid escape is rejected")
		if !r.empty && !long && !many && !big && len(s) < domain.MaxName && !longRun(s) {
			sym.Assert(err == domain.ErrInvalidEscape, "an invalid escape is rejected as such")
			sym.Cover("only invalid escape")
		}
		return
	}
	broken := 0
	for _, b := range []bool{r.empty, long, many, big} {
		if b {
			broken++
		}
	}
	if broken == 0 {
		sym.Assert(err == nil, "a valid name is accepted")
		sameAsSpec(n, r.labels)
		sym.Cover("accepted")
		return
	}
	sym.Assert(err != nil, "a name that breaks a rule is rejected")
	if broken > 1 {
		sym.Cover("several rules")
		return
	}
	switch {
	case r.empty:
		sym.Assert(err == domain.ErrEmptyLabel, "an empty label is reported as such")
		sym.Cover("empty label")
	case long:
		sym.Assert(err == domain.ErrLabelTooLong, "a label of more than 63 bytes is reported as such")
		sym.Cover("label too long")
	case many:
		sym.Assert(err == domain.ErrTooManyLabels, "too many labels are reported as such")
	default:
		sym.Assert(err == domain.ErrNameTooLong, "a name of more than 255 bytes is reported as such")
		sym.Cover("name too long")
	}
}

// longRun: two dots next to each other, a leading one, or more than 63 characters without a dot, which may break
// another rule in whatever reading of the rest.
func longRun(s string) bool {
	last, run := byte('.'), 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '.' && last == '.' {
			return true
		}
		run++
		if c == '.' {
			run = 0
		}
		if run > domain.MaxLabel {
			return true
		}
		last = c
	}
	return false
}

func labelList(n domain.Name) []string {
	var out []string
	err := n.GetLabels(func(l string) error {
		out = append(out, l)
		return nil
	})
	sym.Assert(err == nil, "walking the labels ends without error")
	return out
}

func sameAsSpec(n domain.Name, labels [][]byte) {
	got := labelList(n)
	sym.Assert(len(got) == len(labels), "a name has the labels of its text")
	for i := range got {
		sym.Assert(sym.EqStr(got[i], string(labels[len(labels)-1-i])), "a name has the labels of its text, decoded and in reverse")
	}
}

// ---- D04

// NameSpell spells two label sequences of the same shape in independent ways.
func NameSpell() {
	n := sym.Choose("labels", sym.Param("labels", 2)+1)
	forms := sym.Param("forms", 3)
	var a, b []byte
	same := true
	stem := sym.Param("stem", 0)
	for i := 0; i < n; i++ {
		if i > 0 {
			a, b = append(a, '.'), append(b, '.')
		}
		if i == n-1 {
			// one concrete spelling against another
			for j := 0; j < stem; j++ {
				a, b = append(a, 'a'), append(b, 'A')
			}
		}
		k := 1 + sym.Choose("size", sym.Param("size", 2))
		for j := 0; j < k; j++ {
			s1, c1 := spellByte("a", 1+sym.Choose("a.form", forms))
			s2, c2 := spellByte("b", 1+sym.Choose("b.form", forms))
			a, b = append(a, s1...), append(b, s2...)
			same = sym.And(same, c1 == c2)
		}
	}
	if sym.Choose("a.dot", 2) == 1 {
		a = append(a, '.')
	}
	if sym.Choose("b.dot", 2) == 1 {
		b = append(b, '.')
	}
	x, err := domain.MakeNameFromString(string(a))
	sym.Assert(err == nil, "a valid name is accepted")
	y, err := domain.MakeNameFromString(string(b))
	sym.Assert(err == nil, "a valid name is accepted")
	sym.Assert(sym.EqStr(x.String(), string(a)), "the string form is the text")
	sym.Assert(sym.EqStr(y.String(), string(b)), "the string form is the text")
	l1, l2 := labelList(x), labelList(y)
	sym.Assert(len(l1) == len(l2) && len(l1) == n, "spellings have the same number of labels")
	eq := true
	for i := range l1 {
		eq = sym.And(eq, sym.EqStr(l1[i], l2[i]))
	}
	sym.Assert(sym.Iff(eq, same), "spellings denote the same name exactly when their decoded labels are the same")
	if sym.ConcretizeBool(same) {
		sym.Cover("same")
	} else {
		sym.Cover("different")
	}
}

// NameDiffer takes two texts of unconstrained bytes: names with the same labels have the same decoded texts.
func NameDiffer() {
	s1, s2 := text("s"), sym.Str("t", sym.Param("win2", 2))
	x, err1 := domain.MakeNameFromString(s1)
	y, err2 := domain.MakeNameFromString(s2)
	if err1 != nil || err2 != nil {
		return
	}
	r1, r2 := readSpec(s1), readSpec(s2)
	if s1 == "." {
		r1 = spec{}
	}
	if s2 == "." {
		r2 = spec{}
	}
	l1, l2 := labelList(x), labelList(y)
	eq := len(l1) == len(l2)
	for i := range l1 {
		if len(l1) == len(l2) {
			eq = sym.And(eq, sym.EqStr(l1[i], l2[i]))
		}
	}
	want := len(r1.labels) == len(r2.labels)
	for i := range r1.labels {
		if len(r1.labels) == len(r2.labels) {
			want = sym.And(want, sym.EqStr(string(r1.labels[i]), string(r2.labels[i])))
		}
	}
	sym.Assert(sym.Iff(eq, want), "names have the same labels exactly when their decoded texts are the same")
	if sym.ConcretizeBool(eq) {
		sym.Cover("same")
	} else {
		sym.Cover("different")
	}
}

// ---- D05

var errStop = errors.New("stop")

func NameWalk() {
	s := text("s")
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		return
	}
	r := readSpec(s)
	if s == "." {
		r = spec{}
	}
	sameAsSpec(n, r.labels)
	got := labelList(n)
	size := 0
	off := 0
	for i := 0; ; i++ {
		l, next := n.GetLabel(off)
		if len(got) == 0 {
			sym.Assert(l == "" && next == 0, "the empty name has one empty label and no next one")
			sym.Cover("no label")
			break
		}
		sym.Assert(i < len(got) && sym.EqStr(l, got[i]), "both walks give the same labels")
		sym.Assert(len(l) >= 1 && len(l) <= domain.MaxLabel, "labels have 1 to 63 bytes")
		size += len(l) + 1
		if i == len(got)-1 {
			sym.Assert(next == 0, "the last label has no next one")
			break
		}
		sym.Assert(next > off, "offsets grow")
		off = next
	}
	// a callback error
	if len(got) > 0 {
		k := sym.Choose("stop", len(got))
		calls := 0
		err = n.GetLabels(func(l string) error {
			calls++
			if calls == k+1 {
				return errStop
			}
			return nil
		})
		sym.Assert(err == errStop, "the callback's error is returned")
		sym.Assert(calls == k+1, "a callback error stops the walk at once")
		sym.Cover("stopped")
	}
	x := sym.Int("off")
	if sym.Param("out", 0) == 1 {
		sym.Assume(sym.Or(x <= 0, x >= size))
	}
	l, next := n.GetLabel(x)
	if x < 0 || x > 0 && x >= size {
		sym.Assert(next == -1 && l == "", "an offset outside the name reports an error")
		sym.Cover("outside")
	} else {
		sym.Cover("inside")
	}
	sym.Observe("size", size)
	sym.Observe("next", next)
}

// ---- D06

func NameReflect() {
	s := text("s")
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		return
	}
	var v reflect.Value
	switch sym.Choose("by", 8) {
	case 0:
		v = reflect.ValueOf(n)
	case 1:
		v = reflect.ValueOf(&n)
	case 2:
		v = reflect.ValueOf(s)
	case 3:
		v = reflect.ValueOf(&s)
	case 4:
		v = reflect.ValueOf(&n).Elem()
	case 5:
		v = reflect.ValueOf(struct{ N domain.Name }{n}).Field(0)
	case 6:
		v = reflect.ValueOf(struct{ n domain.Name }{n}).Field(0)
	case 7:
		v = reflect.ValueOf(struct{ n *domain.Name }{&n}).Field(0)
	}
	m := domain.MakeNameFromReflection(v)
	sym.Assert(sym.EqStr(m.String(), n.String()), "the reflected name has the same string form")
	l1, l2 := labelList(n), labelList(m)
	sym.Assert(len(l1) == len(l2), "the reflected name has the same labels")
	for i := range l1 {
		sym.Assert(sym.EqStr(l1[i], l2[i]), "the reflected name has the same labels")
	}
	if len(l1) > 0 {
		sym.Cover("labels")
	} else {
		sym.Cover("root")
	}
	sym.Observe("n", len(l1))
}
