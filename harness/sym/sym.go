// Package sym is the interface between harnesses and the symbolic executor. The executor intercepts every
// function below; the bodies here are the native meaning, used when a recorded input is replayed against
// the compiled code.
package sym

import (
	"fmt"
	"math/bits"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Input is the value of one symbolic variable.
type Input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
}

// AssertFailed and AssumeFailed are thrown by Assert and Assume.
type (
	AssertFailed struct{ Msg string }
	AssumeFailed struct{}
)

var (
	inputs    map[string]uint64
	seen      map[string]int
	params    map[string]int
	obs       []string
	covers    map[string]bool
	baseG     int
	frozen    []block
	readStop  chan bool
	readDone  chan bool
	RaceCheck bool
)

// Start prepares a replay.
func Start(in []Input, p map[string]int) {
	inputs = map[string]uint64{}
	for _, i := range in {
		inputs[i.Name] = i.Val
	}
	seen = map[string]int{}
	params = p
	obs = nil
	covers = map[string]bool{}
	frozen = nil
	baseG = runtime.NumGoroutine()
}

// Results returns what Observe and Cover recorded.
func Results() ([]string, map[string]bool) { return obs, covers }

func fresh(name string, w int) uint64 {
	full := fmt.Sprintf("%s/%d", name, w)
	k := seen[full]
	seen[full]++
	if k > 0 {
		full = fmt.Sprintf("%s.%d/%d", name, k, w)
	}
	return inputs[full]
}

// U8 and its kin are unconstrained values.
func U8(name string) uint8   { return uint8(fresh(name, 8)) }
func U16(name string) uint16 { return uint16(fresh(name, 16)) }
func U32(name string) uint32 { return uint32(fresh(name, 32)) }
func U64(name string) uint64 { return fresh(name, 64) }
func Int(name string) int    { return int(fresh(name, 64)) }
func Bool(name string) bool  { return fresh(name, 0) != 0 }

// Range is a symbolic value in lo..hi.
func Range(name string, lo, hi int) int {
	v := int(fresh(name, 64))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// PrefixLen is a symbolic number in 0..w (w a multiple of 8), recorded as a mask with that many leading ones.
func PrefixLen(name string, w int) int { return bits.OnesCount64(fresh(name, w)) }

// Choose is a value in 0..n-1 that is concrete on every path.
func Choose(name string, n int) int {
	v := int(fresh(name, 64))
	if v < 0 || v >= n {
		return 0
	}
	return v
}

// Str is a string of n unconstrained bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bytes is a slice of n unconstrained bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(fresh(name, 8))
	}
	return b
}

// Concretize makes the value concrete, forking over all its values.
func Concretize(x int) int { return x }

// ConcretizeBool forks on b.
func ConcretizeBool(b bool) bool { return b }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

// Branch-free connectives.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteU64 is c ? a : b.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// IteInt is c ? a : b.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteBool is c ? a : b.
func IteBool(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// EqStr is a == b without forking.
func EqStr(a, b string) bool { return a == b }

// LessStr is a < b without forking.
func LessStr(a, b string) bool { return a < b }

// LtU64 is a < b without forking.
func LtU64(a, b uint64) bool { return a < b }

// LtInt is a < b without forking.
func LtInt(a, b int) bool { return a < b }

// Cover is a reachability witness.
func Cover(name string) { covers[name] = true }

// Observe records a value for comparing the encoding with the compiled code.
func Observe(name string, v interface{}) { obs = append(obs, name+"="+render(reflect.ValueOf(v))) }

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem())
	case reflect.Slice:
		var out []string
		for i := 0; i < v.Len(); i++ {
			out = append(out, render(v.Index(i)))
		}
		return "[" + strings.Join(out, " ") + "]"
	}
	return "?" + v.Type().String()
}

// Param is a bound of the run.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Catch runs f and reports whether it panicked (failed assertions and assumptions pass through).
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertFailed, AssumeFailed:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Quiesce lets other goroutines run and reports whether all of them have ended.
func Quiesce() bool {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= baseG {
			return true
		}
		runtime.Gosched()
		if i > 50 {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return false
}

// ---- immutability of earlier versions

type block struct {
	p unsafe.Pointer
	n uintptr
	c []byte
	t string
}

// Freeze declares everything reachable from x read-only until Thaw.
func Freeze(x interface{}) {
	frozen = nil
	walk(reflect.ValueOf(x), map[unsafe.Pointer]bool{})
	if RaceCheck {
		bs := frozen
		readStop, readDone = make(chan bool), make(chan bool)
		go func() {
			s := byte(0)
			for _, b := range bs {
				for _, x := range unsafe.Slice((*byte)(b.p), b.n) {
					s ^= x
				}
			}
			sink = s
			close(readDone)
		}()
		time.Sleep(2 * time.Millisecond)
	}
}

// FreezeShared is Freeze for x and all package-level variables.
func FreezeShared(x interface{}) { Freeze(x) }

// Race reports that the race detector watches a replay.
func Race() bool { return RaceCheck }

var sink byte

// Thaw ends Freeze and checks that nothing was written.
func Thaw() {
	bs := frozen
	frozen = nil
	if RaceCheck && readDone != nil {
		<-readDone
		readDone = nil
	}
	for _, b := range bs {
		now := unsafe.Slice((*byte)(b.p), b.n)
		for i := range now {
			if now[i] != b.c[i] {
				panic(AssertFailed{"FROZEN: memory of an earlier version (" + b.t + ") was written"})
			}
		}
	}
}

func addBlock(p unsafe.Pointer, n uintptr, t string) {
	if n == 0 {
		return
	}
	c := make([]byte, n)
	copy(c, unsafe.Slice((*byte)(p), n))
	frozen = append(frozen, block{p, n, c, t})
}

func walk(v reflect.Value, seen map[unsafe.Pointer]bool) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		p := v.UnsafePointer()
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		addBlock(p, v.Type().Elem().Size(), v.Type().Elem().String())
		walk(v.Elem(), seen)
	case reflect.Interface:
		walk(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		p := v.UnsafePointer()
		if seen[p] {
			return
		}
		seen[p] = true
		addBlock(p, v.Type().Elem().Size()*uintptr(v.Len()), v.Type().String())
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen)
		}
	}
}

// ---- depth

// Depth is the length of the longest chain of pointers to one struct type reachable from x.
func Depth(x interface{}) int {
	d := &depthWalk{memo: map[depthKey]int{}, on: map[depthKey]bool{}}
	d.same(reflect.ValueOf(x), nil)
	return d.best
}

type depthKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type depthWalk struct {
	memo map[depthKey]int
	on   map[depthKey]bool
	best int
}

func (d *depthWalk) ptr(v reflect.Value) int {
	k := depthKey{v.UnsafePointer(), v.Type()}
	if n, ok := d.memo[k]; ok {
		return n
	}
	if d.on[k] {
		return 0
	}
	d.on[k] = true
	n := 1 + d.same(v.Elem(), v.Type().Elem())
	d.on[k] = false
	d.memo[k] = n
	if n > d.best {
		d.best = n
	}
	return n
}

func (d *depthWalk) same(v reflect.Value, t reflect.Type) int {
	best := 0
	max := func(n int) {
		if n > best {
			best = n
		}
	}
	if !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			d.same(v.Elem(), nil)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n := d.ptr(v)
			if v.Type().Elem() == t {
				max(n)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			max(d.same(v.Field(i), t))
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			max(d.same(v.Index(i), t))
		}
	}
	return best
}
