// Package sym is the harness API. Under the symbolic engine its functions are intercepted:
// inputs become solver variables and assertions solver queries. This file is the concrete
// implementation used to replay a counterexample (or a sampled path) against the real build.
package sym

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Case is one concrete execution.
type Case struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices []uint64          `json:"choices"`
	Tier    int               `json:"tier"`
	Sched   []int             `json:"sched,omitempty"`
}

// Result is what the concrete execution did.
type Result struct {
	Violated string   `json:"violated"`
	Detail   string   `json:"detail"`
	Assume   bool     `json:"assume_failed"`
	Diverged string   `json:"diverged"`
	Observe  []string `json:"observe"`
}

type stop struct{}

var (
	cur   Case
	res   Result
	names map[string]int
	pos   int
)

var allocLimit, allocFrom uint64

// AllocLimit asserts ("memory") that from here on no slice of more than n bytes is made.
func AllocLimit(n uint64) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocLimit, allocFrom = n, m.TotalAlloc
}

// Run executes f on the case.
func Run(c Case, f func()) Result {
	cur, res, names, pos = c, Result{}, map[string]int{}, 0
	allocLimit = 0
	sched.seq, sched.gs, sched.holder, sched.last = c.Sched, map[string]int{}, -1, time.Now()
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil, stop:
			default:
				res.Violated, res.Detail = "no-panic", fmt.Sprint(r)
			}
		}()
		f()
		if allocLimit > 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.TotalAlloc-allocFrom > allocLimit+64<<20 {
				res.Violated, res.Detail = "memory", fmt.Sprint(m.TotalAlloc-allocFrom, " bytes allocated")
			}
		}
	}()
	return res
}

func uniq(s string) string {
	names[s]++
	if n := names[s]; n > 1 {
		return s + "#" + strconv.Itoa(n)
	}
	return s
}

func in(s string) uint64 { return cur.Inputs["in!"+s] }

func U8(name string) uint8     { return uint8(in(uniq(name))) }
func U16(name string) uint16   { return uint16(in(uniq(name))) }
func U32(name string) uint32   { return uint32(in(uniq(name))) }
func U64(name string) uint64   { return in(uniq(name)) }
func I8(name string) int8      { return int8(in(uniq(name))) }
func I16(name string) int16    { return int16(in(uniq(name))) }
func I32(name string) int32    { return int32(in(uniq(name))) }
func I64(name string) int64    { return int64(in(uniq(name))) }
func Bool(name string) bool    { return in(uniq(name)) != 0 }
func Symbolic() bool           { return false }
func Tier() int                { return cur.Tier }
func Pin(x int) int            { return x }
func Reach(id string)          {}
func PermuteMaps(b bool)       {}
func JoinPaths(b bool)         {}
func Logf(f string, a ...any)  {}
func Implies(a, b bool) bool   { return !a || b }
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// Int is an integer between lo and hi.
func Int(name string, lo, hi int) int {
	v := int(int64(in(uniq(name))))
	Assume(lo <= v && v <= hi)
	return v
}

// Choice is a case split between 0 and n-1.
func Choice(name string, n int) int {
	if pos >= len(cur.Choices) {
		res.Diverged = "choice " + name
		panic(stop{})
	}
	v := cur.Choices[pos]
	pos++
	return int(v)
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	name = uniq(name)
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(in(name + "[" + strconv.Itoa(i) + "]"))
	}
	return r
}

// String is n arbitrary bytes as a string.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		res.Assume = true
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	if !c {
		res.Violated = id
		panic(stop{})
	}
}

// Observe records a value for comparison between the engine and the real execution.
func Observe(key string, v any) {
	res.Observe = append(res.Observe, key+"="+render(reflect.ValueOf(v), 0))
}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

// SelInt is a conditional without a path split.
func SelInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// SelU64 is a conditional without a path split.
func SelU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// CaptureStdout runs f and returns what it wrote to standard output.
func CaptureStdout(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-ch
	r.Close()
	return s
}

// Equal is structural equality treating nil and empty slices and maps alike.
func Equal(a, b any) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func eq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.Pointer() == b.Pointer() {
			return true
		}
		if a.IsNil() || b.IsNil() {
			return false
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Interface:
		return eq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() || !eq(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	return false
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func render(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 12 {
		return "..."
	}
	if v.Type().Implements(errT) && v.Kind() != reflect.Interface && d <= 1 {
		return "error"
	}
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsNaN(f) {
			return "NaN"
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return "b" + strconv.Quote(string(v.Bytes()))
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, render(v.Index(i), d+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, render(v.Field(i), d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem(), d+1)
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, render(k, d+1)+":"+render(v.MapIndex(k), d+1))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Implements(errT) || v.Elem().Type().Implements(errT) {
			return "error"
		}
		return render(v.Elem(), d+1)
	}
	return "?"
}

// Page splits an HTML page into its texts (with character references replaced) and its tags:
// texts at even places, tags without their brackets at odd ones.
func Page(page string) []string {
	r := []string{""}
	in := false
	for i := 0; i < len(page); i++ {
		c := page[i]
		k := len(r) - 1
		switch {
		case in && c == '>':
			in = false
			r = append(r, "")
		case in:
			r[k] += page[i : i+1]
		case c == '<':
			in = true
			r = append(r, "")
		case c == '&':
			if j := strings.IndexByte(page[i:], ';'); j > 1 && j < 9 {
				if u := html.UnescapeString(page[i : i+j+1]); u != page[i:i+j+1] {
					r[k] += u
					i += j
					continue
				}
			}
			r[k] += "&"
		default:
			r[k] += page[i : i+1]
		}
	}
	if in {
		r = append(r, "")
	}
	return r
}
