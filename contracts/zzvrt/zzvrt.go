// Package zzvrt is the vocabulary contracts are written in. The verifier
// (govc) interprets these functions symbolically; the bodies below are their
// executable meaning, used when a contract is replayed or searched natively.
package zzvrt

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// E is the dynamic type of the errors made by Err.
type E struct{ Name string }

func (e *E) Error() string { return "error " + e.Name }

type skip struct{}

type run struct {
	mu       sync.Mutex
	rng      *rand.Rand
	vals     map[string]string // replayed values
	drawn    map[string]string
	errs     map[string]*E
	objs     map[string]any
	fails    []string
	reached  int
	mayPanic bool
	maxSize  int
}

var cur *run

func key(name string, idx []int) string {
	if len(idx) == 0 {
		return name
	}
	var ss []string
	for _, i := range idx {
		ss = append(ss, strconv.Itoa(i))
	}
	return name + "[" + strings.Join(ss, ",") + "]"
}

func draw(k string, gen func(r *rand.Rand) string) string {
	c := cur
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.drawn[k]; ok {
		return v
	}
	v, ok := c.vals[k]
	if !ok {
		v = gen(c.rng)
	}
	c.drawn[k] = v
	return v
}

func Bool(name string, idx ...int) bool {
	return draw(key(name, idx), func(r *rand.Rand) string { return strconv.FormatBool(r.Intn(2) == 0) }) == "true"
}

func genInt(r *rand.Rand, lo, hi int64) int64 {
	cands := []int64{lo, hi, 0, 1, -1, 2, 3, 5, 7, math.MaxInt8, math.MinInt8, math.MaxInt16, math.MinInt16, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, lo + 1, hi - 1, 10, 100, 1000}
	for {
		var v int64
		switch r.Intn(4) {
		case 0:
			v = cands[r.Intn(len(cands))]
		case 1:
			v = int64(r.Intn(8))
		case 2:
			v = int64(r.Intn(2000)) - 1000
		default:
			v = int64(r.Uint64() >> uint(r.Intn(64)))
			if r.Intn(2) == 0 {
				v = -v
			}
		}
		if v >= lo && v <= hi {
			return v
		}
	}
}

func signed(name string, idx []int, lo, hi int64) int64 {
	s := draw(key(name, idx), func(r *rand.Rand) string { return strconv.FormatInt(genInt(r, lo, hi), 10) })
	v, _ := strconv.ParseInt(s, 10, 64)
	return v
}

func unsigned(name string, idx []int, hi uint64) uint64 {
	s := draw(key(name, idx), func(r *rand.Rand) string {
		if hi > math.MaxInt64 && r.Intn(4) == 0 {
			return strconv.FormatUint(hi-uint64(r.Intn(3)), 10)
		}
		if hi > math.MaxInt64 && r.Intn(6) == 0 {
			return strconv.FormatUint(uint64(math.MaxInt64)+uint64(r.Intn(4)), 10)
		}
		h := int64(math.MaxInt64)
		if hi < math.MaxInt64 {
			h = int64(hi)
		}
		return strconv.FormatInt(genInt(r, 0, h), 10)
	})
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

func Int(name string, idx ...int) int { return int(signed(name, idx, math.MinInt64, math.MaxInt64)) }
func Int64(name string, idx ...int) int64 {
	return signed(name, idx, math.MinInt64, math.MaxInt64)
}
func Int32(name string, idx ...int) int32 {
	return int32(signed(name, idx, math.MinInt32, math.MaxInt32))
}
func Uint32(name string, idx ...int) uint32 { return uint32(unsigned(name, idx, math.MaxUint32)) }
func Uint64(name string, idx ...int) uint64 { return unsigned(name, idx, math.MaxUint64) }

// Float64 is an arbitrary floating point number.
func Float64(name string, idx ...int) float64 {
	s := draw(key(name, idx), func(r *rand.Rand) string {
		c := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2.5, -2.5, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.Pi}
		if r.Intn(2) == 0 {
			return strconv.FormatFloat(c[r.Intn(len(c))], 'g', -1, 64)
		}
		return strconv.FormatFloat((r.Float64()-0.5)*math.Pow(10, float64(r.Intn(20))), 'g', -1, 64)
	})
	v, _ := strconv.ParseFloat(s, 64)
	return v
}

// Size is an arbitrary length.
func Size(name string, idx ...int) int {
	v := draw(key(name, idx), func(r *rand.Rand) string { return strconv.Itoa(r.Intn(6)) })
	n, _ := strconv.Atoi(v)
	if n < 0 {
		n = 0
	}
	if n > 12 {
		n = 12
	}
	return n
}

// Choice is an arbitrary number in [0,n).
func Choice(name string, n int, idx ...int) int {
	v := draw(key(name, idx), func(r *rand.Rand) string { return strconv.Itoa(r.Intn(n)) })
	i, _ := strconv.Atoi(v)
	if i < 0 || i >= n {
		i = 0
	}
	return i
}

var words = []string{"", "a", "b", "ab", "abc", "ba", "aab", "Aa", "x", " ", " a b ", "a,b,c", ",", "a.b", ".", "foo", "FOO bar", "foofoo", "日本", "é", "\x00", "10", "-5", "3.25", "true", "1s", "0x1f", "/a/b?c=d", "\"q\"", "a\nb", "zzz", "%zz", "aXbXc", "X"}

// String is an arbitrary string.
func String(name string, idx ...int) string {
	return draw(key(name, idx), func(r *rand.Rand) string {
		if r.Intn(3) > 0 {
			return words[r.Intn(len(words))]
		}
		n := r.Intn(7)
		al := "aabbcX ,.1-é"
		rs := []rune(al)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(rs[r.Intn(len(rs))])
		}
		return sb.String()
	})
}

// Bytes is an arbitrary byte sequence.
func Bytes(name string, idx ...int) []byte { return []byte(String(name, idx...)) }

// Err is an error identified by its name and indices: equal arguments give the
// same error, different ones different errors.
func Err(name string, idx ...int) error { return ErrE(name, idx...) }

func ErrE(name string, idx ...int) *E {
	k := key(name, idx)
	c := cur
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.errs[k]; ok {
		return e
	}
	e := &E{k}
	c.errs[k] = e
	return e
}

// Obj is an object of its own for every name and index; the verifier knows
// nothing about its contents, and natively it starts as the zero value.
func Obj[T any](name string, idx ...int) *T {
	k := key(name, idx)
	c := cur
	c.mu.Lock()
	defer c.mu.Unlock()
	if o, ok := c.objs[k].(*T); ok {
		return o
	}
	o := new(T)
	c.objs[k] = o
	return o
}

// ErrOrNil is nil or the error Err(name, idx...).
func ErrOrNil(name string, idx ...int) error {
	if Bool("nil_"+name, idx...) {
		return nil
	}
	return Err(name, idx...)
}

// Requires restricts the inputs considered.
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Ensures states an obligation.
func Ensures(name string, b bool) {
	c := cur
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reached++
	if !b {
		for _, f := range c.fails {
			if f == name {
				return
			}
		}
		c.fails = append(c.fails, name)
	}
}

// MayPanic permits the contract to end in a panic.
func MayPanic() { cur.mayPanic = true }

func Implies(a, b bool) bool { return !a || b }

// Forall reports whether f holds for every lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// EqSlice is element-wise equality.
func EqSlice[T comparable](a, b []T) bool {
	return len(a) == len(b) && Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// SameF is equality of floating point results (NaN equals NaN).
func SameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// Any is an arbitrary value; only the verifier can make one.
func Any[T any](name string) T { panic("zzvrt.Any outside the verifier") }

// Missing says that something the contract speaks about is not there: a
// failure natively, no verdict symbolically.
func Missing(what string) { panic("missing: " + what) }

// Native reports whether the contract runs natively: code under it is a bounded
// test, never part of the proof.
func Native() bool { return true }

// ---- driver

type Contract struct {
	Name string
	Fn   func()
}

var Registry []Contract

func Register(name string, fn func()) { Registry = append(Registry, Contract{name, fn}) }

type Outcome struct {
	Fails   []string
	Panic   string
	Skipped bool
	Reached int
	Inputs  map[string]string
}

func (o Outcome) Bad() bool { return len(o.Fails) > 0 || o.Panic != "" }

func Exec(fn func(), vals map[string]string, seed int64) (o Outcome) {
	c := &run{rng: rand.New(rand.NewSource(seed)), vals: vals, drawn: map[string]string{}, errs: map[string]*E{}, objs: map[string]any{}}
	if c.vals == nil {
		c.vals = map[string]string{}
	}
	cur = c
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(skip); ok {
					o.Skipped = true
					return
				}
				if !c.mayPanic {
					o.Panic = fmt.Sprint(p)
				}
			}
		}()
		fn()
	}()
	c.mu.Lock()
	defer c.mu.Unlock()
	if !o.Skipped {
		o.Fails = append([]string(nil), c.fails...)
	}
	sort.Strings(o.Fails)
	o.Reached = c.reached
	o.Inputs = map[string]string{}
	for k, v := range c.drawn {
		o.Inputs[k] = v
	}
	return o
}
