// Package lib: shared by all drivers - script input, trace output, seeded randomness.
package lib

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"
)

// M is a JSON object.
type M map[string]interface{}

// Tracer writes one JSON object per event.
type Tracer struct {
	mu   sync.Mutex
	f    *os.File
	w    *bufio.Writer
	beat func()
	N    int
}

// NewTracer opens $VH_OUT.
func NewTracer() *Tracer {
	f, err := os.Create(os.Getenv("VH_OUT"))
	if err != nil {
		panic(err)
	}
	t := &Tracer{f: f, w: bufio.NewWriterSize(f, 1<<16)}
	t.beat = Watchdog(t, 200*time.Second) // every driver records an event far more often than that
	return t
}

// Ev logs action a with result r and observed state o.
func (t *Tracer) Ev(a, r, o interface{}) {
	t.beat()
	if r == nil {
		r = M{}
	}
	if o == nil {
		o = M{}
	}
	// field order matters for a: "op" first makes episode starts easy to find
	ab, err := json.Marshal(a)
	if err != nil {
		panic(err)
	}
	rb, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	ob, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	fmt.Fprintf(t.w, `{"a":%s,"r":%s,"o":%s}`+"\n", ab, rb, ob)
	t.N++
	if bytes.HasPrefix(ab, []byte(`{"op":"reset"`)) {
		t.w.Flush()
	}
}

// Flush makes everything logged so far visible on disk.
func (t *Tracer) Flush() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Flush()
}

// Close flushes and closes.
func (t *Tracer) Close() {
	t.Flush()
	t.f.Close()
}

// Seed returns $VH_SEED.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	return n
}

// Rng returns a deterministic generator for a named stream.
func Rng(name string) *rand.Rand {
	h := int64(1469598103934665603)
	for _, c := range name {
		h = (h ^ int64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(h ^ (Seed() * 7919)))
}

// Int reads an integer environment variable.
func Int(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VH_TIER") == "thorough" }

// Scripts reads $VH_IN: one JSON array of actions per line.
func Scripts() [][]M {
	p := os.Getenv("VH_IN")
	if p == "" {
		return nil
	}
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out [][]M
	d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for d.More() {
		var s []M
		if err := d.Decode(&s); err != nil {
			panic(err)
		}
		out = append(out, s)
	}
	return out
}

// S, I, B and L read fields of a script action.
func (m M) S(k string) string {
	s, _ := m[k].(string)
	return s
}
func (m M) I(k string) int {
	switch v := m[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}
func (m M) B(k string) bool {
	b, _ := m[k].(bool)
	return b
}
func (m M) L(k string) []string {
	switch v := m[k].(type) {
	case []interface{}:
		out := make([]string, 0, len(v))
		for _, x := range v {
			out = append(out, x.(string))
		}
		return out
	case []string:
		return v
	}
	return nil
}

// LM reads a list of objects.
func (m M) LM(k string) []M {
	switch v := m[k].(type) {
	case []interface{}:
		out := make([]M, 0, len(v))
		for _, x := range v {
			out = append(out, M(x.(map[string]interface{})))
		}
		return out
	case []M:
		return v
	}
	return nil
}

// Copy returns a shallow copy.
func (m M) Copy() M {
	n := M{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ErrS projects an error to "ok" / "err".
func ErrS(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

// Safely runs f and returns "panic" text if it panics.
func Safely(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// Limbs writes v as the little-endian base-10^4 sequence that spec/BigNat.tla reads.
func Limbs(v uint64) []int {
	out := []int{}
	for v > 0 {
		out = append(out, int(v%10000))
		v /= 10000
	}
	return out
}

// U reads limbs back.
func (m M) U(k string) uint64 {
	var v, f uint64 = 0, 1
	switch l := m[k].(type) {
	case []interface{}:
		for _, x := range l {
			v += uint64(x.(float64)) * f
			f *= 10000
		}
	case []int:
		for _, x := range l {
			v += uint64(x) * f
			f *= 10000
		}
	}
	return v
}
