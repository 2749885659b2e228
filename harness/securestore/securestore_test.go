// Driver for spec/SecureStore.tla: the bolt secure store, with a disk image kept at every sync (a possible crash point).
package securestore

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	bolt "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"go.etcd.io/bbolt"
)

var passes = map[string]string{"p1": "password", "p2": "password ", "p3": "pässword-\U0001F511"}

// names of the model and the bytes they stand for
var keys = map[string]string{
	"k1": "k1", "k_2": "key_2_with_underscores_", "b1": "hooks", "b_2": "hooks_by_action", "enckey": "enckey",
	"bin": "\x00\x01_\xff\xfe", "us": "_", "pre": "enckey2", "lng": strings.Repeat("long_", 60), "root": "root",
}
var vals = map[string]string{
	"v1": "the first secret value", "v2": strings.Repeat("another secret value! ", 300), "v3": "third \x00\xff_ secret, with bytes",
}

func kb(n string) []byte {
	if n == "" {
		return nil
	}
	if v, ok := keys[n]; ok {
		return []byte(v)
	}
	return []byte(n)
}
func kn(b []byte) string {
	for n, v := range keys {
		if v == string(b) {
			return n
		}
	}
	return string(b)
}
func vn(b []byte) string {
	if b == nil {
		return ""
	}
	for n, v := range vals {
		if v == string(b) {
			return n
		}
	}
	return fmt.Sprintf("?%q", b)
}
func pb(n string) *[]byte {
	if n == "nil" {
		return nil
	}
	b := []byte(passes[n])
	if passes[n] == "" {
		b = []byte(n)
	}
	return &b
}

type world struct {
	tr   *lib.Tracer
	dir  string
	n    int
	s    securestore.SecureStorage
	mu   sync.Mutex
	imgs [][]byte
	rec  bool
	img  int
}

func (w *world) path() string { return filepath.Join(w.dir, "db") }
func (w *world) open() {
	s, err := bolt.NewSecureStorage(w.dir, "db")
	if err != nil {
		panic(err)
	}
	w.s = s
}
func (w *world) reset() {
	if w.s != nil {
		w.s.Close()
		os.RemoveAll(w.dir)
	}
	w.n++
	w.dir = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprintf("ss%d", w.n))
	os.MkdirAll(w.dir, 0700)
	w.open()
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}

func dump(s securestore.SecureStorage) lib.M {
	bs, err := s.ListBuckets()
	r := lib.M{"err": lib.ErrS(err)}
	names, kv := []string{}, []lib.M{}
	all := append([][]byte{nil}, bs...)
	for _, b := range all {
		m, err := s.GetAllFromBucket(b)
		if err != nil {
			r["err"] = "err"
			kv = append(kv, lib.M{"b": kn(b), "k": "?", "v": err.Error()})
		}
		kv = append(kv, trip(kn(b), m)...)
		if b != nil {
			names = append(names, kn(b))
		}
	}
	sort.Strings(names)
	r["bs"], r["kv"] = names, kv
	return r
}
func trip(b string, m map[string][]byte) []lib.M {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	kv := []lib.M{}
	for _, k := range ks {
		kv = append(kv, lib.M{"b": b, "k": kn([]byte(k)), "v": vn(m[k])})
	}
	return kv
}

func clear(b []byte) bool {
	for _, v := range vals {
		if bytes.Contains(b, []byte(v)) || bytes.Contains(b, []byte(v[:16])) {
			return true
		}
	}
	return false
}
func (w *world) obs() lib.M {
	o := lib.M{"locked": w.s.IsLocked(), "clear": false}
	b, err := ioutil.ReadFile(w.path())
	if err != nil {
		panic(err)
	}
	o["clear"] = clear(b)
	d := dump(w.s)
	o["bs"], o["kv"] = d["bs"], d["kv"]
	return o
}

// image opens a disk image and tells which password opens it and what is there.
func (w *world) image(img []byte) lib.M {
	d := filepath.Join(w.dir, "img")
	os.MkdirAll(d, 0700)
	defer os.RemoveAll(d)
	if err := ioutil.WriteFile(filepath.Join(d, "db"), img, 0600); err != nil {
		panic(err)
	}
	r := lib.M{"pw": "none", "bs": []string{}, "kv": []lib.M{}}
	s, err := bolt.NewSecureStorage(d, "db")
	if err != nil {
		r["pw"] = "unreadable"
		return r
	}
	defer s.Close()
	for _, p := range []string{"bogus password", "p1", "p2", "p3"} {
		if s.CreateUnlock(pb(p)) == nil {
			if r["pw"] = p; p == "bogus password" {
				r["pw"] = ""
			}
			m := dump(s)
			r["bs"], r["kv"] = m["bs"], m["kv"]
			break
		}
	}
	return r
}

func (w *world) call(a lib.M) lib.M {
	r := lib.M{}
	var err error
	b, k := kb(a.S("b")), kb(a.S("k"))
	switch a.S("op") {
	case "unlock":
		err = w.s.CreateUnlock(pb(a.S("p")))
	case "change":
		var o, n []byte
		if p := pb(a.S("p")); p != nil {
			o = *p
		}
		if p := pb(a.S("np")); p != nil {
			n = *p
		}
		err = w.s.ChangePassword(o, n)
	case "lock":
		w.s.Lock()
	case "reopen":
		if err = w.s.Close(); err != nil {
			panic(err)
		}
		w.open()
	case "mkb":
		err = w.s.CreateBucket(b)
	case "rmb":
		err = w.s.RemoveBucket(b)
	case "put":
		err = w.s.AddToBucket(b, k, []byte(vals[a.S("v")]))
	case "del":
		err = w.s.RemoveFromBucket(b, k)
	case "get":
		var v []byte
		v, err = w.s.GetFromBucket(b, k)
		r["v"] = vn(v)
	case "all":
		var m map[string][]byte
		m, err = w.s.GetAllFromBucket(b)
		r["kv"] = trip(a.S("b"), m)
	case "list":
		var bs [][]byte
		bs, err = w.s.ListBuckets()
		n := []string{}
		for _, x := range bs {
			n = append(n, kn(x))
		}
		r["bs"] = n
	}
	r["err"] = lib.ErrS(err)
	return r
}

func (w *world) do(a lib.M) {
	w.mu.Lock()
	w.imgs, w.rec = nil, w.img > 0 && a.S("op") != "reopen"
	w.mu.Unlock()
	var r lib.M
	p := lib.Safely(func() {
		if a.S("op") == "par" {
			q := a.LM("q")
			rs := make([]lib.M, len(q))
			wg := sync.WaitGroup{}
			for i := range q {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					if p := lib.Safely(func() { rs[i] = w.call(q[i]) }); p != "" {
						rs[i] = lib.M{"err": "panic " + p}
					}
				}()
			}
			wg.Wait()
			r = lib.M{"rs": rs}
		} else {
			r = w.call(a)
		}
	})
	if p != "" {
		r = lib.M{"err": "panic " + p, "v": "", "kv": []lib.M{}, "bs": []string{}}
	}
	w.mu.Lock()
	imgs := w.imgs
	w.imgs, w.rec = nil, false
	w.mu.Unlock()
	o := w.obs()
	if a.S("op") != "par" { // several calls at once have more than one state in between
		for i, im := range imgs {
			w.tr.Ev(lib.M{"op": "crash", "of": a, "at": i}, w.image(im), o)
		}
	}
	w.tr.Ev(a, r, o)
}

func newWorld() *world {
	w := &world{tr: lib.NewTracer(), img: lib.Int("VH_IMG", 0)}
	bbolt.VHSync = func(path string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.rec && path == w.path() {
			b, err := ioutil.ReadFile(path)
			if err != nil {
				panic(err)
			}
			w.imgs = append(w.imgs, b)
		}
	}
	return w
}

func TestReplay(t *testing.T) {
	w := newWorld()
	defer w.tr.Close()
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
	w.s.Close()
	os.RemoveAll(w.dir)
}

func TestRandom(t *testing.T) {
	w := newWorld()
	defer w.tr.Close()
	rng := lib.Rng("securestore")
	pick := func(l ...string) string { return l[rng.Intn(len(l))] }
	for e := 0; e < lib.Int("VH_EPISODES", 10); e++ {
		w.reset()
		w.do(lib.M{"op": "unlock", "p": "p1"})
		for i := 0; i < lib.Int("VH_STEPS", 60); i++ {
			b := pick("", "b1", "b_2", "bin", "us", "pre", "root", "lng")
			k := pick("k1", "k_2", "bin", "us", "pre", "lng", "b1", "root", "us")
			switch x := rng.Intn(100); {
			case x < 16:
				w.do(lib.M{"op": "mkb", "b": b})
			case x < 20:
				w.do(lib.M{"op": "rmb", "b": b})
			case x < 60:
				w.do(lib.M{"op": "put", "b": b, "k": k, "v": pick("v1", "v2", "v3")})
			case x < 65:
				w.do(lib.M{"op": "del", "b": b, "k": k})
			case x < 75:
				w.do(lib.M{"op": "get", "b": b, "k": k})
			case x < 80:
				w.do(lib.M{"op": pick("lock", "reopen")})
			case x < 92:
				w.do(lib.M{"op": "unlock", "p": pick("p1", "p2", "p3")})
			default:
				w.do(lib.M{"op": "change", "p": pick("p1", "p2", "p3"), "np": pick("p1", "p2", "p3")})
			}
		}
	}
	w.s.Close()
	os.RemoveAll(w.dir)
}
