// Driver for spec/MacKeys.tla: the macaroon service and its root key store, with a disk image kept at every sync.
package mackeys

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
	"go.etcd.io/bbolt"
	"google.golang.org/grpc/metadata"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

var ctx = context.Background()
var op = bakery.Op{Entity: "market", Action: "read"}
var passes = map[string]string{"p1": "password", "p2": "password ", "p3": "pässword-\U0001F511"}
var ids = map[string]string{"0": "0", "1": "1", "2": "a rather long root key id \x00\xff_", "3": "enckey2", "enckey": "enckey"}

func ib(n string) []byte {
	if n == "" {
		return nil
	}
	return []byte(ids[n])
}
func in(b []byte) string {
	for n, v := range ids {
		if v == string(b) {
			return n
		}
	}
	return fmt.Sprintf("?%q", b)
}
func pb(n string) *[]byte {
	if n == "nil" {
		return nil
	}
	b := []byte(n)
	if v, ok := passes[n]; ok {
		b = []byte(v)
	}
	return &b
}

// keys is what both the service and the bare store offer.
type keys interface {
	CreateUnlock(*[]byte) error
	ChangePassword(o, n []byte) error
	GenerateNewRootKey() error
	ListMacaroonIDs(context.Context) ([][]byte, error)
	DeleteMacaroonID(context.Context, []byte) ([]byte, error)
	Close() error
}

// mac is a macaroon, or the root key it would be baked with.
type mac struct {
	id  string
	mac string
	key []byte
}

func bake(s keys, id string) (m mac, err error) {
	m.id = id
	switch x := s.(type) {
	case *macaroons.Service:
		var b *bakery.Macaroon
		b, err = x.NewMacaroon(ctx, ib(id), op)
		if err != nil {
			return
		}
		var raw []byte
		raw, err = b.M().MarshalBinary()
		m.mac = hex.EncodeToString(raw)
	case *macaroons.RootKeyStorage:
		var got []byte
		m.key, got, err = x.RootKey(macaroons.ContextWithRootKeyID(ctx, ib(id)))
		if err == nil && !bytes.Equal(got, ib(id)) {
			err = fmt.Errorf("other id")
		}
	}
	return
}
func valid(s keys, m mac) error {
	switch x := s.(type) {
	case *macaroons.Service:
		c := metadata.NewIncomingContext(ctx, metadata.MD{"macaroon": []string{m.mac}})
		return x.ValidateMacaroon(c, []bakery.Op{op}, "/Operator/ListMarket")
	case *macaroons.RootKeyStorage:
		k, err := x.Get(ctx, ib(m.id))
		if err == nil && !bytes.Equal(k, m.key) {
			err = fmt.Errorf("other key")
		}
		return err
	}
	return nil
}

type world struct {
	tr     *lib.Tracer
	svc    bool
	dir    string
	n      int
	s      keys
	closed bool
	macs   []mac
	lists  [][]byte
	want   []string
	mu     sync.Mutex
	imgs   [][]byte
	rec    bool
	img    int
}

func open(svc bool, dir string) (keys, error) {
	if svc {
		return macaroons.NewService(dir, "tdexd", "db", false, macaroons.IPLockChecker)
	}
	db, err := kvdb.Create(kvdb.BoltBackendName, filepath.Join(dir, "db"), true, kvdb.DefaultDBTimeout)
	if err != nil {
		return nil, err
	}
	return macaroons.NewRootKeyStorage(db)
}
func (w *world) open() {
	s, err := open(w.svc, w.dir)
	if err != nil {
		panic(err)
	}
	w.s, w.closed = s, false
}
func (w *world) clean() {
	if w.s != nil {
		if !w.closed {
			w.s.Close()
		}
		os.RemoveAll(w.dir)
	}
}
func (w *world) reset() {
	w.clean()
	w.n++
	w.dir = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprintf("mk%d", w.n))
	os.MkdirAll(w.dir, 0700)
	w.macs, w.lists, w.want = nil, nil, nil
	w.open()
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}
func (w *world) valids(s keys) []int {
	v := []int{}
	for i, m := range w.macs {
		if valid(s, m) == nil {
			v = append(v, i+1)
		}
	}
	return v
}

// stable tells whether the ids of the last list still read the same.
func (w *world) stable() (ok bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	for i := range w.lists {
		if string(w.lists[i]) != w.want[i] {
			return false
		}
	}
	return true
}
func (w *world) obs() lib.M {
	o := lib.M{"valid": w.valids(w.s), "clear": false}
	b, err := ioutil.ReadFile(filepath.Join(w.dir, "db"))
	if err != nil {
		panic(err)
	}
	for _, m := range w.macs {
		if len(m.key) > 0 && bytes.Contains(b, m.key) {
			o["clear"] = true
		}
	}
	return o
}
func (w *world) image(img []byte) lib.M {
	d := filepath.Join(w.dir, "img")
	os.MkdirAll(d, 0700)
	defer os.RemoveAll(d)
	if err := ioutil.WriteFile(filepath.Join(d, "db"), img, 0600); err != nil {
		panic(err)
	}
	r := lib.M{"pw": "none", "valid": []int{}}
	s, err := open(w.svc, d)
	if err != nil {
		r["pw"] = "unreadable"
		return r
	}
	defer s.Close()
	for _, p := range []string{"bogus password", "p1", "p2", "p3"} {
		if s.CreateUnlock(pb(p)) == nil {
			if r["pw"] = p; p == "bogus password" {
				r["pw"] = ""
			}
			r["valid"] = w.valids(s)
			break
		}
	}
	return r
}
func opt(n string) []byte {
	if p := pb(n); p != nil {
		return *p
	}
	return nil
}
func (w *world) call(a lib.M) (r lib.M, m *mac) {
	r = lib.M{}
	var err error
	switch a.S("op") {
	case "unlock":
		err = w.s.CreateUnlock(pb(a.S("p")))
	case "change":
		err = w.s.ChangePassword(opt(a.S("p")), opt(a.S("np")))
	case "close":
		w.s.Close()
		w.closed = true
	case "reopen":
		if !w.closed {
			w.s.Close()
		}
		w.open()
	case "renew":
		err = w.s.GenerateNewRootKey()
	case "bake":
		var x mac
		if x, err = bake(w.s, a.S("id")); err == nil {
			m = &x
		}
	case "delete":
		var d []byte
		d, err = w.s.DeleteMacaroonID(ctx, ib(a.S("id")))
		r["del"] = d != nil && bytes.Equal(d, ib(a.S("id")))
	case "list":
		r["stable"] = w.stable()
		w.lists, err = w.s.ListMacaroonIDs(ctx)
		w.want = nil
		l := []string{}
		for _, x := range w.lists {
			w.want = append(w.want, string(x))
			l = append(l, in(x))
		}
		sort.Strings(l)
		r["ids"] = l
	case "validate":
		if i := a.I("m"); i >= 1 && i <= len(w.macs) {
			err = valid(w.s, w.macs[i-1])
		}
	case "get":
		if k, ok := w.s.(*macaroons.RootKeyStorage); ok {
			var b []byte
			if b, err = k.Get(ctx, ib(a.S("id"))); err == nil && len(b) != macaroons.RootKeyLen {
				err = fmt.Errorf("no key")
			}
		}
	}
	r["err"] = lib.ErrS(err)
	return
}
func (w *world) do(a lib.M) {
	if a.S("op") == "get" && w.svc {
		return
	}
	w.mu.Lock()
	w.imgs, w.rec = nil, w.img > 0 && a.S("op") != "reopen"
	w.mu.Unlock()
	var r lib.M
	var news []*mac
	p := lib.Safely(func() {
		if a.S("op") == "par" {
			q := a.LM("q")
			rs := make([]lib.M, len(q))
			news = make([]*mac, len(q))
			wg := sync.WaitGroup{}
			for i := range q {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					if p := lib.Safely(func() { rs[i], news[i] = w.call(q[i]) }); p != "" {
						rs[i] = lib.M{"err": "panic " + p}
					}
				}()
			}
			wg.Wait()
			r = lib.M{"rs": rs}
		} else {
			var m *mac
			r, m = w.call(a)
			news = []*mac{m}
		}
	})
	if p != "" {
		r = lib.M{"err": "panic " + p, "ids": []string{}, "del": false, "stable": true}
	}
	w.mu.Lock()
	imgs := w.imgs
	w.imgs, w.rec = nil, false
	w.mu.Unlock()
	if a.S("op") != "par" {
		for i, im := range imgs {
			w.tr.Ev(lib.M{"op": "crash", "of": a, "at": i}, w.image(im), nil)
		}
	}
	for _, m := range news {
		if m != nil {
			w.macs = append(w.macs, *m)
		}
	}
	w.tr.Ev(a, r, w.obs())
}

func newWorld(svc bool) *world {
	w := &world{tr: lib.NewTracer(), img: lib.Int("VH_IMG", 0), svc: svc}
	bbolt.VHSync = func(path string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.rec && path == filepath.Join(w.dir, "db") {
			b, err := ioutil.ReadFile(path)
			if err != nil {
				panic(err)
			}
			w.imgs = append(w.imgs, b)
		}
	}
	return w
}

func TestReplay(t *testing.T) {
	w := newWorld(os.Getenv("VH_BACKEND") == "svc")
	defer w.tr.Close()
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
	w.clean()
}

func TestRandom(t *testing.T) {
	w := newWorld(os.Getenv("VH_BACKEND") == "svc")
	defer w.tr.Close()
	rng := lib.Rng("mackeys" + os.Getenv("VH_BACKEND"))
	pick := func(l ...string) string { return l[rng.Intn(len(l))] }
	for e := 0; e < lib.Int("VH_EPISODES", 10); e++ {
		w.reset()
		w.do(lib.M{"op": "unlock", "p": "p1"})
		for i := 0; i < lib.Int("VH_STEPS", 50); i++ {
			switch x := rng.Intn(100); {
			case x < 30 && len(w.macs) < 25:
				w.do(lib.M{"op": "bake", "id": pick("0", "1", "2", "3", "enckey")})
			case x < 35:
				w.do(lib.M{"op": "delete", "id": pick("0", "1", "2", "3")})
			case x < 40:
				w.do(lib.M{"op": "get", "id": pick("0", "1", "2", "3", "enckey")})
			case x < 50:
				w.do(lib.M{"op": "list"})
			case x < 54:
				w.do(lib.M{"op": "renew"})
			case x < 62:
				if w.closed {
					w.do(lib.M{"op": "reopen"})
				} else {
					w.do(lib.M{"op": pick("close", "reopen")})
				}
			case x < 85:
				w.do(lib.M{"op": "unlock", "p": pick("p1", "p2", "p3")})
			default:
				w.do(lib.M{"op": "change", "p": pick("p1", "p2", "p3"), "np": pick("p1", "p2", "p3")})
			}
		}
	}
	w.clean()
}
