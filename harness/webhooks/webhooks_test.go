// Driver for spec/Webhooks.tla: the webhook service over the bolt secure store, with real endpoints on loopback.
package webhooks

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	bolt "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"go.etcd.io/bbolt"
)

var passes = map[string]string{"p1": "password", "p2": "Password", "p3": "pässword"}
var secrets = map[string]string{"": "", "s1": "a-secret", "s2": strings.Repeat("MTIzNDU2Nzg5MA==", 9)}
var topics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}

type post struct{ e, s, body string }

type world struct {
	tr   *lib.Tracer
	dir  string
	n    int
	svc  ports.SecurePubSub
	pw   string
	srv  *httptest.Server
	mu   sync.Mutex
	how  map[string]string
	got  []post
	bad  map[string]bool // messages posted in the wrong way
	ids  map[string]int
	seq  int
	imgs [][]byte
	rec  bool
	img  int
}

// signer names the secret that signed the token of a request.
func signer(r *http.Request) string {
	h, ok := r.Header["Authorization"]
	if !ok {
		return ""
	}
	p := strings.Split(strings.TrimPrefix(h[0], "Bearer "), ".")
	if len(h) != 1 || !strings.HasPrefix(h[0], "Bearer ") || len(p) != 3 {
		return "?"
	}
	hd, err := base64.RawURLEncoding.DecodeString(p[0])
	var alg struct{ Alg string }
	if err != nil || json.Unmarshal(hd, &alg) != nil || alg.Alg != "HS256" {
		return "?"
	}
	for n, s := range secrets {
		m := hmac.New(sha256.New, []byte(s))
		m.Write([]byte(p[0] + "." + p[1]))
		if n != "" && base64.RawURLEncoding.EncodeToString(m.Sum(nil)) == p[2] {
			return n
		}
	}
	return "?"
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	e := strings.TrimPrefix(r.URL.Path, "/hook/")
	b, _ := ioutil.ReadAll(r.Body)
	w.mu.Lock()
	w.got = append(w.got, post{e, signer(r), string(b)})
	if r.Method != "POST" || r.Header.Get("Content-Type") != "application/json" || r.URL.RawQuery != "k=v&x=%26" {
		w.bad[string(b)] = true
	}
	how := w.how[e]
	w.mu.Unlock()
	switch how {
	case "bad":
		http.Error(rw, "no %s good %d", 500)
	case "created":
		rw.WriteHeader(201)
	case "cut":
		c, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	default:
		fmt.Fprint(rw, "done")
	}
}

func (w *world) path() string { return filepath.Join(w.dir, "db") }
func openAt(dir string) ports.SecurePubSub {
	s, err := bolt.NewSecureStorage(dir, "db")
	if err != nil {
		panic(err)
	}
	svc, err := webhookpubsub.NewWebhookPubSubService(s, esplora.NewHTTPClient(30*time.Second))
	if err != nil {
		panic(err)
	}
	return svc
}
func (w *world) reset() {
	if w.svc != nil {
		w.svc.Store().Close()
		os.RemoveAll(w.dir)
	}
	w.n++
	w.dir = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprintf("wh%d", w.n))
	os.MkdirAll(w.dir, 0700)
	w.svc = openAt(w.dir)
	w.pw = ""
	w.mu.Lock()
	w.how, w.got, w.bad, w.ids = map[string]string{}, nil, map[string]bool{}, map[string]int{}
	w.mu.Unlock()
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}

func (w *world) end(u string) string {
	for _, e := range []string{"e1", "e2", "e3"} {
		if u == w.url(e) {
			return e
		}
	}
	return u
}
func (w *world) url(e string) string {
	if e == "badurl" {
		return "not an url"
	}
	return w.srv.URL + "/hook/" + e + "?k=v&x=%26"
}
func (w *world) num(id string) int {
	if n, ok := w.ids[id]; ok {
		return n
	}
	return -1
}
func (w *world) list(svc ports.SecurePubSub, t string) []lib.M {
	out := []lib.M{}
	for _, s := range svc.ListSubscriptionsForTopic(t) {
		out = append(out, lib.M{"id": w.num(s.Id()), "t": s.Topic().Label(), "e": w.end(s.NotifyAt()), "sec": s.IsSecured()})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].I("id") < out[j].I("id") })
	return out
}
func (w *world) all(svc ports.SecurePubSub) []lib.M {
	out := w.list(svc, "*")
	for _, t := range topics[:3] {
		for _, x := range w.list(svc, t) {
			if x.S("t") != "*" {
				out = append(out, x)
			}
		}
	}
	return out
}
func (w *world) obs() lib.M {
	l := lib.M{}
	for _, t := range topics {
		l[t] = w.list(w.svc, t)
	}
	return lib.M{"locked": w.svc.Store().IsLocked(), "lists": l}
}

// posts of one message
func (w *world) posts(msg string) []lib.M {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := []lib.M{}
	for _, p := range w.got {
		if p.body == msg {
			out = append(out, lib.M{"e": p.e, "s": p.s, "good": !w.bad[msg]})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].S("e")+out[i].S("s") < out[j].S("e")+out[j].S("s") })
	return out
}

// other posts than those of known messages
func (w *world) stray(known map[string]bool) []lib.M {
	out := []lib.M{}
	for _, p := range w.got {
		if !known[p.body] {
			out = append(out, lib.M{"e": p.e, "s": p.s, "good": false})
		}
	}
	return out
}

func (w *world) id(n int) string {
	for k, v := range w.ids {
		if v == n {
			return k
		}
	}
	return []string{"unknown", ""}[n%2]
}

func (w *world) call(svc ports.SecurePubSub, a lib.M, id, msg string) lib.M {
	r := lib.M{}
	var err error
	switch a.S("op") {
	case "sub":
		r["raw"], err = svc.Subscribe(a.S("t"), w.url(a.S("e")), secrets[a.S("s")])
	case "unsub":
		err = svc.Unsubscribe("", id)
	case "pub":
		err = svc.Publish(a.S("t"), msg)
	case "init":
		err = svc.Store().Init(passes[a.S("p")])
	case "unlock":
		err = svc.Store().Unlock(passes[a.S("p")])
	case "change":
		if err = svc.Store().ChangePassword(passes[a.S("p")], passes[a.S("np")]); err == nil {
			w.pw = a.S("np")
		}
	case "lock":
		svc.Store().Lock()
	case "reopen":
		if err = svc.Store().Close(); err != nil {
			panic(err)
		}
		w.svc = openAt(w.dir)
	case "behave":
		w.mu.Lock()
		w.how[a.S("e")] = a.S("b")
		w.mu.Unlock()
	}
	if (a.S("op") == "init" || a.S("op") == "unlock") && err == nil && w.pw == "" {
		w.pw = a.S("p")
	}
	r["err"] = lib.ErrS(err)
	return r
}
func (w *world) msg() string {
	w.seq++
	return fmt.Sprintf(`{"txid":"%064d","note":"a \"quoted\" <b>&amp; é line"}`, w.seq)
}

// take numbers the id of a new registration.
func (w *world) take(r lib.M) {
	raw, ok := r["raw"].(string)
	delete(r, "raw")
	if r.S("err") != "ok" || !ok {
		return
	}
	if _, ok := w.ids[raw]; !ok {
		w.ids[raw] = len(w.ids) + 1
	}
	r["id"] = w.ids[raw]
}

// image opens a disk image, tells the registrations there, and calls a again.
func (w *world) image(img []byte, a lib.M, id string) lib.M {
	d := filepath.Join(w.dir, "img")
	os.MkdirAll(d, 0700)
	defer os.RemoveAll(d)
	if err := ioutil.WriteFile(filepath.Join(d, "db"), img, 0600); err != nil {
		panic(err)
	}
	r := lib.M{"l": []lib.M{}, "again": []lib.M{}, "retried": false}
	svc := openAt(d)
	defer svc.Store().Close()
	if err := svc.Store().Unlock(passes[w.pw]); err != nil {
		r["l"] = []lib.M{{"id": -2, "t": "unreadable", "e": err.Error(), "sec": false}}
		return r
	}
	r["l"] = w.all(svc)
	if x := w.call(svc, a, id, ""); x.S("err") == "ok" {
		r["retried"] = true
	}
	r["again"] = w.all(svc)
	return r
}

func (w *world) do(a lib.M) {
	k := 1
	if a.S("op") == "pub" {
		k = a.I("n")
		a = a.Copy()
		a["n"] = 1
	}
	for ; k > 0; k-- {
		w.step(a)
	}
}

func (w *world) step(a lib.M) {
	w.mu.Lock()
	w.got = nil
	w.imgs, w.rec = nil, w.img > 0 && (a.S("op") == "sub" || a.S("op") == "unsub")
	w.mu.Unlock()
	known := map[string]bool{}
	var r lib.M
	id := ""
	if a.S("op") == "par" {
		q := a.LM("q")
		rs := make([]lib.M, len(q))
		ids, msgs := make([]string, len(q)), make([]string, len(q))
		for i := range q {
			ids[i], msgs[i] = w.id(q[i].I("id")), w.msg()
			known[msgs[i]] = true
		}
		wg := sync.WaitGroup{}
		for i := range q {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := lib.Safely(func() { rs[i] = w.call(w.svc, q[i], ids[i], msgs[i]) }); p != "" {
					rs[i] = lib.M{"err": "panic " + p}
				}
			}()
		}
		wg.Wait()
		nq := []lib.M{}
		for i := range q {
			x := q[i].Copy()
			w.take(rs[i])
			if x.S("op") == "sub" {
				x["k"] = rs[i].I("id")
			}
			if x.S("op") == "pub" {
				rs[i]["posts"] = w.posts(msgs[i])
			}
			nq = append(nq, x)
		}
		a = lib.M{"op": "par", "q": nq}
		r = lib.M{"rs": rs}
	} else {
		id = w.id(a.I("id"))
		m := w.msg()
		known[m] = true
		if p := lib.Safely(func() { r = w.call(w.svc, a, id, m) }); p != "" {
			r = lib.M{"err": "panic " + p}
		}
		w.take(r)
		r["posts"] = w.posts(m)
	}
	w.mu.Lock()
	imgs := w.imgs
	w.imgs, w.rec = nil, false
	if s := w.stray(known); len(s) > 0 {
		r["posts"] = s
		if a.S("op") != "pub" {
			r["err"] = "stray"
		}
	}
	w.mu.Unlock()
	for i, im := range imgs {
		w.tr.Ev(lib.M{"op": "crash", "of": a, "at": i}, w.image(im, a, id), nil)
	}
	w.tr.Ev(a, r, w.obs())
}

func newWorld() *world {
	w := &world{tr: lib.NewTracer(), img: lib.Int("VH_IMG", 0)}
	w.srv = httptest.NewUnstartedServer(w)
	w.srv.Config.SetKeepAlivesEnabled(false)
	w.srv.Start()
	bbolt.VHSync = func(path string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.rec && path == w.path() {
			b, err := ioutil.ReadFile(path)
			if err != nil {
				panic(err)
			}
			w.imgs = append(w.imgs, b)
		}
	}
	return w
}
func (w *world) close() {
	w.svc.Store().Close()
	w.srv.Close()
	os.RemoveAll(w.dir)
	w.tr.Close()
}

func TestReplay(t *testing.T) {
	w := newWorld()
	defer w.close()
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
}

// TestBusy: many calls at the same time, on an open store.
func TestBusy(t *testing.T) {
	w := newWorld()
	defer w.close()
	rng := lib.Rng("webhooks")
	ends, secs := []string{"e1", "e2", "e3"}, []string{"", "s1", "s2"}
	for e := 0; e < lib.Int("VH_EPISODES", 10); e++ {
		w.reset()
		w.do(lib.M{"op": "init", "p": "p1"})
		w.do(lib.M{"op": "unlock", "p": "p1"})
		for i := 0; i < 10; i++ {
			q := []interface{}{}
			used := map[int]bool{}
			for j := 0; j < 2+rng.Intn(6); j++ {
				switch x := rng.Intn(10); {
				case x < 5 || len(w.ids) == 0:
					q = append(q, map[string]interface{}{"op": "sub", "t": topics[rng.Intn(4)], "e": ends[rng.Intn(3)], "s": secs[rng.Intn(3)]})
				case x < 8:
					id := 1 + rng.Intn(len(w.ids))
					if !used[id] {
						used[id] = true
						q = append(q, map[string]interface{}{"op": "unsub", "id": id})
					}
				default:
					q = append(q, map[string]interface{}{"op": "pub", "t": topics[rng.Intn(4)], "n": 1})
				}
			}
			w.do(lib.M{"op": "par", "q": q})
			w.do(lib.M{"op": "pub", "t": topics[rng.Intn(4)], "n": 1})
			if rng.Intn(4) == 0 {
				w.do(lib.M{"op": "reopen"})
				w.do(lib.M{"op": "unlock", "p": "p1"})
			}
		}
	}
}
