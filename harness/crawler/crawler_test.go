// Driver for spec/Crawler.tla: the chain watcher on a fake clock, with an explorer whose answers are scripted.
package crawler

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
)

const round = time.Second

var keys = []string{"t1", "t2", "a1", "a2"}

type utxo struct {
	explorer.Utxo
	v uint64
}

func (u utxo) Value() uint64 { return u.v }

type world struct {
	explorer.Service
	tr     *lib.Tracer
	beat   func()
	c      crawler.Service
	mu     sync.Mutex
	ans    map[string]string
	ev     []lib.M
	closed int
	after  int
	nq     map[string]int
	errs   map[string]int
	reqs   int
	epoch  int
}

// the explorer of one episode: leftovers of earlier ones do not disturb
type fakeExplorer struct {
	explorer.Service
	w     *world
	epoch int
}

func (f fakeExplorer) ask(k string, count bool) string {
	w := f.w
	w.mu.Lock()
	if f.epoch != w.epoch {
		w.mu.Unlock()
		return "err"
	}
	a := w.ans[k]
	w.reqs++
	if count {
		w.nq[k]++
	}
	w.mu.Unlock()
	if a == "slow" {
		time.Sleep(2*round + round/2)
	}
	return a
}
func (f fakeExplorer) GetTransactionStatus(k string) (map[string]interface{}, error) {
	switch f.ask(k, true) {
	case "err":
		return nil, fmt.Errorf("%s", k)
	case "conf":
		return map[string]interface{}{"confirmed": true, "block_hash": "hash-" + k, "block_time": float64(1600178119), "block_height": float64(7)}, nil
	default:
		return map[string]interface{}{"confirmed": false}, nil
	}
}
func (f fakeExplorer) GetTransactionHex(k string) (string, error) {
	f.w.mu.Lock()
	f.w.reqs++
	f.w.mu.Unlock()
	return "hex-" + k, nil
}
func (f fakeExplorer) GetUnspents(k string, bk [][]byte) ([]explorer.Utxo, error) {
	a := f.ask(k, true)
	if a == "err" || len(bk) != 1 || string(bk[0]) != "key-"+k {
		return nil, fmt.Errorf("%s", k)
	}
	return unspents(k, a), nil
}
func unspents(k, a string) []explorer.Utxo {
	out := []explorer.Utxo{}
	n := map[string]int{"1": 1, "2": 2, "slow": 3}[a]
	for i := 0; i < n; i++ {
		out = append(out, utxo{v: uint64(k[1])*1000 + uint64(i)})
	}
	return out
}

func (w *world) listen(c crawler.Service, epoch int) {
	for {
		e := <-c.GetEventChannel()
		w.mu.Lock()
		if epoch != w.epoch {
			w.mu.Unlock()
			continue
		}
		if w.closed > 0 {
			w.after++
		}
		switch x := e.(type) {
		case crawler.CloseEvent:
			if w.closed > 0 {
				w.after--
			}
			w.closed++
		case crawler.TransactionEvent:
			v := "?"
			switch {
			case x.EventType == crawler.TransactionConfirmed && x.BlockHash == "hash-"+x.TxID && x.BlockTime == 1600178119:
				v = "conf"
			case x.EventType == crawler.TransactionUnConfirmed && x.BlockHash == "" && w.ans[x.TxID] == "slow":
				v = "slow"
			case x.EventType == crawler.TransactionUnConfirmed && x.BlockHash == "":
				v = "un"
			}
			if x.TxHex != "hex-"+x.TxID {
				v = "?hex"
			}
			w.ev = append(w.ev, lib.M{"k": x.TxID, "v": v})
		case crawler.AddressEvent:
			v := map[int]string{0: "0", 1: "1", 2: "2", 3: "slow"}[len(x.Utxos)]
			acc, typ := 0, crawler.EventType(crawler.FeeAccountDeposit)
			if x.Address == "a2" {
				acc, typ = 5, crawler.MarketAccountDeposit
			}
			if x.AccountIndex != acc || x.EventType != typ {
				v = "?account"
			}
			for i, u := range x.Utxos {
				if u.Value() != uint64(x.Address[1])*1000+uint64(i) {
					v = "?utxo"
				}
			}
			w.ev = append(w.ev, lib.M{"k": x.Address, "v": v})
		default:
			w.ev = append(w.ev, lib.M{"k": "?", "v": fmt.Sprintf("%T", e)})
		}
		w.mu.Unlock()
	}
}

func observable(k string) crawler.Observable {
	switch k {
	case "a1":
		return crawler.NewAddressObservable(0, k, []byte("key-"+k))
	case "a2":
		return crawler.NewAddressObservable(5, k, []byte("key-"+k))
	}
	return crawler.NewTransactionObservable(k)
}

func (w *world) reset() {
	w.cleanup()
	w.mu.Lock()
	w.epoch++
	ep := w.epoch
	w.ans = map[string]string{"t1": "un", "t2": "un", "a1": "1", "a2": "1"}
	w.closed, w.after = 0, 0
	w.mu.Unlock()
	w.clear()
	w.c = crawler.NewService(crawler.Opts{
		ExplorerSvc: fakeExplorer{w: w, epoch: ep}, CrawlerInterval: round, ExplorerLimit: 1000, ExplorerTokenBurst: 10,
		ErrorHandler: func(err error) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if ep == w.epoch {
				w.errs[err.Error()]++
			}
		},
	})
	go w.c.Start()
	go w.listen(w.c, ep)
	synctest.Wait()
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}
func (w *world) cleanup() {
	if w.c == nil {
		return
	}
	w.mu.Lock()
	stopped := w.closed > 0
	w.mu.Unlock()
	if !stopped {
		w.c.Stop()
		synctest.Wait()
	}
	w.c = nil
}
func (w *world) clear() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev, w.nq, w.errs, w.reqs = []lib.M{}, map[string]int{}, map[string]int{}, 0
}

func (w *world) one(a lib.M) {
	switch a.S("op") {
	case "add":
		w.c.AddObservable(observable(a.S("k")))
	case "del":
		o := observable(a.S("k"))
		if a.S("k")[0] == 'a' { // told by its address alone, as the daemon does
			o = &crawler.AddressObservable{Address: a.S("k")}
		} else {
			o = &crawler.TransactionObservable{TxID: a.S("k")}
		}
		w.c.RemoveObservable(o)
	case "answer":
		w.mu.Lock()
		w.ans[a.S("k")] = a.S("v")
		w.mu.Unlock()
	case "step":
		time.Sleep(time.Duration(a.I("n")) * round)
	case "stop":
		w.c.Stop()
	}
}

func (w *world) do(a lib.M) {
	w.clear()
	w.mu.Lock()
	w.after = 0
	closed := w.closed
	w.mu.Unlock()
	p := lib.Safely(func() {
		switch a.S("op") {
		case "burst":
			for _, x := range a.LM("q") {
				w.one(x)
			}
		case "par":
			wg := sync.WaitGroup{}
			for _, x := range a.LM("q") {
				x := x
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.one(x)
				}()
			}
			wg.Wait()
		default:
			w.one(a)
		}
	})
	synctest.Wait()
	obs, fin := lib.M{}, []string{}
	for _, k := range keys {
		obs[k] = w.c.IsObservingAddresses([]string{k})
		if obs.B(k) {
			fin = append(fin, k)
		}
	}
	if a.S("op") == "par" {
		a = a.Copy()
		a["fin"] = fin
	}
	w.mu.Lock()
	r := lib.M{"panic": p, "ev": w.ev, "reqs": w.reqs, "closed": w.closed - closed, "after": w.after, "nq": lib.M{}, "errs": lib.M{}}
	for _, k := range keys {
		r["nq"].(lib.M)[k] = w.nq[k]
		r["errs"].(lib.M)[k] = w.errs[k]
	}
	w.mu.Unlock()
	w.tr.Ev(a, r, lib.M{"obs": obs, "none": w.c.IsObservingAddresses(nil)})
	w.beat()
}

func run(t *testing.T, f func(w *world)) {
	w := &world{tr: lib.NewTracer()}
	w.beat = lib.Watchdog(w.tr, 90*time.Second)
	synctest.Test(t, func(*testing.T) {
		f(w)
		w.cleanup()
		w.tr.Close()
		os.Exit(0) // whatever is left running does not matter
	})
}

func TestReplay(t *testing.T) {
	run(t, func(w *world) {
		for _, s := range lib.Scripts() {
			w.reset()
			for _, a := range s {
				w.do(a)
			}
			w.do(lib.M{"op": "step", "n": 6})
		}
	})
}

func TestBusy(t *testing.T) {
	rng := lib.Rng("crawler")
	run(t, func(w *world) {
		for e := 0; e < lib.Int("VH_EPISODES", 20); e++ {
			w.reset()
			for i := 0; i < 20; i++ {
				switch x := rng.Intn(10); {
				case x < 5:
					q := []interface{}{}
					for j := 0; j < 2+rng.Intn(8); j++ {
						q = append(q, map[string]interface{}{"op": []string{"add", "del"}[rng.Intn(2)], "k": keys[rng.Intn(4)]})
					}
					w.do(lib.M{"op": []string{"burst", "par"}[rng.Intn(2)], "q": q, "fin": []string{}})
				case x < 7:
					k := keys[rng.Intn(4)]
					v := []string{"un", "conf", "err", "slow"}
					if k[0] == 'a' {
						v = []string{"0", "1", "2", "err", "slow"}
					}
					w.do(lib.M{"op": "answer", "k": k, "v": v[rng.Intn(len(v))]})
				default:
					w.do(lib.M{"op": "step", "n": []int{1, 2, 6, 9, 70}[rng.Intn(5)]})
				}
			}
			w.do(lib.M{"op": "stop"})
			w.do(lib.M{"op": "step", "n": 6})
		}
	})
}
