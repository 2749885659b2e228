// Driver for spec/Repos.tla: the repositories of both back ends, with an image of the disk kept after every commit.
package repos

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v2"
	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/network"
	"google.golang.org/protobuf/proto"
)

var bg = context.Background()

type encrypter struct{}

func (encrypter) Encrypt(m, p string) (string, error) { return hex.EncodeToString([]byte(m)), nil }
func (encrypter) Decrypt(c, p string) (string, error) {
	b, err := hex.DecodeString(c)
	return string(b), err
}

var seed = strings.Split("leave dice fine decrease dune ribbon ocean earn lunar account silver admit cheap fringe disorder trade because trade steak clock grace video jacket equal", " ")

const (
	nT   = 3
	nA   = 3
	base = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
)

func tid(k int) uuid.UUID {
	return uuid.MustParse(fmt.Sprintf("0000000%d-aaaa-4bbb-8ccc-dddddddddddd", k))
}
func quote(i int) string { return fmt.Sprintf("%064d", i) }
func accID(k int) string { return fmt.Sprintf("accept-%d", k) }
func txID(k int) string  { return fmt.Sprintf("%063dt", k) }
func account(i int) int  { return domain.MarketAccountStart + i - 1 }
func acceptMsg(k int) []byte {
	b, err := proto.Marshal(&pbswap.SwapAccept{Id: accID(k), Transaction: "tx"})
	if err != nil {
		panic(err)
	}
	return b
}
func price(p int) domain.Prices {
	if p == 0 {
		return domain.Prices{}
	}
	return domain.Prices{BasePrice: decimal.RequireFromString(fmt.Sprintf("0.0000123456789%d", p)), QuotePrice: decimal.RequireFromString(fmt.Sprintf("81000.%d", p))}
}

// mark writes the number of updates of the kind "inc" into every field that has no other role; count reads it back (-1: damaged).
func mark(t *domain.Trade, n int) {
	t.MarketPrice = price(n)
	t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = int64(n), int64(n)*1000003, int64(n)*7
	t.ExpiryTime, t.SettlementTime = uint64(n)<<40, uint64(n)
	b := []byte(nil)
	if n > 0 {
		b = []byte(fmt.Sprintf("\x00\xff message %d", n))
	}
	t.TraderPubkey = b
	t.SwapRequest = domain.Swap{ID: fmt.Sprint(n), Message: b, Timestamp: uint64(n) + 1}
	t.SwapComplete = domain.Swap{ID: fmt.Sprint(n), Message: b, Timestamp: uint64(n) + 2}
	t.SwapFail = domain.Swap{ID: fmt.Sprint(n), Message: b, Timestamp: uint64(n) + 3}
	t.PsetBase64, t.TxHex = fmt.Sprint("pset", n), strings.Repeat(fmt.Sprint(n), 1+n%3*100)
}
func count(t *domain.Trade) int {
	n := int(t.MarketFee)
	c := *t
	if n == 0 {
		c = domain.Trade{ID: t.ID, Status: t.Status, MarketQuoteAsset: t.MarketQuoteAsset, TxID: t.TxID, SwapAccept: t.SwapAccept}
	} else {
		mark(&c, n)
	}
	if !eq(c, *t) {
		return -1
	}
	return n
}
func eq(a, b domain.Trade) bool {
	if !samePrice(a.MarketPrice, b.MarketPrice) {
		return false
	}
	a.MarketPrice, b.MarketPrice = domain.Prices{}, domain.Prices{}
	return reflect.DeepEqual(a, b)
}
func samePrice(a, b domain.Prices) bool {
	return a.BasePrice.Equal(b.BasePrice) && a.QuotePrice.Equal(b.QuotePrice)
}
func trade(k int, t *domain.Trade) lib.M {
	m := lib.M{"e": t != nil, "m": 0, "c": -1, "f": false, "x": false, "a": false, "n": 0}
	if t == nil {
		return m
	}
	m["n"] = count(t)
	if t.ID != tid(k) || (t.TxID != "" && t.TxID != txID(k)) || (t.SwapAccept.ID != "" && t.SwapAccept.ID != accID(k)) {
		m["n"] = -2
	}
	for i := 1; i <= 2; i++ {
		if t.MarketQuoteAsset == quote(i) {
			m["m"] = i
		}
	}
	m["c"], m["f"], m["x"], m["a"] = t.Status.Code, t.Status.Failed, t.TxID != "", t.SwapAccept.ID != ""
	return m
}
func market(i int, k *domain.Market) lib.M {
	m := lib.M{"e": k != nil, "q": 0, "n": 0, "t": false, "b": false, "p": 0}
	if k == nil {
		return m
	}
	n := int(k.Fee)
	if k.FixedFee.BaseFee != int64(n)*1000 || k.FixedFee.QuoteFee != int64(n)*1000003 || k.AccountIndex != account(i) || (k.BaseAsset != "") != (k.QuoteAsset != "") ||
		(k.BaseAsset != "" && k.BaseAsset != base) {
		n = -1
	}
	p := -1
	for j := 0; j <= 3; j++ {
		if samePrice(k.Price, price(j)) {
			p = j
		}
	}
	q := 0
	for j := 1; j <= nA; j++ {
		if k.QuoteAsset == quote(j) {
			q = j
		}
	}
	m["n"], m["t"], m["b"], m["p"], m["q"] = n, k.Tradable, !k.IsStrategyPluggable(), p, q
	if !k.IsStrategyPluggable() && k.Strategy.Formula() == nil {
		m["n"] = -3
	}
	return m
}

type world struct {
	tr   *lib.Tracer
	be   string // inmem, mem, disk
	n    int
	rm   ports.RepoManager
	img  bool
	rec  bool
	mu   sync.Mutex
	imgs []string
	k    int
}

func (w *world) dir() string { return filepath.Join(os.Getenv("VH_TMP"), "db", fmt.Sprint(w.n)) }
func open(dir string) ports.RepoManager {
	rm, err := dbbadger.NewRepoManager(dir, nil)
	if err != nil {
		panic(err)
	}
	return rm
}
func (w *world) open() {
	switch w.be {
	case "inmem":
		w.rm = inmemory.NewRepoManager()
	case "mem":
		w.rm = open("")
	default:
		os.MkdirAll(w.dir(), 0700)
		w.rm = open(w.dir())
	}
}
func (w *world) reset() {
	if w.rm != nil {
		w.rm.Close()
		os.RemoveAll(w.dir())
	}
	w.n++
	w.open()
	if _, err := w.rm.VaultRepository().GetOrCreateVault(bg, seed, "pass", &network.Regtest); err != nil {
		panic(err)
	}
	w.tr.Ev(lib.M{"op": "reset", "be": w.be}, nil, nil)
}

// keep copies the disk as it is.
func (w *world) keep() {
	if !w.rec {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.k++
	dst := filepath.Join(os.Getenv("VH_TMP"), "img", fmt.Sprint(w.k))
	for _, d := range []string{"main", "prices"} {
		es, _ := os.ReadDir(filepath.Join(w.dir(), d))
		os.MkdirAll(filepath.Join(dst, d), 0700)
		for _, e := range es {
			if e.Name() == "LOCK" {
				continue
			}
			b, err := os.ReadFile(filepath.Join(w.dir(), d, e.Name()))
			if err != nil {
				continue
			}
			os.WriteFile(filepath.Join(dst, d, e.Name()), b, 0600)
		}
	}
	w.imgs = append(w.imgs, dst)
}

func ids(l []*domain.Trade, scribble bool) []int {
	out := []int{}
	for _, t := range l {
		n := 99
		for k := 1; k <= nT; k++ {
			if t != nil && t.ID == tid(k) {
				n = k
			}
		}
		out = append(out, n)
		if scribble && t != nil {
			mark(t, 77)
			t.Status, t.MarketQuoteAsset = domain.SettledStatus, "scribbled"
		}
	}
	sort.Ints(out)
	return out
}

// look reads everything by every key; what is read is then scribbled over, which must not reach the store.
func look(ctx context.Context, rm ports.RepoManager) (o lib.M) {
	bad := func(err error) {
		if err != nil {
			o["all"] = []int{-1, -1}
			o["why"] = err.Error()
		}
	}
	tr, mr := rm.TradeRepository(), rm.MarketRepository()
	o = lib.M{}
	l, err := tr.GetAllTrades(ctx)
	o["all"] = ids(l, false)
	bad(err)
	recs := make([]*domain.Trade, nT+1)
	for _, t := range l {
		for k := 1; k <= nT; k++ {
			if t.ID == tid(k) {
				c := *t
				recs[k] = &c
			}
		}
	}
	ts := []lib.M{}
	for k := 1; k <= nT; k++ {
		m := trade(k, recs[k])
		if recs[k] != nil {
			id := tid(k)
			t, err := tr.GetOrCreateTrade(ctx, &id)
			if err != nil || t == nil || !eq(*t, *recs[k]) {
				m["n"] = -4
			}
		}
		ts = append(ts, m)
	}
	o["tr"] = ts
	check := func(t *domain.Trade, err error) int {
		if err != nil || t == nil {
			return 0
		}
		for k := 1; k <= nT; k++ {
			if t.ID == tid(k) {
				if recs[k] == nil || !eq(*t, *recs[k]) {
					return -k
				}
				return k
			}
		}
		return 99
	}
	ba, bx := []int{}, []int{}
	for k := 1; k <= nT; k++ {
		ba = append(ba, check(tr.GetTradeBySwapAcceptID(ctx, accID(k))))
		bx = append(bx, check(tr.GetTradeByTxID(ctx, txID(k))))
	}
	o["ba"], o["bx"] = ba, bx
	bm, dn := [][]int{}, [][]int{}
	for i := 1; i <= 2; i++ {
		x, err := tr.GetAllTradesByMarket(ctx, quote(i))
		bad(err)
		for _, t := range x {
			if check(t, nil) <= 0 {
				x = append(x, nil)
				break
			}
		}
		bm = append(bm, ids(x, true))
		x, err = tr.GetCompletedTradesByMarket(ctx, quote(i))
		bad(err)
		dn = append(dn, ids(x, true))
	}
	o["bm"], o["dn"] = bm, dn
	ids(l, true)

	ms, err := mr.GetAllMarkets(ctx)
	bad(err)
	mall, mopen, bq, mks := []int{}, []int{}, []int{}, []lib.M{}
	same := map[int]lib.M{}
	for j := range ms {
		i := ms[j].AccountIndex - account(1) + 1
		mall = append(mall, i)
		same[i] = market(i, &ms[j])
	}
	os, err := mr.GetTradableMarkets(ctx)
	bad(err)
	for j := range os {
		i := os[j].AccountIndex - account(1) + 1
		if !reflect.DeepEqual(market(i, &os[j]), same[i]) {
			i = -i
		}
		mopen = append(mopen, i)
	}
	for i := 1; i <= nA; i++ {
		k, err := mr.GetMarketByAccount(ctx, account(i))
		bad(err)
		m := market(i, k)
		if x, ok := same[i]; ok && !reflect.DeepEqual(x, m) {
			m["n"] = -5
		}
		mks = append(mks, m)
		k, acc, err := mr.GetMarketByAsset(ctx, quote(i))
		bad(err)
		q := 0
		if k != nil {
			q = acc - account(1) + 1
			if acc != k.AccountIndex || !reflect.DeepEqual(market(q, k), same[q]) {
				q = -q
			}
		}
		bq = append(bq, q)
	}
	_, last, err := mr.GetLatestMarket(ctx)
	bad(err)
	sort.Ints(mall)
	sort.Ints(mopen)
	o["mall"], o["mopen"], o["mk"], o["bq"], o["last"] = mall, mopen, mks, bq, last-account(1)+1
	va := []int{}
	for i := 1; i <= nA; i++ {
		if a, err := rm.VaultRepository().GetAccountByIndex(ctx, account(i)); err == nil && a != nil && a.AccountIndex == account(i) {
			va = append(va, i)
		}
	}
	if v, err := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil); err != nil || v.EncryptedMnemonic == "" {
		va = append(va, -1)
	}
	o["va"] = va
	return
}

// call makes one call in the given context; mid, if any, runs inside the first update function that is entered.
func call(ctx context.Context, rm ports.RepoManager, a lib.M, mid func()) error {
	inside := func() {
		if mid != nil {
			mid()
		}
	}
	k, i := a.I("k"), a.I("i")
	id := tid(k)
	switch a.S("op") {
	case "tNew":
		t, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id)
		if err == nil && (t == nil || t.ID != id) {
			panic("wrong trade")
		}
		return err
	case "tUpd":
		return rm.TradeRepository().UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
			switch a.S("w") {
			case "inc":
				mark(t, int(t.MarketFee)+1)
			case "accept":
				t.MarketQuoteAsset, t.Status, t.SwapAccept = quote(k%2+1), domain.Status{Code: domain.AcceptedStatus.Code, Failed: t.Status.Failed}, domain.Swap{ID: accID(k), Message: acceptMsg(k), Timestamp: 9}
			case "complete":
				t.TxID, t.Status.Code = txID(k), domain.CompletedStatus.Code
			case "settle":
				t.Status.Code = domain.SettledStatus.Code
			case "expire":
				t.Status = domain.ExpiredStatus
			case "fail":
				t.Status.Failed = true
			case "err":
				mark(t, 55)
				t.Status, t.MarketQuoteAsset, t.SwapAccept.ID, t.TxID = domain.SettledStatus, quote(1), accID(k), txID(k)
				inside()
				return nil, errors.New("refused")
			}
			inside()
			return t, nil
		})
	case "mNew":
		m, err := rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: account(i), Fee: 0})
		if err == nil && (m == nil || m.AccountIndex != account(i)) {
			panic("wrong market")
		}
		return err
	case "mUpd":
		return rm.MarketRepository().UpdateMarket(ctx, account(i), func(m *domain.Market) (*domain.Market, error) {
			switch a.S("w") {
			case "inc":
				m.Fee++
				m.FixedFee = domain.FixedFee{BaseFee: m.Fee * 1000, QuoteFee: m.Fee * 1000003}
			case "fund":
				m.BaseAsset, m.QuoteAsset = base, quote(i)
			case "plug":
				open := m.Tradable
				m.Tradable = false
				p := m.Price
				if err := m.MakeStrategyPluggable(); err != nil {
					return nil, err
				}
				m.Price, m.Tradable = p, open
			case "bal":
				open := m.Tradable
				m.Tradable = false
				if err := m.MakeStrategyBalanced(); err != nil {
					return nil, err
				}
				m.Tradable = open
			case "err":
				m.Fee, m.Tradable, m.QuoteAsset = 9999, true, "other"
				inside()
				return nil, errors.New("refused")
			}
			inside()
			return m, nil
		})
	case "mOpen":
		return rm.MarketRepository().OpenMarket(ctx, quote(i))
	case "mClose":
		return rm.MarketRepository().CloseMarket(ctx, quote(i))
	case "mPrice":
		return rm.MarketRepository().UpdatePrices(ctx, account(i), price(a.I("p")))
	case "mDel":
		return rm.MarketRepository().DeleteMarket(ctx, account(i))
	case "vAcc":
		return rm.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
			v.InitAccount(account(i))
			inside()
			return v, nil
		})
	}
	panic(a.S("op"))
}

// run makes a call or a transaction of calls.
func (w *world) run(a lib.M, in *lib.M, mid func()) error {
	if a.S("op") != "tx" && a.S("op") != "ptx" {
		return call(bg, w.rm, a, mid)
	}
	f := w.rm.RunTransaction
	if a.S("op") == "ptx" {
		f = w.rm.RunPricesTransaction
	}
	_, err := f(bg, false, func(ctx context.Context) (interface{}, error) {
		for _, x := range a.LM("q") {
			if err := call(ctx, w.rm, x, nil); err != nil {
				return nil, err
			}
		}
		if in != nil {
			*in = look(ctx, w.rm)
		}
		if mid != nil {
			mid()
		}
		if a.S("end") == "fail" {
			return nil, errors.New("refused")
		}
		return nil, nil
	})
	return err
}

func sub(a lib.M, k string) lib.M { return lib.M(a[k].(map[string]interface{})) }

func (w *world) do(a lib.M) {
	if w.be == "inmem" && (a.S("op") == "tx" || a.S("op") == "ptx" || (a.S("op") == "mid" && (sub(a, "a").S("op") == "tx" || sub(a, "a").S("op") == "ptx" || sub(a, "b").S("op") == "tx"))) {
		if a.S("op") != "tx" || a.S("end") == "fail" || failsAfterStart(w, a) {
			return
		}
	}
	if w.be == "inmem" && !w.ready(a) {
		return
	}
	w.imgs = nil
	w.rec = w.img && a.S("op") != "reopen"
	r := lib.M{"err": "ok"}
	switch a.S("op") {
	case "reopen":
		if w.be != "disk" {
			return
		}
		w.rm.Close()
		w.rm = open(w.dir())
	case "mid":
		done, once := make(chan error, 1), false
		x, y := sub(a, "a"), sub(a, "b")
		start := func() {
			if once {
				return
			}
			once = true
			go func() { done <- w.run(y, nil, nil) }()
			select {
			case err := <-done:
				done <- err
			case <-time.After(time.Duration(lib.Int("VH_WAIT", 25)) * time.Millisecond):
			}
		}
		ea := w.run(x, nil, start)
		start() // the update function was never entered: the calls follow each other
		r = lib.M{"a": lib.ErrS(ea), "b": lib.ErrS(<-done)}
	case "par":
		q := a.LM("q")
		rs := make([]string, len(q))
		var wg sync.WaitGroup
		for i := range q {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rs[i] = lib.ErrS(w.run(q[i], nil, nil))
			}(i)
		}
		wg.Wait()
		r = lib.M{"rs": rs}
	case "tx", "ptx":
		var in lib.M
		r["err"] = lib.ErrS(w.run(a, &in, nil))
		if in != nil && a.S("op") == "tx" {
			r["in"] = in
		}
	default:
		r["err"] = lib.ErrS(w.run(a, nil, nil))
	}
	w.rec = false
	for n, d := range w.imgs {
		rm := open(d)
		w.tr.Ev(lib.M{"op": "crash", "of": a, "at": n}, nil, look(bg, rm))
		rm.Close()
		os.RemoveAll(d)
	}
	w.tr.Ev(a, r, look(bg, w.rm))
}

// failsAfterStart tells whether a call of the transaction would be refused (looked up in the current state).
func failsAfterStart(w *world, a lib.M) bool {
	have := map[string]bool{}
	o := look(bg, w.rm)
	for _, k := range o["all"].([]int) {
		have[fmt.Sprint("t", k)] = true
	}
	for _, i := range o["mall"].([]int) {
		have[fmt.Sprint("m", i)] = true
	}
	for _, x := range a.LM("q") {
		switch x.S("op") {
		case "tNew":
			have[fmt.Sprint("t", x.I("k"))] = true
		case "mNew":
			have[fmt.Sprint("m", x.I("i"))] = true
		case "mDel":
			have[fmt.Sprint("m", x.I("i"))] = false
		case "tUpd":
			if x.S("w") == "err" || !have[fmt.Sprint("t", x.I("k"))] {
				return true
			}
		case "mUpd":
			if x.S("w") == "err" || !have[fmt.Sprint("m", x.I("i"))] {
				return true
			}
		case "mOpen":
			return true
		}
	}
	return false
}

// ready: what was skipped above may have been needed by later calls of the script.
func (w *world) ready(a lib.M) bool {
	o := look(bg, w.rm)
	if a.S("op") == "par" {
		return len(o["all"].([]int)) >= 2 && len(o["mall"].([]int)) >= 2
	}
	m := a
	if a.S("op") == "mid" {
		m = sub(a, "b")
	}
	return m.S("op") != "mPrice" || o["mk"].([]lib.M)[m.I("i")-1].I("q") != 0
}

func TestReplay(t *testing.T) {
	domain.EncrypterManager = encrypter{}
	w := &world{tr: lib.NewTracer(), be: os.Getenv("VH_BACKEND"), img: os.Getenv("VH_IMG") != ""}
	defer w.tr.Close()
	badger.VHCommit = w.keep
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
	w.rm.Close()
	os.RemoveAll(w.dir())
}
