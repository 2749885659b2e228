// Driver for spec/Restore.tla: initialising a wallet from its seed, through the gRPC handler, over real stores and a
// simulated chain.
package restore

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/vh/app"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc/metadata"
)

const nobody = 99 // "something that should not be there"

var assets = map[string]string{"B": app.Base, "Q1": app.AssetHex(0x11), "Q2": app.AssetHex(0x22), "Q3": app.AssetHex(0x33)}

func assetName(h string) string {
	for n, a := range assets {
		if a == h {
			return n
		}
	}
	if h == "" {
		return "-"
	}
	return "?"
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// place is a position in the wallet: account, chain, index.
type place struct{ acc, ch, ix int }

type coin struct {
	n  int
	at place
	c  *app.Coin
}

type world struct {
	tr      *lib.Tracer
	backend string
	bubble  bool
	n       int
	chain   *app.Chain
	store   ports.RepoManager
	mgr     *app.Manager
	cr      *app.Crawler
	started bool
	due     []string // transactions mined while nobody watched
	lis     application.BlockchainListener
	op      application.OperatorService
	ws      application.WalletService
	h       pb.WalletServer
	wal     *wallet.Wallet
	addr    map[place]string
	at      map[string]place // by address
	coins   map[string]coin  // by outpoint
	cache   map[string]*app.Coin
	raw     map[string]*transaction.Transaction
}

func newWorld(tr *lib.Tracer, backend string, bubble bool) *world {
	log.SetLevel(log.PanicLevel)
	domain.EncrypterManager = app.FastEncrypter{}
	w := &world{tr: tr, backend: backend, bubble: bubble, addr: map[place]string{}, at: map[string]place{},
		cache: map[string]*app.Coin{}, raw: map[string]*transaction.Transaction{}}
	x, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: app.Mnemonic})
	must(err)
	w.wal = x
	return w
}

// address of a place, by the derivation the wallet documents.
func (w *world) address(p place) string {
	a, ok := w.addr[p]
	if !ok {
		var err error
		a, _, err = w.wal.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{
			DerivationPath: fmt.Sprintf("%d'/%d/%d", p.acc, p.ch, p.ix), Network: app.Net})
		must(err)
		w.addr[p], w.at[a] = a, p
	}
	return a
}

// where is an address handed out by the daemon.
func (w *world) where(addr string) place {
	for ix := 0; ix < 80; ix++ {
		for acc := 0; acc < 9; acc++ {
			for ch := 0; ch < 2; ch++ {
				if p := (place{acc, ch, ix}); (ix < 4 || w.addr[p] != "") && w.address(p) == addr {
					return p
				}
			}
		}
	}
	for ix := 0; ix < 80; ix++ {
		for acc := 0; acc < 9; acc++ {
			if p := (place{acc, 0, ix}); w.address(p) == addr {
				return p
			}
		}
	}
	return place{nobody, nobody, nobody}
}

func (w *world) fund(at place, asset string, amt int, conf bool, spent bool) *app.Coin {
	k := fmt.Sprint(at, asset, amt)
	x, ok := w.cache[k]
	if !ok {
		x = w.chain.Fund(conf, app.Pay{Addr: w.address(at), Asset: assets[asset], Value: uint64(amt)})[0]
		w.cache[k], w.raw[k] = x, w.chain.Tx(x.Txid)
	}
	w.chain.Insert(w.raw[k], conf, []*app.Coin{x})
	if spent {
		tx := &transaction.Transaction{Version: 2}
		id, err := bufferutil.TxIDToBytes(x.Txid)
		must(err)
		tx.AddInput(transaction.NewTxInput(id, x.Vout))
		w.chain.Insert(tx, true, nil)
	}
	return x
}

func (w *world) reset(a lib.M) {
	if w.mgr != nil {
		w.mgr.Kill()
		w.store.Close()
	}
	w.n++
	w.chain = app.NewChain(rand.New(rand.NewSource(int64(w.n))))
	domain.MnemonicStoreManager.Unset()
	if w.backend == "inmem" {
		w.store = inmemory.NewRepoManager()
	} else {
		d := ""
		if os.Getenv("VH_DISK") == "1" {
			d = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprint("db", w.n))
			must(os.MkdirAll(d, 0700))
		}
		rm, err := dbbadger.NewRepoManager(d, nil)
		must(err)
		w.store = rm
	}
	w.coins, w.due = map[string]coin{}, nil
	w.boot()
}

func (w *world) use(a lib.M) {
	for _, u := range a.LM("used") {
		at := place{u.I("acc"), u.I("ch"), u.I("ix")}
		if u.I("n") == 0 { // everything received there is spent
			w.fund(at, "B", 777, true, true)
			continue
		}
		x := w.fund(at, u.S("asset"), u.I("amt"), u.B("conf"), false)
		w.coins[fmt.Sprint(x.Txid, ":", x.Vout)] = coin{u.I("n"), at, x}
	}
}

// mine confirms a coin; the daemon gets to know when it watches the chain, now or when it starts to.
func (w *world) mine(n int) {
	for _, c := range w.coins {
		if c.n == n {
			w.chain.Confirm(c.c.Txid)
			w.due = append(w.due, c.c.Txid)
		}
	}
	w.deliver()
}

func (w *world) deliver() {
	if !w.started {
		return
	}
	for _, t := range w.due {
		if w.cr.Watching("tx:" + t) {
			w.cr.Deliver(crawler.TransactionEvent{EventType: crawler.TransactionConfirmed, BlockHash: "b", BlockTime: 1, TxID: t, TxHex: w.chain.Hex(t)}, !w.bubble)
		}
	}
	w.due = nil
}

func (w *world) settle() {
	if w.bubble {
		time.Sleep(time.Second)
		synctest.Wait()
	} else {
		lib.Settle(30 * time.Millisecond)
	}
}

// boot starts the services of one run of the daemon over the store.
func (w *world) boot() {
	w.mgr = app.NewManager(w.store)
	w.cr, w.started = app.NewCrawler(), false
	w.lis = application.NewBlockchainListener(w.cr, w.mgr, &app.PubSub{}, app.Base, app.Net)
	ws, err := application.NewWalletService(w.mgr, w.chain, w.lis, app.Net, 25, app.Base)
	must(err)
	go func(ch chan application.PassphraseMsg) {
		for range ch {
		}
	}(ws.PassphraseChan())
	w.ws, w.h = ws, grpchandler.NewWalletHandler(ws)
	w.op = application.NewOperatorService(w.mgr, w.chain, w.lis, app.Base, 25, app.Net, 1000)
}

// stream is the client's side of an InitWallet call.
type stream struct {
	ctx    context.Context
	cancel func()
	leave  int // the client goes away at this reply
	mu     sync.Mutex
	n      int
}

func (s *stream) Send(*pb.InitWalletReply) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if s.leave > 0 && s.n >= s.leave {
		s.cancel()
		return errors.New("client gone")
	}
	return nil
}
func (s *stream) SetHeader(metadata.MD) error  { return nil }
func (s *stream) SendHeader(metadata.MD) error { return nil }
func (s *stream) SetTrailer(metadata.MD)       {}
func (s *stream) Context() context.Context     { return s.ctx }
func (s *stream) SendMsg(interface{}) error    { return nil }
func (s *stream) RecvMsg(interface{}) error    { return nil }

func passOf(s string) []byte { return []byte("Passw0rd-" + s) }

// calls runs n identical calls of InitWallet at the same time.
func (w *world) calls(a lib.M, n int) []string {
	out := make([]string, n)
	w.chain.FailAt = map[string]int{}
	fault, at := a.S("fault"), a.I("at")
	mgr := w.mgr
	switch fault {
	case "addrtxs", "unspents":
		w.chain.FailAt[fault] = at
	case "down":
		w.chain.FailOn = map[string]int{"addrtxs": -1, "unspents": -1}
	case "crash": // the daemon dies before it makes the at-th access to its stores
		var mu sync.Mutex
		k := 0
		mgr.SetGate(func(string) {
			mu.Lock()
			k++
			dead := k == at
			mu.Unlock()
			if dead {
				mgr.Kill()
				runtime.Goexit()
			}
		})
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			s := &stream{ctx: ctx, cancel: cancel}
			if fault == "leave" {
				s.leave = at
			}
			out[i] = "panic"
			done := make(chan string, 1)
			go func() {
				r := "dead"
				defer func() {
					if p := recover(); p != nil {
						r = "panic"
					}
					done <- r
				}()
				words := app.Mnemonic
				if fault == "words" {
					words = append(append([]string{}, words[:23]...), "zooo")
				}
				err := w.h.InitWallet(&pb.InitWalletRequest{SeedMnemonic: words, WalletPassword: passOf(a.S("pass")), Restore: a.B("restore")}, s)
				r = "ok"
				if err != nil {
					r = "err"
					if os.Getenv("VH_DEBUG") != "" {
						fmt.Println("init", a, err)
					}
				}
			}()
			limit := time.Hour
			if !w.bubble {
				limit = 30 * time.Second
			}
			select {
			case out[i] = <-done:
			case <-time.After(limit):
				out[i] = "hang"
			}
		}(i)
	}
	wg.Wait()
	mgr.SetGate(nil)
	w.chain.FailAt, w.chain.FailOn = map[string]int{}, map[string]int{}
	if w.bubble {
		time.Sleep(time.Minute)
		synctest.Wait()
	} else {
		lib.Settle(30 * time.Millisecond)
		for k := 0; fault == "leave" && k < 60 && w.phase() == "sync"; k++ {
			time.Sleep(50 * time.Millisecond)
		}
	}
	sort.Strings(out)
	return out
}

func (w *world) phase() string {
	err := w.ws.UnlockWallet(app.Ctx, "not the passphrase")
	switch {
	case errors.Is(err, application.ErrWalletIsSyncing):
		return "sync"
	case errors.Is(err, application.ErrWalletNotInitialized):
		return "none"
	}
	return "init"
}

func (w *world) observe() lib.M {
	o := lib.M{"phase": w.phase(), "next": []lib.M{}, "coins": []int{}, "mks": []lib.M{}, "bal": []lib.M{}, "open": false}
	v, err := w.store.VaultRepository().GetOrCreateVault(app.Ctx, nil, "", nil)
	o["vault"] = err == nil
	if err == nil {
		locked := v.IsLocked()
		if locked {
			domain.MnemonicStoreManager.Set(strings.Join(app.Mnemonic, " "))
		}
		next := []lib.M{}
		accs := []int{}
		for a := range v.Accounts {
			accs = append(accs, a)
		}
		sort.Ints(accs)
		for _, a := range accs {
			l, err := v.AllDerivedAddressesInfoForAccount(a)
			must(err)
			var n [2]int
			ok := true
			seen := map[place]bool{}
			for _, i := range l {
				s := strings.Split(strings.ReplaceAll(i.DerivationPath, "'", ""), "/")
				c, _ := strconv.Atoi(s[len(s)-2])
				x, _ := strconv.Atoi(s[len(s)-1])
				p := place{a, c, x}
				ok = ok && !seen[p] && w.address(p) == i.Address && i.AccountIndex == a
				seen[p] = true
				n[c]++
			}
			for c := 0; c < 2; c++ {
				for x := 0; x < n[c]; x++ {
					ok = ok && seen[place{a, c, x}]
				}
			}
			next = append(next, lib.M{"acc": a, "e": n[0], "i": n[1], "ok": ok})
		}
		o["next"] = next
		if locked {
			domain.MnemonicStoreManager.Unset()
		}
		o["open"] = !v.IsLocked()
	}
	cs, cf := []int{}, []int{}
	for _, u := range w.store.UnspentRepository().GetAllUnspents(app.Ctx) {
		c, ok := w.coins[fmt.Sprint(u.TxID, ":", u.VOut)]
		x := (*app.Coin)(nil)
		if ok {
			x = c.c
		}
		if !ok || u.Address != w.address(c.at) || u.Value != x.Value || u.AssetHash != x.Asset || u.Spent || u.Locked ||
			!bytes.Equal(u.ValueBlinder, x.VBF) || !bytes.Equal(u.AssetBlinder, x.ABF) || !bytes.Equal(u.ScriptPubKey, x.Out.Script) ||
			u.ValueCommitment != x.Utxo(true).ValueCommitment() ||
			u.AssetCommitment != x.Utxo(true).AssetCommitment() || !bytes.Equal(u.Nonce, x.Out.Nonce) {
			cs = append(cs, nobody)
			continue
		}
		cs = append(cs, c.n)
		if u.Confirmed {
			cf = append(cf, c.n)
		}
	}
	sort.Ints(cs)
	sort.Ints(cf)
	o["coins"], o["conf"] = cs, cf
	ms, err := w.store.MarketRepository().GetAllMarkets(app.Ctx)
	must(err)
	mks := []lib.M{}
	for _, m := range ms {
		mks = append(mks, lib.M{"acc": m.AccountIndex, "b": assetName(m.BaseAsset), "q": assetName(m.QuoteAsset), "open": m.IsTradable(), "fee": int(m.Fee)})
	}
	sort.Slice(mks, func(i, j int) bool { return mks[i].I("acc") < mks[j].I("acc") })
	o["mks"] = mks
	if o.B("open") {
		if b, err := w.ws.GetWalletBalance(app.Ctx); err == nil {
			bal := []lib.M{}
			for h, x := range b {
				bal = append(bal, lib.M{"a": assetName(h), "n": int(x.ConfirmedBalance)})
			}
			sort.Slice(bal, func(i, j int) bool { return bal[i].S("a") < bal[j].S("a") })
			o["bal"] = bal
		} else {
			o["bal"] = []lib.M{{"a": "err", "n": 0}}
		}
	}
	return o
}

func (w *world) derive(a lib.M) lib.M {
	var addr string
	var err error
	switch acc := a.I("acc"); acc {
	case domain.FeeAccount:
		var l []application.AddressAndBlindingKey
		if l, err = w.op.DepositFeeAccount(app.Ctx, 1); err == nil {
			addr = l[0].Address
		}
	case domain.WalletAccount:
		addr, _, err = w.ws.GenerateAddressAndBlindingKey(app.Ctx)
	default:
		m, e := w.store.MarketRepository().GetMarketByAccount(app.Ctx, acc)
		if e != nil || m == nil || m.QuoteAsset == "" {
			return lib.M{"res": "none", "ix": 0}
		}
		var l []application.AddressAndBlindingKey
		if l, err = w.op.DepositMarket(app.Ctx, m.BaseAsset, m.QuoteAsset, 1); err == nil {
			addr = l[0].Address
		}
	}
	if err != nil {
		return lib.M{"res": "err", "ix": 0}
	}
	p := w.where(addr)
	if p.acc != a.I("acc") || p.ch != 0 {
		return lib.M{"res": "odd", "ix": 0}
	}
	return lib.M{"res": "ok", "ix": p.ix}
}

func (w *world) do(a lib.M) {
	r := lib.M{"res": "ok"}
	switch a.S("op") {
	case "reset":
		w.reset(a)
	case "init":
		n := 1
		if a.B("twice") {
			n = 2
		}
		r["res"] = w.calls(a, n)
		if a.S("fault") == "crash" {
			w.mgr.Kill()
			r["res"] = []string{"dead"}
			domain.MnemonicStoreManager.Unset()
			w.boot()
		}
	case "unlock":
		if err := w.ws.UnlockWallet(app.Ctx, string(passOf(a.S("pass")))); err != nil {
			r["res"] = "err"
		} else {
			w.settle()
			w.started = true
			w.deliver()
			w.settle()
		}
	case "use":
		w.use(a)
	case "mine":
		w.mine(a.I("n"))
		w.settle()
	case "derive":
		r = w.derive(a)
	case "restart":
		w.mgr.Kill()
		domain.MnemonicStoreManager.Unset()
		w.boot()
		w.settle()
	default:
		panic(hex.EncodeToString([]byte(a.S("op"))))
	}
	w.tr.Ev(a, r, w.observe())
}
