// Driver for spec/Operator.tla: the operator and wallet services over real stores and a simulated chain.
package operator

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/vh/app"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

const (
	nobody  = 99 // "something that should not be there"
	unknown = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
	foreign = 2  // number of other people
)

var assets = map[string]string{"B": app.Base, "Q1": app.AssetHex(0x11), "Q2": app.AssetHex(0x22), "Q3": app.AssetHex(0x33), "X": unknown}

func assetName(h string) string {
	for n, a := range assets {
		if a == h {
			return n
		}
	}
	if h == "" {
		return "-"
	}
	return "?"
}

// asset gives the hash of a name; other names are not hashes at all.
func asset(n string) string {
	if h, ok := assets[n]; ok {
		return h
	}
	return "zz" + n
}

func debug(a ...interface{}) {
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Println(a...)
	}
}

type world struct {
	tr      *lib.Tracer
	backend string
	bubble  bool
	n       int
	rng     *rand.Rand
	chain   *app.Chain
	store   ports.RepoManager
	mgr     *app.Manager
	cr      *app.Crawler
	ps      *app.PubSub
	lis     application.BlockchainListener
	op      application.OperatorService
	ws      application.WalletService
	started bool
	ids     map[string]int
	txids   []string
	raw     map[string]*transaction.Transaction // payments that were not pushed
	mined   map[string]bool
	addrs   map[string]domain.AddressInfo // by script
	traders []*app.Trader
	cache   map[string][]*app.Coin
	ctx     map[string]*transaction.Transaction
	wal     *wallet.Wallet
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newWorld(tr *lib.Tracer, backend string, bubble bool) *world {
	log.SetLevel(log.PanicLevel)
	domain.EncrypterManager = app.FastEncrypter{}
	w := &world{tr: tr, backend: backend, bubble: bubble, cache: map[string][]*app.Coin{}, ctx: map[string]*transaction.Transaction{}}
	x, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: app.Mnemonic})
	must(err)
	w.wal = x
	for i := 0; i < foreign; i++ {
		w.traders = append(w.traders, app.NewTrader(rand.New(rand.NewSource(int64(500+i)))))
	}
	return w
}

func (w *world) settleDown(long bool) {
	switch {
	case w.bubble && long:
		time.Sleep(10 * time.Second)
		synctest.Wait()
	case w.bubble:
		time.Sleep(time.Second)
		synctest.Wait()
	case long:
		// the daemon takes up what it has to watch one by one, five in a second
		for n := -1; n != len(w.cr.Watched()); {
			n = len(w.cr.Watched())
			lib.Settle(300 * time.Millisecond)
		}
	default:
		lib.Settle(15 * time.Millisecond)
	}
}

// fund makes (or takes from the cache) a transaction with the given outputs and numbers it and its outputs.
func (w *world) fund(mined bool, pays ...app.Pay) []*app.Coin {
	k := fmt.Sprint(len(w.txids), "|", pays)
	cs, ok := w.cache[k]
	if !ok {
		cs = w.chain.Fund(mined, pays...)
		w.cache[k], w.ctx[k] = cs, w.chain.Tx(cs[0].Txid)
	}
	w.chain.Insert(w.ctx[k], mined, cs)
	w.txids = append(w.txids, cs[0].Txid)
	if mined {
		w.mined[cs[0].Txid] = true
	}
	for _, c := range cs {
		w.number(c.Txid, c.Vout)
	}
	return cs
}

func key(txid string, vout uint32) string { return fmt.Sprintf("%s:%d", txid, vout) }

func (w *world) number(txid string, vout uint32) { w.ids[key(txid, vout)] = len(w.ids) + 1 }

func (w *world) id(txid string, vout uint32) int {
	if n, ok := w.ids[key(txid, vout)]; ok {
		return n
	}
	return nobody
}

// point gives the outpoint of a coin.
func (w *world) point(id int) (string, int, bool) {
	for k, n := range w.ids {
		if n == id {
			s := strings.Split(k, ":")
			v, _ := strconv.Atoi(s[1])
			return s[0], v, true
		}
	}
	return "", 0, false
}

func (w *world) txnum(txid string) int {
	for i, t := range w.txids {
		if t == txid {
			return i + 1
		}
	}
	return nobody
}

func (w *world) reset(a lib.M) {
	if w.mgr != nil {
		w.mgr.Kill()
		w.stop()
		w.store.Close()
	}
	w.n++
	w.rng = rand.New(rand.NewSource(int64(w.n)))
	w.chain = app.NewChain(w.rng)
	domain.MnemonicStoreManager.Unset()
	if w.backend == "inmem" {
		w.store = inmemory.NewRepoManager()
	} else {
		d := ""
		if os.Getenv("VH_DISK") == "1" {
			d = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprint("db", w.n))
			must(os.MkdirAll(d, 0700))
		}
		rm, err := dbbadger.NewRepoManager(d, nil)
		must(err)
		w.store = rm
	}
	w.ids, w.txids, w.addrs = map[string]int{}, nil, map[string]domain.AddressInfo{}
	w.raw, w.mined = map[string]*transaction.Transaction{}, map[string]bool{}
	vr := w.store.VaultRepository()
	_, err := vr.GetOrCreateVault(app.Ctx, app.Mnemonic, app.Pass, app.Net)
	must(err)
	us := []domain.Unspent{}
	used := map[int]bool{}
	must(vr.UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) {
		for _, c := range a.LM("coins") {
			i, err := v.DeriveNextExternalAddressForAccount(c.I("acc"))
			must(err)
			used[c.I("acc")] = true
			x := w.fund(true, app.Pay{Addr: i.Address, Asset: asset(c.S("asset")), Value: uint64(c.I("amt"))})[0]
			u := x.Utxo(true)
			us = append(us, domain.Unspent{TxID: x.Txid, VOut: x.Vout, Value: x.Value, AssetHash: x.Asset, ValueCommitment: u.ValueCommitment(),
				AssetCommitment: u.AssetCommitment(), ValueBlinder: x.VBF, AssetBlinder: x.ABF, ScriptPubKey: x.Out.Script, Nonce: x.Out.Nonce,
				RangeProof: make([]byte, 1), SurjectionProof: make([]byte, 1), Address: i.Address, Confirmed: true})
		}
		for _, m := range a.LM("mks") {
			if !used[m.I("acc")] {
				_, err := v.DeriveNextExternalAddressForAccount(m.I("acc"))
				must(err)
			}
		}
		v.Lock()
		return v, nil
	}))
	if len(us) > 0 {
		must(w.store.UnspentRepository().AddUnspents(app.Ctx, us))
	}
	for _, m := range a.LM("mks") {
		mk, err := domain.NewMarket(m.I("acc"), 25)
		must(err)
		_, err = w.store.MarketRepository().GetOrCreateMarket(app.Ctx, mk)
		must(err)
		if m.S("q") == "-" {
			continue
		}
		must(w.store.MarketRepository().UpdateMarket(app.Ctx, m.I("acc"), func(x *domain.Market) (*domain.Market, error) {
			return x, x.FundMarket([]domain.OutpointWithAsset{{Asset: app.Base, Txid: "a", Vout: 0}, {Asset: asset(m.S("q")), Txid: "a", Vout: 1}}, app.Base)
		}))
	}
	w.boot()
	must(w.unlock())
}

// boot starts the services of one run of the daemon over the store.
func (w *world) boot() {
	w.mgr = app.NewManager(w.store)
	w.cr, w.ps = app.NewCrawler(), &app.PubSub{}
	w.lis = application.NewBlockchainListener(w.cr, w.mgr, w.ps, app.Base, app.Net)
	w.op = application.NewOperatorService(w.mgr, w.chain, w.lis, app.Base, 25, app.Net, 1000)
	ws, err := application.NewWalletService(w.mgr, w.chain, w.lis, app.Net, 25, app.Base)
	must(err)
	w.ws = ws
	w.started = false
}

func (w *world) unlock() error {
	if err := w.ws.UnlockWallet(app.Ctx, app.Pass); err != nil {
		return err
	}
	select {
	case <-w.ws.PassphraseChan():
		w.started = true
	default:
	}
	return nil
}

func (w *world) stop() {
	if w.started {
		w.lis.StopObservation()
		w.started = false
	}
}

// path splits m/84'/0'/5'/1/3 in account, chain, index.
func path(p string) (int, int, int) {
	s := strings.Split(strings.ReplaceAll(p, "'", ""), "/")
	n := len(s)
	a, _ := strconv.Atoi(s[n-3])
	c, _ := strconv.Atoi(s[n-2])
	i, _ := strconv.Atoi(s[n-1])
	return a, c, i
}

var accounts = []int{0, 1, 5, 6, 7, 8, 9, 10, 11, 12}

// refresh reads the addresses of the wallet and returns how many there are of each kind.
func (w *world) refresh() ([]int, bool) {
	next := []int{}
	w.addrs = map[string]domain.AddressInfo{}
	v, err := w.store.VaultRepository().GetOrCreateVault(app.Ctx, nil, "", nil)
	must(err)
	locked := v.IsLocked()
	if locked { // looking needs the seed
		must(v.Unlock(app.Pass))
		defer v.Lock()
	}
	for _, a := range accounts {
		n := [2]int{}
		l, err := v.AllDerivedAddressesInfoForAccount(a)
		if err == nil {
			for _, i := range l {
				w.addrs[i.Script] = i
				_, c, x := path(i.DerivationPath)
				if x >= n[c] {
					n[c] = x + 1
				}
			}
		}
		next = append(next, n[0], n[1])
	}
	return next, locked
}

// address gives an external address of an account.
func (w *world) address(acc, ix int) string {
	for _, i := range w.addrs {
		if a, c, x := path(i.DerivationPath); a == acc && c == 0 && x == ix {
			return i.Address
		}
	}
	return ""
}

func num(d decimal.Decimal) int { return int(d.IntPart()) }

func (w *world) observe() lib.M {
	next, locked := w.refresh()
	strats := map[int]string{int(domain.StrategyTypeBalanced): "bal", int(domain.StrategyTypePluggable): "plug"}
	mks, err := w.op.ListMarket(app.Ctx)
	must(err)
	markets := []lib.M{}
	for _, m := range mks {
		x := lib.M{"acc": int(m.AccountIndex), "q": assetName(m.Market.QuoteAsset), "open": m.Tradable, "fee": int(m.Fee.BasisPoint),
			"fb": int(m.Fee.FixedBaseFee), "fq": int(m.Fee.FixedQuoteFee), "strat": strats[m.StrategyType], "bp": num(m.Price.BasePrice), "qp": num(m.Price.QuotePrice)}
		if (m.Market.QuoteAsset != "") != (m.Market.BaseAsset == app.Base) {
			x["q"] = "?"
		}
		markets = append(markets, x)
	}
	sort.SliceStable(markets, func(i, j int) bool { return markets[i].I("acc") < markets[j].I("acc") })
	byq := []int{}
	for _, q := range []string{"Q1", "Q2", "Q3", "X"} {
		_, acc, err := w.store.MarketRepository().GetMarketByAsset(app.Ctx, asset(q))
		must(err)
		byq = append(byq, acc)
	}
	byacc := []lib.M{}
	for _, acc := range accounts[2:] {
		m, err := w.store.MarketRepository().GetMarketByAccount(app.Ctx, acc)
		must(err)
		q := "none"
		if m != nil {
			q = assetName(m.QuoteAsset)
		}
		byacc = append(byacc, lib.M{"acc": acc, "q": q})
	}
	tradable := []lib.M{}
	ts, err := w.store.MarketRepository().GetTradableMarkets(app.Ctx)
	must(err)
	for _, m := range ts {
		tradable = append(tradable, lib.M{"q": assetName(m.QuoteAsset)})
	}
	lists := []lib.M{}
	if !locked {
		for _, q := range []string{"Q1", "Q2", "Q3"} {
			l, err := w.op.ListMarketExternalAddresses(app.Ctx, application.Market{BaseAsset: app.Base, QuoteAsset: asset(q)})
			if err != nil {
				continue
			}
			_, acc, _ := w.store.MarketRepository().GetMarketByAsset(app.Ctx, asset(q))
			own := true
			for _, x := range l {
				sc, _ := app.AddrScript(x)
				i, ok := w.addrs[hex.EncodeToString(sc)]
				if !ok || i.AccountIndex != acc || i.Address != x {
					own = false
				} else if _, c, _ := path(i.DerivationPath); c != 0 {
					own = false
				}
			}
			lists = append(lists, lib.M{"q": q, "n": len(l), "own": own})
		}
	}
	coins := []lib.M{}
	slots := map[uuid.UUID]int{}
	for k := 1; k < 10; k++ {
		slots[slotID(k)] = k
	}
	us := w.store.UnspentRepository().GetAllUnspents(app.Ctx)
	kinds := map[string]string{}
	for _, u := range us {
		lock := 0
		if u.Locked {
			lock = nobody
			if u.LockedBy != nil && slots[*u.LockedBy] > 0 {
				lock = slots[*u.LockedBy]
			}
		}
		acc := -1
		if i, ok := w.addrs[hex.EncodeToString(u.ScriptPubKey)]; ok {
			acc, _, _ = path(i.DerivationPath)
			if i.Address != u.Address {
				acc = -2
			}
		}
		id := w.id(u.TxID, u.VOut)
		coins = append(coins, lib.M{"id": id, "acc": acc, "asset": assetName(u.AssetHash), "amt": int(u.Value),
			"conf": u.Confirmed, "spent": u.Spent, "lock": lock})
		kind := "free"
		if u.Spent {
			kind = "spent"
		} else if u.Locked {
			kind = "lock"
		}
		kinds[fmt.Sprint(acc, "|", key(u.TxID, u.VOut), "|", u.Value, "|", u.AssetHash)] = kind
	}
	sort.SliceStable(coins, func(i, j int) bool { return coins[i].I("id") < coins[j].I("id") })
	listed := true
	if l, err := w.op.ListUtxos(app.Ctx); err != nil {
		listed = false
		debug("listutxos", err)
	} else {
		n := 0
		for acc, x := range l {
			for kind, us := range map[string][]application.UtxoInfo{"free": x.Unspents, "spent": x.Spents, "lock": x.Locks} {
				for _, u := range us {
					n++
					if kinds[fmt.Sprint(acc, "|", key(u.Outpoint.Hash, uint32(u.Outpoint.Index)), "|", u.Value, "|", u.Asset)] != kind {
						listed = false
					}
				}
			}
		}
		if n != len(kinds) {
			listed = false
		}
	}
	watched := []int{}
	for _, k := range w.cr.Watched() {
		watched = append(watched, w.txnum(strings.TrimPrefix(k, "tx:")))
	}
	sort.Ints(watched)
	sent := []int{}
	for _, t := range w.chain.Sent {
		sent = append(sent, w.txnum(t))
	}
	return lib.M{"markets": markets, "byq": byq, "byacc": byacc, "tradable": tradable, "lists": lists, "coins": coins, "listed": listed,
		"next": next, "sent": sent, "watched": watched}
}

func slotID(k int) uuid.UUID { return uuid.NewSHA1(uuid.Nil, []byte{byte(k)}) }

// pair is the market an action is about.
func pair(a lib.M) application.Market {
	b := a.S("base")
	switch b {
	case "ok":
		b = "B"
	case "other":
		b = "Q3"
	}
	return application.Market{BaseAsset: asset(b), QuoteAsset: asset(a.S("q"))}
}

func (w *world) given(r lib.M, l []application.AddressAndBlindingKey) {
	w.refresh()
	out := []lib.M{}
	for _, x := range l {
		m := lib.M{"acc": nobody, "ch": nobody, "ix": nobody}
		sc, _ := app.AddrScript(x.Address)
		if i, ok := w.addrs[hex.EncodeToString(sc)]; ok && i.Address == x.Address && hex.EncodeToString(i.BlindingKey) == x.BlindingKey {
			m["acc"], m["ch"], m["ix"] = path(i.DerivationPath)
		}
		out = append(out, m)
	}
	r["addrs"] = out
}

// out is an output asked for: where it goes.
func (w *world) out(addr string) (string, lib.M) {
	m := lib.M{"to": 0, "acc": -1, "ch": 0, "ix": 0}
	switch addr {
	case "f1", "f2":
		n := int(addr[1] - '0')
		m["to"] = n
		return w.traders[n-1].Addr, m
	case "own":
		m["acc"] = 1
		return w.address(1, 0), m
	case "plain":
		m["to"] = 1
		_, s := w.traders[0].W.Script()
		p, err := payment.FromScript(s, app.Net, nil)
		must(err)
		x, err := p.WitnessPubKeyHash()
		must(err)
		return x, m
	}
	m["to"] = nobody
	return "not an address", m
}

func amount(n int) int64 {
	if n >= 1000000000 {
		return 1 << 62
	}
	return int64(n)
}

// paid describes the transaction of a payment as facts about coins and amounts.
func (w *world) paid(b []byte) (lib.M, *transaction.Transaction) {
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(b))
	if err != nil {
		return lib.M{"bad": err.Error()}, nil
	}
	w.refresh()
	ins, signed := []int{}, []int{}
	var prevs []*transaction.TxOutput
	for i, in := range tx.Inputs {
		txid := bufferutil.TxIDFromBytes(in.Hash)
		t := w.chain.Tx(txid)
		if t == nil {
			t = w.raw[txid]
		}
		if t == nil || int(in.Index) >= len(t.Outputs) {
			ins = append(ins, nobody)
			continue
		}
		prev := t.Outputs[in.Index]
		prevs = append(prevs, prev)
		n := w.id(txid, in.Index)
		ins = append(ins, n)
		if app.CheckWitness(tx, i, prev) == nil {
			signed = append(signed, n)
		}
	}
	outs := []lib.M{}
	fee, fees, extra := 0, 0, 0
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			fees++
			if bufferutil.AssetHashFromBytes(o.Asset) != app.Base {
				fees = nobody
			}
			fee += int(bufferutil.ValueFromBytes(o.Value))
			continue
		}
		m := lib.M{"to": 0, "acc": -1, "ch": 0, "ix": 0}
		var k []byte
		if info, ok := w.addrs[hex.EncodeToString(o.Script)]; ok {
			bk, _, err := w.wal.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: o.Script})
			must(err)
			k = bk.Serialize()
			m["acc"], m["ch"], m["ix"] = path(info.DerivationPath)
		}
		for n, t := range w.traders {
			if t.ScriptHex() == hex.EncodeToString(o.Script) {
				m["to"], k = n+1, t.W.BlindingKey()
			}
		}
		c, err := app.Reveal(tx, uint32(i), [][]byte{k})
		if k == nil || err != nil || !o.IsConfidential() {
			extra++
			continue
		}
		w.chain.Learn(c)
		m["asset"], m["amt"], m["vout"] = assetName(c.Asset), int(c.Value), i
		outs = append(outs, m)
	}
	return lib.M{"ins": ins, "signed": signed, "outs": outs, "fee": fee, "fees": fees, "extra": extra,
		"tally": app.Tally(prevs, tx.Outputs) == nil, "size": tx.VirtualSize()}, tx
}

// name numbers a payment and its outputs to the wallet.
func (w *world) name(d lib.M, tx *transaction.Transaction) {
	if tx == nil {
		return
	}
	txid := tx.TxHash().String()
	if w.chain.Tx(txid) == nil {
		w.raw[txid] = tx
	}
	w.txids = append(w.txids, txid)
	for _, o := range d.LM("outs") {
		if o.I("to") == 0 {
			w.number(txid, uint32(o.I("vout")))
		}
	}
}

func (w *world) outage(a lib.M, f func()) {
	if d := a.S("down"); d != "" {
		w.chain.FailOn[d] = -1
		defer func() { w.chain.FailOn[d] = 0 }()
	}
	f()
}

func (w *world) points(a lib.M) []application.TxOutpoint {
	out := []application.TxOutpoint{}
	pts, _ := a["pts"].([]interface{})
	for _, p := range pts {
		n := int(p.(float64))
		if n > 0 {
			if t, v, ok := w.point(n); ok {
				out = append(out, application.TxOutpoint{Hash: t, Index: v})
			}
			continue
		}
		x := application.TxOutpoint{Hash: strings.Repeat("ab", 32)}
		if n < 0 && len(w.txids) > 0 {
			x.Hash = w.txids[0]
			x.Index = -1
			if n == -1 {
				x.Index = len(w.chain.Tx(x.Hash).Outputs)
			}
		}
		out = append(out, x)
	}
	return out
}

// pay prepares a payment and returns how to make it.
func (w *world) pay(a lib.M) func() ([]byte, error) {
	reqs := []lib.M{}
	add := func(addr, as string, amt int) string {
		x, m := w.out(addr)
		m["asset"], m["amt"], m["addr"] = as, amt, addr
		reqs = append(reqs, m)
		return x
	}
	rate, push := a.I("rate"), a.B("push")
	if a.S("op") == "withdraw" {
		x, _ := w.out(a.S("addr"))
		if a.I("wb") != 0 {
			add(a.S("addr"), "B", a.I("wb"))
		}
		if a.I("wq") != 0 {
			add(a.S("addr"), a.S("q"), a.I("wq"))
		}
		a["reqs"] = reqs
		p := pair(a)
		return func() ([]byte, error) {
			return w.op.WithdrawMarketFunds(app.Ctx, application.WithdrawMarketReq{Market: p, Address: x, Push: push, MillisatPerByte: int64(rate),
				BalanceToWithdraw: application.Balance{BaseAmount: uint64(amount(a.I("wb"))), QuoteAmount: uint64(amount(a.I("wq")))}})
		}
	}
	outs := []application.TxOut{}
	for _, q := range a.LM("outs") {
		x := add(q.S("addr"), q.S("asset"), q.I("amt"))
		outs = append(outs, application.TxOut{Asset: asset(q.S("asset")), Value: amount(q.I("amt")), Address: x})
	}
	a["reqs"] = reqs
	return func() ([]byte, error) {
		return w.ws.SendToMany(app.Ctx, application.SendToManyRequest{Outputs: outs, MillisatPerByte: int64(rate), Push: push})
	}
}

func (w *world) mine(a lib.M) bool {
	n := a.I("tx")
	if n < 1 || n > len(w.txids) || w.mined[w.txids[n-1]] {
		return false
	}
	t := w.txids[n-1]
	if x := w.raw[t]; x != nil && w.chain.Tx(t) == nil {
		if w.chain.Validate(x) != nil {
			return false
		}
		w.chain.Insert(x, false, nil)
	}
	w.chain.Confirm(t)
	w.mined[t] = true
	if w.started && w.cr.Watching("tx:"+t) {
		w.cr.Deliver(crawler.TransactionEvent{EventType: crawler.TransactionConfirmed, BlockHash: "b", BlockTime: 1, TxID: t, TxHex: w.chain.Hex(t)}, !w.bubble)
	}
	return true
}

// run does one action of the services; payments return their bytes.
func (w *world) run(a lib.M) (lib.M, []byte) {
	r := lib.M{}
	var raw []byte
	var err error
	p := pair(a)
	fee := func(x application.MarketWithFee, f func(application.MarketWithFee) (*application.MarketWithFee, error)) {
		var s *application.MarketWithFee
		if s, err = f(x); err == nil {
			q := assetName(s.QuoteAsset)
			if s.BaseAsset != app.Base {
				q = "?"
			}
			r["shows"] = []interface{}{q, s.BasisPoint, s.FixedBaseFee, s.FixedQuoteFee}
		}
	}
	pan := lib.Safely(func() {
		w.outage(a, func() {
			switch a.S("op") {
			case "new", "deposit":
				var l []application.AddressAndBlindingKey
				if a.S("op") == "new" {
					l, err = w.op.DepositMarket(app.Ctx, "", "", a.I("n"))
				} else {
					l, err = w.op.DepositMarket(app.Ctx, p.BaseAsset, p.QuoteAsset, a.I("n"))
				}
				if err == nil {
					r["raw"] = l
				}
			case "fee":
				var l []application.AddressAndBlindingKey
				if l, err = w.op.DepositFeeAccount(app.Ctx, a.I("n")); err == nil {
					r["raw"] = l
				}
			case "addr":
				var x, k string
				if x, k, err = w.ws.GenerateAddressAndBlindingKey(app.Ctx); err == nil {
					r["raw"] = []application.AddressAndBlindingKey{{Address: x, BlindingKey: k}}
				}
			case "reload":
				err = w.op.ReloadUtxos(app.Ctx)
			case "claim":
				err = w.op.ClaimMarketDeposit(app.Ctx, p, w.points(a))
			case "claimfee":
				err = w.op.ClaimFeeDeposit(app.Ctx, w.points(a))
			case "open":
				err = w.op.OpenMarket(app.Ctx, p.BaseAsset, p.QuoteAsset)
			case "close":
				err = w.op.CloseMarket(app.Ctx, p.BaseAsset, p.QuoteAsset)
			case "pct":
				fee(application.MarketWithFee{Market: p, Fee: application.Fee{BasisPoint: int64(a.I("fee"))}},
					func(x application.MarketWithFee) (*application.MarketWithFee, error) {
						return w.op.UpdateMarketPercentageFee(app.Ctx, x)
					})
			case "fixed":
				fee(application.MarketWithFee{Market: p, Fee: application.Fee{FixedBaseFee: int64(a.I("fb")), FixedQuoteFee: int64(a.I("fq"))}},
					func(x application.MarketWithFee) (*application.MarketWithFee, error) {
						return w.op.UpdateMarketFixedFee(app.Ctx, x)
					})
			case "price":
				err = w.op.UpdateMarketPrice(app.Ctx, application.MarketWithPrice{Market: p,
					Price: application.Price{BasePrice: decimal.NewFromInt(int64(a.I("bp"))), QuotePrice: decimal.NewFromInt(int64(a.I("qp")))}})
			case "strat":
				s, ok := map[string]domain.StrategyType{"bal": domain.StrategyTypeBalanced, "plug": domain.StrategyTypePluggable}[a.S("strat")]
				if !ok {
					s = 77
				}
				err = w.op.UpdateMarketStrategy(app.Ctx, application.MarketStrategy{Market: p, Strategy: s})
			case "drop":
				err = w.op.DropMarket(app.Ctx, a.I("acc"))
			case "feebal":
				var n int64
				if n, err = w.op.FeeAccountBalance(app.Ctx); err == nil {
					r["n"] = n
				}
			case "walletbal":
				var b map[string]application.BalanceInfo
				if b, err = w.ws.GetWalletBalance(app.Ctx); err == nil {
					l := []lib.M{}
					for as, x := range b {
						l = append(l, lib.M{"asset": assetName(as), "conf": x.ConfirmedBalance, "unconf": x.UnconfirmedBalance, "total": x.TotalBalance})
					}
					sort.Slice(l, func(i, j int) bool { return l[i].S("asset") < l[j].S("asset") })
					r["bal"] = l
				}
			case "withdraw", "send":
				f := a["call"].(func() ([]byte, error))
				raw, err = f()
			case "reserve":
				_, err = w.store.UnspentRepository().LockUnspents(app.Ctx, w.keys(a), slotID(a.I("k")))
				must(err)
			case "release":
				_, err = w.store.UnspentRepository().UnlockUnspents(app.Ctx, w.keys(a))
				must(err)
			case "lock":
				must(w.store.VaultRepository().UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) { v.Lock(); return v, nil }))
			case "unlock":
				must(w.unlock())
			default:
				panic("unknown op " + a.S("op"))
			}
		})
	})
	r["res"] = lib.ErrS(err)
	if pan != "" {
		if strings.HasPrefix(pan, "unknown op") {
			panic(pan)
		}
		r["res"] = "panic"
	}
	debug(a, r["res"], err, pan)
	return r, raw
}

func (w *world) keys(a lib.M) []domain.UnspentKey {
	out := []domain.UnspentKey{}
	ids, _ := a["ids"].([]interface{})
	for _, i := range ids {
		if t, v, ok := w.point(int(i.(float64))); ok {
			out = append(out, domain.UnspentKey{TxID: t, VOut: uint32(v)})
		}
	}
	return out
}

// does tells whether the action makes sense here (what it refers to exists) and completes it.
func (w *world) does(a lib.M) bool {
	switch a.S("op") {
	case "withdraw", "send":
		own := a.S("addr") == "own"
		for _, o := range a.LM("outs") {
			own = own || o.S("addr") == "own"
		}
		if own && w.address(1, 0) == "" {
			return false
		}
		a["call"] = w.pay(a)
	case "claim", "claimfee":
		for _, p := range a["pts"].([]interface{}) {
			if _, _, ok := w.point(int(p.(float64))); p.(float64) > 0 && !ok {
				return false
			}
		}
	case "reserve", "release":
		for _, p := range a["ids"].([]interface{}) {
			if _, _, ok := w.point(int(p.(float64))); !ok {
				return false
			}
		}
	}
	return true
}

// after adds what can be read from the outcome of an action.
func (w *world) after(a, r lib.M, raw []byte) {
	delete(a, "call")
	if l, ok := r["raw"].([]application.AddressAndBlindingKey); ok {
		w.given(r, l)
	}
	delete(r, "raw")
	if (a.S("op") == "withdraw" || a.S("op") == "send") && r.S("res") == "ok" {
		d, tx := w.paid(raw)
		r["tx"] = d
		w.name(d, tx)
	}
}

func (w *world) do(a lib.M) {
	r := lib.M{}
	long := false
	switch a.S("op") {
	case "reset":
		w.reset(a)
	case "par":
		w.par(a.LM("q"))
		return
	case "pay":
		pays := []app.Pay{}
		for _, o := range a.LM("outs") {
			x := w.traders[0].Addr
			if o.I("acc") >= 0 {
				if x = w.address(o.I("acc"), 0); x == "" {
					return
				}
			}
			pays = append(pays, app.Pay{Addr: x, Asset: asset(o.S("asset")), Value: uint64(o.I("amt"))})
		}
		w.fund(a.B("mined"), pays...)
	case "mine":
		if !w.mine(a) {
			return
		}
	case "restart":
		w.mgr.Kill()
		w.stop()
		domain.MnemonicStoreManager.Unset()
		w.boot()
		a["keep"] = 1
	default:
		if !w.does(a) {
			return
		}
		var raw []byte
		long = a.S("op") == "unlock" && !w.started
		r, raw = w.run(a)
		w.after(a, r, raw)
	}
	w.settleDown(long)
	w.tr.Ev(a, r, w.observe())
}

// par runs the actions at the same time and records them as a group.
func (w *world) par(q []lib.M) {
	type job struct {
		a, r lib.M
		raw  []byte
		rank int
	}
	var jobs []*job
	for _, a := range q {
		x := &job{a: a.Copy()}
		if w.does(x.a) {
			jobs = append(jobs, x)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, x := range jobs {
		x := x
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			x.r, x.raw = w.run(x.a)
		}()
	}
	close(start)
	wg.Wait()
	w.settleDown(false)
	// payments are numbered in the order in which they took their change addresses
	for _, x := range jobs {
		if len(x.raw) > 0 {
			d, _ := w.paid(x.raw)
			for _, o := range d.LM("outs") {
				if o.I("to") == 0 && o.I("acc") == 0 {
					x.rank = o.I("ix")
				}
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].rank < jobs[j].rank })
	for _, x := range jobs {
		w.after(x.a, x.r, x.raw)
	}
	for i, x := range jobs {
		x.a["gn"] = len(jobs)
		x.a["gi"] = i
	}
	o := w.observe()
	for i, x := range jobs {
		if i+1 < len(jobs) {
			w.tr.Ev(x.a, x.r, lib.M{"skip": true})
		} else {
			w.tr.Ev(x.a, x.r, o)
		}
	}
}
