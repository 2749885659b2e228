// Driver for spec/Swap.tla: the trade service and the chain listener over real stores, with real confidential transactions.
package swap

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/vh/app"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

const (
	expiry  = 120 * time.Second
	nobody  = 99 // "something that should not be there"
	unknown = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
)

var assets = map[string]string{"B": app.Base, "Q1": app.AssetHex(0x11), "Q2": app.AssetHex(0x22), "X": unknown}

func assetName(h string) string {
	for n, a := range assets {
		if a == h {
			return n
		}
	}
	return "?"
}

type slot struct {
	k      int
	trader *app.Trader
	coins  []*app.Coin
	req    *pbswap.SwapRequest
	reqOut []*transaction.TxOutput
	acc    domain.SwapAccept
	id     uuid.UUID
	txid   string
	settle float64
}

type world struct {
	tr      *lib.Tracer
	backend string
	bubble  bool
	n       int
	rng     *rand.Rand
	chain   *app.Chain
	store   ports.RepoManager
	mgr     *app.Manager
	cr      *app.Crawler
	ps      *app.PubSub
	lis     application.BlockchainListener
	svc     application.TradeService
	started bool
	slots   map[int]*slot
	ids     map[string]int
	deps    map[string]int // deposit transactions
	torn    bool           // a proposal met a failing store: the in-memory one does not undo what was stored before that
	keys    []string
	addrs   map[string]domain.AddressInfo // by script
	t0      time.Time
	traders map[int]*app.Trader
	told    int // messages already described
	clock   int // seconds already emitted as ticks, in real time
	cache   map[string]*app.Coin
	ctx     map[string]*transaction.Transaction
	wal     *wallet.Wallet
}

func newWorld(tr *lib.Tracer, backend string, bubble bool) *world {
	log.SetLevel(log.PanicLevel)
	domain.EncrypterManager = app.FastEncrypter{}
	w := &world{tr: tr, backend: backend, bubble: bubble, rng: rand.New(rand.NewSource(1)), traders: map[int]*app.Trader{},
		cache: map[string]*app.Coin{}, ctx: map[string]*transaction.Transaction{}}
	x, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: app.Mnemonic})
	must(err)
	w.wal = x
	return w
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) settleDown() {
	if w.bubble {
		synctest.Wait()
	} else {
		lib.Settle(20 * time.Millisecond)
	}
}

func acct(m int) int { return 4 + m } // market 1 -> account 5

// coin makes (or takes from the cache) a coin paying addr.
func (w *world) coin(name, addr, asset string, v uint64, conf bool) *app.Coin {
	k := fmt.Sprint(name, "|", addr, "|", asset, "|", v)
	c, ok := w.cache[k]
	if !ok {
		c = w.chain.Fund(true, app.Pay{Addr: addr, Asset: asset, Value: v})[0]
		w.cache[k], w.ctx[k] = c, w.chain.Tx(c.Txid)
	}
	w.chain.Insert(w.ctx[k], conf, []*app.Coin{c})
	return c
}

func (w *world) reset(a lib.M) {
	if w.mgr != nil {
		w.mgr.Kill()
		w.stop()
		w.store.Close()
	}
	w.n++
	w.rng = rand.New(rand.NewSource(77))
	w.chain = app.NewChain(w.rng)
	domain.MnemonicStoreManager.Unset()
	if w.backend == "inmem" {
		w.store = inmemory.NewRepoManager()
	} else {
		d := ""
		if os.Getenv("VH_DISK") == "1" {
			d = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprint("db", w.n))
			must(os.MkdirAll(d, 0700))
		}
		rm, err := dbbadger.NewRepoManager(d, nil)
		must(err)
		w.store = rm
	}
	w.deps, w.torn = map[string]int{}, false
	w.slots, w.ids, w.keys, w.addrs = map[int]*slot{}, map[string]int{}, nil, map[string]domain.AddressInfo{}
	w.t0, w.clock = time.Now(), 0
	vr := w.store.VaultRepository()
	_, err := vr.GetOrCreateVault(app.Ctx, app.Mnemonic, app.Pass, app.Net)
	must(err)
	var us []domain.Unspent
	must(vr.UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) {
		us = nil
		v.InitAccount(domain.FeeAccount)
		for m := 1; m <= 2; m++ {
			v.InitAccount(acct(m))
		}
		for _, c := range a.LM("coins") {
			i, err := v.DeriveNextExternalAddressForAccount(c.I("acc"))
			must(err)
			x := w.coin("w", i.Address, assets[c.S("asset")], uint64(c.I("amt")), c.B("conf"))
			w.id(x.Txid, x.Vout)
			us = append(us, unspent(x, i.Address, c.B("conf")))
		}
		return v, nil
	}))
	must(w.store.UnspentRepository().AddUnspents(app.Ctx, us))
	for m := 1; m <= 2; m++ {
		mk, err := domain.NewMarket(acct(m), int64(a.I("fee")))
		must(err)
		_, err = w.store.MarketRepository().GetOrCreateMarket(app.Ctx, mk)
		must(err)
		must(w.store.MarketRepository().UpdateMarket(app.Ctx, acct(m), func(x *domain.Market) (*domain.Market, error) {
			must(x.FundMarket([]domain.OutpointWithAsset{{Asset: app.Base, Txid: "a", Vout: 0}, {Asset: assets[fmt.Sprint("Q", m)], Txid: "a", Vout: 1}}, app.Base))
			if a.B("plug") {
				must(x.MakeStrategyPluggable())
			}
			return x, nil
		}))
		if a.B("plug") {
			price := domain.Prices{BasePrice: decimal.NewFromFloat(0.5), QuotePrice: decimal.NewFromInt(2)}
			if a.I("fee") == 0 || m == 2 { // at par
				price = domain.Prices{BasePrice: decimal.NewFromInt(1), QuotePrice: decimal.NewFromInt(1)}
			}
			must(w.store.MarketRepository().UpdatePrices(app.Ctx, acct(m), price))
		}
		must(w.store.MarketRepository().OpenMarket(app.Ctx, assets[fmt.Sprint("Q", m)]))
	}
	w.boot()
}

func unspent(x *app.Coin, addr string, conf bool) domain.Unspent {
	u := x.Utxo(conf)
	return domain.Unspent{TxID: x.Txid, VOut: x.Vout, Value: x.Value, AssetHash: x.Asset, ValueCommitment: u.ValueCommitment(),
		AssetCommitment: u.AssetCommitment(), ValueBlinder: x.VBF, AssetBlinder: x.ABF, ScriptPubKey: x.Out.Script, Nonce: x.Out.Nonce,
		RangeProof: make([]byte, 1), SurjectionProof: make([]byte, 1), Address: addr, Confirmed: conf}
}

// boot starts the services of one run of the daemon over the store.
func (w *world) boot() {
	w.mgr = app.NewManager(w.store)
	w.cr, w.ps, w.told = app.NewCrawler(), &app.PubSub{}, 0
	w.lis = application.NewBlockchainListener(w.cr, w.mgr, w.ps, app.Base, app.Net)
	w.svc = application.NewTradeService(w.mgr, w.chain, w.lis, app.Base, expiry, decimal.NewFromFloat(0.1), app.Net)
	w.started = false
}

func (w *world) stop() {
	if w.started {
		w.lis.StopObservation()
		w.started = false
	}
}

func (w *world) id(txid string, vout uint32) int {
	k := fmt.Sprintf("%s:%d", txid, vout)
	if n, ok := w.ids[k]; ok {
		return n
	}
	w.keys = append(w.keys, k)
	w.ids[k] = len(w.keys)
	return len(w.keys)
}

// path splits m/84'/0'/5'/1/3 in account, chain, index.
func path(p string) (int, int, int) {
	s := strings.Split(strings.ReplaceAll(p, "'", ""), "/")
	n := len(s)
	a, _ := strconv.Atoi(s[n-3])
	c, _ := strconv.Atoi(s[n-2])
	i, _ := strconv.Atoi(s[n-1])
	return a, c, i
}

// known returns the wallet's view of a script.
func (w *world) known(script []byte) (domain.AddressInfo, bool) {
	i, ok := w.addrs[hex.EncodeToString(script)]
	return i, ok
}

var accounts = []int{0, 5, 6}

func (w *world) observe() lib.M {
	next := []int{}
	w.addrs = map[string]domain.AddressInfo{}
	v, err := w.store.VaultRepository().GetOrCreateVault(app.Ctx, nil, "", nil)
	must(err)
	if v.IsLocked() { // looking needs the seed
		must(v.Unlock(app.Pass))
		defer v.Lock()
	}
	for _, a := range accounts {
		l, err := v.AllDerivedAddressesInfoForAccount(a)
		must(err)
		n := [2]int{}
		for _, i := range l {
			w.addrs[i.Script] = i
			_, c, x := path(i.DerivationPath)
			if x >= n[c] {
				n[c] = x + 1
			}
		}
		next = append(next, n[0], n[1])
	}
	bySlot := map[uuid.UUID]int{}
	ts, err := w.store.TradeRepository().GetAllTrades(app.Ctx)
	must(err)
	trades := []lib.M{}
	settled := map[int]int{}
	for _, t := range ts {
		k := nobody
		for _, s := range w.slots {
			if t.SwapRequest.ID == s.req.GetId() {
				k = s.k
			}
		}
		if t.IsEmpty() {
			if w.torn {
				continue
			}
			k = nobody
		}
		bySlot[t.ID] = k
		m := lib.M{"k": k, "st": t.Status.Code, "failed": t.Status.Failed, "exp": 0, "time": int(t.SettlementTime), "hex": t.TxHex != ""}
		if t.ExpiryTime > 0 {
			m["exp"] = int(int64(t.ExpiryTime) - w.t0.Unix())
		}
		trades = append(trades, m)
	}
	sort.Slice(trades, func(i, j int) bool { return trades[i].I("k") < trades[j].I("k") })
	coins := []lib.M{}
	us := w.store.UnspentRepository().GetAllUnspents(app.Ctx)
	sort.Slice(us, func(i, j int) bool {
		a, b := us[i], us[j]
		ka, kb := w.ids[fmt.Sprintf("%s:%d", a.TxID, a.VOut)], w.ids[fmt.Sprintf("%s:%d", b.TxID, b.VOut)]
		if ka == 0 {
			ka = 1 << 20
		}
		if kb == 0 {
			kb = 1 << 20
		}
		if ka != kb {
			return ka < kb
		}
		if a.TxID != b.TxID {
			return a.TxID < b.TxID
		}
		return a.VOut < b.VOut
	})
	for _, u := range us {
		lock := 0
		if u.Locked {
			lock = nobody
			if u.LockedBy != nil {
				if k, ok := bySlot[*u.LockedBy]; ok {
					lock = k
				}
			}
		}
		acc := -1
		if i, ok := w.known(u.ScriptPubKey); ok {
			acc, _, _ = path(i.DerivationPath)
		}
		coins = append(coins, lib.M{"id": w.id(u.TxID, u.VOut), "acc": acc, "asset": assetName(u.AssetHash), "amt": int(u.Value),
			"conf": u.Confirmed, "spent": u.Spent, "lock": lock})
	}
	watched := []int{}
	for _, k := range w.cr.Watched() {
		n := nobody
		if d, ok := w.deps[strings.TrimPrefix(k, "tx:")]; ok {
			n = d
		}
		for _, s := range w.slots {
			if s.txid != "" && k == "tx:"+s.txid {
				n = s.k
			}
		}
		watched = append(watched, n)
	}
	sort.Ints(watched)
	sent := []int{}
	for _, id := range w.chain.Sent {
		n := nobody
		for _, s := range w.slots {
			if s.txid == id {
				n = s.k
			}
		}
		sent = append(sent, n)
	}
	for _, m := range w.ps.All() {
		n := nobody
		for _, s := range w.slots {
			if s.txid != "" && strings.Contains(m.Text, s.txid) && m.Topic == "TRADE_SETTLED" {
				n = s.k
			}
		}
		settled[n]++
	}
	told := []lib.M{}
	for _, m := range w.ps.All()[w.told:] {
		told = append(told, w.message(m.Text))
	}
	w.told = len(w.ps.All())
	pub := []lib.M{}
	for k, n := range settled {
		pub = append(pub, lib.M{"k": k, "n": n})
	}
	sort.Slice(pub, func(i, j int) bool { return pub[i].I("k") < pub[j].I("k") })
	return lib.M{"coins": coins, "next": next, "trades": trades, "watched": watched, "sent": sent, "pub": pub, "told": told,
		"now": int(time.Since(w.t0).Seconds())}
}

// message describes what subscribers are told of a settled trade.
func (w *world) message(text string) lib.M {
	var x struct {
		Txid string
		Swap struct {
			AmountP uint64 `json:"amount_p"`
			AmountR uint64 `json:"amount_r"`
			AssetP  string `json:"asset_p"`
			AssetR  string `json:"asset_r"`
		}
		Market struct {
			Base  string `json:"base_asset"`
			Quote string `json:"quote_asset"`
		}
		Balance struct {
			Base  int `json:"base_balance"`
			Quote int `json:"quote_balance"`
		}
	}
	r := lib.M{"k": nobody, "m": 0, "same": false, "calm": w.bubble, "bal": []int{}}
	if err := json.Unmarshal([]byte(text), &x); err != nil {
		return r
	}
	for m := 1; m <= 2; m++ {
		if x.Market.Base == app.Base && x.Market.Quote == assets[fmt.Sprint("Q", m)] {
			r["m"] = m
		}
	}
	for _, s := range w.slots {
		if s.txid != "" && s.txid == x.Txid {
			r["k"] = s.k
			r["same"] = x.Swap.AmountP == s.req.AmountP && x.Swap.AmountR == s.req.AmountR && x.Swap.AssetP == s.req.AssetP &&
				x.Swap.AssetR == s.req.AssetR && (x.Market.Quote == s.req.AssetP || x.Market.Quote == s.req.AssetR)
		}
	}
	r["bal"] = []int{x.Balance.Base, x.Balance.Quote}
	return r
}

func tradeType(d string) int {
	if d == "sell" {
		return application.TradeSell
	}
	return application.TradeBuy
}

func (w *world) preview(m application.Market, d string, amt uint64, asset string) (int, application.Balance) {
	p, err := w.svc.GetMarketPrice(app.Ctx, m, tradeType(d), amt, asset)
	if err != nil {
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Println("quote err", err)
		}
		return -1, application.Balance{}
	}
	if p.Amount > 1000000000 { // the specification counts with 32 bits
		return 1000000000, p.Balance
	}
	return int(p.Amount), p.Balance
}

// request prepares a proposal from the action and the current quotes.
func (w *world) request(a lib.M) (application.Market, *slot, lib.M) {
	k, d, kind := a.I("k"), a.S("dir"), a.S("kind")
	qn := fmt.Sprint("Q", a.I("m"))
	mk := application.Market{BaseAsset: app.Base, QuoteAsset: assets[qn]}
	p, r := qn, "B" // buy: the trader pays quote for base
	if d == "sell" {
		p, r = "B", qn
	}
	size := uint64(a.I("size"))
	other := uint64(1000)
	in := app.Base
	if a.B("fq") {
		in = mk.QuoteAsset
	}
	if q, _ := w.preview(mk, d, size, in); q >= 0 && q <= 50000000 {
		other = uint64(q) * uint64(a.I("off")) / 100
	}
	baseAmt, quoteAmt := size, other
	if a.B("fq") {
		baseAmt, quoteAmt = other, size
	}
	if baseAmt == 0 {
		baseAmt = 1
	}
	if quoteAmt == 0 {
		quoteAmt = 1
	}
	ap, ar := quoteAmt, baseAmt
	if d == "sell" {
		ap, ar = baseAmt, quoteAmt
	}
	q1, bal := w.preview(mk, d, baseAmt, app.Base)
	q2, _ := w.preview(mk, d, quoteAmt, mk.QuoteAsset)
	ev := lib.M{"q1": q1, "q2": q2, "bq": []int{int(bal.BaseAmount), int(bal.QuoteAmount)}, "base": int(baseAmt), "quote": int(quoteAmt)}

	switch kind {
	case "swapped":
		p, r, ap, ar = r, p, ar, ap
	case "foreignR": // receives the other market's asset
		if r == qn {
			r = fmt.Sprint("Q", 3-a.I("m"))
		} else {
			r = "X"
		}
	case "foreignP":
		if p == qn {
			p = fmt.Sprint("Q", 3-a.I("m"))
		} else {
			p = "X"
		}
	case "wrongbase":
		mk.BaseAsset = assets["Q2"]
		if a.I("m") == 2 {
			mk.BaseAsset = assets["Q1"]
		}
	case "unknown":
		mk.QuoteAsset = unknown
	}
	t, ok := w.traders[k]
	if !ok {
		t = app.NewTrader(rand.New(rand.NewSource(int64(1000 + k))))
		w.traders[k] = t
	}
	s := &slot{k: k, trader: t}
	var coins []*app.Coin
	if v := a.I("steal"); v > 0 && w.slots[v] != nil && w.slots[v].acc != nil { // pay with the wallet's own coins, reserved for trade v
		pt, _ := pset.NewPsetFromBase64(w.slots[v].acc.GetTransaction())
		for _, in := range pt.UnsignedTx.Inputs {
			if c := w.chain.Coin(bufferutil.TxIDFromBytes(in.Hash), in.Index); c != nil && c.Asset == assets[p] && c.Value >= ap {
				if _, own := w.known(c.Out.Script); own && len(coins) == 0 {
					coins = append(coins, c)
				}
			}
		}
	}
	stolen := len(coins) > 0
	if !stolen {
		from := t.Addr
		if (w.n+k)%4 == 3 { // out of a multi-signature account
			from = t.Vault()
		}
		switch k % 3 {
		case 0: // one coin, exact
			coins = append(coins, w.coin(fmt.Sprint("t", k), from, assets[p], ap, true))
		case 1: // one coin and change
			coins = append(coins, w.coin(fmt.Sprint("t", k), from, assets[p], ap+1500, true))
		case 2: // two coins
			h := ap/2 + 1
			coins = append(coins, w.coin(fmt.Sprint("t", k), from, assets[p], h, true), w.coin(fmt.Sprint("u", k), from, assets[p], h, true))
		}
	}
	req, err := t.Request(fmt.Sprintf("req-%d-%d", w.n, k), coins, assets[p], ap, assets[r], ar)
	must(err)
	if stolen {
		v := w.slots[a.I("steal")]
		for sc, bk := range v.acc.GetInputBlindingKey() {
			req.InputBlindingKey[sc] = bk
		}
	}
	switch kind {
	case "badpset":
		req.Transaction = "bm90IGEgcHNldA=="
	case "badkey":
		req.InputBlindingKey[hex.EncodeToString(coins[0].Out.Script)] = bytes.Repeat([]byte{7}, 32)
	case "nokey":
		req.InputBlindingKey = map[string][]byte{"00": bytes.Repeat([]byte{7}, 32)}
	case "nilkeys":
		req.InputBlindingKey, req.OutputBlindingKey = nil, nil
	case "nocoin": // the coin to spend is not described
		pt, err := pset.NewPsetFromBase64(req.Transaction)
		must(err)
		pt.Inputs[0].WitnessUtxo = nil
		req.Transaction, err = pt.ToBase64()
		must(err)
	case "nooutkey":
		req.OutputBlindingKey = map[string][]byte{"00": bytes.Repeat([]byte{7}, 32)}
	}
	if pt, err := pset.NewPsetFromBase64(req.Transaction); err == nil {
		s.reqOut = pt.UnsignedTx.Outputs
	}
	s.coins, s.req = coins, req
	ev["ap"], ev["ar"], ev["p"], ev["r"] = int(ap), int(ar), p, r
	return mk, s, ev
}

func outAmt(o *transaction.TxOutput) (string, int) {
	return bufferutil.AssetHashFromBytes(o.Asset), int(bufferutil.ValueFromBytes(o.Value))
}

// accepted describes the transaction of an acceptance as facts about coins and amounts.
func (w *world) accepted(s *slot) lib.M {
	pt, err := pset.NewPsetFromBase64(s.acc.GetTransaction())
	if err != nil {
		return lib.M{"bad": "pset"}
	}
	tx := pt.UnsignedTx
	s.txid = tx.TxHash().String()
	w.observe() // refreshes the address table
	left := map[string]bool{}
	for _, c := range s.coins {
		left[fmt.Sprintf("%s:%d", c.Txid, c.Vout)] = true
	}
	ins, signed, wrong := []int{}, []int{}, []int{}
	var prevs []*transaction.TxOutput
	for i, in := range tx.Inputs {
		txid := bufferutil.TxIDFromBytes(in.Hash)
		key := fmt.Sprintf("%s:%d", txid, in.Index)
		t := w.chain.Tx(txid)
		if t == nil || int(in.Index) >= len(t.Outputs) {
			ins = append(ins, nobody)
			continue
		}
		prev := t.Outputs[in.Index]
		prevs = append(prevs, prev)
		id := 0
		if left[key] {
			delete(left, key)
		} else if n, ok := w.ids[key]; ok {
			id = n
		} else {
			id = nobody
		}
		ins = append(ins, id)
		for _, ps := range pt.Inputs[i].PartialSigs {
			f := tx.Copy()
			f.Inputs[i].Witness = transaction.TxWitness{ps.Signature, ps.PubKey}
			if app.CheckWitness(f, i, prev) == nil && id > 0 && id < nobody {
				signed = append(signed, id)
			} else {
				wrong = append(wrong, i)
			}
		}
	}
	// the trader's own outputs: asked amount, then change
	tk := s.trader.W.BlindingKey()
	type want struct {
		asset string
		amt   int
	}
	wants := map[want]int{}
	for _, o := range s.reqOut {
		a, v := outAmt(o)
		wants[want{a, v}]++
	}
	outs := []lib.M{}
	fee, fees, extra := 0, 0, 0
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			a, v := outAmt(o)
			fees++
			if a != app.Base {
				fees = nobody
			}
			fee += v
			continue
		}
		if hex.EncodeToString(o.Script) == s.trader.ScriptHex() {
			c, err := app.Reveal(tx, uint32(i), [][]byte{tk})
			if err == nil && o.IsConfidential() && wants[want{c.Asset, int(c.Value)}] > 0 {
				wants[want{c.Asset, int(c.Value)}]--
				continue
			}
			extra++
			continue
		}
		bk, _, err := w.wal.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: o.Script})
		must(err)
		c, err := app.Reveal(tx, uint32(i), [][]byte{bk.Serialize()})
		info, own := w.known(o.Script)
		if err != nil || !own || !o.IsConfidential() {
			extra++
			continue
		}
		acc, ch, ix := path(info.DerivationPath)
		outs = append(outs, lib.M{"acc": acc, "ch": ch, "ix": ix, "asset": assetName(c.Asset), "amt": int(c.Value), "vout": i})
		w.chain.Learn(c)
	}
	missing := 0
	for _, n := range wants {
		missing += n
	}
	return lib.M{"ins": ins, "signed": signed, "wrong": wrong, "outs": outs, "fee": fee, "fees": fees, "extra": extra,
		"missing": missing + len(left), "tally": app.Tally(prevs, tx.Outputs) == nil, "size": tx.VirtualSize()}
}

func failKind(f domain.SwapFail, id string) string {
	if f == nil {
		return "none"
	}
	if f.GetMessageId() == id {
		return "mine"
	}
	return "other"
}

// prepare makes the proposal of an action; the returned function sends it.
func (w *world) prepare(a lib.M) (func() lib.M, *slot) {
	mk, s, ev := w.request(a)
	for k, v := range ev {
		a[k] = v
	}
	w.slots[s.k] = s
	return func() lib.M { return w.send(a, mk, s) }, s
}

func (w *world) propose(a lib.M) (lib.M, *slot) {
	f, s := w.prepare(a)
	return f(), s
}

func (w *world) send(a lib.M, mk application.Market, s *slot) lib.M {
	a["from"] = int(time.Now().Unix() - w.t0.Unix())
	w.mgr.FailAt(a.I("fault"))
	acc, fail, exp, err := w.svc.TradePropose(app.Ctx, mk, tradeType(a.S("dir")), s.req)
	a["to"] = int(time.Now().Unix() - w.t0.Unix())
	r := lib.M{}
	switch {
	case err != nil:
		r["res"] = "err"
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Println("propose err", err)
		}
		if fail != nil || acc != nil {
			r["res"] = "mixed"
		}
	case acc != nil && fail == nil:
		r["res"] = "acc"
		s.acc = acc
	case fail != nil && acc == nil:
		r["res"] = "rej"
		r["names"] = fail.GetMessageId() == s.req.GetId() && fail.GetId() != ""
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Println("propose rej", fail.GetFailureMessage())
		}
	default:
		r["res"] = "mixed"
	}
	if s.acc != nil {
		r["names"] = acc.GetRequestId() == s.req.GetId() && acc.GetId() != ""
		r["exp"] = int(int64(exp) - w.t0.Unix())
	}
	return r
}

// signedTx is the accepted transaction with the trader's signatures, as pset and as final hex.
func (w *world) signedTx(s *slot) (string, string) {
	p, err := s.trader.Sign(s.acc.GetTransaction())
	must(err)
	h, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: p})
	if err != nil {
		return p, ""
	}
	return p, h
}

// tamper moves the trader's first output elsewhere.
func (w *world) tamper(s *slot) string {
	pt, err := pset.NewPsetFromBase64(s.acc.GetTransaction())
	must(err)
	for _, o := range pt.UnsignedTx.Outputs {
		if _, own := w.known(o.Script); own {
			_, o.Script = app.NewTrader(rand.New(rand.NewSource(5))).W.Script()
			break
		}
	}
	b, err := pt.ToBase64()
	must(err)
	p, err := s.trader.Sign(b)
	must(err)
	return p
}

func (w *world) complete(a lib.M) lib.M {
	s := w.slots[a.I("k")]
	msg := &pbswap.SwapComplete{Id: "c", AcceptId: "no-such-id"}
	if s != nil && s.acc != nil {
		msg.AcceptId = s.acc.GetId()
		p, h := w.signedTx(s)
		switch a.S("kind") {
		case "pset", "down":
			msg.Transaction = p
		case "hex":
			msg.Transaction = h
		case "unsigned":
			msg.Transaction = s.acc.GetTransaction()
		case "tampered":
			msg.Transaction = w.tamper(s)
		case "tamperedhex":
			f, err := pset.NewPsetFromBase64(w.tamper(s))
			must(err)
			_ = pset.FinalizeAll(f)
			if t, err := pset.Extract(f); err == nil {
				msg.Transaction, err = t.ToHex()
				must(err)
			} else {
				msg.Transaction = "00"
			}
		case "stripped":
			f, err := pset.NewPsetFromBase64(s.acc.GetTransaction())
			must(err)
			msg.Transaction, err = f.UnsignedTx.ToHex()
			must(err)
		case "otherhex": // a valid transaction of the trader that is not the swap
			msg.Transaction = w.foreignTx(s)
		case "garbage":
			msg.Transaction = "zz not a transaction"
		case "emptytx":
			msg.Transaction = ""
		case "noid":
			msg.AcceptId, msg.Transaction = "", p
		case "badid":
			msg.AcceptId, msg.Transaction = "0011223344556677", p
		}
	}
	if a.S("kind") == "down" {
		w.chain.FailOn["broadcast"] = -1
	}
	var txid string
	var fail domain.SwapFail
	var err error
	pan := lib.Safely(func() {
		var m domain.SwapComplete = msg
		if a.S("kind") == "nil" {
			txid, fail, err = w.svc.TradeComplete(app.Ctx, nil, nil)
		} else {
			txid, fail, err = w.svc.TradeComplete(app.Ctx, &m, nil)
		}
	})
	if a.S("kind") == "down" {
		w.chain.FailOn["broadcast"] = 0
	}
	r := lib.M{"res": "err"}
	switch {
	case pan != "":
		r["res"] = "panic"
	case err == nil && fail != nil && txid == "":
		r["res"] = "fail"
		r["names"] = s != nil && s.acc != nil && fail.GetMessageId() == s.acc.GetId()
	case err == nil && fail == nil && s != nil && txid == s.txid && txid != "":
		r["res"] = "ok"
	case err == nil:
		r["res"] = "odd"
	}
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Println("complete", a, r, err, fail)
	}
	return r
}

// foreignTx spends one of the trader's other coins to the trader.
func (w *world) foreignTx(s *slot) string {
	c := w.coin(fmt.Sprint("f", s.k), s.trader.Addr, app.Base, 5000, true)
	p, err := pset.New([]*transaction.TxInput{}, []*transaction.TxOutput{}, 2, 0)
	must(err)
	u, _ := pset.NewUpdater(p)
	in, wu, err := c.Utxo(true).Parse()
	must(err)
	u.AddInput(in)
	must(u.AddInWitnessUtxo(wu, 0))
	ab, _ := bufferutil.AssetHashToBytes(app.Base)
	v, _ := bufferutil.ValueToBytes(4500)
	f, _ := bufferutil.ValueToBytes(500)
	_, sc := s.trader.W.Script()
	u.AddOutput(transaction.NewTxOutput(ab, v, sc))
	u.AddOutput(transaction.NewTxOutput(ab, f, []byte{}))
	b, err := p.ToBase64()
	must(err)
	b, err = s.trader.Sign(b)
	must(err)
	h, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: b})
	must(err)
	return h
}

func (w *world) fail(a lib.M) lib.M {
	s := w.slots[a.I("k")]
	msg := &pbswap.SwapFail{Id: "f", MessageId: "no-such-id", FailureCode: 1, FailureMessage: "changed my mind"}
	if s != nil && s.acc != nil {
		msg.MessageId = s.acc.GetId()
	}
	switch a.S("kind") {
	case "noid":
		msg.MessageId = ""
	case "badid":
		msg.MessageId = "0011223344556677"
	}
	var f domain.SwapFail = msg
	var txid string
	var fail domain.SwapFail
	var err error
	pan := lib.Safely(func() { txid, fail, err = w.svc.TradeComplete(app.Ctx, nil, &f) })
	r := lib.M{"res": "err"}
	switch {
	case pan != "":
		r["res"] = "panic"
	case err == nil && fail != nil && txid == "":
		r["res"] = "fail"
		r["names"] = fail.GetMessageId() == msg.MessageId
	case err == nil:
		r["res"] = "odd"
	}
	return r
}

// confirm mines the transaction of trade k (the trader publishes it himself if the daemon did not) and reports it.
func (w *world) confirm(a lib.M) (lib.M, bool) {
	if !w.started {
		return nil, false
	}
	ev := crawler.TransactionEvent{EventType: crawler.TransactionConfirmed, BlockHash: "b", BlockTime: float64(a.I("at"))}
	s := w.slots[a.I("k")]
	if a.I("k") == 0 { // a transaction of no trade
		t, ok := w.traders[0]
		if !ok {
			t = app.NewTrader(w.rng)
			w.traders[0] = t
		}
		c := w.coin("n", t.Addr, app.Base, 777, true)
		ev.TxID, ev.TxHex = c.Txid, w.chain.Hex(c.Txid)
	} else {
		if s == nil || s.acc == nil {
			return nil, false
		}
		if t, err := w.store.TradeRepository().GetTradeByTxID(app.Ctx, s.txid); err != nil || t.Status.Code == domain.Expired {
			return nil, false // nobody watches it any more
		}
		if w.chain.Tx(s.txid) == nil {
			_, h := w.signedTx(s)
			if h == "" {
				return nil, false
			}
			tx, err := transaction.NewTxFromHex(h)
			must(err)
			if w.chain.Validate(tx) != nil {
				return nil, false
			}
			w.chain.Insert(tx, false, nil)
		}
		w.chain.Confirm(s.txid)
		ev.TxID, ev.TxHex = s.txid, w.chain.Hex(s.txid)
	}
	w.mgr.FailAt(a.I("fault"))
	w.cr.Deliver(ev, !w.bubble)
	return lib.M{}, true
}

// deposit pays an address of market 1 (if it was not paid yet), has the transaction watched, and reports it confirmed.
func (w *world) deposit(a lib.M) {
	v, err := w.store.VaultRepository().GetOrCreateVault(app.Ctx, nil, "", nil)
	must(err)
	l, err := v.AllDerivedExternalAddressesInfoForAccount(acct(1))
	must(err)
	c := w.coin(fmt.Sprint("d", a.I("n")), l[0].Address, app.Base, uint64(a.I("amt")), true)
	w.id(c.Txid, c.Vout)
	w.deps[c.Txid] = 10 + a.I("n")
	w.lis.StartObserveTx(c.Txid)
	w.cr.Deliver(crawler.TransactionEvent{EventType: crawler.TransactionConfirmed, TxID: c.Txid, TxHex: w.chain.Hex(c.Txid), BlockHash: "b",
		BlockTime: 999}, !w.bubble)
}

// faulty ends the fault of an action and tells whether it made a store access fail.
func (w *world) faulty(a, r lib.M) {
	seen := w.mgr.Accesses()
	if n := w.mgr.FailAt(0); a.I("fault") > 0 {
		r["hit"], r["of"] = n > 0, seen
		w.torn = w.torn || n > 0 && a.S("op") == "propose"
	}
}

func (w *world) do(a lib.M) {
	r := lib.M{}
	switch a.S("op") {
	case "reset":
		w.reset(a)
	case "par":
		w.par(a.LM("q"))
		return
	case "propose":
		if w.slots[a.I("k")] != nil {
			return
		}
		var s *slot
		r, s = w.propose(a)
		w.settleDown()
		w.faulty(a, r)
		if s.acc != nil {
			r["tx"] = w.accepted(s)
			w.name(s)
		}
	case "complete":
		r = w.complete(a)
	case "fail":
		w.mgr.FailAt(a.I("fault"))
		r = w.fail(a)
		w.faulty(a, r)
	case "deposit":
		if !w.started {
			return
		}
		w.mgr.FailAt(a.I("fault"))
		w.deposit(a)
		w.settleDown()
		w.faulty(a, r)
	case "confirm":
		var ok bool
		if r, ok = w.confirm(a); !ok {
			return
		}
		w.settleDown()
		w.faulty(a, r)
	case "tick":
		time.Sleep(time.Duration(a.I("dt")) * time.Second)
	case "open":
		must(w.store.MarketRepository().OpenMarket(app.Ctx, assets[fmt.Sprint("Q", a.I("m"))]))
	case "close":
		must(w.store.MarketRepository().CloseMarket(app.Ctx, assets[fmt.Sprint("Q", a.I("m"))]))
	case "lock":
		must(w.store.VaultRepository().UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) { v.Lock(); return v, nil }))
	case "unlock":
		must(w.store.VaultRepository().UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) { return v, v.Unlock(app.Pass) }))
	case "observe":
		if w.started {
			return
		}
		w.lis.StartObservation()
		w.started = true
		time.Sleep(10 * time.Second)
	case "restart":
		w.mgr.Kill()
		w.stop()
		w.boot()
		a["keep"] = 1
	default:
		panic("unknown op " + a.S("op"))
	}
	w.settleDown()
	w.emit(a, r)
}

// emit records an event; in real time it first records the time that went by.
func (w *world) emit(a, r lib.M) {
	o := w.observe()
	if !w.bubble {
		if a.S("op") != "reset" {
			w.pass()
		}
		o["now"] = w.clock
	}
	w.tr.Ev(a, r, o)
}

func (w *world) pass() {
	if n := int(time.Since(w.t0).Seconds()); n > w.clock {
		w.tr.Ev(lib.M{"op": "tick", "dt": n - w.clock}, lib.M{}, lib.M{"skip": true, "now": n})
		w.clock = n
	}
}

// par runs the actions at the same time and records them one after the other, in an order in which they can have taken effect:
// completions and cancellations first (those that succeeded before those that were refused), then the acceptances in the order
// in which they took their addresses, then the rejections.
func (w *world) par(q []lib.M) {
	type run struct {
		a, r lib.M
		s    *slot
		rank int
	}
	var runs []*run
	var fs []func()
	lax := false
	for _, a := range q {
		x := &run{a: a.Copy()}
		switch x.a.S("op") {
		case "propose":
			if w.slots[x.a.I("k")] != nil {
				continue
			}
			f, s := w.prepare(x.a)
			x.s = s
			x.a["par"] = true
			fs = append(fs, func() { x.r = f() })
		case "complete":
			fs = append(fs, func() { x.r = w.complete(x.a) })
		case "fail":
			lax = true
			fs = append(fs, func() { x.r = w.fail(x.a) })
		}
		runs = append(runs, x)
	}
	if len(runs) == 0 {
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range fs {
		f := fs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	w.settleDown()
	for _, x := range runs {
		x.a["lax"] = lax
		switch {
		case x.s == nil:
			x.rank = 1
			if x.r.S("res") == "ok" || (x.a.S("op") == "fail" && x.r.S("res") == "fail") {
				x.rank = 0
			}
		case x.s.acc == nil:
			x.rank = 1 << 30
		default:
			d := w.accepted(x.s)
			x.r["tx"] = d
			x.rank = 10
			for _, o := range d.LM("outs") {
				if o.I("acc") == 0 {
					x.rank = 20 + o.I("ix")*10
				}
			}
		}
	}
	sort.SliceStable(runs, func(i, j int) bool { return runs[i].rank < runs[j].rank })
	for _, x := range runs {
		if x.s != nil && x.s.acc != nil {
			w.name(x.s)
		}
	}
	w.pass()
	o := w.observe()
	o["now"] = w.clock
	for i, x := range runs {
		if i+1 < len(runs) {
			w.tr.Ev(x.a, x.r, lib.M{"skip": true, "now": w.clock})
		} else {
			w.tr.Ev(x.a, x.r, o)
		}
	}
}

// name gives the wallet's outputs of an accepted transaction their coin ids, in output order.
func (w *world) name(s *slot) {
	pt, err := pset.NewPsetFromBase64(s.acc.GetTransaction())
	must(err)
	for i, o := range pt.UnsignedTx.Outputs {
		if _, own := w.known(o.Script); own {
			w.id(s.txid, uint32(i))
		}
	}
}
