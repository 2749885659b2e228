package views

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/vh/app"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

var assets = map[string]string{"B": app.Base, "Q1": app.AssetHex(0x11), "Q2": app.AssetHex(0x22), "X": app.AssetHex(0x77)}

func name(h string) string {
	for n, a := range assets {
		if a == h {
			return n
		}
	}
	return "?" + h
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// hooks is a registry of webhooks.
type hook struct {
	id, label, at string
	sec           bool
	code          int
}

func (h hook) Topic() ports.Topic { return topic{h.code, h.label} }
func (h hook) Id() string         { return h.id }
func (h hook) IsSecured() bool    { return h.sec }
func (h hook) NotifyAt() string   { return h.at }

type topic struct {
	c int
	l string
}

func (t topic) Code() int     { return t.c }
func (t topic) Label() string { return t.l }

type registry struct {
	app.PubSub
	all []hook
	n   int
}

func (r *registry) Subscribe(l string, args ...interface{}) (string, error) {
	t, ok := r.TopicsByLabel()[l]
	if !ok || len(args) < 2 {
		return "", fmt.Errorf("unknown topic")
	}
	r.n++
	h := hook{id: fmt.Sprint("h", r.n), label: l, code: t.Code(), at: args[0].(string), sec: args[1].(string) != ""}
	r.all = append(r.all, h)
	return h.id, nil
}
func (r *registry) Unsubscribe(l, id string) error {
	for i, h := range r.all {
		if h.id == id && (l == "" || l == h.label) {
			r.all = append(append([]hook{}, r.all[:i]...), r.all[i+1:]...)
			return nil
		}
	}
	return fmt.Errorf("not found")
}
func (r *registry) ListSubscriptionsForTopic(l string) []ports.Subscription {
	out := []ports.Subscription{}
	for _, h := range r.all {
		if h.label == l {
			out = append(out, h)
		}
	}
	return out
}

// revealer stands in for the unblinding of a swap transaction, whose outputs it knows by name.
type revealer struct {
	application.TransactionHandler
	w *world
}

func (r revealer) ExtractBlindingData(p string, in, out map[string][]byte) (map[int]application.BlindingData, map[int]application.BlindingData, error) {
	n, err := strconv.Atoi(strings.TrimPrefix(p, "pset"))
	if err != nil || string(out["k"]) != fmt.Sprint("key", n) {
		return nil, nil, fmt.Errorf("cannot reveal")
	}
	t := r.w.trades[n]
	m := map[int]application.BlindingData{}
	for i, o := range []struct {
		as string
		v  int
	}{{t.S("r"), t.I("ar")}, {t.S("p"), t.I("ap")}} {
		m[i] = application.BlindingData{Asset: assets[o.as], Amount: r.w.up(o.v), AmountBlinder: blinder(n, i, 1), AssetBlinder: blinder(n, i, 2)}
	}
	return nil, m, nil
}

func blinder(n, i, k int) []byte {
	b := bytes.Repeat([]byte{byte(n)}, 32)
	b[0], b[1] = byte(i), byte(k)
	return b
}

type world struct {
	tr      *lib.Tracer
	backend string
	scale   uint64
	store   ports.RepoManager
	mgr     *app.Manager
	chain   *app.Chain
	reg     *registry
	op      pbop.OperatorServer
	td      pbtrade.TradeServer
	wl      pbwallet.WalletServer
	trades  map[int]lib.M
	tids    map[int]uuid.UUID
	keys    map[int]domain.UnspentKey
	addr    map[string]bool // external addresses ever given
	acc     map[string]int
	wtx     map[int]string
	waddr   string
	rng     *rand.Rand
	cache   map[string][]*app.Coin
	n       int
}

var txs = map[string]*transaction.Transaction{} // those of the wallet's coins

func newWorld(tr *lib.Tracer, backend string) *world {
	log.SetLevel(log.PanicLevel)
	domain.EncrypterManager = app.FastEncrypter{}
	config.Set(config.BaseAssetKey, app.Base)
	w := &world{tr: tr, backend: backend, cache: map[string][]*app.Coin{}}
	application.TransactionManager = revealer{application.TransactionManager, w}
	return w
}

func (w *world) up(v int) uint64 { return uint64(v) * w.scale }

// down gives an amount back in units; what is no whole number of them shows up as a negative number.
func (w *world) down(v uint64) int {
	if v%w.scale != 0 || v/w.scale > 2000000000 {
		return -int(v%1000000) - 1
	}
	return int(v / w.scale)
}

// fee gives a fee in units, or ten-thousandths of them.
func (w *world) fee(v uint64) int {
	if w.scale == 1 {
		return int(v)
	}
	if v%(w.scale/10000) != 0 {
		return -int(v%1000000) - 1
	}
	return int(v / (w.scale / 10000))
}

func (w *world) reset(a lib.M) {
	if w.store != nil {
		w.mgr.Kill()
		w.store.Close()
	}
	w.n++
	w.scale = 1
	if a.B("big") {
		w.scale = 1000000000000
	}
	w.rng = rand.New(rand.NewSource(7))
	w.chain = app.NewChain(w.rng)
	domain.MnemonicStoreManager.Unset()
	if w.backend == "inmem" {
		w.store = inmemory.NewRepoManager()
	} else {
		rm, err := dbbadger.NewRepoManager("", nil)
		must(err)
		w.store = rm
	}
	w.trades, w.tids, w.keys, w.addr, w.acc, w.wtx = map[int]lib.M{}, map[int]uuid.UUID{}, map[int]domain.UnspentKey{}, map[string]bool{}, map[string]int{}, map[int]string{}
	vr := w.store.VaultRepository()
	_, err := vr.GetOrCreateVault(app.Ctx, app.Mnemonic, app.Pass, app.Net)
	must(err)
	w.waddr = w.address(1, true)
	w.address(0, true)
	for _, m := range a.LM("mks") {
		w.address(m.I("acc"), true)
		mk, err := domain.NewMarket(m.I("acc"), 25)
		must(err)
		_, err = w.store.MarketRepository().GetOrCreateMarket(app.Ctx, mk)
		must(err)
		if m.S("q") == "-" {
			continue
		}
		must(w.store.MarketRepository().UpdateMarket(app.Ctx, m.I("acc"), func(x *domain.Market) (*domain.Market, error) {
			return x, x.FundMarket([]domain.OutpointWithAsset{{Asset: app.Base, Txid: "a", Vout: 0}, {Asset: assets[m.S("q")], Txid: "a", Vout: 1}}, app.Base)
		}))
	}
	w.mgr = app.NewManager(w.store)
	w.reg = &registry{}
	lis := application.NewBlockchainListener(app.NewCrawler(), w.mgr, w.reg, app.Base, app.Net)
	w.op = grpchandler.NewOperatorHandler(application.NewOperatorService(w.mgr, w.chain, lis, app.Base, 25, app.Net, 1000))
	ws, err := application.NewWalletService(w.mgr, w.chain, lis, app.Net, 25, app.Base)
	must(err)
	w.wl = grpchandler.NewWalletHandler(ws)
	w.td = grpchandler.NewTraderHandler(application.NewTradeService(w.mgr, w.chain, lis, app.Base, time.Minute, decimal.NewFromFloat(0.1), app.Net))
}

// address derives one.
func (w *world) address(acc int, ext bool) (addr string) {
	must(w.store.VaultRepository().UpdateVault(app.Ctx, func(v *domain.Vault) (*domain.Vault, error) {
		f := v.DeriveNextInternalAddressForAccount
		if ext {
			f = v.DeriveNextExternalAddressForAccount
		}
		i, err := f(acc)
		must(err)
		addr = i.Address
		return v, nil
	}))
	if ext {
		w.addr[addr] = true
	}
	w.acc[addr] = acc
	return
}

func market(q string) *pbtypes.Market {
	return &pbtypes.Market{BaseAsset: app.Base, QuoteAsset: assets[q]}
}

func (w *world) updateTrade(a lib.M, f func(t *domain.Trade)) {
	id := w.tids[a.I("n")]
	must(w.store.TradeRepository().UpdateTrade(app.Ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
		f(t)
		return t, nil
	}))
}

func msg(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	must(err)
	return b
}

func keysOf(w *world, a lib.M) (out []domain.UnspentKey) {
	for _, x := range a["ids"].([]interface{}) {
		out = append(out, w.keys[int(x.(float64))])
	}
	return
}

func feeOf(w *world, m *pbtypes.MarketWithFee) lib.M {
	f := m.GetFee()
	return lib.M{"base": name(m.GetMarket().GetBaseAsset()), "q": name(m.GetMarket().GetQuoteAsset()), "bps": int(f.GetBasisPoint()),
		"fb": w.down(uint64(f.GetFixed().GetBaseFee())), "fq": w.down(uint64(f.GetFixed().GetQuoteFee()))}
}

func (w *world) do(a lib.M) {
	r := lib.M{"ok": true}
	fail := func(err error) {
		r["ok"] = err == nil
	}
	c := app.Ctx
	q := a.S("q")
	switch a.S("op") {
	case "reset":
		w.reset(a)
	case "dep":
		rep, err := w.op.DepositMarket(c, &pbop.DepositMarketRequest{Market: market(q), NumOfAddresses: int64(a.I("n"))})
		fail(err)
		w.given(r, rep.GetAddresses())
	case "depfee":
		rep, err := w.op.DepositFeeAccount(c, &pbop.DepositFeeAccountRequest{NumOfAddresses: int64(a.I("n"))})
		fail(err)
		l := []string{}
		for _, x := range rep.GetAddressWithBlindingKey() {
			l = append(l, x.GetAddress())
		}
		w.given(r, l)
	case "coin":
		acc := a.I("acc")
		u := domain.Unspent{TxID: hex.EncodeToString(bytes.Repeat([]byte{byte(a.I("id"))}, 32)), VOut: uint32(a.I("id") * 3), Value: w.up(a.I("amt")), AssetHash: assets[a.S("asset")],
			Address: w.address(acc, !a.B("chg")), Confirmed: a.B("conf"), ScriptPubKey: []byte{1, 2}, Nonce: make([]byte, 33), RangeProof: []byte{1}, SurjectionProof: []byte{1}}
		must(w.store.UnspentRepository().AddUnspents(c, []domain.Unspent{u}))
		w.keys[a.I("id")] = u.Key()
	case "lock":
		_, err := w.store.UnspentRepository().LockUnspents(c, keysOf(w, a), uuid.NewSHA1(uuid.Nil, []byte{byte(a.I("by"))}))
		must(err)
	case "unlock":
		_, err := w.store.UnspentRepository().UnlockUnspents(c, keysOf(w, a))
		must(err)
	case "spend":
		_, err := w.store.UnspentRepository().SpendUnspents(c, keysOf(w, a))
		must(err)
	case "confirm":
		_, err := w.store.UnspentRepository().ConfirmUnspents(c, keysOf(w, a))
		must(err)
	case "pct":
		rep, err := w.op.UpdateMarketPercentageFee(c, &pbop.UpdateMarketPercentageFeeRequest{Market: market(q), BasisPoint: int64(a.I("bps"))})
		fail(err)
		r["shown"] = feeOf(w, rep.GetMarketWithFee())
	case "fixed":
		rep, err := w.op.UpdateMarketFixedFee(c, &pbop.UpdateMarketFixedFeeRequest{Market: market(q), Fixed: &pbtypes.Fixed{BaseFee: int64(w.up(a.I("fb"))), QuoteFee: int64(w.up(a.I("fq")))}})
		fail(err)
		r["shown"] = feeOf(w, rep.GetMarketWithFee())
	case "price":
		p := func(k string) float32 { f, err := strconv.ParseFloat(a.S(k), 32); must(err); return float32(f) }
		_, err := w.op.UpdateMarketPrice(c, &pbop.UpdateMarketPriceRequest{Market: market(q), Price: &pbtypes.Price{BasePrice: p("bp"), QuotePrice: p("qp")}})
		fail(err)
	case "strat":
		s := pbop.StrategyType_PLUGGABLE
		if a.S("strat") == "bal" {
			s = pbop.StrategyType_BALANCED
		}
		_, err := w.op.UpdateMarketStrategy(c, &pbop.UpdateMarketStrategyRequest{Market: market(q), StrategyType: s})
		fail(err)
	case "open":
		_, err := w.op.OpenMarket(c, &pbop.OpenMarketRequest{Market: market(q)})
		fail(err)
	case "close":
		_, err := w.op.CloseMarket(c, &pbop.CloseMarketRequest{Market: market(q)})
		fail(err)
	case "drop":
		_, err := w.op.DropMarket(c, &pbop.DropMarketRequest{AccountIndex: uint64(a.I("acc"))})
		fail(err)
	case "trade":
		n := a.I("n")
		t, err := w.store.TradeRepository().GetOrCreateTrade(c, nil)
		must(err)
		w.tids[n], w.trades[n] = t.ID, a
		w.updateTrade(a, func(t *domain.Trade) {
			d := func(k string) decimal.Decimal { x, err := decimal.NewFromString(a.S(k)); must(err); return x }
			t.MarketQuoteAsset, t.MarketPrice = assets[q], domain.Prices{BasePrice: d("bp"), QuotePrice: d("qp")}
			t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = int64(a.I("bps")), int64(w.up(a.I("fb"))), int64(w.up(a.I("fq")))
			t.TraderPubkey, t.Status = []byte{2}, domain.ProposalStatus
			id := fmt.Sprint("req", n)
			t.SwapRequest = domain.Swap{ID: id, Timestamp: uint64(a.I("t")), Message: msg(&pbswap.SwapRequest{Id: id, AssetP: assets[a.S("p")], AmountP: w.up(a.I("ap")), AssetR: assets[a.S("r")], AmountR: w.up(a.I("ar"))})}
		})
	case "accept":
		w.updateTrade(a, func(t *domain.Trade) {
			n := a.I("n")
			id := fmt.Sprint("acc", n)
			t.Status, t.ExpiryTime = domain.AcceptedStatus, uint64(a.I("exp"))
			t.PsetBase64, t.TxID = fmt.Sprint("pset", n), fmt.Sprintf("%064x", n)
			t.SwapAccept = domain.Swap{ID: id, Timestamp: uint64(a.I("t")), Message: msg(&pbswap.SwapAccept{Id: id, RequestId: fmt.Sprint("req", n), Transaction: t.PsetBase64,
				InputBlindingKey: map[string][]byte{"k": []byte("in")}, OutputBlindingKey: map[string][]byte{"k": []byte(fmt.Sprint("key", n))}})}
		})
	case "complete":
		w.updateTrade(a, func(t *domain.Trade) {
			id := fmt.Sprint("com", a.I("n"))
			t.Status, t.TxHex = domain.CompletedStatus, "00"
			t.SwapComplete = domain.Swap{ID: id, Timestamp: uint64(a.I("t")), Message: msg(&pbswap.SwapComplete{Id: id, AcceptId: t.SwapAccept.ID, Transaction: t.PsetBase64})}
		})
	case "settle":
		w.updateTrade(a, func(t *domain.Trade) { t.Status, t.SettlementTime = domain.SettledStatus, uint64(a.I("t")) })
	case "fail":
		w.updateTrade(a, func(t *domain.Trade) {
			id := fmt.Sprint("fail", a.I("n"))
			t.Status.Failed = true
			t.SwapFail = domain.Swap{ID: id, Timestamp: 9, Message: msg(&pbswap.SwapFail{Id: id, FailureCode: uint32(a.I("code")), FailureMessage: a.S("msg")})}
		})
	case "expire":
		w.updateTrade(a, func(t *domain.Trade) { t.Status = domain.ExpiredStatus })
	case "hook":
		sec := ""
		if a.B("sec") {
			sec = "s3cret"
		}
		rep, err := w.op.AddWebhook(c, &pbop.AddWebhookRequest{Action: pbop.ActionType(a.I("act")), Endpoint: a.S("at"), Secret: sec})
		fail(err)
		r["id"] = rep.GetId()
	case "unhook":
		_, err := w.op.RemoveWebhook(c, &pbop.RemoveWebhookRequest{Id: a.S("id")})
		fail(err)
	case "wcoin":
		k := fmt.Sprint(w.scale, "|", a.I("id"), "|", a.S("asset"), "|", a.I("amt"))
		cs, ok := w.cache[k]
		if !ok {
			cs = w.chain.Fund(a.B("conf"), app.Pay{Addr: w.waddr, Asset: assets[a.S("asset")], Value: w.up(a.I("amt"))})
			w.cache[k] = cs
			txs[cs[0].Txid] = w.chain.Tx(cs[0].Txid)
		}
		w.chain.Insert(txs[cs[0].Txid], a.B("conf"), cs)
		w.wtx[a.I("id")] = cs[0].Txid
	case "wconfirm":
		w.chain.Confirm(w.wtx[a.I("id")])
	case "vlock":
		must(w.store.VaultRepository().UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) { v.Lock(); return v, nil }))
	case "vunlock":
		must(w.store.VaultRepository().UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) { return v, v.Unlock(app.Pass) }))
	default:
		panic(a.S("op"))
	}
	w.tr.Ev(a, r, w.views())
}

// given notes addresses handed out; dup tells whether one of them was known before.
func (w *world) given(r lib.M, l []string) {
	dup := false
	for _, x := range l {
		dup = dup || w.acc[x] != 0 || w.addr[x]
		w.addr[x] = true
	}
	r["n"], r["dup"] = len(l), dup
}

func f32(x float32) string { return strconv.FormatFloat(float64(x), 'f', -1, 32) }
func f64(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

func utc(s string) int {
	if s == "" {
		return 0
	}
	t, err := time.Parse("2006-01-02 15:04:05 -0700 MST", s)
	if err != nil || t.UTC().String() != s {
		return -1
	}
	return int(t.Unix())
}

func (w *world) tradeNo(id string) int {
	for n, x := range w.tids {
		if x.String() == id {
			return n
		}
	}
	return -1
}

// link takes apart the link to the transaction of a trade.
func (w *world) link(s string) lib.M {
	out := lib.M{"tx": 0, "outs": []lib.M{}}
	if s == "" {
		return out
	}
	out["tx"] = -1
	const pre = "http://localhost:3001/tx/"
	parts := strings.SplitN(strings.TrimPrefix(s, pre), "#blinded=", 2)
	if !strings.HasPrefix(s, pre) || len(parts) != 2 {
		return out
	}
	n64, err := strconv.ParseInt(parts[0], 16, 64)
	if err != nil || len(parts[0]) != 64 {
		return out
	}
	n := int(n64)
	out["tx"] = n
	f := strings.Split(parts[1], ",")
	outs := []lib.M{}
	for i := 0; i+3 < len(f); i += 4 {
		v, _ := strconv.ParseUint(f[i], 10, 64)
		ok := false
		for k := 0; k < 2; k++ {
			ok = ok || f[i+2] == hex.EncodeToString(elementsutil.ReverseBytes(blinder(n, k, 1))) && f[i+3] == hex.EncodeToString(elementsutil.ReverseBytes(blinder(n, k, 2)))
		}
		outs = append(outs, lib.M{"as": name(f[i+1]), "amt": w.down(v), "ok": ok})
	}
	if len(f)%4 != 0 {
		outs = append(outs, lib.M{"as": "?", "amt": 0, "ok": false})
	}
	out["outs"] = outs
	return out
}

// views asks for everything there is to see.
func (w *world) views() lib.M {
	c := app.Ctx
	o := lib.M{}
	ms := []lib.M{}
	rep, err := w.op.ListMarket(c, &pbop.ListMarketRequest{})
	for _, m := range rep.GetMarkets() {
		q := "-"
		if m.GetMarket().GetQuoteAsset() != "" {
			q = name(m.GetMarket().GetQuoteAsset())
		}
		if (q == "-") != (m.GetMarket().GetBaseAsset() == "") || q != "-" && m.GetMarket().GetBaseAsset() != app.Base {
			q = "?"
		}
		s := "?"
		switch m.GetStrategyType() {
		case pbop.StrategyType_BALANCED:
			s = "bal"
		case pbop.StrategyType_PLUGGABLE:
			s = "plug"
		}
		ms = append(ms, lib.M{"acc": int(m.GetAccountIndex()), "q": q, "open": m.GetTradable(), "bps": int(m.GetFee().GetBasisPoint()),
			"fb": w.down(uint64(m.GetFee().GetFixed().GetBaseFee())), "fq": w.down(uint64(m.GetFee().GetFixed().GetQuoteFee())), "strat": s,
			"bp": f32(m.GetPrice().GetBasePrice()), "qp": f32(m.GetPrice().GetQuotePrice())})
	}
	o["markets"] = lib.M{"ok": err == nil, "l": ms}

	ts := []lib.M{}
	rt, err := w.td.Markets(c, &pbtrade.MarketsRequest{})
	for _, m := range rt.GetMarkets() {
		ts = append(ts, feeOf(w, m))
	}
	o["offered"] = lib.M{"ok": err == nil, "l": ts}

	bs, ds, fs := []lib.M{}, []lib.M{}, []lib.M{}
	for _, q := range []string{"Q1", "Q2", "X"} {
		rb, err := w.td.Balances(c, &pbtrade.BalancesRequest{Market: market(q)})
		b := lib.M{"q": q, "ok": err == nil, "n": len(rb.GetBalances()), "b": 0, "a": 0, "bps": 0, "fb": 0, "fq": 0}
		for _, x := range rb.GetBalances() {
			b["b"], b["a"], b["bps"] = w.down(x.GetBalance().GetBaseAmount()), w.down(x.GetBalance().GetQuoteAmount()), int(x.GetFee().GetBasisPoint())
			b["fb"], b["fq"] = w.down(uint64(x.GetFee().GetFixed().GetBaseFee())), w.down(uint64(x.GetFee().GetFixed().GetQuoteFee()))
		}
		bs = append(bs, b)
		rd, err := w.op.ListDepositMarket(c, &pbop.ListDepositMarketRequest{Market: market(q)})
		seen, known := map[string]bool{}, true
		for _, x := range rd.GetAddress() {
			seen[x] = true
			known = known && w.addr[x]
		}
		ds = append(ds, lib.M{"q": q, "ok": err == nil, "n": len(rd.GetAddress()), "distinct": len(seen), "known": known})
		rf, err := w.op.ReportMarketFee(c, &pbop.ReportMarketFeeRequest{Market: market(q)})
		l, tot := []lib.M{}, []lib.M{}
		for _, x := range rf.GetCollectedFees() {
			l = append(l, lib.M{"n": w.tradeNo(x.GetTradeId()), "bps": int(x.GetBasisPoint()), "as": name(x.GetAsset()), "amt": w.fee(x.GetAmount()), "price": f32(x.GetMarketPrice())})
		}
		for k, v := range rf.GetTotalCollectedFeesPerAsset() {
			tot = append(tot, lib.M{"as": name(k), "amt": w.fee(uint64(v))})
		}
		sort.Slice(tot, func(i, j int) bool { return tot[i].S("as") < tot[j].S("as") })
		fs = append(fs, lib.M{"q": q, "ok": err == nil, "l": l, "tot": tot})
	}
	o["balances"], o["deposits"], o["fees"] = bs, ds, fs

	ru, err := w.op.ListUtxos(c, &pbop.ListUtxosRequest{})
	us := []lib.M{}
	ids := map[string]int{}
	for n, k := range w.keys {
		ids[fmt.Sprint(k.TxID, ":", k.VOut)] = n
	}
	for acc, x := range ru.GetInfoPerAccount() {
		for kind, l := range map[string][]*pbop.UtxoInfo{"free": x.GetUnspents(), "spent": x.GetSpents(), "lock": x.GetLocks()} {
			for _, u := range l {
				us = append(us, lib.M{"id": ids[fmt.Sprint(u.GetOutpoint().GetHash(), ":", u.GetOutpoint().GetIndex())], "acc": int(acc), "kind": kind, "as": name(u.GetAsset()), "amt": w.down(u.GetValue())})
			}
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].I("id") < us[j].I("id") })
	o["utxos"] = lib.M{"ok": err == nil, "l": us}

	rfb, err := w.op.BalanceFeeAccount(c, &pbop.BalanceFeeAccountRequest{})
	o["feebal"] = lib.M{"ok": err == nil, "v": w.down(uint64(rfb.GetBalance()))}

	rl, err := w.op.ListTrades(c, &pbop.ListTradesRequest{})
	tl := []lib.M{}
	for _, x := range rl.GetTrades() {
		m := x.GetMarketWithFee()
		tl = append(tl, lib.M{"n": w.tradeNo(x.GetTradeId()), "code": int(x.GetStatus().GetStatus()), "failed": x.GetStatus().GetFailed(), "fee": feeOf(w, m),
			"bp": f64(x.GetPrice().GetBasePrice()), "qp": f64(x.GetPrice().GetQuotePrice()),
			"p": name(x.GetSwapInfo().GetAssetP()), "ap": w.down(x.GetSwapInfo().GetAmountP()), "r": name(x.GetSwapInfo().GetAssetR()), "ar": w.down(x.GetSwapInfo().GetAmountR()),
			"fcode": int(x.GetFailInfo().GetFailureCode()), "fmsg": x.GetFailInfo().GetFailureMessage(),
			"t":   []int{int(x.GetRequestTimeUnix()), int(x.GetAcceptTimeUnix()), int(x.GetCompleteTimeUnix()), int(x.GetSettleTimeUnix()), int(x.GetExpiryTimeUnix())},
			"utc": []int{utc(x.GetRequestTimeUtc()), utc(x.GetAcceptTimeUtc()), utc(x.GetCompleteTimeUtc()), utc(x.GetSettleTimeUtc()), utc(x.GetExpiryTimeUtc())},
			"url": w.link(x.GetTxUrl())})
	}
	o["trades"] = lib.M{"ok": err == nil, "l": tl}

	hs := []lib.M{}
	for act := 0; act < 3; act++ {
		rh, err := w.op.ListWebhooks(c, &pbop.ListWebhooksRequest{Action: pbop.ActionType(act)})
		l := []lib.M{}
		for _, h := range rh.GetWebhookInfo() {
			l = append(l, lib.M{"id": h.GetId(), "at": h.GetEndpoint(), "sec": h.GetIsSecured()})
		}
		hs = append(hs, lib.M{"act": act, "ok": err == nil, "l": l})
	}
	o["hooks"] = hs

	rw, err := w.wl.WalletBalance(c, &pbwallet.WalletBalanceRequest{})
	wb := []lib.M{}
	for k, v := range rw.GetBalance() {
		wb = append(wb, lib.M{"as": name(k), "tot": w.down(v.GetTotalBalance()), "conf": w.down(v.GetConfirmedBalance()), "unconf": w.down(v.GetUnconfirmedBalance())})
	}
	sort.Slice(wb, func(i, j int) bool { return wb[i].S("as") < wb[j].S("as") })
	o["wallet"] = lib.M{"ok": err == nil, "l": wb}
	return o
}
