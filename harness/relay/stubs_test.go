// Stand-ins for the application services: what they are asked is recorded, and what they answer is made up and recorded as well.
package relay

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
)

type stubWallet struct{ w *world }
type stubOperator struct{ w *world }
type stubTrade struct{ w *world }

// show writes any Go value the way the specification reads it: numbers as strings, maps as sorted lists of pairs.
func show(v reflect.Value) interface{} {
	if !v.IsValid() {
		return lib.M{"absent": true}
	}
	if d, ok := v.Interface().(decimal.Decimal); ok {
		return d.String()
	}
	if b, ok := v.Interface().([]byte); ok {
		return string(b)
	}
	switch s := v.Interface().(type) {
	case domain.SwapRequest:
		return lib.M{"id": s.GetId(), "amount_p": fmt.Sprint(s.GetAmountP()), "asset_p": s.GetAssetP(), "amount_r": fmt.Sprint(s.GetAmountR()), "asset_r": s.GetAssetR(),
			"transaction": s.GetTransaction(), "input_blinding_key": one(s.GetInputBlindingKey()), "output_blinding_key": one(s.GetOutputBlindingKey())}
	case domain.SwapAccept:
		return lib.M{"id": s.GetId(), "request_id": s.GetRequestId(), "transaction": s.GetTransaction(),
			"input_blinding_key": one(s.GetInputBlindingKey()), "output_blinding_key": one(s.GetOutputBlindingKey())}
	case domain.SwapFail:
		return lib.M{"id": s.GetId(), "message_id": s.GetMessageId(), "failure_code": fmt.Sprint(s.GetFailureCode()), "failure_message": s.GetFailureMessage()}
	case domain.SwapComplete:
		return lib.M{"id": s.GetId(), "accept_id": s.GetAcceptId(), "transaction": s.GetTransaction()}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return lib.M{"absent": true}
		}
		return show(v.Elem())
	case reflect.Struct:
		out := lib.M{}
		for i := 0; i < v.NumField(); i++ {
			out[v.Type().Field(i).Name] = show(v.Field(i))
		}
		return out
	case reflect.Slice:
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i)))
		}
		return l
	case reflect.Map:
		l := [][]interface{}{}
		for _, k := range v.MapKeys() {
			l = append(l, []interface{}{fmt.Sprint(k.Interface()), show(v.MapIndex(k))})
		}
		sort.Slice(l, func(i, j int) bool { return l[i][0].(string) < l[j][0].(string) })
		return l
	case reflect.Bool, reflect.String:
		return v.Interface()
	}
	return fmt.Sprint(v.Interface())
}
func one(x interface{}) interface{} { return show(reflect.ValueOf(x)) }

// filler makes up an answer: every field gets a value of its own.
type filler struct {
	n, k int
	mode string
}

func (f *filler) fill(v reflect.Value, name string) {
	f.k++
	small := strings.Contains("Status StrategyType Code ActionType BasisPoint", name) || strings.HasSuffix(name, "Index")
	if v.Type() == reflect.TypeOf(decimal.Decimal{}) {
		v.Set(reflect.ValueOf(decimal.NewFromInt(int64(f.n*100 + f.k)).Div(decimal.NewFromInt(4))))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		f.fill(v.Elem(), name)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.fill(v.Field(i), v.Type().Field(i).Name)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(fmt.Sprintf("b%d.%d", f.n, f.k)))
			return
		}
		if f.mode == "empty" {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), 3, 3))
		for i := 0; i < 3; i++ {
			f.fill(v.Index(i), name)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		if f.mode == "empty" {
			return
		}
		for i := 0; i < 3; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			f.fill(k, "")
			f.fill(e, name)
			v.SetMapIndex(k, e)
		}
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d.%d", f.n, f.k))
	case reflect.Bool:
		v.SetBool(f.k%2 == 0)
	case reflect.Int, reflect.Int64:
		x := int64(f.k)
		if !small && f.k%2 == 0 {
			x = 1<<62 + int64(f.k)
		}
		v.SetInt(x)
	case reflect.Uint64, reflect.Uint32, reflect.Uint16:
		x := uint64(f.k)
		if strings.HasSuffix(name, "Unix") {
			x = uint64(1600000000 + f.k)
			if f.k%5 == 0 {
				x = 0
			}
		} else if !small && f.k%2 == 0 && v.Kind() == reflect.Uint64 {
			x = 1<<63 + uint64(f.k)
		}
		v.SetUint(x)
	}
}

// answer records the call and makes up its results: either values in out (pointers), or an error.
func (w *world) answer(m string, args lib.M, out ...interface{}) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	f := &filler{n: w.n, mode: w.mode}
	ans := []interface{}{}
	var err error
	text := ""
	if w.mode == "err" || w.mode == "late" && m == "InitWallet" {
		text = fmt.Sprintf("no %d", w.n)
		err = errors.New(text)
	}
	for _, o := range out {
		v := reflect.ValueOf(o).Elem()
		if w.mode != "err" {
			f.fill(v, "")
			if l, ok := v.Interface().([]application.TradeInfo); ok {
				for i := range l { // some trades without swap, some without failure
					if i%2 == 1 {
						l[i].SwapInfo = application.SwapInfo{}
					} else {
						l[i].SwapFailInfo = application.SwapFailInfo{}
					}
				}
			}
		}
		ans = append(ans, show(v))
	}
	c := lib.M{"m": m, "args": args, "ans": ans, "err": text}
	if err == nil && m == "ListTrades" {
		utc := []interface{}{}
		for _, t := range *(out[0].(*[]application.TradeInfo)) {
			u := lib.M{}
			for k, s := range map[string]uint64{"request_time_utc": t.RequestTimeUnix, "accept_time_utc": t.AcceptTimeUnix, "complete_time_utc": t.CompleteTimeUnix,
				"settle_time_utc": t.SettleTimeUnix, "expiry_time_utc": t.ExpiryTimeUnix} {
				u[k] = ""
				if s > 0 {
					u[k] = time.Unix(int64(s), 0).UTC().String()
				}
			}
			utc = append(utc, u)
		}
		c["ans"] = append(ans, utc)
	}
	w.calls = append(w.calls, c)
	return err
}

func (s stubWallet) GenSeed(ctx context.Context) (r0 []string, r1 error) {
	r1 = s.w.answer("GenSeed", lib.M{}, &r0)
	return
}
func (s stubWallet) UnlockWallet(ctx context.Context, passphrase string) (r0 error) {
	r0 = s.w.answer("UnlockWallet", lib.M{"passphrase": one(passphrase)})
	return
}
func (s stubWallet) ChangePassword(ctx context.Context, currentPassphrase string, newPassphrase string) (r0 error) {
	r0 = s.w.answer("ChangePassword", lib.M{"currentPassphrase": one(currentPassphrase), "newPassphrase": one(newPassphrase)})
	return
}
func (s stubWallet) GenerateAddressAndBlindingKey(ctx context.Context) (r0 string, r1 string, r2 error) {
	r2 = s.w.answer("GenerateAddressAndBlindingKey", lib.M{}, &r0, &r1)
	return
}
func (s stubWallet) GetWalletBalance(ctx context.Context) (r0 map[string]application.BalanceInfo, r1 error) {
	r1 = s.w.answer("GetWalletBalance", lib.M{}, &r0)
	return
}
func (s stubWallet) SendToMany(ctx context.Context, req application.SendToManyRequest) (r0 []byte, r1 error) {
	r1 = s.w.answer("SendToMany", lib.M{"req": one(req)}, &r0)
	return
}
func (s stubWallet) PassphraseChan() chan application.PassphraseMsg { return s.w.ch }
func (s stubOperator) DepositMarket(ctx context.Context, baseAsset string, quoteAsset string, numOfAddresses int) (r0 []application.AddressAndBlindingKey, r1 error) {
	r1 = s.w.answer("DepositMarket", lib.M{"baseAsset": one(baseAsset), "quoteAsset": one(quoteAsset), "numOfAddresses": one(numOfAddresses)}, &r0)
	return
}
func (s stubOperator) DepositFeeAccount(ctx context.Context, numOfAddresses int) (r0 []application.AddressAndBlindingKey, r1 error) {
	r1 = s.w.answer("DepositFeeAccount", lib.M{"numOfAddresses": one(numOfAddresses)}, &r0)
	return
}
func (s stubOperator) OpenMarket(ctx context.Context, baseAsset string, quoteAsset string) (r0 error) {
	r0 = s.w.answer("OpenMarket", lib.M{"baseAsset": one(baseAsset), "quoteAsset": one(quoteAsset)})
	return
}
func (s stubOperator) CloseMarket(ctx context.Context, baseAsset string, quoteAsset string) (r0 error) {
	r0 = s.w.answer("CloseMarket", lib.M{"baseAsset": one(baseAsset), "quoteAsset": one(quoteAsset)})
	return
}
func (s stubOperator) UpdateMarketPercentageFee(ctx context.Context, req application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	r1 = s.w.answer("UpdateMarketPercentageFee", lib.M{"req": one(req)}, &r0)
	return
}
func (s stubOperator) UpdateMarketFixedFee(ctx context.Context, req application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	r1 = s.w.answer("UpdateMarketFixedFee", lib.M{"req": one(req)}, &r0)
	return
}
func (s stubOperator) UpdateMarketPrice(ctx context.Context, req application.MarketWithPrice) (r0 error) {
	r0 = s.w.answer("UpdateMarketPrice", lib.M{"req": one(req)})
	return
}
func (s stubOperator) UpdateMarketStrategy(ctx context.Context, req application.MarketStrategy) (r0 error) {
	r0 = s.w.answer("UpdateMarketStrategy", lib.M{"req": one(req)})
	return
}
func (s stubOperator) ListTrades(ctx context.Context) (r0 []application.TradeInfo, r1 error) {
	r1 = s.w.answer("ListTrades", lib.M{}, &r0)
	return
}
func (s stubOperator) ListMarketExternalAddresses(ctx context.Context, req application.Market) (r0 []string, r1 error) {
	r1 = s.w.answer("ListMarketExternalAddresses", lib.M{"req": one(req)}, &r0)
	return
}
func (s stubOperator) WithdrawMarketFunds(ctx context.Context, req application.WithdrawMarketReq) (r0 []byte, r1 error) {
	r1 = s.w.answer("WithdrawMarketFunds", lib.M{"req": one(req)}, &r0)
	return
}
func (s stubOperator) FeeAccountBalance(ctx context.Context) (r0 int64, r1 error) {
	r1 = s.w.answer("FeeAccountBalance", lib.M{}, &r0)
	return
}
func (s stubOperator) ClaimMarketDeposit(ctx context.Context, market application.Market, outpoints []application.TxOutpoint) (r0 error) {
	r0 = s.w.answer("ClaimMarketDeposit", lib.M{"market": one(market), "outpoints": one(outpoints)})
	return
}
func (s stubOperator) ClaimFeeDeposit(ctx context.Context, outpoints []application.TxOutpoint) (r0 error) {
	r0 = s.w.answer("ClaimFeeDeposit", lib.M{"outpoints": one(outpoints)})
	return
}
func (s stubOperator) ListMarket(ctx context.Context) (r0 []application.MarketInfo, r1 error) {
	r1 = s.w.answer("ListMarket", lib.M{}, &r0)
	return
}
func (s stubOperator) GetCollectedMarketFee(ctx context.Context, market application.Market) (r0 *application.ReportMarketFee, r1 error) {
	r1 = s.w.answer("GetCollectedMarketFee", lib.M{"market": one(market)}, &r0)
	return
}
func (s stubOperator) ListUtxos(ctx context.Context) (r0 map[uint64]application.UtxoInfoList, r1 error) {
	r1 = s.w.answer("ListUtxos", lib.M{}, &r0)
	return
}
func (s stubOperator) ReloadUtxos(ctx context.Context) (r0 error) {
	r0 = s.w.answer("ReloadUtxos", lib.M{})
	return
}
func (s stubOperator) DropMarket(ctx context.Context, accountIndex int) (r0 error) {
	r0 = s.w.answer("DropMarket", lib.M{"accountIndex": one(accountIndex)})
	return
}
func (s stubOperator) AddWebhook(ctx context.Context, hook application.Webhook) (r0 string, r1 error) {
	r1 = s.w.answer("AddWebhook", lib.M{"hook": one(hook)}, &r0)
	return
}
func (s stubOperator) RemoveWebhook(ctx context.Context, id string) (r0 error) {
	r0 = s.w.answer("RemoveWebhook", lib.M{"id": one(id)})
	return
}
func (s stubOperator) ListWebhooks(ctx context.Context, actionType int) (r0 []application.WebhookInfo, r1 error) {
	r1 = s.w.answer("ListWebhooks", lib.M{"actionType": one(actionType)}, &r0)
	return
}
func (s stubTrade) GetTradableMarkets(ctx context.Context) (r0 []application.MarketWithFee, r1 error) {
	r1 = s.w.answer("GetTradableMarkets", lib.M{}, &r0)
	return
}
func (s stubTrade) GetMarketPrice(ctx context.Context, market application.Market, tradeType int, amount uint64, asset string) (r0 *application.PriceWithFee, r1 error) {
	r1 = s.w.answer("GetMarketPrice", lib.M{"market": one(market), "tradeType": one(tradeType), "amount": one(amount), "asset": one(asset)}, &r0)
	return
}
func (s stubTrade) GetMarketBalance(ctx context.Context, market application.Market) (r0 *application.BalanceWithFee, r1 error) {
	r1 = s.w.answer("GetMarketBalance", lib.M{"market": one(market)}, &r0)
	return
}

// InitWallet sends its updates one by one, as the service does.
func (s stubWallet) InitWallet(ctx context.Context, mnemonic []string, passphrase string, restore bool, chRes chan *application.InitWalletReply, chErr chan error) {
	var l []application.InitWalletReply
	err := s.w.answer("InitWallet", lib.M{"mnemonic": one(mnemonic), "passphrase": passphrase, "restore": restore}, &l)
	for i := range l {
		select {
		case chRes <- &l[i]:
		case <-ctx.Done():
		}
	}
	if err != nil {
		chErr <- err
	}
	close(chErr)
	close(chRes)
}

func keys(n int, s string) map[string][]byte {
	return map[string][]byte{fmt.Sprint(s, n): []byte(fmt.Sprint("k", s, n)), fmt.Sprint(s, n, "x"): []byte(fmt.Sprint("kx", s, n))}
}
func (s stubTrade) TradePropose(ctx context.Context, market application.Market, tradeType int, swapRequest domain.SwapRequest) (a domain.SwapAccept, f domain.SwapFail, exp uint64, err error) {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	n, text := w.n, ""
	switch w.mode {
	case "full":
		a = &pbswap.SwapAccept{Id: fmt.Sprint("id", n), RequestId: fmt.Sprint("rq", n), Transaction: fmt.Sprint("tx", n), InputBlindingKey: keys(n, "i"), OutputBlindingKey: keys(n, "o")}
		exp = 1<<60 + uint64(n)
	case "empty":
		f = &pbswap.SwapFail{Id: fmt.Sprint("id", n), MessageId: fmt.Sprint("mi", n), FailureCode: uint32(n), FailureMessage: fmt.Sprint("msg", n)}
	default:
		text = fmt.Sprintf("no %d", n)
		err = errors.New(text)
	}
	w.calls = append(w.calls, lib.M{"m": "TradePropose", "args": lib.M{"market": one(market), "tradeType": fmt.Sprint(tradeType), "swapRequest": one(swapRequest)},
		"ans": []interface{}{one(a), one(f), fmt.Sprint(exp)}, "err": text})
	return
}
func (s stubTrade) TradeComplete(ctx context.Context, swapComplete *domain.SwapComplete, swapFail *domain.SwapFail) (txid string, f domain.SwapFail, err error) {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	n, text := w.n, ""
	switch w.mode {
	case "full":
		txid = fmt.Sprint("txid", n)
	case "empty":
		f = &pbswap.SwapFail{Id: fmt.Sprint("id", n), MessageId: fmt.Sprint("mi", n), FailureCode: uint32(n), FailureMessage: fmt.Sprint("msg", n)}
	default:
		text = fmt.Sprintf("no %d", n)
		err = errors.New(text)
	}
	w.calls = append(w.calls, lib.M{"m": "TradeComplete", "args": lib.M{"swapComplete": one(swapComplete), "swapFail": one(swapFail)},
		"ans": []interface{}{txid, one(f)}, "err": text})
	return
}
