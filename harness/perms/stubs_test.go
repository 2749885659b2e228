// Stand-ins for the application services: every call is counted and answered with an error.
package perms

import (
	"context"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

var errReached = errors.New("reached")

type stubWallet struct{ w *world }
type stubOperator struct{ w *world }
type stubTrade struct{ w *world }

func (s stubWallet) GenSeed(ctx context.Context) (r0 []string, r1 error) {
	s.w.reach("GenSeed")
	r1 = errReached
	return
}
func (s stubWallet) InitWallet(ctx context.Context, mnemonic []string, passphrase string, restore bool, chRes chan *application.InitWalletReply, chErr chan error) {
	s.w.reach("InitWallet")
	chErr <- errReached
}
func (s stubWallet) UnlockWallet(ctx context.Context, passphrase string) (r0 error) {
	s.w.reach("UnlockWallet")
	r0 = errReached
	return
}
func (s stubWallet) ChangePassword(ctx context.Context, currentPassphrase string, newPassphrase string) (r0 error) {
	s.w.reach("ChangePassword")
	r0 = errReached
	return
}
func (s stubWallet) GenerateAddressAndBlindingKey(ctx context.Context) (r0 string, r1 string, r2 error) {
	s.w.reach("GenerateAddressAndBlindingKey")
	r2 = errReached
	return
}
func (s stubWallet) GetWalletBalance(ctx context.Context) (r0 map[string]application.BalanceInfo, r1 error) {
	s.w.reach("GetWalletBalance")
	r1 = errReached
	return
}
func (s stubWallet) SendToMany(ctx context.Context, req application.SendToManyRequest) (r0 []byte, r1 error) {
	s.w.reach("SendToMany")
	r1 = errReached
	return
}
func (s stubWallet) PassphraseChan() chan application.PassphraseMsg { return s.w.ch }
func (s stubOperator) DepositMarket(ctx context.Context, baseAsset string, quoteAsset string, numOfAddresses int) (r0 []application.AddressAndBlindingKey, r1 error) {
	s.w.reach("DepositMarket")
	r1 = errReached
	return
}
func (s stubOperator) DepositFeeAccount(ctx context.Context, numOfAddresses int) (r0 []application.AddressAndBlindingKey, r1 error) {
	s.w.reach("DepositFeeAccount")
	r1 = errReached
	return
}
func (s stubOperator) OpenMarket(ctx context.Context, baseAsset string, quoteAsset string) (r0 error) {
	s.w.reach("OpenMarket")
	r0 = errReached
	return
}
func (s stubOperator) CloseMarket(ctx context.Context, baseAsset string, quoteAsset string) (r0 error) {
	s.w.reach("CloseMarket")
	r0 = errReached
	return
}
func (s stubOperator) UpdateMarketPercentageFee(ctx context.Context, req application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	s.w.reach("UpdateMarketPercentageFee")
	r1 = errReached
	return
}
func (s stubOperator) UpdateMarketFixedFee(ctx context.Context, req application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	s.w.reach("UpdateMarketFixedFee")
	r1 = errReached
	return
}
func (s stubOperator) UpdateMarketPrice(ctx context.Context, req application.MarketWithPrice) (r0 error) {
	s.w.reach("UpdateMarketPrice")
	r0 = errReached
	return
}
func (s stubOperator) UpdateMarketStrategy(ctx context.Context, req application.MarketStrategy) (r0 error) {
	s.w.reach("UpdateMarketStrategy")
	r0 = errReached
	return
}
func (s stubOperator) ListTrades(ctx context.Context) (r0 []application.TradeInfo, r1 error) {
	s.w.reach("ListTrades")
	r1 = errReached
	return
}
func (s stubOperator) ListMarketExternalAddresses(ctx context.Context, req application.Market) (r0 []string, r1 error) {
	s.w.reach("ListMarketExternalAddresses")
	r1 = errReached
	return
}
func (s stubOperator) WithdrawMarketFunds(ctx context.Context, req application.WithdrawMarketReq) (r0 []byte, r1 error) {
	s.w.reach("WithdrawMarketFunds")
	r1 = errReached
	return
}
func (s stubOperator) FeeAccountBalance(ctx context.Context) (r0 int64, r1 error) {
	s.w.reach("FeeAccountBalance")
	r1 = errReached
	return
}
func (s stubOperator) ClaimMarketDeposit(ctx context.Context, market application.Market, outpoints []application.TxOutpoint) (r0 error) {
	s.w.reach("ClaimMarketDeposit")
	r0 = errReached
	return
}
func (s stubOperator) ClaimFeeDeposit(ctx context.Context, outpoints []application.TxOutpoint) (r0 error) {
	s.w.reach("ClaimFeeDeposit")
	r0 = errReached
	return
}
func (s stubOperator) ListMarket(ctx context.Context) (r0 []application.MarketInfo, r1 error) {
	s.w.reach("ListMarket")
	r1 = errReached
	return
}
func (s stubOperator) GetCollectedMarketFee(ctx context.Context, market application.Market) (r0 *application.ReportMarketFee, r1 error) {
	s.w.reach("GetCollectedMarketFee")
	r1 = errReached
	return
}
func (s stubOperator) ListUtxos(ctx context.Context) (r0 map[uint64]application.UtxoInfoList, r1 error) {
	s.w.reach("ListUtxos")
	r1 = errReached
	return
}
func (s stubOperator) ReloadUtxos(ctx context.Context) (r0 error) {
	s.w.reach("ReloadUtxos")
	r0 = errReached
	return
}
func (s stubOperator) DropMarket(ctx context.Context, accountIndex int) (r0 error) {
	s.w.reach("DropMarket")
	r0 = errReached
	return
}
func (s stubOperator) AddWebhook(ctx context.Context, hook application.Webhook) (r0 string, r1 error) {
	s.w.reach("AddWebhook")
	r1 = errReached
	return
}
func (s stubOperator) RemoveWebhook(ctx context.Context, id string) (r0 error) {
	s.w.reach("RemoveWebhook")
	r0 = errReached
	return
}
func (s stubOperator) ListWebhooks(ctx context.Context, actionType int) (r0 []application.WebhookInfo, r1 error) {
	s.w.reach("ListWebhooks")
	r1 = errReached
	return
}
func (s stubTrade) GetTradableMarkets(ctx context.Context) (r0 []application.MarketWithFee, r1 error) {
	s.w.reach("GetTradableMarkets")
	r1 = errReached
	return
}
func (s stubTrade) GetMarketPrice(ctx context.Context, market application.Market, tradeType int, amount uint64, asset string) (r0 *application.PriceWithFee, r1 error) {
	s.w.reach("GetMarketPrice")
	r1 = errReached
	return
}
func (s stubTrade) TradePropose(ctx context.Context, market application.Market, tradeType int, swapRequest domain.SwapRequest) (r0 domain.SwapAccept, r1 domain.SwapFail, r2 uint64, r3 error) {
	s.w.reach("TradePropose")
	r3 = errReached
	return
}
func (s stubTrade) TradeComplete(ctx context.Context, swapComplete *domain.SwapComplete, swapFail *domain.SwapFail) (r0 string, r1 domain.SwapFail, r2 error) {
	s.w.reach("TradeComplete")
	r2 = errReached
	return
}
func (s stubTrade) GetMarketBalance(ctx context.Context, market application.Market) (r0 *application.BalanceWithFee, r1 error) {
	s.w.reach("GetMarketBalance")
	r1 = errReached
	return
}
