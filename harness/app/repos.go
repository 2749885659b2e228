// Code generated by gen_repos.py; DO NOT EDIT.
package app

import (
	"context"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/vulpemventures/go-elements/network"
)

type vaultRepo struct {
	m *Manager
	domain.VaultRepository
}

func (r *vaultRepo) GetOrCreateVault(ctx context.Context, mnemonic []string, passphrase string, network *network.Network) (*domain.Vault, error) {
	r.m.gate("vault.GetOrCreateVault")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetOrCreateVault(ctx, mnemonic, passphrase, network)
}

func (r *vaultRepo) GetAccountByIndex(ctx context.Context, accountIndex int) (*domain.Account, error) {
	r.m.gate("vault.GetAccountByIndex")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetAccountByIndex(ctx, accountIndex)
}

func (r *vaultRepo) GetAccountByAddress(ctx context.Context, addr string) (*domain.Account, int, error) {
	r.m.gate("vault.GetAccountByAddress")
	if err := r.m.fault(); err != nil {
		return nil, 0, err
	}
	return r.VaultRepository.GetAccountByAddress(ctx, addr)
}

func (r *vaultRepo) GetAllDerivedAddressesInfoForAccount(ctx context.Context, accountIndex int) (domain.AddressesInfo, error) {
	r.m.gate("vault.GetAllDerivedAddressesInfoForAccount")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetAllDerivedAddressesInfoForAccount(ctx, accountIndex)
}

func (r *vaultRepo) GetDerivationPathByScript(ctx context.Context, accountIndex int, scripts []string) (map[string]string, error) {
	r.m.gate("vault.GetDerivationPathByScript")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetDerivationPathByScript(ctx, accountIndex, scripts)
}

func (r *vaultRepo) GetAllDerivedExternalAddressesInfoForAccount(ctx context.Context, accountIndex int) (domain.AddressesInfo, error) {
	r.m.gate("vault.GetAllDerivedExternalAddressesInfoForAccount")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetAllDerivedExternalAddressesInfoForAccount(ctx, accountIndex)
}

func (r *vaultRepo) UpdateVault(ctx context.Context, updateFn func(v *domain.Vault) (*domain.Vault, error)) error {
	r.m.gate("vault.UpdateVault")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.VaultRepository.UpdateVault(ctx, updateFn)
}

type marketRepo struct {
	m *Manager
	domain.MarketRepository
}

func (r *marketRepo) GetOrCreateMarket(ctx context.Context, market *domain.Market) (*domain.Market, error) {
	r.m.gate("market.GetOrCreateMarket")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.MarketRepository.GetOrCreateMarket(ctx, market)
}

func (r *marketRepo) GetMarketByAccount(ctx context.Context, accountIndex int) (market *domain.Market, err error) {
	r.m.gate("market.GetMarketByAccount")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.MarketRepository.GetMarketByAccount(ctx, accountIndex)
}

func (r *marketRepo) GetMarketByAsset(ctx context.Context, quoteAsset string) (market *domain.Market, accountIndex int, err error) {
	r.m.gate("market.GetMarketByAsset")
	if err := r.m.fault(); err != nil {
		return nil, 0, err
	}
	return r.MarketRepository.GetMarketByAsset(ctx, quoteAsset)
}

func (r *marketRepo) GetLatestMarket(ctx context.Context) (market *domain.Market, accountIndex int, err error) {
	r.m.gate("market.GetLatestMarket")
	if err := r.m.fault(); err != nil {
		return nil, 0, err
	}
	return r.MarketRepository.GetLatestMarket(ctx)
}

func (r *marketRepo) GetTradableMarkets(ctx context.Context) ([]domain.Market, error) {
	r.m.gate("market.GetTradableMarkets")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.MarketRepository.GetTradableMarkets(ctx)
}

func (r *marketRepo) GetAllMarkets(ctx context.Context) ([]domain.Market, error) {
	r.m.gate("market.GetAllMarkets")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.MarketRepository.GetAllMarkets(ctx)
}

func (r *marketRepo) UpdateMarket(ctx context.Context, accountIndex int, updateFn func(m *domain.Market) (*domain.Market, error)) error {
	r.m.gate("market.UpdateMarket")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.MarketRepository.UpdateMarket(ctx, accountIndex, updateFn)
}

func (r *marketRepo) OpenMarket(ctx context.Context, quoteAsset string) error {
	r.m.gate("market.OpenMarket")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.MarketRepository.OpenMarket(ctx, quoteAsset)
}

func (r *marketRepo) CloseMarket(ctx context.Context, quoteAsset string) error {
	r.m.gate("market.CloseMarket")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.MarketRepository.CloseMarket(ctx, quoteAsset)
}

func (r *marketRepo) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
	r.m.gate("market.UpdatePrices")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.MarketRepository.UpdatePrices(ctx, accountIndex, prices)
}

func (r *marketRepo) DeleteMarket(ctx context.Context, accountIndex int) error {
	r.m.gate("market.DeleteMarket")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.MarketRepository.DeleteMarket(ctx, accountIndex)
}

type tradeRepo struct {
	m *Manager
	domain.TradeRepository
}

func (r *tradeRepo) GetOrCreateTrade(ctx context.Context, tradeID *uuid.UUID) (*domain.Trade, error) {
	r.m.gate("trade.GetOrCreateTrade")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetOrCreateTrade(ctx, tradeID)
}

func (r *tradeRepo) GetAllTrades(ctx context.Context) ([]*domain.Trade, error) {
	r.m.gate("trade.GetAllTrades")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetAllTrades(ctx)
}

func (r *tradeRepo) GetAllTradesByMarket(ctx context.Context, marketQuoteAsset string) ([]*domain.Trade, error) {
	r.m.gate("trade.GetAllTradesByMarket")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetAllTradesByMarket(ctx, marketQuoteAsset)
}

func (r *tradeRepo) GetCompletedTradesByMarket(ctx context.Context, marketQuoteAsset string) ([]*domain.Trade, error) {
	r.m.gate("trade.GetCompletedTradesByMarket")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetCompletedTradesByMarket(ctx, marketQuoteAsset)
}

func (r *tradeRepo) GetTradeBySwapAcceptID(ctx context.Context, swapAcceptID string) (*domain.Trade, error) {
	r.m.gate("trade.GetTradeBySwapAcceptID")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetTradeBySwapAcceptID(ctx, swapAcceptID)
}

func (r *tradeRepo) GetTradeByTxID(ctx context.Context, txID string) (*domain.Trade, error) {
	r.m.gate("trade.GetTradeByTxID")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetTradeByTxID(ctx, txID)
}

func (r *tradeRepo) UpdateTrade(ctx context.Context, tradeID *uuid.UUID, updateFn func(t *domain.Trade) (*domain.Trade, error)) error {
	r.m.gate("trade.UpdateTrade")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.TradeRepository.UpdateTrade(ctx, tradeID, updateFn)
}

type unspentRepo struct {
	m *Manager
	domain.UnspentRepository
}

func (r *unspentRepo) AddUnspents(ctx context.Context, unspents []domain.Unspent) error {
	r.m.gate("unspent.AddUnspents")
	if err := r.m.fault(); err != nil {
		return err
	}
	return r.UnspentRepository.AddUnspents(ctx, unspents)
}

func (r *unspentRepo) GetAllUnspents(ctx context.Context) []domain.Unspent {
	r.m.gate("unspent.GetAllUnspents")
	return r.UnspentRepository.GetAllUnspents(ctx)
}

func (r *unspentRepo) GetAvailableUnspents(ctx context.Context) ([]domain.Unspent, error) {
	r.m.gate("unspent.GetAvailableUnspents")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetAvailableUnspents(ctx)
}

func (r *unspentRepo) GetAllUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.m.gate("unspent.GetAllUnspentsForAddresses")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetAllUnspentsForAddresses(ctx, addresses)
}

func (r *unspentRepo) GetUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.m.gate("unspent.GetUnspentsForAddresses")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetUnspentsForAddresses(ctx, addresses)
}

func (r *unspentRepo) GetAvailableUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.m.gate("unspent.GetAvailableUnspentsForAddresses")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetAvailableUnspentsForAddresses(ctx, addresses)
}

func (r *unspentRepo) GetUnspentWithKey(ctx context.Context, unspentKey domain.UnspentKey) (*domain.Unspent, error) {
	r.m.gate("unspent.GetUnspentWithKey")
	if err := r.m.fault(); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetUnspentWithKey(ctx, unspentKey)
}

func (r *unspentRepo) GetBalance(ctx context.Context, addresses []string, assetHash string) (uint64, error) {
	r.m.gate("unspent.GetBalance")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.GetBalance(ctx, addresses, assetHash)
}

func (r *unspentRepo) GetUnlockedBalance(ctx context.Context, addresses []string, assetHash string) (uint64, error) {
	r.m.gate("unspent.GetUnlockedBalance")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.GetUnlockedBalance(ctx, addresses, assetHash)
}

func (r *unspentRepo) SpendUnspents(ctx context.Context, unspentKeys []domain.UnspentKey) (int, error) {
	r.m.gate("unspent.SpendUnspents")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.SpendUnspents(ctx, unspentKeys)
}

func (r *unspentRepo) ConfirmUnspents(ctx context.Context, unspentKeys []domain.UnspentKey) (int, error) {
	r.m.gate("unspent.ConfirmUnspents")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.ConfirmUnspents(ctx, unspentKeys)
}

func (r *unspentRepo) LockUnspents(ctx context.Context, unspentKeys []domain.UnspentKey, tradeID uuid.UUID) (int, error) {
	r.m.gate("unspent.LockUnspents")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.LockUnspents(ctx, unspentKeys, tradeID)
}

func (r *unspentRepo) UnlockUnspents(ctx context.Context, unspentKeys []domain.UnspentKey) (int, error) {
	r.m.gate("unspent.UnlockUnspents")
	if err := r.m.fault(); err != nil {
		return 0, err
	}
	return r.UnspentRepository.UnlockUnspents(ctx, unspentKeys)
}
