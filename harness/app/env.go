package app

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
)

// Ctx is the context of every call.
var Ctx = context.Background()

// Base is the base asset of every market, and the asset network fees are paid in.
var Base = Net.AssetID

// Mnemonic and Pass are the wallet of every episode.
var Mnemonic = strings.Split("leave dice fine decrease dune ribbon ocean earn lunar account silver admit cheap fringe disorder trade because trade steak clock grace video jacket equal", " ")

// Pass unlocks it.
const Pass = "Password1!"

// FastEncrypter stands in for the (deliberately slow) cipher; C07 runs the real one.
type FastEncrypter struct{}

// Encrypt implements domain.Encrypter.
func (FastEncrypter) Encrypt(m, p string) (string, error) {
	if m == "" || p == "" {
		return "", errors.New("missing text or passphrase")
	}
	h := btcutil.Hash160([]byte("x" + p))
	b := []byte(m)
	for i := range b {
		b[i] ^= h[i%len(h)]
	}
	return hex.EncodeToString(btcutil.Hash160(h)) + hex.EncodeToString(b), nil
}

// Decrypt implements domain.Encrypter.
func (FastEncrypter) Decrypt(c, p string) (string, error) {
	h := btcutil.Hash160([]byte("x" + p))
	tag := hex.EncodeToString(btcutil.Hash160(h))
	if p == "" || !strings.HasPrefix(c, tag) {
		return "", errors.New("wrong passphrase")
	}
	b, err := hex.DecodeString(c[len(tag):])
	for i := range b {
		b[i] ^= h[i%len(h)]
	}
	return string(b), err
}

// Manager hands out the repositories of one run of the daemon.
type Manager struct {
	ports.RepoManager
	mu   sync.Mutex
	dead chan struct{}
	once sync.Once
	Gate func(method string) // called before each repository call

	fail int // the number of store accesses until one fails, 0: none does
	hits int
	seen int // accesses since FailAt
}

// NewManager wraps a store.
func NewManager(in ports.RepoManager) *Manager {
	return &Manager{RepoManager: in, dead: make(chan struct{})}
}

// Kill ends every goroutine that calls this run's repositories from now on: the process is gone, its store stays.
func (m *Manager) Kill() { m.once.Do(func() { close(m.dead) }) }

func (m *Manager) gate(method string) {
	select {
	case <-m.dead:
		runtime.Goexit()
	default:
	}
	m.mu.Lock()
	g := m.Gate
	m.mu.Unlock()
	if g != nil {
		g(method)
	}
}

// SetGate installs the hook.
func (m *Manager) SetGate(g func(string)) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Gate = g
}

// FailAt makes the n-th store access from now on fail (none for n = 0); it returns how many failed since the last call.
func (m *Manager) FailAt(n int) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	h := m.hits
	m.fail, m.hits, m.seen = n, 0, 0
	return h
}

// Accesses is the number of store accesses since FailAt.
func (m *Manager) Accesses() int { m.mu.Lock(); defer m.mu.Unlock(); return m.seen }

// ErrStore is what a failing store access returns.
var ErrStore = errors.New("store: input/output error")

func (m *Manager) fault() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.seen++
	if m.fail == 0 {
		return nil
	}
	if m.fail--; m.fail == 0 {
		m.hits++
		return ErrStore
	}
	return nil
}

// VaultRepository implements ports.RepoManager.
func (m *Manager) VaultRepository() domain.VaultRepository {
	return &vaultRepo{m, m.RepoManager.VaultRepository()}
}

// MarketRepository implements ports.RepoManager.
func (m *Manager) MarketRepository() domain.MarketRepository {
	return &marketRepo{m, m.RepoManager.MarketRepository()}
}

// TradeRepository implements ports.RepoManager.
func (m *Manager) TradeRepository() domain.TradeRepository {
	return &tradeRepo{m, m.RepoManager.TradeRepository()}
}

// UnspentRepository implements ports.RepoManager.
func (m *Manager) UnspentRepository() domain.UnspentRepository {
	return &unspentRepo{m, m.RepoManager.UnspentRepository()}
}

// Crawler records what is watched and delivers events made up by the driver.
type Crawler struct {
	mu      sync.Mutex
	watched map[string]bool
	Started int
	Stopped int
	ch      chan crawler.Event
}

// NewCrawler makes a crawler that watches nothing.
func NewCrawler() *Crawler {
	return &Crawler{watched: map[string]bool{}, ch: make(chan crawler.Event)}
}

// Start implements crawler.Service.
func (c *Crawler) Start() { c.mu.Lock(); c.Started++; c.mu.Unlock() }

// Stop implements crawler.Service.
func (c *Crawler) Stop() { c.mu.Lock(); c.Stopped++; c.mu.Unlock(); c.ch <- crawler.CloseEvent{} }

func key(o crawler.Observable) string {
	switch x := o.(type) {
	case *crawler.AddressObservable:
		return "addr:" + x.Address
	case *crawler.TransactionObservable:
		return "tx:" + x.TxID
	}
	return "?"
}

// AddObservable implements crawler.Service.
func (c *Crawler) AddObservable(o crawler.Observable) {
	c.mu.Lock()
	c.watched[key(o)] = true
	c.mu.Unlock()
}

// RemoveObservable implements crawler.Service.
func (c *Crawler) RemoveObservable(o crawler.Observable) {
	c.mu.Lock()
	delete(c.watched, key(o))
	c.mu.Unlock()
}

// IsObservingAddresses implements crawler.Service.
func (c *Crawler) IsObservingAddresses(as []string) bool {
	for _, a := range as {
		if !c.Watching("addr:" + a) {
			return false
		}
	}
	return true
}

// GetEventChannel implements crawler.Service.
func (c *Crawler) GetEventChannel() chan crawler.Event { return c.ch }

// Deliver hands an event to whoever listens and, when wait is set, waits until it was dealt with: the listener takes one event
// after the other, so that it takes a second one, which means nothing, only then.
func (c *Crawler) Deliver(e crawler.Event, wait bool) {
	c.ch <- e
	if wait {
		select {
		case c.ch <- crawler.AddressEvent{EventType: 99}:
		case <-time.After(20 * time.Second):
		}
	}
}

// Watching tells whether tx:<id> or addr:<a> is watched.
func (c *Crawler) Watching(k string) bool { c.mu.Lock(); defer c.mu.Unlock(); return c.watched[k] }

// Watched lists what is watched.
func (c *Crawler) Watched() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var l []string
	for k := range c.watched {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// PubSub records what is published.
type PubSub struct {
	mu   sync.Mutex
	Msgs []Msg
}

// Msg is one published message.
type Msg struct{ Topic, Text string }
type topic struct {
	c int
	l string
}

func (t topic) Code() int     { return t.c }
func (t topic) Label() string { return t.l }

type psStore struct{}

func (psStore) Init(string) error                   { return nil }
func (psStore) IsLocked() bool                      { return false }
func (psStore) Lock()                               {}
func (psStore) Unlock(string) error                 { return nil }
func (psStore) ChangePassword(string, string) error { return nil }
func (psStore) Close() error                        { return nil }

// Store implements ports.SecurePubSub.
func (p *PubSub) Store() ports.PubSubStore { return psStore{} }

// Subscribe implements ports.SecurePubSub.
func (p *PubSub) Subscribe(string, ...interface{}) (string, error) { return "", nil }

// Unsubscribe implements ports.SecurePubSub.
func (p *PubSub) Unsubscribe(string, string) error { return nil }

// ListSubscriptionsForTopic implements ports.SecurePubSub.
func (p *PubSub) ListSubscriptionsForTopic(string) []ports.Subscription { return nil }

// Publish implements ports.SecurePubSub.
func (p *PubSub) Publish(t, m string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Msgs = append(p.Msgs, Msg{t, m})
	return nil
}

// All returns what was published so far.
func (p *PubSub) All() []Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Msg{}, p.Msgs...)
}

// TopicsByCode implements ports.SecurePubSub.
func (p *PubSub) TopicsByCode() map[int]ports.Topic {
	return map[int]ports.Topic{0: topic{0, "TRADE_SETTLED"}, 1: topic{1, "ACCOUNT_LOW_BALANCE"}, 2: topic{2, "ACCOUNT_WITHDRAW"}}
}

// TopicsByLabel implements ports.SecurePubSub.
func (p *PubSub) TopicsByLabel() map[string]ports.Topic {
	out := map[string]ports.Topic{}
	for _, t := range p.TopicsByCode() {
		out[t.Label()] = t
	}
	return out
}

// Trader is a counter-party with its own key.
type Trader struct {
	W    *trade.Wallet
	Addr string
}

// NewTrader makes a trader from the generator.
func NewTrader(r *rand.Rand) *Trader {
	a, b := Rand(r, 32), Rand(r, 32)
	a[0], b[0] = 1, 1
	w := trade.NewWalletFromKey(a, b, Net)
	return &Trader{w, w.Address()}
}

// ScriptHex is the trader's script.
func (t *Trader) ScriptHex() string {
	_, s := t.W.Script()
	return hex.EncodeToString(s)
}

// vault is the trader's multi-signature account: two keys, one signature needed.
func (t *Trader) vault() *payment.Payment {
	_, k := btcec.PrivKeyFromBytes(btcec.S256(), t.W.PrivateKey())
	_, o := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{9}, 32))
	_, b := btcec.PrivKeyFromBytes(btcec.S256(), t.W.BlindingKey())
	p, err := payment.FromPublicKeys([]*btcec.PublicKey{o, k}, 1, Net, b)
	if err != nil {
		panic(err)
	}
	return p
}

// Vault is the address of the trader's multi-signature account.
func (t *Trader) Vault() string {
	a, err := t.vault().ConfidentialWitnessScriptHash()
	if err != nil {
		panic(err)
	}
	return a
}

// Sign signs all the trader's inputs.
func (t *Trader) Sign(psetBase64 string) (string, error) {
	s, err := t.W.Sign(psetBase64)
	if err != nil {
		return "", err
	}
	p, err := pset.NewPsetFromBase64(s)
	if err != nil {
		return "", err
	}
	u, err := pset.NewUpdater(p)
	if err != nil {
		return "", err
	}
	v := t.vault()
	k, pub := btcec.PrivKeyFromBytes(btcec.S256(), t.W.PrivateKey())
	for i, in := range p.Inputs {
		if in.WitnessUtxo == nil || !bytes.Equal(in.WitnessUtxo.Script, v.WitnessScript) {
			continue
		}
		h := p.UnsignedTx.HashForWitnessV0(i, v.Redeem.Script, in.WitnessUtxo.Value, txscript.SigHashAll)
		sig, err := k.Sign(h[:])
		if err != nil {
			return "", err
		}
		if _, err := u.Sign(i, append(sig.Serialize(), byte(txscript.SigHashAll)), pub.SerializeCompressed(), nil, v.Redeem.Script); err != nil {
			return "", err
		}
	}
	return p.ToBase64()
}

// Request builds a swap request paying amtP of assetP for amtR of assetR with the given coins.
func (t *Trader) Request(id string, coins []*Coin, assetP string, amtP uint64, assetR string, amtR uint64) (*pbswap.SwapRequest, error) {
	var us []explorer.Utxo
	for _, c := range coins {
		us = append(us, c.Utxo(true))
	}
	_, script := t.W.Script()
	tx, err := trade.NewSwapTx(us, assetP, amtP, assetR, amtR, script)
	if err != nil {
		return nil, err
	}
	k := map[string][]byte{}
	for _, c := range coins {
		k[hex.EncodeToString(c.Out.Script)] = t.W.BlindingKey()
	}
	return &pbswap.SwapRequest{Id: id, AssetP: assetP, AmountP: amtP, AssetR: assetR, AmountR: amtR, Transaction: tx,
		InputBlindingKey: k, OutputBlindingKey: map[string][]byte{t.ScriptHex(): t.W.BlindingKey()}}, nil
}
