// Package app: the world around the application services - a simulated Liquid chain with real confidential transactions,
// traders, a recording crawler and pubsub, and stores that can be cut off (a restart) or held up (an interleaving).
package app

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

// Net is the network of the simulated chain.
var Net = &network.Regtest

// Coin is an output with everything needed to spend it.
type Coin struct {
	Txid     string
	Vout     uint32
	Asset    string
	Value    uint64
	Out      *transaction.TxOutput
	ABF, VBF []byte
}

// Utxo gives the form used by wallets.
func (c *Coin) Utxo(confirmed bool) explorer.Utxo {
	vc, ac := "", ""
	if c.Out.IsConfidential() {
		vc, ac = bufferutil.CommitmentFromBytes(c.Out.Value), bufferutil.CommitmentFromBytes(c.Out.Asset)
	}
	return esplora.NewWitnessUtxo(c.Txid, c.Vout, c.Value, c.Asset, vc, ac, c.VBF, c.ABF, c.Out.Script, c.Out.Nonce,
		c.Out.RangeProof, c.Out.SurjectionProof, confirmed)
}

// Rand fills n bytes, deterministic per world.
func Rand(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// AddrScript decodes an address.
func AddrScript(addr string) (script, blindPub []byte) {
	s, err := address.ToOutputScript(addr)
	if err != nil {
		panic(err)
	}
	if ok, _ := address.IsConfidential(addr); ok {
		ct, err := address.FromConfidential(addr)
		if err != nil {
			panic(err)
		}
		return s, ct.BlindingKey
	}
	return s, nil
}

// NewOutput makes an output paying addr, confidential when the address is.
func NewOutput(r *rand.Rand, addr, asset string, value uint64) (*transaction.TxOutput, []byte, []byte) {
	script, pub := AddrScript(addr)
	ab, err := bufferutil.AssetHashToBytes(asset)
	if err != nil {
		panic(err)
	}
	if pub == nil {
		v, _ := bufferutil.ValueToBytes(value)
		return transaction.NewTxOutput(ab, v, script), make([]byte, 32), make([]byte, 32)
	}
	raw := ab[1:]
	abf, vbf := Rand(r, 32), Rand(r, 32)
	abf[0], vbf[0] = 1, 1 // below the group order
	ac, err := confidential.AssetCommitment(raw, abf)
	if err != nil {
		panic(err)
	}
	vc, err := confidential.ValueCommitment(value, ac, vbf)
	if err != nil {
		panic(err)
	}
	ek := Rand(r, 32)
	ek[0] = 1
	_, epub := btcec.PrivKeyFromBytes(btcec.S256(), ek)
	nonce, err := confidential.NonceHash(pub, ek)
	if err != nil {
		panic(err)
	}
	var v32 [32]byte
	copy(v32[:], vbf)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{Value: value, Nonce: nonce, Asset: raw, AssetBlindingFactor: abf,
		ValueBlindFactor: v32, ValueCommit: vc, ScriptPubkey: script})
	if err != nil {
		panic(err)
	}
	out := transaction.NewTxOutput(ac, vc, script)
	out.Nonce, out.RangeProof, out.SurjectionProof = epub.SerializeCompressed(), rp, []byte{0}
	return out, abf, vbf
}

type point struct {
	txid string
	vout uint32
}

// Chain is the simulated chain and the explorer in front of it.
type Chain struct {
	mu      sync.Mutex
	R       *rand.Rand
	tx      map[string]*transaction.Transaction
	hex     map[string]string
	conf    map[string]bool
	order   []string
	spentBy map[point]string
	known   map[point]*Coin
	Sent    []string // ids of the transactions accepted by BroadcastTransaction, in order
	Tried   int
	FailOn  map[string]int // calls of a method that fail before it works again; -1: always
	FailAt  map[string]int // the call of a method, counted from now, that fails
	Hook    func(method string)
	Lax     bool // accept transactions of coins made up by the repository's tests
}

// NewChain starts an empty chain.
func NewChain(r *rand.Rand) *Chain {
	return &Chain{R: r, tx: map[string]*transaction.Transaction{}, hex: map[string]string{}, conf: map[string]bool{},
		spentBy: map[point]string{}, known: map[point]*Coin{}, FailOn: map[string]int{}, FailAt: map[string]int{}}
}

func (c *Chain) enter(m string) error {
	if c.Hook != nil {
		c.Hook(m)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if n := c.FailAt[m]; n > 0 {
		if c.FailAt[m] = n - 1; n == 1 {
			return errors.New("explorer: " + m + " failed")
		}
	}
	if n := c.FailOn[m]; n != 0 {
		if n > 0 {
			c.FailOn[m] = n - 1
		}
		return errors.New("explorer: " + m + " unavailable")
	}
	return nil
}

// Pay mines or publishes a transaction from nowhere with the given outputs.
type Pay struct {
	Addr, Asset string
	Value       uint64
}

// Fund adds a transaction with the given outputs and returns its coins.
func (c *Chain) Fund(confirmed bool, pays ...Pay) []*Coin {
	tx := &transaction.Transaction{Version: 2}
	tx.AddInput(transaction.NewTxInput(Rand(c.R, 32), 0))
	var coins []*Coin
	for i, p := range pays {
		o, a, v := NewOutput(c.R, p.Addr, p.Asset, p.Value)
		tx.AddOutput(o)
		coins = append(coins, &Coin{Vout: uint32(i), Asset: p.Asset, Value: p.Value, Out: o, ABF: a, VBF: v})
	}
	id := tx.TxHash().String()
	for _, x := range coins {
		x.Txid = id
	}
	c.Insert(tx, confirmed, coins)
	return coins
}

// Insert adds an already made transaction (and the secrets of its outputs, if known).
func (c *Chain) Insert(tx *transaction.Transaction, confirmed bool, coins []*Coin) string {
	h, err := tx.ToHex()
	if err != nil {
		panic(err)
	}
	id := tx.TxHash().String()
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.tx[id]; !ok {
		c.order = append(c.order, id)
	}
	c.tx[id], c.hex[id], c.conf[id] = tx, h, confirmed
	for _, in := range tx.Inputs {
		c.spentBy[point{bufferutil.TxIDFromBytes(in.Hash), in.Index}] = id
	}
	for _, x := range coins {
		c.known[point{x.Txid, x.Vout}] = x
	}
	return id
}

// Coin returns what is known about an outpoint.
func (c *Chain) Coin(txid string, vout uint32) *Coin {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.known[point{txid, vout}]
}

// Learn stores the secrets of an output.
func (c *Chain) Learn(x *Coin) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.known[point{x.Txid, x.Vout}] = x
}

// Confirm mines a transaction.
func (c *Chain) Confirm(txid string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.conf[txid] = true
}

// Mined tells whether a transaction is confirmed.
func (c *Chain) Mined(txid string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.conf[txid]
}

// Tx returns a transaction of the chain.
func (c *Chain) Tx(txid string) *transaction.Transaction {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.tx[txid]
}

// Hex returns a transaction of the chain as the explorer serves it.
func (c *Chain) Hex(txid string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.hex[txid]
}

// SpentBy tells the spender of an outpoint.
func (c *Chain) SpentBy(txid string, vout uint32) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.spentBy[point{txid, vout}]
}

// CheckWitness verifies the p2wpkh signature of an input against the output it spends.
func CheckWitness(tx *transaction.Transaction, i int, prev *transaction.TxOutput) error {
	in := tx.Inputs[i]
	if len(prev.Script) == 34 { // multi-signature
		return checkMulti(tx, i, prev)
	}
	if len(in.Witness) != 2 {
		return fmt.Errorf("input %d has no p2wpkh witness", i)
	}
	pub, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
	if err != nil {
		return err
	}
	p := payment.FromPublicKey(pub, Net, nil)
	if !bytes.Equal(p.WitnessScript, prev.Script) {
		return fmt.Errorf("input %d: key does not match", i)
	}
	s := in.Witness[0]
	if len(s) < 9 || s[len(s)-1] != byte(txscript.SigHashAll) {
		return fmt.Errorf("input %d: bad signature", i)
	}
	sig, err := btcec.ParseDERSignature(s[:len(s)-1], btcec.S256())
	if err != nil {
		return err
	}
	h := tx.HashForWitnessV0(i, p.Script, prev.Value, txscript.SigHashAll)
	if !sig.Verify(h[:], pub) {
		return fmt.Errorf("input %d: wrong signature", i)
	}
	return nil
}

// checkMulti checks a multi-signature input that needs one signature.
func checkMulti(tx *transaction.Transaction, i int, prev *transaction.TxOutput) error {
	w := tx.Inputs[i].Witness
	if len(w) != 3 || len(w[1]) < 9 {
		return fmt.Errorf("input %d has no p2wsh witness", i)
	}
	if h := sha256.Sum256(w[2]); !bytes.Equal(h[:], prev.Script[2:]) {
		return fmt.Errorf("input %d: wrong witness script", i)
	}
	sig, err := btcec.ParseDERSignature(w[1][:len(w[1])-1], btcec.S256())
	if err != nil {
		return err
	}
	h := tx.HashForWitnessV0(i, w[2], prev.Value, txscript.SigHashAll)
	for j := 1; j+34 <= len(w[2]); j += 34 { // OP_n <33> key <33> key OP_m OP_CHECKMULTISIG
		if k, err := btcec.ParsePubKey(w[2][j+1:j+34], btcec.S256()); err == nil && sig.Verify(h[:], k) {
			return nil
		}
	}
	return fmt.Errorf("input %d: wrong signature", i)
}

// Tally checks that inputs and outputs balance: the commitments of each side, as points v*H_a + r*G, add up to the same
// point. For explicit values r is 0.
func Tally(ins []*transaction.TxOutput, outs []*transaction.TxOutput) error {
	sum := func(os []*transaction.TxOutput) (*big.Int, *big.Int, error) {
		var x, y *big.Int
		for _, o := range os {
			px, py, err := valuePoint(o)
			if err != nil {
				return nil, nil, err
			}
			if x == nil {
				x, y = px, py
			} else if x.Cmp(px) == 0 && y.Cmp(py) == 0 {
				x, y = btcec.S256().Double(x, y)
			} else {
				x, y = btcec.S256().Add(x, y, px, py)
			}
		}
		return x, y, nil
	}
	ix, iy, err := sum(ins)
	if err != nil {
		return err
	}
	ox, oy, err := sum(outs)
	if err != nil {
		return err
	}
	if ix == nil || ox == nil || ix.Cmp(ox) != 0 || iy.Cmp(oy) != 0 {
		return errors.New("inputs and outputs do not balance")
	}
	return nil
}

func valuePoint(o *transaction.TxOutput) (*big.Int, *big.Int, error) {
	vc := o.Value
	if !o.IsConfidential() {
		gen, err := confidential.AssetCommitment(o.Asset[1:], make([]byte, 32))
		if err != nil {
			return nil, nil, err
		}
		// v*H_a with an all-zero factor: commit with factor 1 and subtract G
		one := make([]byte, 32)
		one[31] = 1
		vc, err = confidential.ValueCommitment(bufferutil.ValueFromBytes(o.Value), gen, one)
		if err != nil {
			return nil, nil, err
		}
		x, y, err := parsePoint(vc)
		if err != nil {
			return nil, nil, err
		}
		g := btcec.S256().Params()
		nx, ny := btcec.S256().Add(x, y, g.Gx, new(big.Int).Sub(g.P, g.Gy))
		return nx, ny, nil
	}
	return parsePoint(vc)
}

// parsePoint decodes a Pedersen commitment (0x08: y is a square, 0x09: it is not).
func parsePoint(b []byte) (*big.Int, *big.Int, error) {
	if len(b) != 33 || (b[0] != 8 && b[0] != 9) {
		return nil, nil, fmt.Errorf("bad commitment %x", b)
	}
	p := btcec.S256().P
	x := new(big.Int).SetBytes(b[1:])
	y2 := new(big.Int).Exp(x, big.NewInt(3), p)
	y2.Add(y2, big.NewInt(7)).Mod(y2, p)
	y := new(big.Int).ModSqrt(y2, p)
	if y == nil {
		return nil, nil, errors.New("not on the curve")
	}
	isSq := big.Jacobi(y, p) == 1
	if isSq != (b[0] == 8) {
		y.Sub(p, y)
	}
	return x, y, nil
}

// Validate is the consensus check of the simulated chain.
func (c *Chain) Validate(tx *transaction.Transaction) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	var prevs []*transaction.TxOutput
	seen := map[point]bool{}
	for _, in := range tx.Inputs {
		k := point{bufferutil.TxIDFromBytes(in.Hash), in.Index}
		if seen[k] {
			return errors.New("bad-txns-inputs-duplicate")
		}
		seen[k] = true
		t, ok := c.tx[k.txid]
		if !ok || int(k.vout) >= len(t.Outputs) {
			return errors.New("bad-txns-inputs-missingorspent")
		}
		if by := c.spentBy[k]; by != "" {
			return errors.New("txn-mempool-conflict")
		}
		prevs = append(prevs, t.Outputs[k.vout])
	}
	if len(prevs) == 0 {
		return errors.New("no inputs")
	}
	fee := false
	for _, o := range tx.Outputs {
		if len(o.Script) == 0 {
			fee = true
		}
	}
	if !fee {
		return errors.New("no fee output")
	}
	for i, p := range prevs {
		if err := CheckWitness(tx, i, p); err != nil {
			return err
		}
	}
	return Tally(prevs, tx.Outputs)
}

// ---- explorer.Service ----

// BroadcastTransaction accepts a valid transaction into the mempool.
func (c *Chain) BroadcastTransaction(h string) (string, error) {
	c.mu.Lock()
	c.Tried++
	c.mu.Unlock()
	if err := c.enter("broadcast"); err != nil {
		return "", err
	}
	tx, err := transaction.NewTxFromHex(h)
	if err != nil {
		return "", fmt.Errorf("TX decode failed: %s", err)
	}
	id := tx.TxHash().String()
	if c.Tx(id) != nil {
		return "", errors.New("txn-already-in-mempool")
	}
	if err := c.Validate(tx); err != nil {
		return "", err
	}
	c.Insert(tx, false, nil)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Sent = append(c.Sent, id)
	return id, nil
}

func (c *Chain) find(script []byte) []point {
	var out []point
	for _, id := range c.order {
		for i, o := range c.tx[id].Outputs {
			if len(script) > 0 && bytes.Equal(o.Script, script) {
				out = append(out, point{id, uint32(i)})
			}
		}
	}
	return out
}

func (c *Chain) unspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	script, _ := AddrScript(addr)
	c.mu.Lock()
	defer c.mu.Unlock()
	var out []explorer.Utxo
	for _, p := range c.find(script) {
		if c.spentBy[p] != "" {
			continue
		}
		x, err := Reveal(c.tx[p.txid], p.vout, keys)
		if err != nil {
			return nil, err
		}
		out = append(out, x.Utxo(c.conf[p.txid]))
	}
	return out, nil
}

// Reveal unblinds an output with one of the keys.
func Reveal(tx *transaction.Transaction, vout uint32, keys [][]byte) (*Coin, error) {
	o := tx.Outputs[vout]
	x := &Coin{Txid: tx.TxHash().String(), Vout: vout, Out: o}
	if !o.IsConfidential() {
		x.Asset, x.Value = bufferutil.AssetHashFromBytes(o.Asset), bufferutil.ValueFromBytes(o.Value)
		x.ABF, x.VBF = make([]byte, 32), make([]byte, 32)
		return x, nil
	}
	for _, k := range keys {
		if r, err := confidential.UnblindOutputWithKey(o, k); err == nil {
			x.Asset, x.Value = bufferutil.AssetHashFromBytes(append([]byte{1}, r.Asset...)), r.Value
			x.ABF, x.VBF = r.AssetBlindingFactor, r.ValueBlindingFactor
			return x, nil
		}
	}
	return nil, errors.New("unable to unblind output")
}

// GetUnspents implements explorer.Service.
func (c *Chain) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := c.enter("unspents"); err != nil {
		return nil, err
	}
	return c.unspents(addr, keys)
}

// GetUnspentsForAddresses implements explorer.Service.
func (c *Chain) GetUnspentsForAddresses(addrs []string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := c.enter("unspents"); err != nil {
		return nil, err
	}
	var out []explorer.Utxo
	for _, a := range addrs {
		u, err := c.unspents(a, keys)
		if err != nil {
			return nil, err
		}
		out = append(out, u...)
	}
	return out, nil
}

// GetTransaction implements explorer.Service.
func (c *Chain) GetTransaction(txid string) (explorer.Transaction, error) {
	if err := c.enter("tx"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	h, ok := c.hex[txid]
	if !ok {
		return nil, errors.New("Transaction not found")
	}
	return esplora.NewTxFromHex(h, c.conf[txid])
}

// GetTransactionHex implements explorer.Service.
func (c *Chain) GetTransactionHex(txid string) (string, error) {
	if err := c.enter("hex"); err != nil {
		return "", err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if h, ok := c.hex[txid]; ok {
		return h, nil
	}
	return "", errors.New("Transaction not found")
}

// IsTransactionConfirmed implements explorer.Service.
func (c *Chain) IsTransactionConfirmed(txid string) (bool, error) {
	if err := c.enter("status"); err != nil {
		return false, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.hex[txid]; !ok {
		return false, errors.New("Transaction not found")
	}
	return c.conf[txid], nil
}

// GetTransactionStatus implements explorer.Service.
func (c *Chain) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	ok, err := c.IsTransactionConfirmed(txid)
	if err != nil {
		return nil, err
	}
	return map[string]interface{}{"confirmed": ok, "block_hash": "", "block_time": float64(0)}, nil
}

// GetTransactionsForAddress implements explorer.Service.
func (c *Chain) GetTransactionsForAddress(addr string, _ []byte) ([]explorer.Transaction, error) {
	if err := c.enter("addrtxs"); err != nil {
		return nil, err
	}
	script, _ := AddrScript(addr)
	c.mu.Lock()
	defer c.mu.Unlock()
	ids := map[string]bool{}
	for _, p := range c.find(script) {
		ids[p.txid] = true
		if by := c.spentBy[p]; by != "" {
			ids[by] = true
		}
	}
	var l []string
	for id := range ids {
		l = append(l, id)
	}
	sort.Strings(l)
	var out []explorer.Transaction
	for _, id := range l {
		t, err := esplora.NewTxFromHex(c.hex[id], c.conf[id])
		if err != nil {
			return nil, err
		}
		out = append(out, t)
	}
	return out, nil
}

// GetBlockHeight implements explorer.Service.
func (c *Chain) GetBlockHeight() (int, error) { return 1, nil }

// Faucet implements explorer.Service.
func (c *Chain) Faucet(string, float64, string) (string, error) {
	return "", errors.New("no faucet")
}

// Mint implements explorer.Service.
func (c *Chain) Mint(string, float64) (string, string, error) { return "", "", errors.New("no faucet") }

// AssetHex makes an asset id from a tag.
func AssetHex(tag byte) string { return hex.EncodeToString(bytes.Repeat([]byte{tag}, 32)) }
