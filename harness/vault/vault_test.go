// Driver for spec/Vault.tla: the vault through the repository of both back ends.
package vault

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcutil"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
)

var ctx = context.Background()

var seeds = map[string]string{
	"s1": "leave dice fine decrease dune ribbon ocean earn lunar account silver admit cheap fringe disorder trade because trade steak clock grace video jacket equal",
	"s2": "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
}
var passes = map[string]string{"p1": "Password1!", "p2": "Password1! ", "p3": "pässwörd-\U0001F511-long-long-long-long-long-long-long-long-long-long"}

func pw(p string) string {
	if v, ok := passes[p]; ok {
		return v
	}
	return p
}

// fastEncrypter stands in for the (deliberately slow) cipher in bulk runs; the real one is used when VH_REAL=1.
type fastEncrypter struct{}

func (fastEncrypter) Encrypt(m, p string) (string, error) {
	if m == "" || p == "" {
		return "", errors.New("missing text or passphrase")
	}
	h := btcutil.Hash160([]byte("x" + p))
	b := []byte(m)
	for i := range b {
		b[i] ^= h[i%len(h)]
	}
	return hex.EncodeToString(btcutil.Hash160(h)) + hex.EncodeToString(b), nil
}
func (fastEncrypter) Decrypt(c, p string) (string, error) {
	h := btcutil.Hash160([]byte("x" + p))
	tag := hex.EncodeToString(btcutil.Hash160(h))
	if p == "" || !strings.HasPrefix(c, tag) {
		return "", errors.New("wrong passphrase")
	}
	b, err := hex.DecodeString(c[len(tag):])
	for i := range b {
		b[i] ^= h[i%len(h)]
	}
	return string(b), err
}

type world struct {
	tr      *lib.Tracer
	backend string
	dir     string
	n       int
	rm      ports.RepoManager
	seed    string
	full    map[string]string // short name of an address -> the address
	script  map[string]string
	wal     map[string]*wallet.Wallet
}

func (w *world) open() {
	if w.backend == "inmem" {
		w.rm = inmemory.NewRepoManager()
		return
	}
	d := ""
	if w.dir != "" {
		d = filepath.Join(w.dir, fmt.Sprint(w.n))
		if err := os.MkdirAll(d, 0700); err != nil {
			panic(err)
		}
	}
	rm, err := dbbadger.NewRepoManager(d, nil)
	if err != nil {
		panic(err)
	}
	w.rm = rm
}
func (w *world) reset() {
	if w.rm != nil {
		w.rm.Close()
		if w.dir != "" {
			os.RemoveAll(filepath.Join(w.dir, fmt.Sprint(w.n)))
		}
	}
	w.n++
	w.open()
	domain.MnemonicStoreManager.Unset()
	w.full, w.script, w.seed = map[string]string{}, map[string]string{}, ""
	if w.wal == nil {
		w.wal = map[string]*wallet.Wallet{}
		for s, m := range seeds {
			x, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: strings.Split(m, " ")})
			if err != nil {
				panic(err)
			}
			w.wal[s] = x
		}
	}
	w.tr.Ev(lib.M{"op": "reset", "backend": w.backend}, nil, nil)
}

func (w *world) vault() *domain.Vault {
	v, err := w.rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		return nil
	}
	return v
}

// clear tells whether the seed can be found in what is stored.
func (w *world) clear(v *domain.Vault) bool {
	words := strings.Split(seeds[w.seed], " ")
	pieces := []string{}
	for i := 0; i+3 <= len(words); i += 3 {
		pieces = append(pieces, strings.Join(words[i:i+3], " "))
	}
	found := func(b []byte) bool {
		for _, p := range pieces {
			if bytes.Contains(b, []byte(p)) {
				return true
			}
		}
		return false
	}
	if found([]byte(v.EncryptedMnemonic)) || found([]byte(fmt.Sprintf("%+v", *v))) {
		return true
	}
	if w.dir != "" {
		bad := false
		filepath.Walk(filepath.Join(w.dir, fmt.Sprint(w.n)), func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() && i.Size() < 1<<24 {
				if b, err := os.ReadFile(p); err == nil && found(b) {
					bad = true
				}
			}
			return nil
		})
		return bad
	}
	return false
}

func (w *world) entry(i domain.AddressInfo) lib.M {
	return lib.M{"ad": w.short(i.Address, i.Script), "ac": i.AccountIndex, "path": i.DerivationPath, "key": hex.EncodeToString(i.BlindingKey)[:16]}
}
func (w *world) short(a, script string) string {
	s := hex.EncodeToString(btcutil.Hash160([]byte(a)))[:12]
	w.full[s] = a
	w.script[s] = script
	return s
}
func (w *world) entries(l domain.AddressesInfo) []lib.M {
	out := []lib.M{}
	for _, i := range l {
		out = append(out, w.entry(i))
	}
	return out
}

// derived projects an address just handed out; valid: the address carries its script and the public blinding key of
// the private one reported, and the wallet can sign for the script with the key of the reported path.
func (w *world) derived(i *domain.AddressInfo, err error) lib.M {
	if err != nil || i == nil {
		return lib.M{"err": "err", "path": "", "ad": "", "key": "", "ac": -1, "valid": false}
	}
	m := w.entry(*i)
	m["err"] = "ok"
	valid := false
	if info, err := address.FromConfidential(i.Address); err == nil {
		_, pub := btcec.PrivKeyFromBytes(btcec.S256(), i.BlindingKey)
		script, _ := address.ToOutputScript(i.Address)
		_, spub, err := w.wal[w.seed].DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: i.DerivationPath})
		valid = err == nil && bytes.Equal(info.BlindingKey, pub.SerializeCompressed()) && hex.EncodeToString(script) == i.Script &&
			len(script) == 22 && bytes.Equal(script[2:], btcutil.Hash160(spub.SerializeCompressed()))
	}
	m["valid"] = valid
	return m
}

func (w *world) obs() lib.M {
	v := w.vault()
	if v == nil || v.IsZero() {
		return lib.M{"made": false}
	}
	all := w.entries(v.AllDerivedAddressesInfo())
	sort.Slice(all, func(i, j int) bool { return all[i].S("path") < all[j].S("path") })
	return lib.M{"made": true, "locked": v.IsLocked(), "all": all, "clear": w.clear(v)}
}

func derive(v *domain.Vault, a lib.M) (*domain.AddressInfo, error) {
	if a.I("ch") == 1 {
		return v.DeriveNextInternalAddressForAccount(a.I("ac"))
	}
	return v.DeriveNextExternalAddressForAccount(a.I("ac"))
}

func (w *world) do(a lib.M) {
	r := lib.M{"err": "ok"}
	repo := w.rm.VaultRepository()
	update := func(ctx context.Context, f func(v *domain.Vault) error) error {
		return repo.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
			if err := f(v); err != nil {
				return nil, err
			}
			return v, nil
		})
	}
	switch a.S("op") {
	case "create":
		var m []string
		if s := seeds[a.S("seed")]; s != "" {
			m = strings.Split(s, " ")
		}
		_, err := repo.GetOrCreateVault(ctx, m, pw(a.S("p")), &network.Regtest)
		if err == nil && w.seed == "" {
			w.seed = a.S("seed")
		}
		r["err"] = lib.ErrS(err)
	case "lock":
		if v := w.vault(); v != nil {
			v.Lock()
		}
	case "restart":
		if w.backend == "inmem" {
			a = lib.M{"op": "lock"}
			if v := w.vault(); v != nil {
				v.Lock()
			}
			break
		}
		domain.MnemonicStoreManager.Unset() // the process's memory is gone
		if w.dir != "" {
			w.rm.Close()
			w.open()
		}
	case "unlock":
		v := w.vault()
		if v == nil {
			r["err"] = "err"
			break
		}
		err := v.Unlock(pw(a.S("p")))
		if err == nil {
			err = repo.UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) { return v, nil })
		}
		r["err"] = lib.ErrS(err)
	case "change":
		r["err"] = lib.ErrS(update(ctx, func(v *domain.Vault) error { return v.ChangePassphrase(pw(a.S("p")), pw(a.S("np"))) }))
	case "seed":
		r["err"], r["s"] = "err", ""
		if v := w.vault(); v != nil {
			m, err := v.GetMnemonicSafe()
			r["err"] = lib.ErrS(err)
			if len(m) > 0 {
				r["s"] = "?"
				for n, s := range seeds {
					if s == strings.Join(m, " ") {
						r["s"] = n
					}
				}
			}
		}
	case "init":
		r["err"] = lib.ErrS(update(ctx, func(v *domain.Vault) error { v.InitAccount(a.I("ac")); return nil }))
	case "derive":
		var i *domain.AddressInfo
		err := update(ctx, func(v *domain.Vault) (err error) { i, err = derive(v, a); return })
		r = w.derived(i, err)
	case "failderive":
		r["err"] = lib.ErrS(update(ctx, func(v *domain.Vault) error {
			if _, err := derive(v, a); err != nil {
				return err
			}
			return errors.New("abort")
		}))
	case "txderive":
		if w.backend == "inmem" && !a.B("commit") {
			return // no rollback there: see RunTransaction
		}
		var i *domain.AddressInfo
		_, err := w.rm.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
			if err := update(ctx, func(v *domain.Vault) (err error) { i, err = derive(v, a); return }); err != nil {
				return nil, err
			}
			if !a.B("commit") {
				return nil, errors.New("abort")
			}
			return nil, nil
		})
		r = w.derived(i, err)
	case "many":
		r = w.many(a)
	case "list":
		var l domain.AddressesInfo
		var err error
		if w.vault() == nil {
			err = errors.New("none")
		} else if a.B("ext") {
			l, err = repo.GetAllDerivedExternalAddressesInfoForAccount(ctx, a.I("ac"))
		} else {
			l, err = repo.GetAllDerivedAddressesInfoForAccount(ctx, a.I("ac"))
		}
		r["err"], r["l"] = lib.ErrS(err), w.entries(l)
	case "account":
		acc, err := repo.GetAccountByIndex(ctx, a.I("ac"))
		r["err"], r["ac"] = lib.ErrS(err), -1
		if acc != nil {
			r["ac"] = acc.AccountIndex
		}
	case "ownerall":
		for _, e := range w.obs()["all"].([]lib.M) {
			w.do(lib.M{"op": "owner", "ad": e.S("ad")})
		}
		w.do(lib.M{"op": "owner", "ad": "unknown"})
		return
	case "owner":
		ad := w.full[a.S("ad")]
		acc, i, err := repo.GetAccountByAddress(ctx, ad)
		r["err"], r["ac"] = lib.ErrS(err), i
		if acc != nil && acc.AccountIndex != i {
			r["ac"] = -2
		}
	case "pathsall":
		ads := []string{}
		for _, e := range w.obs()["all"].([]lib.M) {
			if e.I("ac") == a.I("ac") {
				ads = append(ads, e.S("ad"))
			}
		}
		w.do(lib.M{"op": "paths", "ac": a.I("ac"), "ads": ads})
		w.do(lib.M{"op": "paths", "ac": a.I("ac"), "ads": append(ads, "unknown")})
		return
	case "paths":
		sc := []string{}
		for _, x := range a.L("ads") {
			sc = append(sc, w.script[x])
		}
		m, err := repo.GetDerivationPathByScript(ctx, a.I("ac"), sc)
		ps := []string{}
		if err == nil {
			for _, s := range sc {
				ps = append(ps, m[s])
			}
			if len(m) != len(sc) {
				ps = append(ps, "?")
			}
		}
		r["err"], r["ps"] = lib.ErrS(err), ps
	}
	w.tr.Ev(a, r, w.obs())
}

// many: every request is inside its update function before the first one leaves it (unless updates exclude each other).
func (w *world) many(a lib.M) lib.M {
	q := a.LM("q")
	ds := make([]lib.M, len(q))
	infos := make([]*domain.AddressInfo, len(q))
	errs := make([]error, len(q))
	var wg, in sync.WaitGroup
	in.Add(len(q))
	all := make(chan struct{})
	go func() { in.Wait(); close(all) }()
	for i := range q {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var once sync.Once
			errs[i] = w.rm.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
				var err error
				infos[i], err = derive(v, q[i])
				once.Do(in.Done)
				select {
				case <-all:
				case <-time.After(3 * time.Millisecond):
				}
				if err != nil {
					return nil, err
				}
				return v, nil
			})
			once.Do(in.Done)
		}(i)
	}
	wg.Wait()
	for i := range q {
		ds[i] = w.derived(infos[i], errs[i])
	}
	return lib.M{"ds": ds}
}

func newWorld() *world {
	w := &world{tr: lib.NewTracer(), backend: os.Getenv("VH_BACKEND")}
	if os.Getenv("VH_DISK") != "" {
		w.dir = filepath.Join(os.Getenv("VH_TMP"), "db")
	}
	if os.Getenv("VH_REAL") == "" {
		domain.EncrypterManager = fastEncrypter{}
	}
	return w
}

func TestReplay(t *testing.T) {
	w := newWorld()
	defer w.tr.Close()
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
	w.rm.Close()
}
