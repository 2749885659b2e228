// Driver for spec/Unspents.tla: replays scripts on domain.UnspentRepository of both back ends.
package unspents

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

var ctx = context.Background()

type world struct {
	tr      *lib.Tracer
	backend string
	dir     string
	rm      ports.RepoManager
	prefix  string // makes the concrete names of an episode unique, so that one store serves many episodes
	trades  map[string]uuid.UUID
	back    map[string]string
	rng     *rand.Rand
	n       int
}

func (w *world) open() {
	if w.backend == "inmem" {
		w.rm = inmemory.NewRepoManager()
		return
	}
	if w.dir != "" {
		if err := os.MkdirAll(w.dir, 0700); err != nil {
			panic(err)
		}
	}
	rm, err := dbbadger.NewRepoManager(w.dir, nil)
	if err != nil {
		panic(err)
	}
	w.rm = rm
}

func (w *world) reset() {
	if w.rm == nil {
		w.open()
	}
	w.n++
	w.prefix = fmt.Sprintf("%064x", w.n)
	w.trades = map[string]uuid.UUID{}
	w.back = map[string]string{}
	w.tr.Ev(lib.M{"op": "reset", "backend": w.backend}, nil, nil)
}

// names: abstract keys "k1".."k9" share txids in pairs so that only the index tells them apart
func (w *world) key(k string) domain.UnspentKey {
	i := int(k[1] - '1')
	return domain.UnspentKey{TxID: w.prefix + fmt.Sprintf("-%d", i/2), VOut: uint32(i%2) * 256}
}
func (w *world) keys(ks []string) []domain.UnspentKey {
	out := make([]domain.UnspentKey, 0, len(ks))
	for _, k := range ks {
		out = append(out, w.key(k))
	}
	return out
}
func (w *world) addr(a string) string { return a + "@" + w.prefix }
func (w *world) addrs(as []string) []string {
	out := make([]string, 0, len(as))
	for _, a := range as {
		out = append(out, w.addr(a))
	}
	return out
}
func (w *world) asset(a string) string { return a + w.prefix }
func (w *world) trade(t string) uuid.UUID {
	if id, ok := w.trades[t]; ok {
		return id
	}
	id := uuid.New()
	w.trades[t] = id
	w.back[id.String()] = t
	return id
}

func fp(u domain.Unspent) string {
	u.Spent, u.Locked, u.LockedBy, u.Confirmed = false, false, nil, false
	b, _ := json.Marshal([]interface{}{u.TxID, u.VOut, u.Value, u.AssetHash, u.ValueCommitment, u.AssetCommitment,
		u.ValueBlinder, u.AssetBlinder, u.ScriptPubKey, u.Nonce, u.RangeProof, u.SurjectionProof, u.Address})
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

func (w *world) absKey(u domain.Unspent) string {
	for i := 1; i <= 9; i++ {
		k := fmt.Sprintf("k%d", i)
		if w.key(k) == u.Key() {
			return k
		}
	}
	return ""
}
func (w *world) mine(us []domain.Unspent) []domain.Unspent {
	out := []domain.Unspent{}
	for _, u := range us {
		if w.absKey(u) != "" {
			out = append(out, u)
		}
	}
	return out
}
func (w *world) absCoin(u domain.Unspent) lib.M {
	lk := ""
	if u.Locked && !u.Spent {
		lk = "?"
		if u.LockedBy != nil {
			if t, ok := w.back[u.LockedBy.String()]; ok {
				lk = t
			}
		}
	}
	as, ad := "?", "?"
	for _, x := range []string{"L", "U", "X"} {
		if w.asset(x) == u.AssetHash {
			as = x
		}
	}
	for _, x := range []string{"a1", "a2", "a3"} {
		if w.addr(x) == u.Address {
			ad = x
		}
	}
	return lib.M{"v": u.Value, "as": as, "ad": ad, "cf": u.Confirmed, "sp": u.Spent, "lk": lk, "fp": fp(u)}
}
func (w *world) obs() lib.M {
	o := lib.M{}
	for _, u := range w.mine(w.rm.UnspentRepository().GetAllUnspents(ctx)) {
		k := w.absKey(u)
		if _, dup := o[k]; dup {
			k += "dup"
		}
		o[k] = w.absCoin(u)
	}
	return o
}
func (w *world) names(us []domain.Unspent) []string {
	out := []string{}
	for _, u := range w.mine(us) {
		out = append(out, w.absKey(u))
	}
	sort.Strings(out)
	return out
}

func (w *world) coin(c lib.M) domain.Unspent {
	k := w.key(c.S("k"))
	h := sha256.Sum256([]byte(k.TxID + c.S("salt")))
	return domain.Unspent{
		TxID: k.TxID, VOut: k.VOut, Value: uint64(c.I("v")), AssetHash: w.asset(c.S("as")),
		ValueCommitment: hex.EncodeToString(h[:8]), AssetCommitment: hex.EncodeToString(h[8:16]),
		ValueBlinder: h[:], AssetBlinder: h[4:], ScriptPubKey: h[6:], Nonce: h[8:], RangeProof: h[10:], SurjectionProof: h[12:],
		Address: w.addr(c.S("ad")), Confirmed: c.B("cf"),
	}
}

func (w *world) do(a lib.M) {
	repo := w.rm.UnspentRepository()
	r := lib.M{}
	var n int
	var err error
	switch a.S("op") {
	case "add":
		cs := []lib.M{}
		us := []domain.Unspent{}
		for _, c := range a.LM("cs") {
			c = c.Copy()
			c["salt"] = fmt.Sprint(w.rng.Intn(1000)) // re-adding may bring different data: the first one stays
			u := w.coin(c)
			delete(c, "salt")
			c["fp"] = fp(u)
			cs = append(cs, c)
			us = append(us, u)
		}
		a = lib.M{"op": "add", "cs": cs}
		err = repo.AddUnspents(ctx, us)
	case "spend":
		n, err = repo.SpendUnspents(ctx, w.keys(a.L("ks")))
	case "confirm":
		n, err = repo.ConfirmUnspents(ctx, w.keys(a.L("ks")))
	case "lock":
		n, err = repo.LockUnspents(ctx, w.keys(a.L("ks")), w.trade(a.S("t")))
	case "unlock":
		n, err = repo.UnlockUnspents(ctx, w.keys(a.L("ks")))
	case "restart":
		if w.backend == "inmem" {
			return
		}
		w.rm.Close()
		w.open()
	}
	r["n"], r["err"] = n, lib.ErrS(err)
	w.tr.Ev(a, r, w.obs())
}

func (w *world) query() {
	repo := w.rm.UnspentRepository()
	sets := [][]string{{"a1"}, {"a2"}, {"a1", "a2"}, {"a3"}, {"a2", "a3", "a1"}}
	addrs := sets[w.rng.Intn(len(sets))]
	asset := []string{"L", "U"}[w.rng.Intn(2)]
	k := fmt.Sprintf("k%d", 1+w.rng.Intn(5))
	r := lib.M{}
	x, _ := repo.GetAvailableUnspents(ctx)
	r["avail"] = w.names(x)
	x, _ = repo.GetAvailableUnspentsForAddresses(ctx, w.addrs(addrs))
	r["availFor"] = w.names(x)
	x, _ = repo.GetUnspentsForAddresses(ctx, w.addrs(addrs))
	r["unspentsFor"] = w.names(x)
	x, _ = repo.GetAllUnspentsForAddresses(ctx, w.addrs(addrs))
	r["allFor"] = w.names(x)
	r["bal"], _ = repo.GetBalance(ctx, w.addrs(addrs), w.asset(asset))
	r["ubal"], _ = repo.GetUnlockedBalance(ctx, w.addrs(addrs), w.asset(asset))
	u, _ := repo.GetUnspentWithKey(ctx, w.key(k))
	if u == nil {
		r["get"] = lib.M{"none": true}
	} else {
		r["get"] = w.absCoin(*u)
	}
	w.tr.Ev(lib.M{"op": "query", "addrs": addrs, "asset": asset, "k": k}, r, nil)
}

func newWorld(t *testing.T, tr *lib.Tracer) *world {
	w := &world{tr: tr, backend: os.Getenv("VH_BACKEND"), rng: lib.Rng("unspents" + os.Getenv("VH_BACKEND"))}
	if os.Getenv("VH_DISK") != "" {
		w.dir = filepath.Join(os.Getenv("VH_TMP"), "db")
	}
	return w
}

// renew replaces the store now and then: many episodes in one store, but not so many that scans get slow.
func (w *world) renew(i int) {
	if w.rm != nil && i%8 == 7 {
		if w.backend != "inmem" {
			w.rm.Close()
		}
		w.rm = nil
		if w.dir != "" {
			os.RemoveAll(w.dir)
		}
	}
}

func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := newWorld(t, tr)
	for i, s := range lib.Scripts() {
		w.renew(i)
		w.reset()
		for _, a := range s {
			w.do(a)
			if w.rng.Intn(3) == 0 {
				w.query()
			}
		}
		w.query()
		w.query()
	}
}

// TestRandom: richer data than the model's constants - more coins per call, repeated and unknown keys, zero values.
func TestRandom(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := newWorld(t, tr)
	eps, steps := lib.Int("VH_EPISODES", 30), lib.Int("VH_STEPS", 40)
	for i := 0; i < eps; i++ {
		w.renew(i)
		w.reset()
		spent := map[string]bool{}
		gone := map[string]bool{}
		somekeys := func() []interface{} {
			out := []interface{}{}
			for n := 1 + w.rng.Intn(3); n > 0; n-- {
				out = append(out, fmt.Sprintf("k%d", 1+w.rng.Intn(6)))
			}
			return out
		}
		for j := 0; j < steps; j++ {
			var a lib.M
			switch w.rng.Intn(11) {
			case 0, 1, 2:
				cs := []interface{}{}
				for n := 1 + w.rng.Intn(3); n > 0; n-- {
					k := fmt.Sprintf("k%d", 1+w.rng.Intn(6))
					if gone[k] {
						continue
					}
					cs = append(cs, map[string]interface{}{"k": k, "v": float64(w.rng.Intn(100000)), "as": []string{"L", "U"}[w.rng.Intn(2)],
						"ad": []string{"a1", "a2", "a3"}[w.rng.Intn(3)], "cf": w.rng.Intn(3) > 0})
				}
				a = lib.M{"op": "add", "cs": cs}
			case 3:
				ks := somekeys()
				a = lib.M{"op": "spend", "ks": ks}
				for _, k := range ks {
					spent[k.(string)] = true
				}
			case 4, 5:
				a = lib.M{"op": "confirm", "ks": somekeys()}
			case 6, 7, 8:
				a = lib.M{"op": "lock", "ks": somekeys(), "t": []string{"t1", "t2", "t3"}[w.rng.Intn(3)]}
			case 9:
				a = lib.M{"op": "unlock", "ks": somekeys()}
			case 10:
				if w.dir == "" || w.rng.Intn(4) > 0 {
					continue
				}
				for k := range spent {
					gone[k] = true
				}
				a = lib.M{"op": "restart"}
			}
			w.do(a)
			w.query()
		}
	}
}
