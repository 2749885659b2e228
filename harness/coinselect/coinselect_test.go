// Driver for spec/CoinSelect.tla: explorer.SelectUnspents.
package coinselect

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/transaction"
)

type coin struct {
	id     string
	v      uint64
	as     string
	hidden bool
	conf   bool
}

func (c *coin) Hash() string            { return c.id }
func (c *coin) Index() uint32           { return 0 }
func (c *coin) Value() uint64           { return c.v }
func (c *coin) Asset() string           { return c.as }
func (c *coin) ValueCommitment() string { return "" }
func (c *coin) AssetCommitment() string { return "" }
func (c *coin) ValueBlinder() []byte    { return nil }
func (c *coin) AssetBlinder() []byte    { return nil }
func (c *coin) Script() []byte          { return nil }
func (c *coin) Nonce() []byte           { return nil }
func (c *coin) RangeProof() []byte      { return nil }
func (c *coin) SurjectionProof() []byte { return nil }
func (c *coin) IsConfidential() bool    { return c.conf || c.hidden }
func (c *coin) IsConfirmed() bool       { return true }
func (c *coin) IsRevealed() bool        { return !c.hidden }
func (c *coin) Parse() (*transaction.TxInput, *transaction.TxOutput, error) {
	return nil, nil, nil
}

type world struct {
	tr   *lib.Tracer
	rng  *rand.Rand
	pool []*coin
}

func (w *world) reset() {
	w.pool = nil
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}

// sel calls the code on its own copy of the offered list and projects the result.
func sel(pool []explorer.Utxo, as string, t uint64) (r lib.M, ids map[string]bool, change uint64) {
	r = lib.M{"err": "ok", "coins": []string{}, "change": []int{}, "as": as, "t": lib.Limbs(t)}
	ids = map[string]bool{}
	var coins []explorer.Utxo
	var err error
	p := lib.Safely(func() { coins, change, err = explorer.SelectUnspents(pool, t, as) })
	if p != "" {
		r["err"] = "panic: " + p
		return
	}
	out := []string{}
	for _, c := range coins {
		id := c.(*coin).id
		out = append(out, id)
		ids[id] = true
	}
	r["err"], r["coins"], r["change"] = lib.ErrS(err), out, lib.Limbs(change)
	return
}
func (w *world) offered() []explorer.Utxo {
	out := make([]explorer.Utxo, 0, len(w.pool))
	for _, c := range w.pool {
		out = append(out, c)
	}
	w.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (w *world) do(a lib.M) {
	switch a.S("op") {
	case "offer":
		w.pool = append(w.pool, &coin{a.S("id"), a.U("v"), a.S("as"), a.B("hidden"), w.rng.Intn(2) == 0})
		w.tr.Ev(a, nil, nil)
	case "reveal":
		for _, c := range w.pool {
			c.hidden = false
		}
		w.tr.Ev(a, nil, nil)
	case "select":
		r, ids, change := sel(w.offered(), a.S("as"), a.U("t"))
		w.tr.Ev(a, r, nil)
		if r["err"] == "ok" {
			left := []*coin{}
			for _, c := range w.pool {
				if !ids[c.id] {
					left = append(left, c)
				}
			}
			if change > 0 {
				left = append(left, &coin{a.S("chid"), change, a.S("as"), false, true})
			}
			w.pool = left
		}
	}
}

// many runs n selections at once on the same coins.
func (w *world) many(n int) {
	if len(w.pool) == 0 {
		return
	}
	all := make([]lib.M, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		pool := w.offered()
		as := w.pool[w.rng.Intn(len(w.pool))].as
		var total uint64
		for _, c := range w.pool {
			if c.as == as {
				total += c.v
			}
		}
		t := 1 + w.rng.Uint64()%(total+2)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			all[i], _, _ = sel(pool, as, t)
		}(i)
	}
	close(start)
	wg.Wait()
	w.tr.Ev(lib.M{"op": "many"}, lib.M{"all": all}, nil)
}

func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := &world{tr: tr, rng: lib.Rng("coinselect")}
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
}

func TestRandom(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := &world{tr: tr, rng: lib.Rng("coinselect-rnd")}
	for i := 0; i < lib.Int("VH_EPISODES", 100); i++ {
		w.reset()
		max := []int64{10, 1000, 1000000, 100000000000000}[w.rng.Intn(4)]
		n := 0
		for j := 0; j < 25; j++ {
			n++
			if len(w.pool) < 9 && w.rng.Intn(3) > 0 {
				w.do(lib.M{"op": "offer", "id": fmt.Sprintf("c%d", n), "v": lib.Limbs(1 + uint64(w.rng.Int63n(max))),
					"as": []string{"L", "U"}[w.rng.Intn(2)], "hidden": w.rng.Intn(25) == 0})
				continue
			}
			if w.rng.Intn(6) == 0 {
				w.do(lib.M{"op": "reveal"})
				continue
			}
			w.many(lib.Int("VH_PAR", 8))
			w.do(lib.M{"op": "select", "as": []string{"L", "U"}[w.rng.Intn(2)], "t": lib.Limbs(1 + uint64(w.rng.Int63n(max))), "chid": fmt.Sprintf("c%d", n)})
		}
	}
}

// TestSizes selects from pools of growing size, with targets at and around the total, all the coins but the smallest,
// and in between: the answer must not depend on how many coins it takes.
func TestSizes(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := &world{tr: tr, rng: lib.Rng("coinselect-sizes")}
	big := lib.Int("VH_COINS", 14)
	for n := 1; n <= big; n++ {
		for kind := 0; kind < 4; kind++ {
			w.reset()
			var total, min uint64
			for i := 0; i < n; i++ {
				v := uint64(10)
				switch kind {
				case 1:
					v = 1 + uint64(w.rng.Intn(20))
				case 2:
					v = uint64(1) << uint(2*i)
				case 3:
					v = 1 + uint64(w.rng.Int63n(100000000000000))
				}
				total += v
				if min == 0 || v < min {
					min = v
				}
				w.do(lib.M{"op": "offer", "id": fmt.Sprintf("s%d", i), "v": lib.Limbs(v), "as": "L", "hidden": false})
				if i%3 == 2 {
					w.do(lib.M{"op": "offer", "id": fmt.Sprintf("o%d", i), "v": lib.Limbs(v), "as": "U", "hidden": false})
				}
			}
			for _, t := range []uint64{total, total - 1, total + 1, total - min, total - min + 1, 1 + uint64(w.rng.Int63n(int64(total)))} {
				if t == 0 {
					continue
				}
				r, _, _ := sel(w.offered(), "L", t)
				r["as"], r["t"] = "L", lib.Limbs(t)
				w.tr.Ev(lib.M{"op": "many"}, lib.M{"all": []lib.M{r}}, nil)
			}
		}
	}
}
