package swap

import (
	"os"
	"testing"
	"testing/synctest"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

// TestReplay runs the scripts of the specification with a virtual clock, in-memory stores.
func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	synctest.Test(t, func(*testing.T) {
		w := newWorld(tr, "inmem", true)
		for _, s := range lib.Scripts() {
			for _, a := range s {
				w.do(a.Copy())
			}
		}
		tr.Close()
		os.Exit(0)
	})
}

// TestBusy sends proposals, completions and cancellations at the same time, in real time, to either kind of store.
func TestBusy(t *testing.T) {
	tr := lib.NewTracer()
	rng := lib.Rng("swap")
	w := newWorld(tr, os.Getenv("VH_BACKEND"), false)
	coin := func(acc int, as string, amt int) lib.M {
		return lib.M{"acc": acc, "asset": as, "amt": amt, "conf": true}
	}
	dirs := []string{"buy", "sell"}
	used := map[[2]int]bool{}
	for n := 0; n < lib.Int("VH_EPISODES", 10); n++ {
		cs := []lib.M{}
		rich := rng.Intn(2) == 0
		few := func() int {
			if rich {
				return 5 + rng.Intn(3)
			}
			return 2 + rng.Intn(2)
		}
		for i, x := 0, few()+1; i < x; i++ {
			cs = append(cs, coin(0, "B", 20000+i))
		}
		for i, x := 0, few(); i < x; i++ {
			cs = append(cs, coin(5, "B", 3000000+1000*i), coin(5, "Q1", 6000000+1000*i))
		}
		cs = append(cs, coin(6, "B", 5000000), coin(6, "Q2", 10000000), coin(6, "B", 4000000), coin(6, "Q2", 8000000))
		w.do(lib.M{"op": "reset", "coins": cs, "fee": 25, "plug": true})
		k := 0
		for round := 0; round < 4; round++ {
			q := []lib.M{}
			for i := 0; i < 2+rng.Intn(2) && k < 9; i++ {
				k++
				m := 1
				if rng.Intn(4) == 0 {
					m = 2
				}
				q = append(q, lib.M{"op": "propose", "k": k, "m": m, "dir": dirs[rng.Intn(2)], "kind": "ok", "size": 300000 + rng.Intn(5)*300000,
					"off": 100, "fq": false, "steal": 0})
			}
			var live []int
			for i := 1; i < k; i++ {
				if s := w.slots[i]; s != nil && s.acc != nil && !used[[2]int{n, i}] {
					live = append(live, i)
				}
			}
			for x := 0; x < 2 && len(live) > 0; x++ {
				y := rng.Intn(len(live))
				v := live[y]
				live = append(live[:y], live[y+1:]...)
				used[[2]int{n, v}] = true
				switch rng.Intn(4) {
				case 0:
					q = append(q, lib.M{"op": "complete", "k": v, "kind": "pset"}, lib.M{"op": "fail", "k": v, "kind": "ok"})
				case 1:
					q = append(q, lib.M{"op": "complete", "k": v, "kind": "pset"}, lib.M{"op": "complete", "k": v, "kind": "hex"})
				case 2:
					q = append(q, lib.M{"op": "fail", "k": v, "kind": "ok"}, lib.M{"op": "fail", "k": v, "kind": "ok"})
				case 3:
					q = append(q, lib.M{"op": "complete", "k": v, "kind": "pset"})
				}
			}
			w.do(lib.M{"op": "par", "q": q})
		}
	}
	tr.Close()
	os.Exit(0)
}
