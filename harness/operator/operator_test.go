package operator

import (
	"os"
	"testing"
	"testing/synctest"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

// TestReplay runs the scripts of the specification with a virtual clock, in-memory stores.
func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	synctest.Test(t, func(*testing.T) {
		w := newWorld(tr, "inmem", true)
		for _, s := range lib.Scripts() {
			for _, a := range s {
				w.do(a.Copy())
			}
		}
		tr.Close()
		os.Exit(0)
	})
}

// TestStored runs the scripts in real time over the given kind of store.
func TestStored(t *testing.T) {
	tr := lib.NewTracer()
	w := newWorld(tr, os.Getenv("VH_BACKEND"), false)
	for _, s := range lib.Scripts() {
		for _, a := range s {
			w.do(a.Copy())
		}
	}
	tr.Close()
	os.Exit(0)
}

// TestBusy lets the operator do several things at the same time.
func TestBusy(t *testing.T) {
	tr := lib.NewTracer()
	rng := lib.Rng("operator")
	w := newWorld(tr, os.Getenv("VH_BACKEND"), false)
	coin := func(acc int, as string, amt int) lib.M { return lib.M{"acc": acc, "asset": as, "amt": amt} }
	market := func(acc int, q string) lib.M { return lib.M{"acc": acc, "q": q} }
	claim := func(q string, pts ...interface{}) lib.M {
		return lib.M{"op": "claim", "base": "ok", "q": q, "pts": pts, "down": ""}
	}
	for n := 0; n < lib.Int("VH_EPISODES", 4); n++ {
		cs := []lib.M{}
		for i, x := 0, 1+rng.Intn(3); i < x; i++ {
			cs = append(cs, coin(0, "B", 30000+1000*i))
		}
		for len(cs) < 6 {
			cs = append(cs, coin(1, "B", 300000+1000*len(cs)))
		}
		cs = append(cs, coin(5, "B", 1000000), coin(5, "Q1", 2000000), coin(5, "B", 400000), coin(5, "Q1", 1500000), coin(6, "B", 900000), coin(6, "Q2", 800000))
		w.do(lib.M{"op": "reset", "coins": cs, "mks": []lib.M{market(5, "Q1"), market(6, "Q2"), market(7, "-"), market(8, "-")}})
		w.do(lib.M{"op": "pay", "mined": true, "outs": []lib.M{coin(7, "B", 600000), coin(7, "Q3", 400000)}})
		w.do(lib.M{"op": "pay", "mined": true, "outs": []lib.M{coin(8, "B", 500000), coin(8, "Q3", 300000)}})
		w.do(lib.M{"op": "pay", "mined": true, "outs": []lib.M{coin(0, "B", 70000)}})
		edit := func() lib.M {
			switch rng.Intn(5) {
			case 0:
				return lib.M{"op": "pct", "base": "ok", "q": "Q1", "fee": rng.Intn(100)}
			case 1:
				return lib.M{"op": "fixed", "base": "ok", "q": "Q1", "fb": 1 + rng.Intn(9), "fq": 1 + rng.Intn(9)}
			case 2:
				return lib.M{"op": "price", "base": "ok", "q": "Q1", "bp": 1 + rng.Intn(9), "qp": 1 + rng.Intn(9)}
			case 3:
				return lib.M{"op": "open", "base": "ok", "q": "Q1"}
			}
			return lib.M{"op": "close", "base": "ok", "q": "Q1"}
		}
		made := 0
		derive := func() lib.M {
			switch rng.Intn(4) {
			case 0:
				return lib.M{"op": "deposit", "base": "ok", "q": "Q1", "n": 1 + rng.Intn(2)}
			case 1:
				return lib.M{"op": "fee", "n": 1 + rng.Intn(2)}
			case 2:
				return lib.M{"op": "addr"}
			}
			if made++; made > 2 {
				return lib.M{"op": "addr"}
			}
			return lib.M{"op": "new", "n": 1 + rng.Intn(2)}
		}
		pay := func() lib.M {
			if rng.Intn(3) > 0 {
				return lib.M{"op": "withdraw", "base": "ok", "q": "Q1", "wb": 1000 + rng.Intn(300000), "wq": 1000 + rng.Intn(300000), "addr": "f1", "push": true, "rate": 100, "down": ""}
			}
			return lib.M{"op": "send", "outs": []lib.M{{"addr": "f2", "asset": "B", "amt": 1000 + rng.Intn(300000)}}, "push": true, "rate": 100, "down": ""}
		}
		for _, q := range [][]lib.M{
			{claim("Q3", 13.0, 14.0), claim("Q3", 15.0, 16.0), derive()},
			{edit(), edit(), edit(), derive()},
			{lib.M{"op": "new", "n": 1}, lib.M{"op": "new", "n": 2}, derive(), lib.M{"op": "claimfee", "pts": []interface{}{17.0}, "down": ""}},
			{pay(), pay(), pay(), edit()},
			{pay(), pay(), derive(), edit()},
			{lib.M{"op": "drop", "acc": 7}, claim("Q3", 15.0, 16.0), edit(), pay()},
		} {
			if rng.Intn(4) > 0 {
				w.do(lib.M{"op": "par", "q": q})
			}
		}
	}
	tr.Close()
	os.Exit(0)
}
