// Driver for spec/Market.tla: domain.Market.
package market

import (
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

type world struct {
	tr  *lib.Tracer
	m   *domain.Market
	rng *rand.Rand
}

func scaled(d decimal.Decimal) []int {
	v := d.Shift(8)
	if !v.Equal(v.Truncate(0)) || v.IsNegative() {
		return []int{-1} // not a price with eight decimals
	}
	b := v.BigInt()
	out := []int{}
	base, r := big.NewInt(10000), new(big.Int)
	for b.Sign() > 0 {
		b.DivMod(b, base, r)
		out = append(out, int(r.Int64()))
	}
	return out
}
func price(v uint64) decimal.Decimal { return decimal.New(int64(v), -8) }

func (w *world) obs() lib.M {
	m := w.m
	s := "balanced"
	if m.IsStrategyPluggable() {
		s = "pluggable"
	}
	return lib.M{"base": m.BaseAsset, "quote": m.QuoteAsset, "open": m.IsTradable(), "strat": s, "fee": m.Fee,
		"fb": signed(m.FixedFee.BaseFee), "fq": signed(m.FixedFee.QuoteFee),
		"bp": scaled(m.Price.BasePrice), "qp": scaled(m.Price.QuotePrice)}
}
func signed(v int64) []int {
	if v < 0 {
		return []int{-1}
	}
	return lib.Limbs(uint64(v))
}

func (w *world) reset(fee int64) {
	m, err := domain.NewMarket(7, fee)
	if err != nil {
		m, _ = domain.NewMarket(7, 25)
	}
	w.m = m
	w.tr.Ev(lib.M{"op": "reset", "fee": fee}, lib.M{"err": lib.ErrS(err)}, nil)
}

func sgn(v uint64, neg bool) int64 {
	if neg {
		return -int64(v) - 1
	}
	return int64(v)
}

func (w *world) do(a lib.M) {
	m := w.m
	var err error
	r := lib.M{}
	switch a.S("op") {
	case "fund":
		ops := []domain.OutpointWithAsset{}
		for i, as := range a.L("assets") {
			ops = append(ops, domain.OutpointWithAsset{Asset: as, Txid: "t", Vout: i})
		}
		err = m.FundMarket(ops, a.S("baseAsset"))
	case "open":
		err = m.MakeTradable()
	case "close":
		err = m.MakeNotTradable()
	case "strategy":
		if a.S("s") == "pluggable" {
			err = m.MakeStrategyPluggable()
		} else {
			err = m.MakeStrategyBalanced()
		}
	case "fee":
		err = m.ChangeFeeBasisPoint(int64(a.I("f")))
	case "fixed":
		err = m.ChangeFixedFee(sgn(a.U("b"), a.B("negb")), sgn(a.U("q"), a.B("negq")))
	case "bprice":
		err = m.ChangeBasePrice(price(a.U("p")))
	case "qprice":
		err = m.ChangeQuotePrice(price(a.U("p")))
	case "quote":
		p, e := m.Preview(a.U("bb"), a.U("qb"), a.U("amt"), a.B("isBase"), a.B("isBuy"))
		err = e
		r["amount"], r["asset"], r["bp"], r["qp"] = []int{}, "", []int{}, []int{}
		if p != nil {
			r["amount"], r["asset"], r["bp"], r["qp"] = lib.Limbs(p.Amount), p.Asset, scaled(p.Price.BasePrice), scaled(p.Price.QuotePrice)
		}
	}
	r["err"] = lib.ErrS(err)
	w.tr.Ev(a, r, w.obs())
}

func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := &world{tr: tr, rng: lib.Rng("market")}
	for _, s := range lib.Scripts() {
		w.reset(25)
		for _, a := range s {
			w.do(a)
		}
	}
	for _, f := range []int64{-1, 0, 1, 9999, 10000, 1 << 40, -1 << 40} {
		if f < 1<<31 && f > -1<<31 {
			w.reset(f)
		}
	}
}

func (w *world) mag(max float64) uint64 {
	// log-uniform
	v := uint64(1)
	for i := w.rng.Float64() * max; i >= 1; i-- {
		v *= 10
	}
	return v + uint64(w.rng.Int63n(int64(v)*9))
}

// TestQuotes: markets of all shapes, ladders of amounts around the interesting points.
func TestQuotes(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	w := &world{tr: tr, rng: lib.Rng("quotes")}
	for i := 0; i < lib.Int("VH_EPISODES", 100); i++ {
		w.reset(int64([]int{0, 1, 25, 100, 5000, 9999, w.rng.Intn(10000)}[w.rng.Intn(7)]))
		w.do(lib.M{"op": "fund", "assets": []string{"L", "U"}, "baseAsset": "L"})
		max := []float64{3, 6, 9, 12, 14}[w.rng.Intn(5)]
		bb, qb := w.mag(max), w.mag(max)
		if w.rng.Intn(15) == 0 {
			bb = 0
		} else if w.rng.Intn(15) == 0 {
			qb = 0
		}
		var fb, fq uint64
		if w.rng.Intn(2) == 0 {
			fb, fq = 1+bb/uint64(2+w.rng.Intn(2000)), 1+qb/uint64(2+w.rng.Intn(2000))
			w.do(lib.M{"op": "fixed", "b": lib.Limbs(fb), "q": lib.Limbs(fq), "negb": false, "negq": false})
		}
		plug := w.rng.Intn(2) == 0
		if plug {
			w.do(lib.M{"op": "strategy", "s": "pluggable"})
			w.do(lib.M{"op": "bprice", "p": lib.Limbs(w.mag(11))})
			w.do(lib.M{"op": "qprice", "p": lib.Limbs(w.mag(11))})
		}
		w.do(lib.M{"op": "open"})
		for _, isBase := range []bool{true, false} {
			for _, isBuy := range []bool{true, false} {
				in, out := bb, qb
				if isBuy {
					in, out = qb, bb
				}
				ref, fx := in, fq
				if isBase != isBuy {
					ref = in
				} else {
					ref = out
				}
				if isBase {
					fx = fb
				}
				am := []uint64{0, 1, 2, 5, 6, 9, fx, fx + 1, ref / 2, ref, ref + 1, ref * 2, ref * 9}
				if ref > 0 {
					am = append(am, ref-1)
				}
				if fx > 0 {
					am = append(am, fx-1)
				}
				for k := 0; k < 10; k++ {
					v := w.mag(max)
					am = append(am, v, v+1)
				}
				sort.Slice(am, func(i, j int) bool { return am[i] < am[j] })
				for _, x := range am {
					w.do(lib.M{"op": "quote", "bb": lib.Limbs(bb), "qb": lib.Limbs(qb), "amt": lib.Limbs(x), "isBase": isBase, "isBuy": isBuy})
				}
			}
		}
	}
}
