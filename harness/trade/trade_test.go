// Driver for spec/Trade.tla: domain.Trade under a fake clock, with message (de)serialization that records tokens.
package trade

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

// parser stands for the swap message format: it records which call produced a message and refuses on demand.
type parser struct {
	valid bool
	n     int
}

var errRefused = errors.New("refused")

func (p *parser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if !p.valid {
		return nil, &domain.SwapError{Err: errRefused, Code: 1}
	}
	return []byte(fmt.Sprintf("req:%d", p.n)), nil
}
func (p *parser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	if !p.valid {
		return "", nil, &domain.SwapError{Err: errRefused, Code: 2}
	}
	return fmt.Sprintf("accid:%d", p.n), []byte(fmt.Sprintf("acc:%d", p.n)), nil
}
func (p *parser) SerializeComplete(acc []byte, tx string) (string, []byte, *domain.SwapError) {
	if !p.valid {
		return "", nil, &domain.SwapError{Err: errRefused, Code: 3}
	}
	return fmt.Sprintf("cmpid:%d", p.n), []byte(fmt.Sprintf("cmp:%d", p.n)), nil
}
func (p *parser) SerializeFail(id string, code int, msg string) (string, []byte) {
	return fmt.Sprintf("failid:%d", p.n), []byte(fmt.Sprintf("fail:%d", p.n))
}
func (p *parser) DeserializeRequest(m []byte) (domain.SwapRequest, error)   { return nil, nil }
func (p *parser) DeserializeAccept(m []byte) (domain.SwapAccept, error)     { return nil, nil }
func (p *parser) DeserializeComplete(m []byte) (domain.SwapComplete, error) { return nil, nil }
func (p *parser) DeserializeFail(m []byte) (domain.SwapFail, error)         { return nil, nil }

func (p *parser) GetTxID(s string) (string, error)  { return "txid:" + after(s), nil }
func (p *parser) GetTxHex(s string) (string, error) { return hexOf(after(s)), nil }

func after(s string) string { return s[strings.LastIndex(s, ":")+1:] }
func hexOf(n string) string { i, _ := strconv.Atoi(n); return fmt.Sprintf("abcd%08x", i) }

type request struct{ n int }

func (r request) GetId() string                            { return fmt.Sprintf("reqid:%d", r.n) }
func (r request) GetAssetP() string                        { return "P" }
func (r request) GetAmountP() uint64                       { return 1000 }
func (r request) GetAssetR() string                        { return "R" }
func (r request) GetAmountR() uint64                       { return 4000 }
func (r request) GetTransaction() string                   { return fmt.Sprintf("pset:%d", r.n) }
func (r request) GetInputBlindingKey() map[string][]byte   { return nil }
func (r request) GetOutputBlindingKey() map[string][]byte  { return nil }

type world struct {
	tr    *lib.Tracer
	p     *parser
	t     *domain.Trade
	t0    int64
	rng   *rand.Rand
	maxn  int
}

func tok(s, prefix string) int {
	if s == "" {
		return 0
	}
	if !strings.HasPrefix(s, prefix) {
		return -7
	}
	n, err := strconv.Atoi(s[len(prefix):])
	if err != nil {
		return -8
	}
	return n
}
func hexTok(s string) int {
	if s == "" {
		return 0
	}
	if !strings.HasPrefix(s, "abcd") {
		return -7
	}
	n, _ := strconv.ParseInt(s[4:], 16, 64)
	return int(n)
}

// pair: a message and its id must come from the same call
func pair(s domain.Swap, idp, mp string) int {
	a, b := tok(s.ID, idp), tok(string(s.Message), mp)
	if a != b {
		return -9
	}
	return a
}

func (w *world) obs() lib.M {
	t := w.t
	dl, st := -1, -1
	if t.ExpiryTime != 0 {
		dl = int(int64(t.ExpiryTime) - w.t0)
	}
	if t.SettlementTime != 0 {
		st = int(t.SettlementTime)
	}
	req := pair(t.SwapRequest, "reqid:", "req:")
	if len(t.SwapRequest.Message) == 0 {
		req = 0 // a request that could not be recorded
	}
	owns := []int{}
	for i := 1; i <= w.maxn; i++ {
		if (req == i && t.ContainsSwap(fmt.Sprintf("reqid:%d", i))) ||
			t.ContainsSwap(fmt.Sprintf("accid:%d", i)) || t.ContainsSwap(fmt.Sprintf("cmpid:%d", i)) {
			owns = append(owns, i)
		}
	}
	return lib.M{"code": t.Status.Code, "failed": t.Status.Failed, "dl": dl, "st": st,
		"req": req, "acc": pair(t.SwapAccept, "accid:", "acc:"),
		"cmp": pair(t.SwapComplete, "cmpid:", "cmp:"), "fl": pair(t.SwapFail, "failid:", "fail:"),
		"txid": tok(t.TxID, "txid:"), "txhex": hexTok(t.TxHex), "pset": tok(t.PsetBase64, "pset:"),
		"isProposal": t.IsProposal(), "isAccepted": t.IsAccepted(), "isCompleted": t.IsCompleted(), "isSettled": t.IsSettled(),
		"isRejected": t.IsRejected(), "isEmpty": t.IsEmpty(), "isExpired": t.IsExpired(), "owns": owns}
}

func (w *world) reset() {
	w.t = domain.NewTrade()
	w.t0 = time.Now().Unix()
	w.maxn = 0
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}

func (w *world) do(a lib.M) {
	w.maxn++
	n := w.maxn
	a = a.Copy()
	if _, ok := a["n"]; ok {
		a["n"] = n
	}
	w.p.n, w.p.valid = n, a.B("valid")
	r := lib.M{}
	var ok bool
	var err error
	switch a.S("op") {
	case "propose":
		ok, err = w.t.Propose(request{n}, "R", 25, 0, 0, []byte{1})
	case "accept":
		ok, err = w.t.Accept(fmt.Sprintf("pset:%d", n), nil, nil, uint64(a.I("dur")))
	case "complete":
		tx := fmt.Sprintf("pset:%d", n)
		if a.B("hex") {
			tx = hexOf(fmt.Sprint(n))
		}
		var res *domain.CompleteResult
		res, err = w.t.Complete(tx)
		r["txhex"], r["txid"] = 0, 0
		if res != nil {
			ok = res.OK
			r["txhex"], r["txid"] = hexTok(res.TxHex), tok(res.TxID, "txid:")
		}
	case "settle":
		ok, err = w.t.Settle(uint64(a.I("time")))
	case "fail":
		w.t.Fail("some", 5, "msg")
	case "expire":
		ok, err = w.t.Expire()
	case "tick":
		time.Sleep(time.Duration(a.I("d")) * time.Second)
	}
	r["err"], r["ok"] = lib.ErrS(err), ok
	w.tr.Ev(a, r, w.obs())
}

func newWorld(tr *lib.Tracer) *world {
	p := &parser{}
	domain.SwapParserManager = p
	domain.PsetParserManager = p
	return &world{tr: tr, p: p, rng: lib.Rng("trade")}
}

func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(tr)
		for _, s := range lib.Scripts() {
			w.reset()
			for _, a := range s {
				w.do(a)
			}
		}
	})
}

func TestRandom(t *testing.T) {
	tr := lib.NewTracer()
	defer tr.Close()
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(tr)
		for i := 0; i < lib.Int("VH_EPISODES", 300); i++ {
			w.reset()
			for j := 0; j < 20; j++ {
				var a lib.M
				v := w.rng.Intn(4) > 0
				switch w.rng.Intn(8) {
				case 0:
					a = lib.M{"op": "propose", "n": 0, "valid": v}
				case 1:
					a = lib.M{"op": "accept", "n": 0, "valid": v, "dur": 1 + w.rng.Intn(12)}
				case 2:
					a = lib.M{"op": "complete", "n": 0, "valid": v, "hex": w.rng.Intn(2) == 0}
				case 3:
					if w.rng.Intn(4) > 0 {
						continue
					}
					a = lib.M{"op": "settle", "time": 1 + w.rng.Intn(1000)}
				case 4:
					if w.rng.Intn(3) > 0 || w.t.Status.Code == domain.Empty {
						continue
					}
					a = lib.M{"op": "fail", "n": 0}
				case 5:
					a = lib.M{"op": "expire"}
				default:
					a = lib.M{"op": "tick", "d": 1 + w.rng.Intn(4)}
				}
				w.do(a)
			}
		}
	})
}
