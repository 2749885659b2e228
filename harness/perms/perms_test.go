// Driver for spec/Perms.tla: the real gRPC interfaces over loopback, in front of counting stand-ins.
package perms

import (
	"context"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	"github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/interceptor"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
	"gopkg.in/macaroon-bakery.v2/bakery"
	"gopkg.in/macaroon.v2"
)

var ctx = context.Background()

type method struct {
	name   string
	desc   protoreflect.MethodDescriptor
	stream bool
}

func methods() []method {
	out := []method{}
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		for i := 0; i < f.Services().Len(); i++ {
			s := f.Services().Get(i)
			switch string(s.FullName()) {
			case "Wallet", "Operator", "Trade":
			default:
				continue
			}
			for j := 0; j < s.Methods().Len(); j++ {
				m := s.Methods().Get(j)
				out = append(out, method{fmt.Sprintf("/%s/%s", s.FullName(), m.Name()), m, m.IsStreamingServer()})
			}
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

const hexAsset = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
const hexOther = "0ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"

// fill makes a request that passes the handlers' own validation.
func fill(m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.IsMap() || depth > 4 || f.ContainingOneof() != nil {
			continue
		}
		var v protoreflect.Value
		switch f.Kind() {
		case protoreflect.StringKind:
			s := hexAsset
			if strings.Contains(string(f.Name()), "quote") {
				s = hexOther
			}
			if strings.Contains(string(f.Name()), "endpoint") {
				s = "http://127.0.0.1:1/x"
			}
			v = protoreflect.ValueOfString(s)
		case protoreflect.BytesKind:
			v = protoreflect.ValueOfBytes([]byte("password"))
		case protoreflect.Int64Kind:
			v = protoreflect.ValueOfInt64(100)
		case protoreflect.Uint64Kind:
			v = protoreflect.ValueOfUint64(100)
		case protoreflect.Int32Kind:
			v = protoreflect.ValueOfInt32(1)
		case protoreflect.Uint32Kind:
			v = protoreflect.ValueOfUint32(1)
		case protoreflect.FloatKind:
			v = protoreflect.ValueOfFloat32(1.5)
		case protoreflect.DoubleKind:
			v = protoreflect.ValueOfFloat64(1.5)
		case protoreflect.BoolKind:
			v = protoreflect.ValueOfBool(true)
		case protoreflect.EnumKind:
			v = protoreflect.ValueOfEnum(0)
			if vs := f.Enum().Values(); vs.Len() > 1 {
				v = protoreflect.ValueOfEnum(vs.Get(1).Number())
			}
		case protoreflect.MessageKind:
			if f.IsList() {
				l := m.Mutable(f).List()
				e := l.NewElement()
				fill(e.Message(), depth+1)
				l.Append(e)
				continue
			}
			fill(m.Mutable(f).Message(), depth+1)
			continue
		default:
			continue
		}
		if f.IsList() {
			m.Mutable(f).List().Append(v)
			continue
		}
		m.Set(f, v)
	}
}

type mac struct {
	desc lib.M
	raw  []string
}

type world struct {
	tr    *lib.Tracer
	dir   string
	n     int
	svc   interfaces.Service
	ch    chan application.PassphraseMsg
	auth  bool
	op    *grpc.ClientConn
	trade *grpc.ClientConn
	ms    []method
	mu    sync.Mutex
	hits  int
	rng   *rand.Rand
}

func (w *world) reach(string) {
	w.mu.Lock()
	w.hits++
	w.mu.Unlock()
}
func (w *world) hit() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hits
}

func port() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func dial(addr string, secure bool) *grpc.ClientConn {
	o := grpc.WithInsecure()
	if secure {
		o = grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}))
	}
	c, err := grpc.Dial(addr, o, grpc.WithBlock(), grpc.WithTimeout(20*time.Second))
	if err != nil {
		panic(err)
	}
	return c
}

func (w *world) files() bool {
	for _, f := range []string{"admin", "readonly", "market", "price", "wallet", "webhook"} {
		if _, err := os.Stat(filepath.Join(w.dir, "macaroons", f+".macaroon")); err != nil {
			return false
		}
	}
	return true
}
func (w *world) obs() lib.M { return lib.M{"files": w.files()} }

func (w *world) reset() {
	w.stop()
	if w.dir != "" {
		os.RemoveAll(w.dir)
	}
	w.n++
	w.dir = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprintf("pm%d", w.n))
	os.MkdirAll(w.dir, 0700)
	w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
}
func (w *world) stop() {
	if w.svc == nil {
		return
	}
	w.op.Close()
	w.trade.Close()
	w.svc.Stop()
	close(w.ch)
	w.svc = nil
}
func (w *world) start(auth, broken bool) error {
	db := filepath.Join(w.dir, "db", "macaroons.db")
	if broken { // the store of the keys cannot be opened
		os.Rename(db, db+".aside")
		os.MkdirAll(db, 0700)
		defer func() {
			os.RemoveAll(db)
			os.Rename(db+".aside", db)
		}()
	}
	w.ch = make(chan application.PassphraseMsg)
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{
		NoMacaroons: !auth, Datadir: w.dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: stubWallet{w}, OperatorSvc: stubOperator{w}, TradeSvc: stubTrade{w},
	})
	if err != nil {
		return err
	}
	oa, ta := port(), port()
	if err := svc.Start(oa, ta, "", ""); err != nil {
		return err
	}
	w.svc, w.auth = svc, auth
	w.op, w.trade = dial(oa, auth), dial(ta, false)
	return nil
}

func call(c *grpc.ClientConn, m method, m0 mac) error {
	t, cancel := context.WithTimeout(ctx, 20*time.Second)
	defer cancel()
	for _, r := range m0.raw {
		t = metadata.AppendToOutgoingContext(t, "macaroon", r)
	}
	req := dynamicpb.NewMessage(m.desc.Input())
	fill(req, 0)
	var in proto.Message = req
	out := dynamicpb.NewMessage(m.desc.Output())
	if !m.stream {
		return c.Invoke(t, m.name, in, out)
	}
	s, err := c.NewStream(t, &grpc.StreamDesc{ServerStreams: true}, m.name)
	if err != nil {
		return err
	}
	if err := s.SendMsg(in); err != nil {
		return err
	}
	s.CloseSend()
	for err == nil {
		err = s.RecvMsg(dynamicpb.NewMessage(m.desc.Output()))
	}
	return err
}

func (w *world) call(m method, m0 mac) {
	c := w.op
	if strings.HasPrefix(m.name, "/Trade/") {
		c = w.trade
	}
	h := w.hit()
	err := call(c, m, m0)
	// a handler that finds the request itself wanting was reached as well
	r := lib.M{"reached": w.hit() > h || status.Code(err) == codes.InvalidArgument}
	if err != nil {
		r["msg"] = err.Error()
	}
	w.tr.Ev(lib.M{"op": "call", "m": m.name, "mac": m0.desc}, r, w.obs())
}

func enc(m *macaroon.Macaroon) string {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(b)
}

// variants of a genuine macaroon: restricted, tampered with, repeated.
func variants(b []byte, desc lib.M) []mac {
	m := &macaroon.Macaroon{}
	if err := m.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	mk := func(k string, v interface{}, raw ...string) mac {
		d := desc.Copy()
		if k != "" {
			d[k] = v
		}
		return mac{d, raw}
	}
	with := func(cs ...macaroons.Constraint) string {
		x, err := macaroons.AddConstraints(m, cs...)
		if err != nil {
			panic(err)
		}
		return enc(x)
	}
	out := []mac{mk("", nil, enc(m)),
		mk("caveat", "time", with(macaroons.TimeoutConstraint(600))),
		mk("caveat", "expired", with(macaroons.TimeoutConstraint(-5))),
		mk("caveat", "ip", with(macaroons.IPLockConstraint("127.0.0.1"))),
		mk("caveat", "otherip", with(macaroons.IPLockConstraint("10.1.2.3"))),
		mk("caveat", "expired", with(macaroons.IPLockConstraint("127.0.0.1"), macaroons.TimeoutConstraint(-5), macaroons.TimeoutConstraint(600))),
		mk("caveat", "unknown", func() string {
			x := m.Clone()
			x.AddFirstPartyCaveat([]byte("account only-this"))
			return enc(x)
		}()),
		mk("n", 2, enc(m), enc(m)),
		mk("n", 0),
	}
	s := append([]byte{}, b...)
	s[len(s)-3] ^= 1 // the signature
	out = append(out, mk("forged", true, hex.EncodeToString(s)))
	return out
}

func (w *world) probe() {
	base := lib.M{"role": "", "ops": [][]string{}, "n": 1, "forged": false, "caveat": ""}
	ms := []mac{{lib.M{"role": "", "ops": [][]string{}, "n": 0, "forged": false, "caveat": ""}, nil},
		{lib.M{"role": "", "ops": [][]string{}, "n": 1, "forged": true, "caveat": ""}, []string{"zz"}}}
	for _, f := range []string{"admin", "readonly", "market", "price", "wallet", "webhook"} {
		b, err := ioutil.ReadFile(filepath.Join(w.dir, "macaroons", f+".macaroon"))
		if err != nil {
			continue
		}
		d := base.Copy()
		d["role"] = f
		v := variants(b, d)
		if f != "admin" && !lib.Thorough() {
			w.rng.Shuffle(len(v)-1, func(i, j int) { v[i+1], v[j+1] = v[j+1], v[i+1] })
			v = v[:2]
		}
		ms = append(ms, v...)
	}
	for _, m := range w.ms {
		for _, x := range ms {
			w.call(m, x)
		}
	}
}

func (w *world) do(a lib.M) {
	r := lib.M{}
	var err error
	send := func(m int, p, np string) {
		w.ch <- application.PassphraseMsg{Method: m, CurrentPwd: p, NewPwd: np}
		// taken only once the previous message is dealt with, and itself without effect
		w.ch <- application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: "bogus", NewPwd: "bogus2"}
		w.ch <- application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: "bogus", NewPwd: "bogus2"}
	}
	switch a.S("op") {
	case "start":
		err = w.start(a.B("auth"), a.B("broken"))
	case "stop":
		w.stop()
	case "init":
		send(application.InitWallet, a.S("p"), "")
	case "unlock":
		send(application.UnlockWallet, a.S("p"), "")
	case "change":
		send(application.ChangePassphrase, a.S("p"), a.S("np"))
	case "probe":
		w.probe()
		return
	}
	r["err"] = lib.ErrS(err)
	w.tr.Ev(a, r, w.obs())
}

func TestReplay(t *testing.T) {
	w := &world{tr: lib.NewTracer(), ms: methods(), rng: lib.Rng("perms")}
	defer w.tr.Close()
	if len(w.ms) < 30 {
		t.Fatal("methods missing", len(w.ms))
	}
	for _, s := range lib.Scripts() {
		w.reset()
		for _, a := range s {
			w.do(a)
		}
	}
	w.stop()
	os.RemoveAll(w.dir)
}

// TestGrants calls every method through the interceptors with macaroons of arbitrary grants.
func TestGrants(t *testing.T) {
	w := &world{tr: lib.NewTracer(), ms: methods(), rng: lib.Rng("grants")}
	defer w.tr.Close()
	w.reset()
	svc, err := macaroons.NewService(w.dir, "tdexd", "macaroons.db", false, macaroons.IPLockChecker)
	if err != nil {
		t.Fatal(err)
	}
	defer svc.Close()
	srv := grpc.NewServer(interceptor.UnaryInterceptor(svc), interceptor.StreamInterceptor(svc))
	pbwallet.RegisterWalletServer(srv, &pbwallet.UnimplementedWalletServer{})
	pboperator.RegisterOperatorServer(srv, &pboperator.UnimplementedOperatorServer{})
	pbtrade.RegisterTradeServer(srv, &pbtrade.UnimplementedTradeServer{})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go srv.Serve(l)
	defer srv.Stop()
	c := dial(l.Addr().String(), false)
	defer c.Close()
	w.tr.Ev(lib.M{"op": "start", "auth": true, "broken": false}, lib.M{"err": "ok"}, lib.M{"files": false})
	none := mac{lib.M{"role": "", "ops": [][]string{}, "n": 0, "forged": false, "caveat": ""}, nil}
	one := func(m method, x mac) {
		err := call(c, m, x)
		w.tr.Ev(lib.M{"op": "call", "m": m.name, "mac": x.desc}, lib.M{"reached": status.Code(err) == codes.Unimplemented, "msg": fmt.Sprint(err)}, lib.M{"files": false})
	}
	for _, m := range w.ms {
		one(m, none)
	}
	pwd := []byte("p1")
	if err := svc.CreateUnlock(&pwd); err != nil {
		t.Fatal(err)
	}
	// no macaroon files here: a pseudo step that only opens the store
	w.tr.Ev(lib.M{"op": "open", "p": "p1"}, nil, lib.M{"files": false})
	ents := []string{"operator", "market", "price", "wallet", "webhook", "trade", "unlocker"}
	for _, m := range w.ms {
		one(m, none)
		for i := 0; i < lib.Int("VH_GRANTS", 30); i++ {
			ops, l := []bakery.Op{}, [][]string{}
			add := func(e, a string) {
				ops = append(ops, bakery.Op{Entity: e, Action: a})
				l = append(l, []string{e, a})
			}
			switch {
			case i < 14:
				add(ents[i%7], []string{"read", "write"}[i/7])
			case i < 16:
				add("uri", m.name)
			case i < 18:
				add("uri", w.ms[w.rng.Intn(len(w.ms))].name)
			default:
				for _, e := range ents {
					for _, a := range []string{"read", "write"} {
						if w.rng.Intn(2) == 0 {
							add(e, a)
						}
					}
				}
				if len(ops) == 0 {
					add("price", "read")
				}
			}
			id := []string{"0", "1", "9"}[w.rng.Intn(3)]
			b, err := svc.NewMacaroon(ctx, []byte(id), ops...)
			if err != nil {
				t.Fatal(err)
			}
			raw, _ := b.M().MarshalBinary()
			v := variants(raw, lib.M{"role": "", "ops": l, "n": 1, "forged": false, "caveat": ""})
			one(m, v[0])
			one(m, v[w.rng.Intn(len(v))])
		}
	}
	os.RemoveAll(w.dir)
}
