// Driver for spec/Relay.tla: requests sent over the real gRPC interfaces, in front of stand-ins of the services that record what they are asked and make up their answers.
package relay

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
)

var ctx = context.Background()

type method struct {
	name string
	desc protoreflect.MethodDescriptor
}

func methods() map[string]method {
	out := map[string]method{}
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		for i := 0; i < f.Services().Len(); i++ {
			s := f.Services().Get(i)
			switch string(s.FullName()) {
			case "Wallet", "Operator", "Trade":
			default:
				continue
			}
			for j := 0; j < s.Methods().Len(); j++ {
				m := s.Methods().Get(j)
				n := fmt.Sprintf("/%s/%s", s.FullName(), m.Name())
				out[n] = method{n, m}
			}
		}
		return true
	})
	return out
}

// scalar makes a value of the kind of f: scripts give every number as a string.
func scalar(f protoreflect.FieldDescriptor, v interface{}) protoreflect.Value {
	s, _ := v.(string)
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprint(f.FullName(), " ", v, " ", err))
		}
	}
	switch f.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(s)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(s))
	case protoreflect.BoolKind:
		b, _ := v.(bool)
		return protoreflect.ValueOfBool(b)
	case protoreflect.Int64Kind:
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		return protoreflect.ValueOfInt64(n)
	case protoreflect.Uint64Kind:
		n, err := strconv.ParseUint(s, 10, 64)
		must(err)
		return protoreflect.ValueOfUint64(n)
	case protoreflect.Int32Kind:
		n, err := strconv.ParseInt(s, 10, 32)
		must(err)
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Uint32Kind:
		n, err := strconv.ParseUint(s, 10, 32)
		must(err)
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.EnumKind:
		n, err := strconv.ParseInt(s, 10, 32)
		must(err)
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))
	case protoreflect.FloatKind:
		n, err := strconv.ParseFloat(s, 32)
		must(err)
		return protoreflect.ValueOfFloat32(float32(n))
	case protoreflect.DoubleKind:
		n, err := strconv.ParseFloat(s, 64)
		must(err)
		return protoreflect.ValueOfFloat64(n)
	}
	panic(f.FullName())
}

// build fills m from a request of the script: records, lists, and maps as lists of pairs.
func build(m protoreflect.Message, v map[string]interface{}) {
	for k, x := range v {
		f := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		if f == nil {
			panic(fmt.Sprint("no field ", k, " in ", m.Descriptor().FullName()))
		}
		one := func(x interface{}) protoreflect.Value {
			if f.Kind() != protoreflect.MessageKind {
				return scalar(f, x)
			}
			e := m.NewField(f)
			if f.IsList() {
				e = e.List().NewElement()
			}
			build(e.Message(), x.(map[string]interface{}))
			return e
		}
		switch {
		case f.IsMap():
			mm := m.Mutable(f).Map()
			for _, p := range x.([]interface{}) {
				l := p.([]interface{})
				mm.Set(scalar(f.MapKey(), l[0]).MapKey(), scalar(f.MapValue(), l[1]))
			}
		case f.IsList():
			for _, e := range x.([]interface{}) {
				m.Mutable(f).List().Append(one(e))
			}
		default:
			m.Set(f, one(x))
		}
	}
}

func dumpScalar(f protoreflect.FieldDescriptor, v protoreflect.Value) interface{} {
	switch f.Kind() {
	case protoreflect.MessageKind:
		return dump(v.Message())
	case protoreflect.BytesKind:
		return string(v.Bytes())
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.EnumKind:
		return fmt.Sprint(int(v.Enum()))
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), 'f', -1, 32)
	case protoreflect.DoubleKind:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	}
	return fmt.Sprint(v.Interface())
}

// dump gives every field of a message; one that is absent is marked.
func dump(m protoreflect.Message) lib.M {
	out := lib.M{}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		k, v := string(f.Name()), m.Get(f)
		switch {
		case f.IsMap():
			l := [][]interface{}{}
			v.Map().Range(func(mk protoreflect.MapKey, mv protoreflect.Value) bool {
				l = append(l, []interface{}{mk.String(), dumpScalar(f.MapValue(), mv)})
				return true
			})
			sort.Slice(l, func(i, j int) bool { return l[i][0].(string) < l[j][0].(string) })
			out[k] = l
		case f.IsList():
			l := []interface{}{}
			for j := 0; j < v.List().Len(); j++ {
				l = append(l, dumpScalar(f, v.List().Get(j)))
			}
			out[k] = l
		case f.Kind() == protoreflect.MessageKind && !m.Has(f):
			out[k] = lib.M{"absent": true}
		default:
			out[k] = dumpScalar(f, v)
		}
	}
	return out
}

type world struct {
	tr        *lib.Tracer
	ms        map[string]method
	svc       interfaces.Service
	ch        chan application.PassphraseMsg
	op, trade *grpc.ClientConn
	mu        sync.Mutex
	n         int
	mode      string
	calls     []lib.M
	queue     []lib.M
}

func port() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}
func dial(addr string) *grpc.ClientConn {
	c, err := grpc.Dial(addr, grpc.WithInsecure(), grpc.WithBlock(), grpc.WithTimeout(20*time.Second))
	if err != nil {
		panic(err)
	}
	return c
}

func (w *world) start() {
	dir := filepath.Join(os.Getenv("VH_TMP"), "relay")
	os.MkdirAll(dir, 0700)
	w.ch = make(chan application.PassphraseMsg)
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{
		NoMacaroons: true, Datadir: dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: stubWallet{w}, OperatorSvc: stubOperator{w}, TradeSvc: stubTrade{w},
	})
	if err != nil {
		panic(err)
	}
	oa, ta := port(), port()
	if err := svc.Start(oa, ta, "", ""); err != nil {
		panic(err)
	}
	w.svc, w.op, w.trade = svc, dial(oa), dial(ta)
}

// call sends one request and collects what comes back.
func (w *world) call(q lib.M) lib.M {
	m, ok := w.ms[q.S("m")]
	if !ok {
		panic(q.S("m"))
	}
	c := w.op
	if strings.HasPrefix(m.name, "/Trade/") {
		c = w.trade
	}
	t, cancel := context.WithTimeout(ctx, 30*time.Second)
	defer cancel()
	in, msgs := dynamicpb.NewMessage(m.desc.Input()), []lib.M{}
	req, _ := q["req"].(map[string]interface{})
	build(in, req)
	var err error
	if !m.desc.IsStreamingServer() {
		out := dynamicpb.NewMessage(m.desc.Output())
		if err = c.Invoke(t, m.name, in, out); err == nil {
			msgs = append(msgs, dump(out))
		}
	} else {
		var s grpc.ClientStream
		if s, err = c.NewStream(t, &grpc.StreamDesc{ServerStreams: true}, m.name); err == nil {
			if err = s.SendMsg(in); err == nil {
				s.CloseSend()
				for err == nil {
					out := dynamicpb.NewMessage(m.desc.Output())
					if err = s.RecvMsg(out); err == nil {
						msgs = append(msgs, dump(out))
					}
				}
			}
			if err == io.EOF {
				err = nil
			}
		}
	}
	r := lib.M{"msgs": msgs, "err": lib.ErrS(err), "text": "", "wrong": false}
	if err != nil {
		r["text"], r["wrong"] = status.Convert(err).Message(), status.Code(err) == codes.InvalidArgument
	}
	return r
}

func (w *world) do(a lib.M) {
	switch a.S("op") {
	case "queue":
		w.queue = append(w.queue, a)
		w.tr.Ev(a, nil, nil)
	case "send":
		w.mu.Lock()
		w.mode, w.calls = a.S("mode"), []lib.M{}
		w.mu.Unlock()
		rs := make([]lib.M, len(w.queue))
		var wg sync.WaitGroup
		for i := range w.queue {
			wg.Add(1)
			go func(i int) { defer wg.Done(); rs[i] = w.call(w.queue[i]) }(i)
		}
		wg.Wait()
		w.queue = nil
		w.mu.Lock()
		calls := w.calls
		w.mu.Unlock()
		w.tr.Ev(a, lib.M{"calls": calls, "replies": rs}, nil)
	}
}

func TestReplay(t *testing.T) {
	w := &world{tr: lib.NewTracer(), ms: methods()}
	defer w.tr.Close()
	if len(w.ms) < 30 {
		t.Fatal("methods missing", len(w.ms))
	}
	config.Set(config.BaseAssetKey, "LBTC")
	w.start()
	for _, s := range lib.Scripts() {
		w.queue = nil
		r := lib.M{"op": "reset", "kf": ""}
		for _, a := range s {
			if k := a.S("kf"); k != "" {
				r["kf"] = k
			}
		}
		w.tr.Ev(r, nil, nil)
		for _, a := range s {
			w.do(a)
		}
	}
}
