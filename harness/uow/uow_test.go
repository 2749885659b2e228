// Driver for spec/Uow.tla: a unit of work over recording stores.
package uow

import (
	"context"
	"errors"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/uow"
	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

type world struct {
	tr     *lib.Tracer
	run    int
	panics int
	cfg    []lib.M
}
type store struct {
	w *world
	s int
}
type shared struct{ store }
type tx struct {
	w      *world
	s, run int
}

func (w *world) ok(s int, what string) error {
	w.tr.Ev(lib.M{"op": what, "s": s}, nil, nil)
	if !w.cfg[s-1].B(what) {
		return errors.New(what + " fails")
	}
	return nil
}
func (s *store) Begin() (uow.Tx, error) {
	if err := s.w.ok(s.s, "begin"); err != nil {
		return nil, err
	}
	return &tx{s.w, s.s, s.w.run}, nil
}
func (s *shared) ContextKey() interface{} { return uow.InMemoryContextKey }
func (t *tx) stale() bool                 { return t.run != t.w.run }
func (t *tx) end(what string) error {
	if t.stale() {
		t.w.tr.Ev(lib.M{"op": what, "s": -t.s}, nil, nil)
		return nil
	}
	return t.w.ok(t.s, what)
}
func (t *tx) Commit() error   { return t.end("commit") }
func (t *tx) Rollback() error { return t.end("rollback") }

func TestReplay(t *testing.T) {
	w := &world{tr: lib.NewTracer()}
	defer w.tr.Close()
	for _, s := range lib.Scripts() {
		w.tr.Ev(lib.M{"op": "reset"}, nil, nil)
		var rs []uow.Transactional
		var keys []interface{}
		for i, c := range s[0].LM("cfg") {
			if c.I("key") == 9 {
				x := &shared{store{w, i + 1}}
				rs, keys = append(rs, x), append(keys, uow.InMemoryContextKey)
			} else {
				x := &store{w, i + 1}
				rs, keys = append(rs, x), append(keys, x)
			}
		}
		u := uow.NewUnitOfWork(rs...)
		for _, a := range s {
			w.run++
			w.cfg = a.LM("cfg")
			w.tr.Ev(a, nil, nil)
			err := u.Run(func(c uow.Contextual) error {
				sees := []int{}
				for _, k := range keys {
					ctx := c.Context(k)
					x, _ := ctx.Value(k).(*tx)
					n := 0
					if x != nil {
						n = x.s
						if x.stale() {
							n = -n
						}
					}
					if ctx == context.Background() {
						n = -99
					}
					sees = append(sees, n)
				}
				w.tr.Ev(lib.M{"op": "fn", "out": a.S("fn"), "sees": sees}, nil, nil)
				switch a.S("fn") {
				case "err":
					return errors.New("refused")
				case "panic":
					w.panics++
					switch w.panics % 5 {
					case 0:
						panic(errors.New("refused"))
					case 1:
						panic("refused")
					case 2:
						panic(w.panics)
					case 3:
						panic(struct{ A string }{"refused"})
					}
					var m map[string]int
					m["refused"] = 1
				}
				return nil
			})
			w.tr.Ev(lib.M{"op": "end"}, lib.M{"err": lib.ErrS(err)}, nil)
		}
	}
}
