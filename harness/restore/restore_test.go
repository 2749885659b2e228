package restore

import (
	"os"
	"testing"
	"testing/synctest"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

// TestReplay runs the scripts of the specification with a virtual clock, in-memory stores.
func TestReplay(t *testing.T) {
	tr := lib.NewTracer()
	synctest.Test(t, func(*testing.T) {
		w := newWorld(tr, "inmem", true)
		for _, s := range lib.Scripts() {
			for _, a := range s {
				w.do(a.Copy())
			}
		}
		tr.Close()
		os.Exit(0)
	})
}

// TestStored runs the scripts in real time over the given kind of store.
func TestStored(t *testing.T) {
	tr := lib.NewTracer()
	w := newWorld(tr, os.Getenv("VH_BACKEND"), false)
	for _, s := range lib.Scripts() {
		for _, a := range s {
			w.do(a.Copy())
		}
	}
	tr.Close()
	os.Exit(0)
}
