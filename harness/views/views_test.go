// Driver for spec/Views.tla: what the gRPC handlers of the operator, the wallet and the traders show, over the real
// services and stores.
package views

import (
	"os"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/vh/lib"
)

// TestReplay runs the scripts of the specification.
func TestReplay(t *testing.T) {
	time.Local = time.FixedZone("elsewhere", 19800) // what is shown as UTC must not depend on where the daemon runs
	tr := lib.NewTracer()
	w := newWorld(tr, os.Getenv("VH_BACKEND"))
	for _, s := range lib.Scripts() {
		for _, a := range s {
			w.do(a.Copy())
		}
	}
	tr.Close()
	os.Exit(0)
}
