package lib

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

// Watchdog ends the process, with the stacks of all goroutines, when beat is not called for limit: a call that never returns.
func Watchdog(tr *Tracer, limit time.Duration) (beat func()) {
	var n int64
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if v := atomic.LoadInt64(&n); v != last {
				last, since = v, time.Now()
			} else if time.Since(since) > limit {
				b := make([]byte, 1<<20)
				b = b[:runtime.Stack(b, true)]
				tr.Flush()
				fmt.Printf("panic: a call does not return\n%s\n", b)
				os.Exit(2)
			}
		}
	}()
	return func() { atomic.AddInt64(&n, 1) }
}
