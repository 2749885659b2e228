package lib

import (
	"runtime"
	"time"
)

// Settle waits, in real time, for what goes on in the background to be done: at least d, and longer when the machine is slow or
// goroutines still come and go.
func Settle(d time.Duration) {
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		t := time.Now()
		time.Sleep(d)
		late := time.Since(t) > 2*d
		m := runtime.NumGoroutine()
		if m == n && !late {
			return
		}
		n = m
	}
}
