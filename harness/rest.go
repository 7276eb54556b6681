package main

import (
	"runtime"
	"time"
)

// patience is how long what an operation has going on may take to end after it has returned.
var patience = 2 * time.Second

// atRest runs a history and records how many goroutines it leaves behind, among them the iterations it leaves suspended.
func atRest(h *history, run func()) {
	before := runtime.NumGoroutine()
	run()
	h.guard(func() {
		for _, stop := range h.stops {
			stop()
		}
	})
	if h.hung || h.panicked {
		return
	}
	left := runtime.NumGoroutine() - before
	for until := time.Now().Add(patience); left > 0 && time.Now().Before(until); left = runtime.NumGoroutine() - before {
		time.Sleep(time.Millisecond)
	}
	if left > 0 {
		patience /= 2
	}
	h.add(ev{"k": "rest", "left": max(left, 0)})
}
