package main

import "sync"

// Several databases in one process, each with its own history.

// byTurns lets one history go on at a time, for one event.
func byTurns(r rng, hs []*history, runs []func()) {
	baton := make([]chan struct{}, len(hs))
	for i := range hs {
		baton[i] = make(chan struct{}, 1)
	}
	var left []int
	for i := range hs {
		left = append(left, i)
	}
	done := make(chan struct{})
	next := func() {
		if len(left) == 0 {
			close(done)
			return
		}
		baton[pick(r, left)] <- struct{}{}
	}
	for i, h := range hs {
		h.turn = func() {
			next()
			<-baton[i]
		}
		go func() {
			<-baton[i]
			runs[i]()
			h.turn = nil
			for k := range left {
				if left[k] == i {
					left = append(left[:k], left[k+1:]...)
					break
				}
			}
			next()
		}()
	}
	next()
	<-done
}

// together lets all of them go on at once.
func together(runs []func()) {
	var wg sync.WaitGroup
	for _, run := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			run()
		}()
	}
	wg.Wait()
}
