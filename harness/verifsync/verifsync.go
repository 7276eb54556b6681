// Package verifsync stands in for package sync in the code under test, and stirs its schedules.
package verifsync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"time"
)

// stir is how much the schedules are stirred. It changes only while one goroutine is at work.
var stir int

// Stir sets how much the schedules are stirred: 0 not at all, 1 around locks, 2 between statements too.
func Stir(level int) { stir = level }

func pause(often int) {
	switch n := rand.IntN(often * 32); {
	case n < 3:
		time.Sleep(time.Duration(1+rand.IntN(60)) * time.Microsecond)
	case n == 3:
		time.Sleep(time.Duration(1+rand.IntN(4)) * 300 * time.Microsecond)
	case n < 16:
		runtime.Gosched()
	}
}

// Point is a place between two statements.
func Point() {
	if stir == 2 {
		pause(40)
	}
}

func around() {
	if stir != 0 {
		pause(1)
	}
}

type Mutex struct{ sync.Mutex }

func (m *Mutex) Lock()         { around(); m.Mutex.Lock(); around() }
func (m *Mutex) Unlock()       { around(); m.Mutex.Unlock(); around() }
func (m *Mutex) TryLock() bool { around(); return m.Mutex.TryLock() }

type RWMutex struct{ sync.RWMutex }

func (m *RWMutex) Lock()           { around(); m.RWMutex.Lock(); around() }
func (m *RWMutex) Unlock()         { around(); m.RWMutex.Unlock(); around() }
func (m *RWMutex) TryLock() bool   { around(); return m.RWMutex.TryLock() }
func (m *RWMutex) RLock()          { around(); m.RWMutex.RLock(); around() }
func (m *RWMutex) RUnlock()        { around(); m.RWMutex.RUnlock(); around() }
func (m *RWMutex) TryRLock() bool  { around(); return m.RWMutex.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }
