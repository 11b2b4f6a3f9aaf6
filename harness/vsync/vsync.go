// Package vsync stands in for the lock types of package sync in a copy of the
// library. Outside Run its locks are the real ones; inside Run the goroutines
// given run one at a time and change places only before they take a lock, as
// a chooser says, so that a schedule can be enumerated and repeated.
package vsync

import (
	"fmt"
	"sync"
	"time"
)

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

var NewCond = sync.NewCond

type thread struct {
	resume chan struct{}
	ready  func() bool
	done   bool
	fresh  bool // has not taken a lock since Point
	fail   string
}

type engine struct {
	cur    *thread
	parked chan *thread
}

var eng *engine

func always() bool { return true }

func (e *engine) park(ready func() bool) {
	t := e.cur
	t.ready = ready
	e.parked <- t
	<-t.resume
}

// acquire waits until ready holds, giving way to others first unless this is
// the first lock after a Point.
func (e *engine) acquire(ready func() bool) {
	t := e.cur
	if t.fresh {
		t.fresh = false
		if ready() {
			return
		}
	}
	e.park(ready)
}

// Point is a place where another goroutine may go on.
func Point() {
	if eng != nil {
		eng.park(always)
		eng.cur.fresh = true
	}
}

// An Outcome is what became of the goroutines.
type Outcome struct {
	Deadlock bool     // all that are left wait for each other
	Stuck    bool     // one waits for something that is not a lock
	Panics   []string // by goroutine
}

// Run runs the bodies; choose picks one of the numbers of those that can go on.
func Run(bodies []func(), choose func(runnable []int) int) Outcome {
	e := &engine{parked: make(chan *thread)}
	ts := make([]*thread, len(bodies))
	for i, body := range bodies {
		t := &thread{resume: make(chan struct{}), ready: always, fresh: true}
		ts[i] = t
		body := body
		go func() {
			<-t.resume
			defer func() {
				if r := recover(); r != nil {
					t.fail = fmt.Sprint(r)
				}
				t.done = true
				e.parked <- t
			}()
			body()
		}()
	}
	out := Outcome{Panics: make([]string, len(bodies))}
	eng = e
	defer func() { eng = nil }()
	for {
		var runnable []int
		left := false
		for i, t := range ts {
			if !t.done {
				left = true
				if t.ready() {
					runnable = append(runnable, i)
				}
			}
		}
		if len(runnable) == 0 {
			out.Deadlock = left
			break
		}
		e.cur = ts[choose(runnable)]
		e.cur.resume <- struct{}{}
		select {
		case <-e.parked:
		case <-time.After(10 * time.Second):
			out.Stuck = true
			return out
		}
	}
	for i, t := range ts {
		out.Panics[i] = t.fail
	}
	return out
}

// A RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool // a writer holds the lock or waits for readers to leave
	readers int
}

func (m *RWMutex) Lock() {
	e := eng
	if e == nil {
		m.real.Lock()
		return
	}
	e.acquire(func() bool { return !m.writer })
	m.writer = true
	if m.readers > 0 {
		e.park(func() bool { return m.readers == 0 })
	}
}

func (m *RWMutex) Unlock() {
	if eng == nil {
		m.real.Unlock()
		return
	}
	if !m.writer || m.readers > 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	e := eng
	if e == nil {
		m.real.RLock()
		return
	}
	e.acquire(func() bool { return !m.writer })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if eng == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) TryLock() bool {
	e := eng
	if e == nil {
		return m.real.TryLock()
	}
	e.acquire(always)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	e := eng
	if e == nil {
		return m.real.TryRLock()
	}
	e.acquire(always)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// A Mutex is a lock.
type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	e := eng
	if e == nil {
		m.real.Lock()
		return
	}
	e.acquire(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) Unlock() {
	if eng == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

func (m *Mutex) TryLock() bool {
	e := eng
	if e == nil {
		return m.real.TryLock()
	}
	e.acquire(always)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }
