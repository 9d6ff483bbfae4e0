package vsched

import "sync"

// Drop-in replacements for package sync. Outside a controlled session they
// delegate to the real primitives.

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

func sess() *session {
	if Mode != ModeControlled {
		return nil
	}
	return active.Load()
}

type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if s := sess(); s != nil {
		s.wait("Mutex.Lock", true, func() bool { return !m.held }, func() { m.held = true })
		return
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if s := sess(); s != nil {
		ok := false
		s.do(func() string {
			if !m.held {
				m.held, ok = true, true
			}
			return ""
		})
		return ok
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	if s := sess(); s != nil {
		s.do(func() string {
			if !m.held {
				return "sync: unlock of unlocked mutex"
			}
			m.held = false
			return ""
		})
		return
	}
	m.real.Unlock()
}

// RWMutex follows sync.RWMutex: a waiting writer holds up new readers, and the
// readers that waited behind a writer are all let in when it unlocks.
type RWMutex struct {
	real    sync.RWMutex
	claimed bool // a writer is active or announced
	writing bool
	readers int
	waiting []*bool
}

func (m *RWMutex) Lock() {
	if s := sess(); s != nil {
		s.wait("RWMutex.Lock", true, func() bool { return !m.claimed }, func() { m.claimed = true })
		s.wait("RWMutex.Lock", false, func() bool { return m.readers == 0 }, func() { m.writing = true })
		return
	}
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	if s := sess(); s != nil {
		ok := false
		s.do(func() string {
			if !m.claimed && m.readers == 0 {
				m.claimed, m.writing, ok = true, true, true
			}
			return ""
		})
		return ok
	}
	return m.real.TryLock()
}

func (m *RWMutex) Unlock() {
	if s := sess(); s != nil {
		s.do(func() string {
			if !m.writing {
				return "sync: Unlock of unlocked RWMutex"
			}
			m.writing, m.claimed = false, false
			for _, w := range m.waiting {
				*w = true
				m.readers++
			}
			m.waiting = nil
			return ""
		})
		return
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if s := sess(); s != nil {
		granted := new(bool)
		queued := false
		s.wait("RWMutex.RLock", true, func() bool {
			if *granted {
				return true
			}
			if !m.claimed {
				return true
			}
			if !queued {
				queued = true
				m.waiting = append(m.waiting, granted)
			}
			return false
		}, func() {
			if !*granted {
				if queued { // admitted before the grant
					for i, w := range m.waiting {
						if w == granted {
							m.waiting = append(m.waiting[:i:i], m.waiting[i+1:]...)
							break
						}
					}
				}
				m.readers++
			}
		})
		return
	}
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if s := sess(); s != nil {
		ok := false
		s.do(func() string {
			if !m.claimed {
				m.readers++
				ok = true
			}
			return ""
		})
		return ok
	}
	return m.real.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if s := sess(); s != nil {
		s.do(func() string {
			if m.readers == 0 {
				return "sync: RUnlock of unlocked RWMutex"
			}
			m.readers--
			return ""
		})
		return
	}
	m.real.RUnlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	if s := sess(); s != nil {
		neg := false
		s.do(func() string { w.n += d; neg = w.n < 0; return "" })
		if neg {
			panic("sync: negative WaitGroup counter")
		}
		return
	}
	w.real.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if s := sess(); s != nil {
		s.wait("WaitGroup.Wait", true, func() bool { return w.n <= 0 }, func() {})
		return
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	k := Spawn()
	go func() {
		defer Exit(k)
		Enter(k)
		defer w.Done()
		f()
	}()
}

type Once struct {
	real sync.Once
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if s := sess(); s != nil {
		if o.done {
			return
		}
		o.mu.Lock()
		defer o.mu.Unlock()
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	o.real.Do(func() {
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
	})
}

type Cond struct {
	L       Locker
	real    *sync.Cond
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if s := sess(); s != nil {
		sig := new(bool)
		s.do(func() string { c.waiters = append(c.waiters, sig); return "" })
		c.L.Unlock()
		s.wait("Cond.Wait", true, func() bool { return *sig }, func() {})
		c.L.Lock()
		return
	}
	c.real.Wait()
}

func (c *Cond) Signal() {
	if s := sess(); s != nil {
		s.do(func() string {
			if len(c.waiters) > 0 {
				*c.waiters[0] = true
				c.waiters = c.waiters[1:]
			}
			return ""
		})
		return
	}
	c.real.Signal()
}

func (c *Cond) Broadcast() {
	if s := sess(); s != nil {
		s.do(func() string {
			for _, w := range c.waiters {
				*w = true
			}
			c.waiters = nil
			return ""
		})
		return
	}
	c.real.Broadcast()
}
