// Package msync is sync under the controlled scheduler.
package msync

import "github.com/michaelmacinnis/oh/internal/zzverif/mc"

type Locker interface {
	Lock()
	Unlock()
}

func always() int { return 1 }

type Mutex struct {
	o    mc.Obj
	held bool
	lock *mc.Op
}

// tried: somebody can see a lock held.
var tried bool

func try() {
	if !tried {
		tried = true
		mc.Again()
	}
}

func (m *Mutex) Lock() {
	if m.lock == nil {
		m.lock = &mc.Op{Kind: "lock", Foot: []mc.Foot{{O: &m.o, K: mc.W}}, Alts: func() int {
			if m.held {
				return 0
			}
			return 1
		}, Run: func(int) { m.held = true; mc.Acquire(&m.o, true) }}
	}
	mc.Do(m.lock)
}
func (m *Mutex) TryLock() bool {
	try()
	ok := false
	mc.Do(&mc.Op{Kind: "trylock", Foot: []mc.Foot{{O: &m.o, K: mc.T}}, Alts: always, Run: func(int) {
		if !m.held {
			m.held, ok = true, true
			mc.Acquire(&m.o, true)
		}
	}})
	return ok
}
func (m *Mutex) Unlock() {
	if mc.Dying() {
		return
	}
	if !m.held {
		mc.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	if tried {
		mc.Do(&mc.Op{Kind: "unlock", Foot: []mc.Foot{{O: &m.o, K: mc.RelW}}, Alts: always})
	} else {
		mc.Free(&m.o, true)
	}
	m.held = false
	mc.Release(&m.o, true)
}

type RWMutex struct {
	o         mc.Obj
	writer    bool
	announced int
	readers   int
	rlock     *mc.Op
	last      *mc.G
	lastOps   int
}

func (m *RWMutex) RLock() {
	if m.rlock == nil {
		m.rlock = &mc.Op{Kind: "rlock", Foot: []mc.Foot{{O: &m.o, K: mc.R}}, Alts: func() int {
			if m.writer || m.announced > 0 {
				return 0
			}
			return 1
		}, Run: func(int) {
			m.readers++
			m.last = mc.Self()
			m.lastOps = m.last.Ops
			mc.Acquire(&m.o, false)
		}}
	}
	mc.Do(m.rlock)
}
func (m *RWMutex) TryRLock() bool {
	try()
	ok := false
	mc.Do(&mc.Op{Kind: "tryrlock", Foot: []mc.Foot{{O: &m.o, K: mc.T}}, Alts: always, Run: func(int) {
		if !m.writer && m.announced == 0 {
			m.readers++
			ok = true
			mc.Acquire(&m.o, false)
		}
	}})
	return ok
}

// A reader that did nothing while it held the lock cannot have been in anybody's way.
func (m *RWMutex) RUnlock() {
	if mc.Dying() {
		return
	}
	if m.readers <= 0 {
		mc.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	if g := mc.Self(); !tried && m.last == g && m.lastOps == g.Ops {
		mc.Free(&m.o, false)
	} else {
		mc.Do(&mc.Op{Kind: "unlock r", Foot: []mc.Foot{{O: &m.o, K: mc.RelR}}, Alts: always})
	}
	m.readers--
	mc.Release(&m.o, false)
}

// A writer that finds readers keeps further readers out while it waits for them.
func (m *RWMutex) Lock() {
	got := false
	mc.Do(&mc.Op{Kind: "wlock", Foot: []mc.Foot{{O: &m.o, K: mc.T}}, Alts: func() int {
		if m.writer || m.announced > 0 {
			return 0
		}
		return 1
	}, Run: func(int) {
		if m.readers > 0 {
			m.announced++
			return
		}
		m.writer, got = true, true
		mc.Acquire(&m.o, true)
	}})
	if got {
		return
	}
	mc.Do(&mc.Op{Kind: "wlock2", Foot: []mc.Foot{{O: &m.o, K: mc.W}}, Alts: func() int {
		if m.writer || m.readers > 0 {
			return 0
		}
		return 1
	}, Run: func(int) {
		m.announced--
		m.writer = true
		mc.Acquire(&m.o, true)
	}})
}
func (m *RWMutex) TryLock() bool {
	try()
	ok := false
	mc.Do(&mc.Op{Kind: "trywlock", Foot: []mc.Foot{{O: &m.o, K: mc.T}}, Alts: always, Run: func(int) {
		if !m.writer && m.announced == 0 && m.readers == 0 {
			m.writer, ok = true, true
			mc.Acquire(&m.o, true)
		}
	}})
	return ok
}
func (m *RWMutex) Unlock() {
	if mc.Dying() {
		return
	}
	if !m.writer {
		mc.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	if tried {
		mc.Do(&mc.Op{Kind: "unlock w", Foot: []mc.Foot{{O: &m.o, K: mc.RelW}}, Alts: always})
	} else {
		mc.Free(&m.o, true)
	}
	m.writer = false
	mc.Release(&m.o, true)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type waiter struct{ signaled bool }
type Cond struct {
	L Locker
	o mc.Obj
	q []*waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{}
	mc.Do(&mc.Op{Kind: "cond wait", Foot: []mc.Foot{{O: &c.o, K: mc.W}}, Alts: always, Run: func(int) { c.q = append(c.q, w) }})
	c.L.Unlock()
	mc.Do(&mc.Op{Kind: "cond wake", Foot: []mc.Foot{{O: &c.o, K: mc.RelW}}, Alts: func() int {
		if w.signaled {
			return 1
		}
		return 0
	}})
	c.L.Lock()
}
func (c *Cond) Signal() {
	mc.Do(&mc.Op{Kind: "signal", Foot: []mc.Foot{{O: &c.o, K: mc.W}}, Alts: always, Run: func(int) {
		if len(c.q) > 0 {
			c.q[0].signaled = true
			c.q = c.q[1:]
		}
	}})
}
func (c *Cond) Broadcast() {
	mc.Do(&mc.Op{Kind: "broadcast", Foot: []mc.Foot{{O: &c.o, K: mc.W}}, Alts: always, Run: func(int) {
		for _, w := range c.q {
			w.signaled = true
		}
		c.q = nil
	}})
}

type WaitGroup struct {
	o mc.Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	mc.Do(&mc.Op{Kind: "wg add", Foot: []mc.Foot{{O: &w.o, K: mc.W}}, Alts: always, Run: func(int) {
		w.n += d
		if w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
		mc.Release(&w.o, true)
	}})
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	mc.Do(&mc.Op{Kind: "wg wait", Foot: []mc.Foot{{O: &w.o, K: mc.W}}, Alts: func() int {
		if w.n > 0 {
			return 0
		}
		return 1
	}, Run: func(int) { mc.Acquire(&w.o, true) }})
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mc.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Map struct {
	m RWMutex
	v map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.RLock()
	defer m.m.RUnlock()
	v, ok := m.v[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.v == nil {
		m.v = map[interface{}]interface{}{}
	}
	m.v[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.v == nil {
		m.v = map[interface{}]interface{}{}
	}
	if x, ok := m.v[k]; ok {
		return x, true
	}
	m.v[k] = v
	return v, false
}
func (m *Map) Delete(k interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	delete(m.v, k)
}

type Pool struct{ New func() interface{} }

func (p *Pool) Get() interface{} {
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(interface{}) {}
