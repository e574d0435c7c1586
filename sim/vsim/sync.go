package vsim

import (
	"runtime"
	"sync"
)

// Mutex replaces sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	syncPoint("lock")
	waitUntil("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	syncPoint("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if act != nil && act.aborting {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	syncPoint("unlock")
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	syncPoint("lock")
	waitUntil("rwmutex", func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		if act != nil && act.aborting {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	syncPoint("unlock")
}
func (m *RWMutex) RLock() {
	syncPoint("rlock")
	waitUntil("rwmutex(r)", func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if act != nil && act.aborting {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	syncPoint("runlock")
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		if act != nil && act.aborting {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	syncPoint("wg.add")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	syncPoint("wg.wait")
	waitUntil("waitgroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	syncPoint("once")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool replaces sync.Pool: Get may hand back any item that was put, or none;
// items may vanish at any time. All of that is legal for sync.Pool.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	syncPoint("pool.get")
	s := act
	n := len(p.items)
	i := -1
	if n > 0 {
		i = n - 1
		if s != nil && !s.inert && !s.aborting {
			switch s.strat.PoolMode {
			case 1:
				i = 0
			case 2:
				i = n - 1 - s.sched.N(n)
			case 3:
				i = -1
				Count("fault:pool-miss")
			case 4:
				switch s.sched.N(6) {
				case 4:
					i = -1
					Count("fault:pool-miss")
				case 5: // a GC cycle emptied the pool
					p.items = nil
					i = -1
					Count("fault:pool-evict")
				default:
					i = n - 1 - s.sched.N(n)
				}
			}
		}
	}
	if i >= 0 {
		v := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		Count("pool-reuse")
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	s := act
	if s != nil && !s.inert && !s.aborting && s.strat.PoolMode == 4 && s.sched.N(12) == 11 {
		Count("fault:pool-drop")
	} else {
		p.items = append(p.items, v)
	}
	syncPoint("pool.put")
}

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
	q []*bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	waitUntil("cond", func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	syncPoint("signal")
}
func (c *Cond) Broadcast() {
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
	syncPoint("broadcast")
}

func NumCPU() int {
	if act != nil {
		return act.strat.NumCPU
	}
	return runtime.NumCPU()
}

func GOMAXPROCS(n int) int {
	if act != nil {
		return act.strat.NumCPU
	}
	return runtime.GOMAXPROCS(n)
}

func Gosched() {
	s := act
	if s == nil || s.aborting {
		return
	}
	s.account()
	if s.favor == s.cur {
		s.favor = nil
	}
	if !s.cur.yielded {
		s.cur.yielded = true
		s.nyield++
	}
	if s.spin() {
		s.stuck = true
	}
	s.park()
}

func NumGoroutine() int {
	if act == nil {
		return runtime.NumGoroutine()
	}
	n := 0
	for _, t := range act.tasks {
		if t.st != stDone {
			n++
		}
	}
	return n
}

// Map replaces sync.Map, with a deterministic iteration order.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	syncPoint("map")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v interface{}) { syncPoint("map"); m.put(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	syncPoint("map")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	syncPoint("map")
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	syncPoint("map")
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	syncPoint("map")
	if c, ok := m.m[k]; !ok || c != o {
		return false
	}
	m.put(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if c, ok := m.m[k]; !ok || c != o {
		return false
	}
	m.LoadAndDelete(k)
	return true
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	syncPoint("map")
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
