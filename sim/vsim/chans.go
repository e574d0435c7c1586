package vsim

import "unsafe"

// Channels keep their real representation; blocking is decided by the
// simulator. Unbuffered channels rendezvous through a side queue.
type chanState struct {
	sendq  []*sendItem
	recvW  int
	closed bool
	ref    interface{}
}

type sendItem struct {
	v    interface{}
	done bool
}

func chKey[T any](ch chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func chState[T any](ch chan T) *chanState {
	if act == nil {
		return &chanState{}
	}
	k := chKey(ch)
	c := act.chans[k]
	if c == nil {
		c = &chanState{ref: ch} // ref keeps the address from being reused
		act.chans[k] = c
	}
	return c
}

func recvSide[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func sendSide[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// probeClosed reports whether an empty channel is closed.
func probeClosed[T any](ch chan T) bool {
	if len(ch) > 0 {
		return false
	}
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func SendF[T any](c chan<- T) func(T) {
	return func(v T) {
		ch := sendSide(c)
		syncPoint("chan.send")
		if ch == nil {
			waitUntil("send on nil channel", func() bool { return false })
		}
		st := chState(ch)
		if cap(ch) > 0 {
			for {
				select {
				case ch <- v:
					return
				default:
				}
				waitUntil("chan send", func() bool { return len(ch) < cap(ch) || st.closed })
			}
		}
		if st.closed || probeClosed(ch) {
			panic("send on closed channel")
		}
		it := &sendItem{v: v}
		st.sendq = append(st.sendq, it)
		waitUntil("chan send", func() bool { return it.done || st.closed })
		if !it.done {
			panic("send on closed channel")
		}
	}
}

func tryRecv[T any](ch chan T) (v T, ok, got bool) {
	if ch == nil {
		return
	}
	if cap(ch) == 0 {
		st := chState(ch)
		if len(st.sendq) > 0 {
			it := st.sendq[0]
			st.sendq = st.sendq[1:]
			it.done = true
			v, _ = it.v.(T)
			return v, true, true
		}
	}
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return
	}
}

func canRecv[T any](ch chan T) bool {
	if ch == nil {
		return false
	}
	if len(ch) > 0 {
		return true
	}
	if cap(ch) == 0 && len(chState(ch).sendq) > 0 {
		return true
	}
	return probeClosed(ch)
}

func Recv2[T any](c <-chan T) (T, bool) {
	ch := recvSide(c)
	syncPoint("chan.recv")
	for {
		v, ok, got := tryRecv(ch)
		if got {
			return v, ok
		}
		var st *chanState
		if ch != nil {
			st = chState(ch)
			st.recvW++
		}
		waitUntil("chan receive", func() bool { return canRecv(ch) })
		if st != nil {
			st.recvW--
		}
	}
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Close[T any](c chan<- T) {
	ch := sendSide(c)
	close(ch)
	if ch != nil {
		chState(ch).closed = true
	}
	syncPoint("chan.close")
}

// SelCase is one arm of a rewritten select.
type SelCase interface {
	ready() bool
	fire()
	reg(int)
}

type RecvArm[T any] struct {
	ch chan T
	v  T
	ok bool
}

func RecvCase[T any](c <-chan T) *RecvArm[T] { return &RecvArm[T]{ch: recvSide(c)} }

func (a *RecvArm[T]) ready() bool     { return canRecv(a.ch) }
func (a *RecvArm[T]) fire()           { a.v, a.ok, _ = tryRecv(a.ch) }
func (a *RecvArm[T]) Val() T          { return a.v }
func (a *RecvArm[T]) Val2() (T, bool) { return a.v, a.ok }
func (a *RecvArm[T]) reg(d int) {
	if a.ch != nil {
		chState(a.ch).recvW += d
	}
}

type SendArm[T any] struct {
	ch chan T
	v  T
}

func SendCase[T any](c chan<- T) func(T) *SendArm[T] {
	return func(v T) *SendArm[T] { return &SendArm[T]{sendSide(c), v} }
}

func (a *SendArm[T]) ready() bool {
	if a.ch == nil {
		return false
	}
	st := chState(a.ch)
	if st.closed {
		return true
	}
	if cap(a.ch) > 0 {
		return len(a.ch) < cap(a.ch)
	}
	return st.recvW > len(st.sendq)
}

func (a *SendArm[T]) fire() {
	if cap(a.ch) > 0 {
		a.ch <- a.v
		return
	}
	st := chState(a.ch)
	if st.closed {
		panic("send on closed channel")
	}
	st.sendq = append(st.sendq, &sendItem{v: a.v, done: true})
}

func (a *SendArm[T]) reg(int) {}

// Select picks a ready arm (the simulator decides which); -1 is the default arm.
func Select(hasDefault bool, cs ...SelCase) int {
	syncPoint("select")
	for {
		var r []int
		for i, c := range cs {
			if c.ready() {
				r = append(r, i)
			}
		}
		if len(r) > 0 {
			i := r[0]
			if len(r) > 1 && act != nil && !act.inert {
				i = r[act.sched.N(len(r))]
			}
			cs[i].fire()
			return i
		}
		if hasDefault {
			return -1
		}
		for _, c := range cs {
			c.reg(1)
		}
		waitUntil("select", func() bool {
			for _, c := range cs {
				if c.ready() {
					return true
				}
			}
			return false
		})
		for _, c := range cs {
			c.reg(-1)
		}
	}
}
