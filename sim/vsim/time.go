package vsim

import (
	"context"
	"time"
)

type timer struct {
	at  time.Duration
	seq int
	f   func()
	off bool
	lib bool // started by the code under test
}

var epoch = time.Date(2025, 1, 2, 3, 4, 5, 0, time.UTC)

func (s *Sim) fireTimer() bool {
	var best *timer
	bi := -1
	for i, t := range s.timers {
		if t.off {
			continue
		}
		if best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq) {
			best, bi = t, i
		}
	}
	if best == nil {
		return false
	}
	s.timers = append(s.timers[:bi:bi], s.timers[bi+1:]...)
	if best.at > s.clock {
		s.clock = best.at
	}
	s.fold(uint64(best.at))
	best.f()
	if s.spin() {
		s.stuck = true
	}
	return true
}

// fireDue runs the timers that came due while tasks were computing.
func (s *Sim) fireDue() {
	for {
		due := false
		for _, t := range s.timers {
			if !t.off && t.at <= s.clock {
				due = true
			}
		}
		if !due || !s.fireTimer() {
			return
		}
	}
}

func (s *Sim) after(d time.Duration, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{at: s.clock + d, seq: s.tseq, f: f}
	s.timers = append(s.timers, t)
	return t
}

// Clock is the simulated time since the start of the run.
func Clock() time.Duration { return act.clock }

// AfterFunc schedules f (which must not block) at a simulated delay.
func AfterFunc(d time.Duration, f func()) { act.after(d, f) }

func TimeNow() time.Time {
	s := act
	if s == nil {
		return epoch.Add(time.Duration(bootSt % (1 << 50)))
	}
	s.nowReads++
	t := epoch.Add(s.epoch + s.clock)
	switch s.strat.ClockMode {
	case 1:
		t = t.Add(time.Duration(s.nowReads) * time.Microsecond)
	case 2:
		t = t.Truncate(15 * time.Millisecond)
	case 3:
		if !s.inert {
			t = t.Add(time.Duration(s.sched.N(7)-3) * time.Second)
			s.res.Counts["fault:clock-jump"]++
		}
	default:
		s.res.Counts["fault:clock-frozen-read"]++
	}
	return t
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	s := act
	if s == nil {
		time.Sleep(d)
		return
	}
	done := false
	s.after(d, func() { done = true })
	waitUntil("sleep", func() bool { return done })
}

// WaitFor blocks the current harness task until cond holds (event driven).
func WaitFor(why string, cond func() bool) { waitUntil(why, cond) }

// The names below are what the code under test gets for its own timers. Such a
// timer can also go off while tasks still have work to do: the process was
// suspended (descheduled, swapped, stopped) at the point they had reached.

func (s *Sim) libAfter(d time.Duration, f func()) *timer {
	t := s.after(d, f)
	t.lib = true
	s.res.Counts["lib-timer"]++
	return t
}

// pause suspends the whole process until the next timer of the code under test
// is due.
func (s *Sim) pause() {
	var best *timer
	for _, t := range s.timers {
		if t.lib && !t.off && (best == nil || t.at < best.at) {
			best = t
		}
	}
	if best == nil || s.inert || s.aborting || s.cur == nil || !s.sched.Bool(1, 24) {
		return
	}
	if best.at > s.clock {
		s.clock = best.at
		s.res.Counts["fault:process-pause"]++
		s.trace("PAUSE: the process is suspended until %v", best.at)
	}
	s.fireDue()
}

func LibTimeSleep(d time.Duration) {
	s := act
	if s == nil {
		time.Sleep(d)
		return
	}
	done := false
	s.libAfter(d, func() { done = true })
	waitUntil("sleep", func() bool { return done })
}

func (s *Sim) now() time.Time { return epoch.Add(s.epoch + s.clock) }

// Timer and Ticker stand in for time.Timer and time.Ticker.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *timer
}

func (t *Timer) start(d time.Duration) {
	s := act
	if s == nil {
		return // never fires during package initialisation
	}
	t.t = s.libAfter(d, nil)
	t.t.f = func() {
		t.t = nil
		if t.f != nil {
			s.spawn(t.f, "timer", true)
			return
		}
		select {
		case t.c <- s.now():
		default:
		}
	}
}

func LibNewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func LibAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func LibTimeAfter(d time.Duration) <-chan time.Time { return LibNewTimer(d).C }

func (t *Timer) Stop() bool {
	on := t.t != nil
	if on {
		t.t.off = true
		t.t = nil
	}
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return on
}

func (t *Timer) Reset(d time.Duration) bool {
	on := t.Stop()
	t.start(d)
	return on
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
}

func (t *Ticker) start(d time.Duration) {
	s := act
	if s == nil {
		return
	}
	t.t = s.libAfter(d, nil)
	t.t.f = func() {
		select {
		case t.c <- s.now():
		default:
		}
		t.start(d)
	}
}

func LibNewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func LibTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return LibNewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.off = true
		t.t = nil
	}
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.start(d)
}

type simCtx struct {
	context.Context
	at time.Time
}

func (c *simCtx) Deadline() (time.Time, bool) { return c.at, true }

func (c *simCtx) Err() error {
	e := c.Context.Err()
	if e != nil && context.Cause(c.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return e
}

// LibCtxTimeout is context.WithTimeout on simulated time.
func LibCtxTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	s := act
	if s == nil {
		return context.WithTimeout(parent, d)
	}
	in, cancel := context.WithCancelCause(parent)
	t := s.libAfter(d, func() { cancel(context.DeadlineExceeded) })
	return &simCtx{in, s.now().Add(d)}, func() {
		t.off = true
		cancel(context.Canceled)
	}
}

func LibCtxDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	s := act
	if s == nil {
		return context.WithDeadline(parent, at)
	}
	return LibCtxTimeout(parent, at.Sub(s.now()))
}
