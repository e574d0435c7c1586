package vsim

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Strategy holds the per-run (swarm) scheduling knobs.
type Strategy struct {
	PreemptMean int // mean number of statements between preemptions; 0: only at sync operations
	SyncPct     int // chance in percent to reschedule at a synchronisation operation
	Policy      int // 0 uniform, 1 stay, 2 random priorities, 3 newest first, 4 oldest first, 5 starve one task
	NoisePct    int // chance in percent that a policy is overridden by a uniform pick
	PoolMode    int // 0 LIFO reuse, 1 FIFO reuse, 2 random item, 3 always miss, 4 mixed incl. eviction
	NumCPU      int // what the code is told about the machine
	ClockMode   int // 0 frozen, 1 ticks 1us per reading, 2 coarse (15ms), 3 jumps back and forth
	TickNs      int // simulated nanoseconds per executed statement
	NoiseTail   int // 0 none; k: one Gaussian draw in k is pushed into the tail
}

// Result describes what happened in one simulated execution.
type Result struct {
	Ticks     int64
	Switches  int64
	Decisions int64
	Tasks     int
	Hash      uint64 // of every decision and event, in order
	SchedHash uint64 // of the sequence (tick, task) of switches only
	Deadlock  string
	Livelock  bool
	Crash     string // a panic that nobody recovered, in a spawned task: the process would have died
	CrashTask string
	Leaked    []string
	SimTime   time.Duration
	Counts    map[string]int64
	Trace     []string
	Observed  string
}

type tstate int

const (
	stRunnable tstate = iota
	stWaiting
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	id    int
	name  string
	wake  chan struct{}
	st    tstate
	ready func() bool
	why   string
	prio  int
	lib   bool
	// daemon tasks were started by package initialisation and may outlive everything
	daemon bool
	group  int
	ticks  int64
	// yielded tasks (runtime.Gosched) let the others go first
	yielded bool
	// tick and decision at which it last ran, or became able to run
	lastRun, lastPick int64
	kill              chan struct{} // non-nil while the task is being killed
}

type abortToken struct{}

// Sim is one simulated execution.
type Sim struct {
	sched    *Choices
	strat    Strategy
	tasks    []*Task
	cur      *Task
	ctl      chan struct{}
	res      Result
	aborting bool
	ended    bool
	cap      int64
	quantum  int64
	clock    time.Duration
	timers   []*timer
	tseq     int
	randSt   uint64
	verbose  bool
	starve   int
	prioLow  int
	nowReads int64
	inert    bool
	stop     bool
	epoch    time.Duration
	chans    map[uintptr]*chanState
	observe  func() string
	seenTick int64
	nyield   int        // tasks with yielded set
	spins    spinWindow // yields and idle timers, for telling waiting from hanging
	favor    *Task      // a task that had to wait for too long
	favorEnd int64
	stuck    bool
}

// spinWindow counts yields that got nobody anywhere.
type spinWindow struct {
	n    int64
	from int64
}

const (
	spinYields  = 1 << 20 // this many yields
	spinTicks   = 32      // with fewer statements each: nobody makes progress
	patience    = 1 << 29 // statements a task that can run is kept waiting at most
	rounds      = 100000  // and decisions
	compensated = 1 << 27 // statements it then runs
)

// spin notes a yield, or a timer that fired because everybody was waiting.
func (s *Sim) spin() bool {
	s.spins.n++
	if s.spins.n < spinYields {
		return false
	}
	stuck := s.res.Ticks-s.spins.from < spinYields*spinTicks
	s.spins = spinWindow{0, s.res.Ticks}
	return stuck
}

var (
	ctr  int64 = math.MaxInt64
	act  *Sim
	boot []func() // goroutines started by package initialisation
)

// Y is the preemption point the instrumenter puts before every statement.
func Y() {
	ctr--
	if ctr <= 0 {
		yieldSlow()
	}
}

// Config of a run.
type Config struct {
	Sched    *Choices
	Strategy Strategy
	RandSeed uint64
	Epoch    time.Duration // wall-clock time of the start of the run
	StepCap  int64
	Verbose  bool
	// Inert runs main with no preemption and no scheduling noise (reference
	// executions, key set-up); spawned tasks run in spawn order.
	Inert bool
	// Observe is an onlooker that gets to run whenever a task is preempted or
	// blocks; what it reports ends the run.
	Observe func() string
}

// Run executes main as the first task of a fresh simulation and returns when
// every task has ended, or the run was cut short.
func Run(cfg Config, main func()) *Result {
	if act != nil {
		panic("vsim: nested Run")
	}
	s := &Sim{sched: cfg.Sched, strat: cfg.Strategy, ctl: make(chan struct{}, 1), cap: cfg.StepCap,
		randSt: Mix(cfg.RandSeed), verbose: cfg.Verbose, inert: cfg.Inert, starve: -1, epoch: cfg.Epoch, observe: cfg.Observe, seenTick: -1}
	if s.sched == nil {
		s.sched = ReplayChoices(nil)
	}
	if s.cap == 0 {
		s.cap = 1 << 40
	}
	if s.strat.NumCPU == 0 {
		s.strat.NumCPU = 8
	}
	s.res.Counts = map[string]int64{}
	s.res.Hash = 0xcbf29ce484222325
	s.res.SchedHash = 0xcbf29ce484222325
	s.chans = map[uintptr]*chanState{}
	act = s
	defer func() { act = nil; ctr = math.MaxInt64 }()
	s.spawn(main, "main", false)
	for i, f := range boot {
		s.spawn(f, fmt.Sprintf("init-goroutine%d", i), true).daemon = true
	}
	s.loop()
	s.res.SimTime = s.clock
	s.res.Tasks = len(s.tasks)
	return &s.res
}

func (s *Sim) spawn(f func(), name string, lib bool) *Task {
	t := &Task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), lib: lib, lastRun: s.res.Ticks, lastPick: s.res.Decisions}
	if s.cur != nil {
		t.group = s.cur.group
	}
	if !s.inert && s.strat.Policy == 2 {
		t.prio = s.sched.N(1 << 16)
	}
	s.tasks = append(s.tasks, t)
	if !s.inert && s.strat.Policy == 5 && s.starve < 0 && t.id > 0 && s.sched.N(3) == 0 {
		s.starve = t.id
	}
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			if r != nil {
				if _, ok := r.(abortToken); !ok && !s.aborting {
					s.res.Crash = fmt.Sprintf("%v", r)
					s.res.CrashTask = t.name
					if s.verbose {
						s.trace("CRASH in %s: %v\n%s", t.name, r, trimStack(string(debug.Stack())))
					}
				}
			}
			t.st = stDone
			if !s.aborting {
				s.account()
			}
			ctr = math.MaxInt64
			if t.kill != nil {
				t.kill <- struct{}{}
				return
			}
			s.ctl <- struct{}{}
		}()
		if s.aborting {
			return
		}
		f()
	}()
	return t
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-tfhe") {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) trace(f string, a ...interface{}) {
	if s.verbose && len(s.res.Trace) < 4000 {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("t=%d ", s.res.Ticks)+fmt.Sprintf(f, a...))
	}
}

func (s *Sim) fold(v uint64) {
	s.res.Hash = (s.res.Hash ^ v) * 0x100000001b3
}

// account moves the statements executed since the last decision into Ticks.
func (s *Sim) account() {
	if s.quantum > 0 {
		used := s.quantum - ctr
		if used > 0 {
			s.res.Ticks += used
			if s.cur != nil {
				s.cur.ticks += used
			}
			s.clock += time.Duration(used * int64(s.strat.TickNs))
		}
	}
	s.quantum = 0
}

func (s *Sim) arm() {
	d := int64(1 << 34)
	if !s.inert && !s.aborting && s.strat.PreemptMean > 0 && (s.observe != nil || s.liveOthers()) {
		r := s.sched.N(1 << 20)
		if r != 0 {
			// geometric with the given mean
			u := float64(r) / float64(1<<20)
			d = int64(-math.Log(u)*float64(s.strat.PreemptMean)) + 1
		}
	}
	if d > patience && s.liveOthers() {
		d = patience
	}
	if left := s.cap - s.res.Ticks; d > left {
		d = left
		if d < 1 {
			d = 1
		}
	}
	s.quantum = d
	ctr = d
}

func (s *Sim) liveOthers() bool {
	n := 0
	for _, t := range s.tasks {
		if t.st != stDone {
			n++
			if n > 1 {
				return true
			}
		}
	}
	return false
}

func (s *Sim) onlyDaemons() bool {
	for _, t := range s.tasks {
		if t.st != stDone && !t.daemon {
			return false
		}
	}
	return true
}

func (s *Sim) loop() {
	idle := 0
	for {
		if s.stop || (s.res.Crash != "" && !s.aborting) {
			s.abort()
			return
		}
		if s.res.Ticks >= s.cap || s.stuck {
			s.res.Livelock = true
			s.trace("LIVELOCK: step cap %d reached", s.cap)
			s.abort()
			return
		}
		s.fireDue()
		s.pause()
		if s.observe != nil && s.seenTick != s.res.Ticks {
			s.seenTick = s.res.Ticks
			s.res.Counts["onlooker"]++
			old := ctr
			ctr = math.MaxInt64
			m := s.observe()
			ctr = old
			if m != "" {
				s.res.Observed = m
				if s.cur != nil {
					s.res.Observed += " (seen when " + s.cur.name + " was interrupted)"
				}
				s.trace("OBSERVED %s", s.res.Observed)
				s.abort()
				return
			}
		}
		if len(boot) > 0 && s.onlyDaemons() {
			s.abort()
			return
		}
		t := s.pick()
		if t == nil {
			live := 0
			for _, x := range s.tasks {
				if x.st != stDone && !x.daemon {
					live++
				}
			}
			if live == 0 {
				s.abort()
				return
			}
			if idle < 1<<14 && s.fireTimer() {
				idle++
				continue
			}
			var w []string
			for _, x := range s.tasks {
				if x.st != stDone && !x.daemon {
					w = append(w, x.name+": "+x.why)
				}
			}
			if s.tasks[0].st == stDone {
				s.res.Leaked = w
			} else {
				s.res.Deadlock = strings.Join(w, "; ")
			}
			s.trace("STUCK: %s", strings.Join(w, "; "))
			s.abort()
			return
		}
		idle = 0
		if t != s.cur {
			s.res.Switches++
			s.res.SchedHash = (s.res.SchedHash ^ uint64(s.res.Ticks)*31 ^ uint64(t.id)) * 0x100000001b3
			if s.verbose {
				from := "-"
				if s.cur != nil {
					from = s.cur.name
				}
				s.trace("switch %s -> %s", from, t.name)
			}
		}
		s.fold(uint64(s.res.Ticks)<<8 ^ uint64(t.id))
		s.cur = t
		t.st = stRunnable
		t.ready = nil
		if t.yielded {
			t.yielded = false
			s.nyield--
		}
		s.arm()
		t.wake <- struct{}{}
		<-s.ctl
		s.account()
		t.lastRun, t.lastPick = s.res.Ticks, s.res.Decisions
	}
}

func (s *Sim) pick() *Task {
	s.res.Decisions++
	var c []*Task
	if s.cur != nil && s.cur.st == stRunnable {
		c = append(c, s.cur)
	}
	for _, t := range s.tasks {
		if t == s.cur {
			if t.st == stWaiting {
				if t.ready() {
					c = append(c, t)
				} else {
					t.lastRun, t.lastPick = s.res.Ticks, s.res.Decisions
				}
			}
			continue
		}
		switch t.st {
		case stRunnable:
			c = append(c, t)
		case stWaiting:
			if t.ready() {
				c = append(c, t)
			} else {
				t.lastRun, t.lastPick = s.res.Ticks, s.res.Decisions
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	if len(c) > 1 {
		c = s.fair(c)
	}
	if len(c) == 1 || s.inert {
		return c[0]
	}
	if s.strat.NoisePct > 0 && s.sched.Bool(s.strat.NoisePct, 100) {
		return c[s.sched.N(len(c))]
	}
	switch s.strat.Policy {
	case 1:
		if c[0] == s.cur {
			return c[0]
		}
		return c[s.sched.N(len(c))]
	case 2:
		if s.cur != nil && s.sched.N(8) == 7 {
			s.prioLow--
			s.cur.prio = s.prioLow // priority change point
		}
		sort.SliceStable(c, func(i, j int) bool { return c[i].prio > c[j].prio })
		return c[0]
	case 3:
		sort.SliceStable(c, func(i, j int) bool { return c[i].id > c[j].id })
		return c[0]
	case 4:
		sort.SliceStable(c, func(i, j int) bool { return c[i].id < c[j].id })
		return c[0]
	case 5:
		var d []*Task
		for _, t := range c {
			if t.id != s.starve {
				d = append(d, t)
			}
		}
		if len(d) == 0 {
			return c[0]
		}
		return d[s.sched.N(len(d))]
	}
	return c[s.sched.N(len(c))]
}

// fair keeps schedules fair in the long run, as Go's are: whoever yields lets
// the others go first for a while, and nobody waits for ever.
func (s *Sim) fair(c []*Task) []*Task {
	if s.favor != nil {
		for _, t := range c {
			if t == s.favor && s.res.Ticks < s.favorEnd {
				return []*Task{t}
			}
		}
		s.favor = nil
	}
	if s.res.Ticks > patience || s.res.Decisions > rounds {
		for _, t := range c {
			if t != s.cur && (s.res.Ticks-t.lastRun > patience || s.res.Decisions-t.lastPick > rounds) {
				s.favor, s.favorEnd = t, s.res.Ticks+compensated
				return []*Task{t}
			}
		}
	}
	if s.nyield == 0 {
		return c
	}
	if !s.inert && s.sched.N(4) == 3 {
		return c
	}
	var d []*Task
	for _, t := range c {
		if !t.yielded {
			d = append(d, t)
		}
	}
	if len(d) > 0 {
		return d
	}
	for _, t := range s.tasks {
		t.yielded = false
	}
	s.nyield = 0
	// whoever yielded longest ago goes first when nothing else decides
	sort.SliceStable(c, func(i, j int) bool { return c[i].lastRun < c[j].lastRun })
	return c
}

// abort unwinds every task that is still alive.
func (s *Sim) abort() {
	s.aborting = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		for n := 0; t.st != stDone; n++ {
			if n > 64 {
				break
			}
			s.cur = t
			ctr = 1 << 20
			t.wake <- struct{}{}
			<-s.ctl
		}
	}
}

// park hands control to the scheduler and returns when this task is resumed.
func (s *Sim) park() {
	t := s.cur
	s.ctl <- struct{}{}
	<-t.wake
	if s.aborting {
		panic(abortToken{})
	}
}

func yieldSlow() {
	s := act
	if s == nil {
		ctr = math.MaxInt64
		return
	}
	if s.aborting {
		// still running after the abort: force it out
		ctr = 1 << 20
		panic(abortToken{})
	}
	s.account()
	if s.verbose {
		s.trace("preempt %s at %s", s.cur.name, where())
	}
	s.res.Counts["preemption"]++
	s.park()
}

func where() string {
	pc := make([]uintptr, 16)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "go-tfhe/") && !strings.Contains(f.Function, "internal/vsim") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			return fmt.Sprintf("%s:%d", fn, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// syncPoint is called by every synchronisation shim: the scheduler may switch here.
func syncPoint(kind string) {
	s := act
	if s == nil || s.aborting {
		return
	}
	s.res.Counts["sync:"+kind]++
	if s.inert || s.strat.SyncPct == 0 || !s.liveOthers() {
		return
	}
	if s.sched.Bool(s.strat.SyncPct, 100) {
		s.account()
		if s.verbose {
			s.trace("reschedule %s at %s (%s)", s.cur.name, kind, where())
		}
		s.park()
	}
}

// waitUntil blocks the current task until ready reports true.
func waitUntil(why string, ready func() bool) {
	s := act
	if s == nil {
		if ready() {
			return
		}
		panic("vsim: blocking operation outside a simulation: " + why)
	}
	if s.aborting {
		panic(abortToken{})
	}
	if ready() {
		return
	}
	t := s.cur
	s.account()
	t.st = stWaiting
	t.ready = ready
	t.why = why
	s.trace("%s waits: %s", t.name, why)
	s.park()
	t.why = ""
}

// Go starts a simulated goroutine (what the instrumenter turns `go` into).
func Go(f func()) {
	s := act
	if s == nil {
		boot = append(boot, f)
		return
	}
	if s.aborting {
		return
	}
	s.res.Counts["spawn"]++
	s.spawn(f, fmt.Sprintf("g%d", len(s.tasks)), true)
	syncPoint("spawn")
}

// KillGroup ends every task of a group where it stands (a process crash). The
// caller must not be in the group.
func KillGroup(g int) int {
	s := act
	me := s.cur
	s.account()
	n := 0
	s.aborting = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.group != g || t == me || t.st == stDone {
			continue
		}
		n++
		t.kill = make(chan struct{}, 1)
		s.cur = t
		ctr = 1 << 20
		t.wake <- struct{}{}
		<-t.kill
	}
	s.aborting = false
	s.cur = me
	s.fold(uint64(n))
	s.trace("KILL group %d: %d tasks ended", g, n)
	s.arm()
	return n
}

// SpawnGroup starts a task in a process group of its own.
func SpawnGroup(g int, name string, f func()) *Task {
	t := act.spawn(f, name, false)
	t.group = g
	return t
}

// Stop ends the simulation at once (a violation was recorded).
func Stop() {
	act.stop = true
	panic(abortToken{})
}

// Try runs f and returns what it panicked with, if anything.
func Try(f func()) (r interface{}) {
	defer func() {
		r = recover()
		if _, ok := r.(abortToken); ok {
			panic(r)
		}
	}()
	f()
	return nil
}

func Go0(f func())                                               { Go(f) }
func Go1[A any](f func(A), a A)                                  { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	Go(func() { f(a, b, c, d, e) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, e E, g F) {
	Go(func() { f(a, b, c, d, e, g) })
}
func Go7[A, B, C, D, E, F, G any](f func(A, B, C, D, E, F, G), a A, b B, c C, d D, e E, g F, h G) {
	Go(func() { f(a, b, c, d, e, g, h) })
}
func Go8[A, B, C, D, E, F, G, H any](f func(A, B, C, D, E, F, G, H), a A, b B, c C, d D, e E, g F, h G, i H) {
	Go(func() { f(a, b, c, d, e, g, h, i) })
}
func Go9[A, B, C, D, E, F, G, H, I any](f func(A, B, C, D, E, F, G, H, I), a A, b B, c C, d D, e E, g F, h G, i H, j I) {
	Go(func() { f(a, b, c, d, e, g, h, i, j) })
}
func Go10[A, B, C, D, E, F, G, H, I, J any](f func(A, B, C, D, E, F, G, H, I, J), a A, b B, c C, d D, e E, g F, h G, i H, j I, k J) {
	Go(func() { f(a, b, c, d, e, g, h, i, j, k) })
}

// GoReflect covers go statements on functions with results or variadic parameters.
func GoReflect(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := t.In(min(i, t.NumIn()-1))
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		}
		in[i] = argVal(a, pt)
	}
	Go(func() { v.Call(in) })
}

func GoReflectSlice(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = argVal(a, v.Type().In(i))
	}
	Go(func() { v.CallSlice(in) })
}

func argVal(a interface{}, pt reflect.Type) reflect.Value {
	if a == nil {
		return reflect.Zero(pt)
	}
	x := reflect.ValueOf(a)
	if x.Type() != pt && x.CanConvert(pt) {
		x = x.Convert(pt)
	}
	return x
}

// Spawn starts a task of the harness (a caller, a client, a server worker).
func Spawn(name string, f func()) *Task {
	return act.spawn(f, name, false)
}

// Join waits for the given tasks.
func Join(ts ...*Task) {
	for _, t := range ts {
		t := t
		waitUntil("join "+t.name, func() bool { return t.st == stDone })
	}
}

// Note folds an event of the workload into the run hash and the trace.
func Note(f string, a ...interface{}) {
	s := act
	if s == nil {
		return
	}
	m := fmt.Sprintf(f, a...)
	for i := 0; i < len(m); i++ {
		s.fold(uint64(m[i]))
	}
	s.trace("%s: %s", s.cur.name, m)
}

// Count bumps a named counter of the run (fault kinds, probes).
func Count(k string) {
	if act != nil {
		act.res.Counts[k]++
	}
}

// Tick is the number of statements executed so far.
func Tick() int64 {
	s := act
	if s == nil {
		return 0
	}
	return s.res.Ticks + (s.quantum - ctr)
}

// LibTasksAlive lists goroutines started by the library that have not ended.
func LibTasksAlive() []string {
	var w []string
	for _, t := range act.tasks {
		if t.lib && !t.daemon && t.st != stDone {
			w = append(w, t.name+" "+t.why)
		}
	}
	return w
}

// Quiesce lets every other task run until all library goroutines ended or are
// blocked; it returns those that are left.
func Quiesce() []string {
	s := act
	for i := 0; i < 1<<20; i++ {
		progress := false
		for _, t := range s.tasks {
			if t.lib && !t.daemon && t.st != stDone && (t.st == stRunnable || t.ready()) {
				progress = true
			}
		}
		if !progress {
			break
		}
		me := s.cur
		s.account()
		// wait until no library task can run
		me.st = stWaiting
		me.why = "quiesce"
		me.ready = func() bool {
			for _, t := range s.tasks {
				if t.lib && !t.daemon && t.st != stDone && (t.st == stRunnable || t.ready()) {
					return false
				}
			}
			return true
		}
		s.park()
	}
	return LibTasksAlive()
}

// Active reports whether a simulation is running.
func Active() bool { return act != nil }

// Inert runs f with preemption and scheduling noise off (reference executions
// inside a simulation); only valid while no other task can run.
func Inert(f func()) {
	s := act
	old := s.inert
	s.inert = true
	s.account()
	s.arm()
	defer func() {
		s.inert = old
		s.account()
		s.arm()
	}()
	f()
}

// FoldHash mixes an observed value into the run hash.
func FoldHash(v uint64) {
	if act != nil {
		act.fold(v)
	}
}

// GroupTicks is the number of statements library goroutines of a group executed.
func GroupTicks(g int) int64 {
	var n int64
	for _, t := range act.tasks {
		if t.lib && t.group == g {
			n += t.ticks
		}
	}
	return n
}

// QuiesceGroup waits until no library goroutine of the group can run any more;
// it returns how many were alive at first and those that are blocked for good.
func QuiesceGroup(g int) (alive int, blocked string) {
	s := act
	for _, t := range s.tasks {
		if t.lib && !t.daemon && t.group == g && t.st != stDone {
			alive++
		}
	}
	if alive == 0 {
		return
	}
	done := func() bool {
		for _, t := range s.tasks {
			if t.lib && !t.daemon && t.group == g && t.st != stDone && (t.st == stRunnable || t.ready()) {
				return false
			}
		}
		return true
	}
	waitUntil("quiesce", done)
	for _, t := range s.tasks {
		if t.lib && !t.daemon && t.group == g && t.st != stDone {
			blocked += t.name + ": " + t.why + "; "
		}
	}
	return
}

// SetNumCPU changes the machine a restarted process finds itself on.
func SetNumCPU(n int) {
	if act != nil && n > 0 {
		act.strat.NumCPU = n
	}
}
