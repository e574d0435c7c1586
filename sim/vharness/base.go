//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/params"
)

type Torus = params.Torus

// Violation is what a run reports.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// RunOut is the record of one simulated run.
type RunOut struct {
	Lane      string           `json:"lane"`
	Idx       int              `json:"idx"`
	Seed      uint64           `json:"seed"`
	Viol      *Violation       `json:"viol,omitempty"`
	P         []uint32         `json:"p,omitempty"`
	S         []uint32         `json:"s,omitempty"`
	Hash      uint64           `json:"hash"`
	Sched     uint64           `json:"sched"`
	Ticks     int64            `json:"ticks"`
	Switches  int64            `json:"switches"`
	Decisions int64            `json:"decisions"`
	Tasks     int              `json:"tasks"`
	SimNs     int64            `json:"sim_ns"`
	Counts    map[string]int64 `json:"counts,omitempty"`
	Evals     int64            `json:"evals"`
	Plan      string           `json:"plan,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
	Known     []string         `json:"known,omitempty"`
	WallMs    float64          `json:"wall_ms"`
	Internal  string           `json:"internal,omitempty"`
}

// R is a run in progress.
type R struct {
	P, S    *vsim.Choices
	lane    *Lane
	verbose bool
	out     RunOut
	plan    []string
	seed    uint64
	base    uint64
	worlds  []*World
	strat   vsim.Strategy
	nsim    int
	nboot   int
}

type failToken struct{}

// Lane is one family of workloads of a property.
type Lane struct {
	Name     string
	Quick    int // runs in the quick tier
	Thorough int
	Pinned   bool // one worker at a time (expensive per-process key set-up)
	Fn       func(r *R)
}

// Prop is one claimed property.
type Prop struct {
	ID    string
	Lanes []*Lane
	Rule  string
}

var props = map[string]*Prop{}

func addProp(id, rule string, lanes ...*Lane) {
	props[id] = &Prop{ID: id, Rule: rule, Lanes: lanes}
}

func (p *Prop) lane(n string) *Lane {
	for _, l := range p.Lanes {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// Fail records a violation and ends the run.
func (r *R) Fail(kind, f string, a ...interface{}) {
	if r.out.Viol == nil {
		r.out.Viol = &Violation{kind, fmt.Sprintf(f, a...)}
	}
	if vsim.Active() {
		vsim.Note("VIOLATION %s: %s", kind, r.out.Viol.Detail)
		vsim.Stop()
	}
	panic(failToken{})
}

func (r *R) Planf(f string, a ...interface{}) { r.plan = append(r.plan, fmt.Sprintf(f, a...)) }

// Count adds to a counter of the run.
func (r *R) Count(k string, n int64) {
	if r.out.Counts == nil {
		r.out.Counts = map[string]int64{}
	}
	r.out.Counts[k] += n
}

// Eval counts oracle evaluations.
func (r *R) Eval(n int) { r.out.Evals += int64(n) }

type simOpt struct {
	allowCrash bool
	cap        int64
	inert      bool
	strat      *vsim.Strategy
	observe    func() string
	obsKind    string
}

// Sim runs f under the seeded scheduler and turns crashes, deadlocks,
// livelocks and leaked goroutines into violations.
func (r *R) Sim(o simOpt, f func()) *vsim.Result {
	if o.cap == 0 {
		// far above what any workload needs
		o.cap = 1 << 34
	}
	st := r.strat
	if o.strat != nil {
		st = *o.strat
	}
	r.nsim++
	cfg := vsim.Config{Sched: r.S, Strategy: st, RandSeed: vsim.Mix(r.seed ^ uint64(r.nsim)<<40), Epoch: time.Duration(r.nsim) * time.Hour, StepCap: o.cap, Verbose: r.verbose, Inert: o.inert, Observe: o.observe}
	// the random stream of a replay must not depend on the choices being shrunk
	res := vsim.Run(cfg, f)
	r.merge(res, o.inert)
	if r.out.Viol != nil {
		panic(failToken{})
	}
	if res.Observed != "" {
		if o.obsKind == "" {
			o.obsKind = "input-mutated"
		}
		r.Fail(o.obsKind, "%s", res.Observed)
	}
	if res.Crash != "" && !o.allowCrash {
		r.Fail("crash", "a panic nobody recovers in %s: %s", res.CrashTask, res.Crash)
	}
	if res.Deadlock != "" {
		r.Fail("deadlock", "no task can make progress: %s", res.Deadlock)
	}
	if res.Livelock {
		r.Fail("no-progress", "not finished after %d statements", res.Ticks)
	}
	if len(res.Leaked) > 0 {
		r.Fail("leak", "goroutines blocked for ever after the last call returned: %s", strings.Join(res.Leaked, "; "))
	}
	return res
}

// reset starts a fresh simulated process: package state as after program start.
func (r *R) reset() {
	r.nboot++
	vsim.SetBoot(r.seed ^ uint64(r.nboot)<<48)
	resetProcess()
}

// Inert runs f sequentially, without scheduling noise (set-up and references).
func (r *R) Inert(f func()) { r.Sim(simOpt{inert: true}, f) }

func (r *R) merge(res *vsim.Result, inert bool) {
	o := &r.out
	o.Hash = vsim.Mix(o.Hash ^ res.Hash)
	o.Ticks += res.Ticks
	o.SimNs += int64(res.SimTime)
	if !inert {
		o.Sched = vsim.Mix(o.Sched ^ res.SchedHash)
		o.Switches += res.Switches
		o.Decisions += res.Decisions
		o.Tasks += res.Tasks
		for k, v := range res.Counts {
			r.Count(k, v)
		}
	}
	if r.verbose {
		o.Trace = append(o.Trace, res.Trace...)
	}
}

// drawStrategy picks the per-run scheduling knobs (swarm testing).
func (r *R) drawStrategy() {
	p := r.P
	s := &r.strat
	switch p.N(8) {
	case 0:
		s.PreemptMean = 0
	case 1:
		s.PreemptMean = 20
	case 2, 3:
		s.PreemptMean = 150
	case 4, 5:
		s.PreemptMean = 1000
	default:
		s.PreemptMean = 8000
	}
	s.SyncPct = []int{0, 30, 60, 100}[p.N(4)]
	s.Policy = p.N(6)
	s.NoisePct = []int{0, 5, 30}[p.N(3)]
	s.PoolMode = p.N(5)
	s.NumCPU = []int{8, 1, 2, 3, 4, 16, 64}[p.N(7)]
	s.ClockMode = p.N(4)
	s.TickNs = 10
	r.Planf("strategy %+v", *s)
}

func execRun(p *Prop, l *Lane, base uint64, idx int, P, S []uint32, replay, verbose bool) (out RunOut) {
	seed := runSeed(base, p.ID, l.Name, idx)
	r := &R{lane: l, verbose: verbose, seed: seed, base: base}
	r.out.Lane, r.out.Idx, r.out.Seed = l.Name, idx, seed
	if replay {
		r.P, r.S = vsim.ReplayChoices(P), vsim.ReplayChoices(S)
	} else {
		r.P, r.S = vsim.NewChoices(seed), vsim.NewChoices(seed^0x5ca1ab1e)
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failToken); !ok {
				r.out.Internal = fmt.Sprintf("%v\n%s", e, stack())
			}
		}
		r.out.P, r.out.S = r.P.Rec, r.S.Rec
		if r.out.Viol == nil && !verbose {
			r.out.P, r.out.S = nil, nil
		}
		r.out.Plan = strings.Join(r.plan, " | ")
		out = r.out
	}()
	r.reset()
	l.Fn(r)
	r.checkWorlds()
	return
}

func runSeed(base uint64, prop, lane string, idx int) uint64 {
	h := vsim.Mix(base)
	for _, c := range prop + "/" + lane {
		h = vsim.Mix(h ^ uint64(c))
	}
	return vsim.Mix(h ^ uint64(idx)*0x9e3779b97f4a7c15)
}

func vd(us int) time.Duration { return time.Duration(us) * time.Microsecond }

// known reports a defect that is recorded in KNOWN_FINDINGS.txt; one that is
// not recorded there is a violation like any other.
func (r *R) known(what, f string, a ...interface{}) {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: ") && strings.Contains(l, " "+what) {
			r.out.Known = append(r.out.Known, what+" ("+fmt.Sprintf(f, a...)+")")
			return
		}
	}
	r.Fail("noise", "%s: %s", what, fmt.Sprintf(f, a...))
}
