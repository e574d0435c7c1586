//go:build go1.23

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/params"
)

var seamOK = true

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness check|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayFile(os.Args[2:]))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, l := range props[id].Lanes {
				fmt.Printf("%s %s quick=%d thorough=%d\n", id, l.Name, l.Quick, l.Thorough)
			}
		}
	default:
		os.Exit(2)
	}
}

// ------------------------------------------------------------------ worker

type cmdMsg struct {
	Lane    string   `json:"lane"`
	Idx     int      `json:"idx"`
	Replay  bool     `json:"replay,omitempty"`
	P       []uint32 `json:"p,omitempty"`
	S       []uint32 `json:"s,omitempty"`
	Verbose bool     `json:"verbose,omitempty"`
}

// seamTest: do the small parameter sets really reach the code?
func seamTest() bool {
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		old := params.CurrentSecurityLevel
		defer func() { params.CurrentSecurityLevel = old }()
		l := levelByName("s64")
		setLevel(l)
		if params.GetTLWELv0().N != l.N0 || params.GetTLWELv1().N != l.N || params.GetTRLWELv1().N != l.N || params.GetTRGSWLv1().N != l.N ||
			params.KSKAlpha() != l.A0 || params.BSKAlpha() != l.A1 {
			ok = false
			return
		}
	}()
	return ok
}

// setSeam falls back to real parameter sets where the small ones have no effect
// (a tree that looks its parameters up in another way): slower, not wrong.
func setSeam() {
	seamOK = seamTest()
	if seamOK {
		return
	}
	sub := []string{"80", "u1", "u2"}
	for i := range smallLevels {
		smallLevels[i] = levelByName(sub[i%3])
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	p := props[*prop]
	if p == nil {
		os.Exit(2)
	}
	setSeam()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c cmdMsg
		if json.Unmarshal(line, &c) != nil {
			os.Exit(2)
		}
		t0 := time.Now()
		l := p.lane(c.Lane)
		o := execRun(p, l, *base, c.Idx, c.P, c.S, c.Replay, c.Verbose)
		o.WallMs = float64(time.Since(t0).Microseconds()) / 1000
		b, _ := json.Marshal(o)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// proc is a worker seen from the driver.
type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	err *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = t.b[len(t.b)-(1<<15):]
	}
	t.mu.Unlock()
	return len(p), nil
}

func startProc(prop string, base uint64) *proc {
	c := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", fmt.Sprint(base))
	stdin, _ := c.StdinPipe()
	stdout, _ := c.StdoutPipe()
	e := &tailBuf{}
	c.Stderr = e
	c.Env = append(os.Environ(), "GOGC=200", "GOMEMLIMIT=6GiB")
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(2)
	}
	return &proc{cmd: c, in: bufio.NewWriter(stdin), out: bufio.NewReaderSize(stdout, 1<<20), err: e}
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var errTimeout = fmt.Errorf("timeout")

func (p *proc) do(m cmdMsg, limit time.Duration) (*RunOut, error) {
	b, _ := json.Marshal(m)
	p.in.Write(b)
	p.in.WriteByte('\n')
	if err := p.in.Flush(); err != nil {
		return nil, err
	}
	type rr struct {
		o   *RunOut
		err error
	}
	ch := make(chan rr, 1)
	go func() {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			ch <- rr{nil, err}
			return
		}
		o := &RunOut{}
		if err := json.Unmarshal(line, o); err != nil {
			ch <- rr{nil, err}
			return
		}
		ch <- rr{o, nil}
	}()
	select {
	case x := <-ch:
		return x.o, x.err
	case <-time.After(limit):
		p.cmd.Process.Kill()
		return nil, errTimeout
	}
}

// ------------------------------------------------------------------ driver

type job struct {
	lane *Lane
	idx  int
}

type stats struct {
	runs, evals, ticks, switches, decisions, tasks, simNs int64
	counts                                                map[string]int64
	scheds                                                map[uint64]bool
	nontrivial                                            map[uint64]bool
	perLane                                               map[string]int
	laneMs                                                map[string]float64
	samples                                               []interface{}
	known                                                 map[string]int
	stopped                                               bool
	irrepro                                               []string
	detSame, detTotal                                     int
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	workers := fs.Int("workers", 8, "")
	laneSel := fs.String("lane", "", "")
	capS := fs.Int("cap", 0, "wall-clock cap in seconds for dispatching runs")
	keep := fs.Bool("keep", false, "keep going after a violation (development)")
	prof := fs.Bool("v", false, "")
	fs.Parse(args)
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	limit := time.Duration(*capS) * time.Second
	if *capS == 0 {
		limit = 150 * time.Second
		if *tier == "thorough" {
			limit = 40 * time.Minute
		}
	}
	start := time.Now()
	st := &stats{counts: map[string]int64{}, scheds: map[uint64]bool{}, nontrivial: map[uint64]bool{}, perLane: map[string]int{}, laneMs: map[string]float64{}, known: map[string]int{}}

	// queues: pinned lanes are run whole by one worker, the others in chunks
	type unit struct {
		lane   *Lane
		lo, hi int
	}
	var units []unit
	var shared []unit
	for _, l := range p.Lanes {
		if *laneSel != "" && l.Name != *laneSel {
			continue
		}
		n := l.Quick
		if *tier == "thorough" {
			n = l.Thorough
		}
		if l.Pinned {
			if n > 0 {
				units = append(units, unit{l, 0, n})
			}
			continue
		}
		chunk := n/64 + 1
		for i := 0; i < n; i += chunk {
			shared = append(shared, unit{l, i, min(i+chunk, n)})
		}
	}
	// interleave the chunks of different lanes
	sort.SliceStable(shared, func(i, j int) bool {
		return shared[i].lo*shared[j].lane.n(*tier) < shared[j].lo*shared[i].lane.n(*tier)
	})
	units = append(units, shared...)

	var mu sync.Mutex
	next := 0
	type found struct {
		o     *RunOut
		crash string
		lane  *Lane
		idx   int
	}
	var finds []found
	var internal string
	done := make(chan struct{})
	nw := *workers
	for w := 0; w < nw; w++ {
		go func() {
			defer func() { done <- struct{}{} }()
			pr := startProc(p.ID, seed)
			defer func() { pr.stop() }()
			for {
				mu.Lock()
				if next >= len(units) || (len(finds) > 0 && !*keep) || internal != "" {
					mu.Unlock()
					return
				}
				u := units[next]
				next++
				mu.Unlock()
				for i := u.lo; i < u.hi; i++ {
					mu.Lock()
					stop := (len(finds) > 0 && !*keep) || internal != ""
					if time.Since(start) > limit {
						st.stopped = true
						stop = true
					}
					mu.Unlock()
					if stop {
						return
					}
					o, err := pr.do(cmdMsg{Lane: u.lane.Name, Idx: i}, 400*time.Second)
					if err != nil {
						tail := string(pr.err.b)
						pr.stop()
						if err == errTimeout {
							mu.Lock()
							internal = fmt.Sprintf("run %s/%d timed out", u.lane.Name, i)
							mu.Unlock()
							return
						}
						// the process died: does it die again on its own?
						pr = startProc(p.ID, seed)
						o, err = pr.do(cmdMsg{Lane: u.lane.Name, Idx: i}, 400*time.Second)
						if err != nil {
							mu.Lock()
							finds = append(finds, found{crash: lastLines(tail), lane: u.lane, idx: i})
							mu.Unlock()
							return
						}
						mu.Lock()
						st.irrepro = append(st.irrepro, fmt.Sprintf("worker died in %s/%d but not when repeated: %s", u.lane.Name, i, lastLines(tail)))
						mu.Unlock()
					}
					mu.Lock()
					st.add(o)
					if o.Internal != "" {
						internal = o.Internal
					}
					if o.Viol != nil {
						finds = append(finds, found{o: o, lane: u.lane, idx: i})
					}
					mu.Unlock()
				}
			}
		}()
	}
	for w := 0; w < nw; w++ {
		<-done
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, "harness error:", internal)
		return 2
	}
	if *keep {
		kinds := map[string]int{}
		for _, f := range finds {
			if f.o != nil {
				kinds[f.lane.Name+"/"+f.o.Viol.Kind]++
				if kinds[f.lane.Name+"/"+f.o.Viol.Kind] <= 2 {
					fmt.Printf("found %s/%d %s: %s\n   plan %s\n", f.lane.Name, f.idx, f.o.Viol.Kind, f.o.Viol.Detail, f.o.Plan)
				}
			} else {
				fmt.Printf("found %s/%d crash %s\n", f.lane.Name, f.idx, f.crash)
			}
		}
		fmt.Println(kinds)
	}
	violations := 0
	code := 0
	for _, f := range finds {
		if *keep {
			break
		}
		var path string
		if f.o == nil {
			path = writeReplay(p, f.lane, f.idx, seed, nil, nil, &Violation{"process-death", f.crash}, nil, "", true)
		} else {
			path = minimise(p, f.lane, seed, f.o)
			if path == "" {
				st.irrepro = append(st.irrepro, fmt.Sprintf("%s/%d %s did not reproduce in a fresh process: %s", f.lane.Name, f.idx, f.o.Viol.Kind, f.o.Viol.Detail))
				fmt.Fprintln(os.Stderr, "not reproduced:", st.irrepro[len(st.irrepro)-1])
				continue
			}
		}
		violations++
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
		break
	}
	if code == 0 && len(finds) > 0 && !*keep {
		code = 2 // something was seen that could not be repeated
	}
	if code == 0 && !*keep {
		determinism(p, seed, st)
	}
	for k := range st.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if !*keep {
		b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "KNOWN-FINDING: property="+p.ID+" ") {
				continue
			}
			seen := false
			for k := range st.known {
				seen = seen || strings.HasPrefix(k, strings.TrimPrefix(l, "KNOWN-FINDING: property="+p.ID+" "))
			}
			if !seen {
				fmt.Println(l + " (recorded; not executed in this tier)")
			}
		}
	}
	writeEvidence(p, *tier, seed, st, time.Since(start), violations, nw)
	fmt.Printf("%s %s seed=%d: %d runs, %d oracle evaluations, %d distinct interleavings, %d statements, %.1fs\n",
		p.ID, *tier, seed, st.runs, st.evals, len(st.scheds), st.ticks, time.Since(start).Seconds())
	if *prof {
		var ks []string
		for k := range st.laneMs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  lane %-16s runs %6d  total %8.1f ms  mean %8.2f ms\n", k, st.perLane[k], st.laneMs[k], st.laneMs[k]/float64(st.perLane[k]))
		}
		ks = nil
		for k := range st.counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-32s %d\n", k, st.counts[k])
		}
	}
	return code
}

func (l *Lane) n(tier string) int {
	if tier == "thorough" {
		return l.Thorough
	}
	return l.Quick
}

func lastLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, "\n")
}

func (st *stats) add(o *RunOut) {
	st.runs++
	st.evals += o.Evals
	st.ticks += o.Ticks
	st.switches += o.Switches
	st.decisions += o.Decisions
	st.tasks += int64(o.Tasks)
	st.simNs += o.SimNs
	for k, v := range o.Counts {
		st.counts[k] += v
	}
	if o.Switches > 0 {
		st.scheds[o.Sched] = true
	}
	if o.Evals > 0 {
		st.nontrivial[o.Hash] = true
	}
	st.perLane[o.Lane]++
	st.laneMs[o.Lane] += o.WallMs
	for _, k := range o.Known {
		st.known[k]++
	}
	if len(st.samples) < 6 && (st.perLane[o.Lane] == 1 || st.runs%97 == 0) {
		pl := o.Plan
		if len(pl) > 700 {
			pl = pl[:700] + "..."
		}
		st.samples = append(st.samples, map[string]interface{}{"lane": o.Lane, "index": o.Idx, "seed": fmt.Sprint(o.Seed), "run_hash": fmt.Sprintf("%016x", o.Hash),
			"statements": o.Ticks, "switches": o.Switches, "tasks": o.Tasks, "oracle_evaluations": o.Evals, "plan": pl})
	}
}

// determinism re-runs a few seeds in fresh processes and compares run hashes.
func determinism(p *Prop, seed uint64, st *stats) {
	var lanes []*Lane
	for _, l := range p.Lanes {
		if !l.Pinned && st.perLane[l.Name] > 0 {
			lanes = append(lanes, l)
		}
	}
	if len(lanes) == 0 {
		return
	}
	a, b := startProc(p.ID, seed), startProc(p.ID, seed)
	defer a.stop()
	defer b.stop()
	for i := 0; i < 6; i++ {
		l := lanes[i%len(lanes)]
		if i/len(lanes) >= st.perLane[l.Name] {
			continue
		}
		// b runs something else first, so that leftover process state would show
		b.do(cmdMsg{Lane: l.Name, Idx: i + 1}, 60*time.Second)
		x, e1 := a.do(cmdMsg{Lane: l.Name, Idx: i / len(lanes)}, 60*time.Second)
		y, e2 := b.do(cmdMsg{Lane: l.Name, Idx: i / len(lanes)}, 60*time.Second)
		if e1 != nil || e2 != nil {
			return
		}
		st.detTotal++
		if x.Hash == y.Hash && x.Ticks == y.Ticks && x.Sched == y.Sched {
			st.detSame++
		}
	}
}

// ------------------------------------------------------------------ replay

type replayDoc struct {
	Property  string     `json:"property"`
	Lane      string     `json:"lane"`
	Idx       int        `json:"idx"`
	BaseSeed  uint64     `json:"base_seed"`
	RunSeed   string     `json:"run_seed"`
	P         []uint32   `json:"plan_choices"`
	S         []uint32   `json:"schedule_choices"`
	Generate  bool       `json:"generate,omitempty"` // choices are drawn from the seed again
	Violation *Violation `json:"violation"`
	Plan      string     `json:"plan"`
	Trace     []string   `json:"trace"`
	How       string     `json:"how_to_replay"`
}

func writeReplay(p *Prop, l *Lane, idx int, base uint64, P, S []uint32, v *Violation, trace []string, plan string, gen bool) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	if len(trace) > 600 {
		trace = append(append([]string{}, trace[:200]...), append([]string{fmt.Sprintf("... %d lines ...", len(trace)-600)}, trace[len(trace)-400:]...)...)
	}
	d := replayDoc{Property: p.ID, Lane: l.Name, Idx: idx, BaseSeed: base, RunSeed: fmt.Sprint(runSeed(base, p.ID, l.Name, idx)), P: P, S: S, Generate: gen,
		Violation: v, Plan: plan, Trace: trace, How: "/verif/check --replay <this file>"}
	b, _ := json.MarshalIndent(d, "", " ")
	fn := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, l.Name, base, idx))
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return fn
}

func replayFile(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[d.Property]
	if p == nil || p.lane(d.Lane) == nil {
		return 2
	}
	setSeam()
	o := execRun(p, p.lane(d.Lane), d.BaseSeed, d.Idx, d.P, d.S, !d.Generate, true)
	if o.Internal != "" {
		fmt.Fprintln(os.Stderr, o.Internal)
		return 2
	}
	fmt.Println("plan:", o.Plan)
	for _, t := range o.Trace {
		fmt.Println(t)
	}
	if o.Viol != nil {
		fmt.Printf("reproduced: %s: %s\n", o.Viol.Kind, o.Viol.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, args[0])
		return 1
	}
	fmt.Println("no violation on this tree")
	return 0
}

// minimise shrinks the choice sequences while the same kind of violation
// persists, then writes and confirms the replay file. "" if not reproducible.
func minimise(p *Prop, l *Lane, base uint64, o *RunOut) string {
	pr := startProc(p.ID, base)
	defer func() { pr.stop() }()
	deadline := time.Now().Add(60 * time.Second)
	kind := o.Viol.Kind
	tries := 0
	try := func(P, S []uint32) *RunOut {
		if tries > 0 && time.Now().After(deadline) {
			return nil
		}
		tries++
		x, err := pr.do(cmdMsg{Lane: l.Name, Idx: o.Idx, Replay: true, P: P, S: S}, 400*time.Second)
		if err != nil {
			pr.stop()
			pr = startProc(p.ID, base)
			return nil
		}
		if x.Viol != nil && x.Viol.Kind == kind {
			return x
		}
		return nil
	}
	cur := try(o.P, o.S)
	if cur == nil {
		// same kind may differ between generation and replay only if the run
		// is not deterministic; give the exact seed another chance
		pr.stop()
		pr = startProc(p.ID, base)
		tries = 0
		x, err := pr.do(cmdMsg{Lane: l.Name, Idx: o.Idx}, 400*time.Second)
		if err != nil || x.Viol == nil {
			return ""
		}
		kind = x.Viol.Kind
		cur = try(x.P, x.S)
		if cur == nil {
			return ""
		}
	}
	P, S := cur.P, cur.S
	accept := func(x *RunOut) bool {
		if x == nil {
			return false
		}
		P, S = x.P, x.S
		cur = x
		return true
	}
	// schedule: shortest prefix that still fails, then zero chunks
	lo, hi := 0, len(S)
	if x := try(P, nil); accept(x) {
		S = nil
		hi = 0
	}
	for lo < hi && time.Now().Before(deadline) {
		mid := (lo + hi) / 2
		if x := try(P, S[:mid]); x != nil {
			cur = x
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if hi < len(S) {
		S = append([]uint32(nil), S[:hi]...)
	}
	if x := try(P, S); x != nil {
		cur = x
	}
	zero := func(v []uint32, f func([]uint32) *RunOut) []uint32 {
		for size := len(v) / 2; size >= 1; size /= 2 {
			for i := 0; i < len(v); i += size {
				if time.Now().After(deadline) {
					return v
				}
				c := append([]uint32(nil), v...)
				ch := false
				for j := i; j < min(i+size, len(c)); j++ {
					if c[j] != 0 {
						c[j] = 0
						ch = true
					}
				}
				if ch {
					if x := f(c); x != nil {
						cur = x
						v = c
					}
				}
			}
		}
		return v
	}
	P = zero(P, func(c []uint32) *RunOut { return try(c, S) })
	if len(S) < 4000 {
		S = zero(S, func(c []uint32) *RunOut { return try(P, c) })
	}
	for i := 0; i < len(P) && time.Now().Before(deadline); i++ {
		for P[i] > 1 {
			c := append([]uint32(nil), P...)
			c[i] /= 2
			if x := try(c, S); x != nil {
				cur = x
				P = c
			} else {
				break
			}
		}
	}
	for len(S) > 0 && S[len(S)-1] == 0 {
		S = S[:len(S)-1]
	}
	for len(P) > 0 && P[len(P)-1] == 0 {
		P = P[:len(P)-1]
	}
	// confirm in a fresh process, with the trace
	pr.stop()
	pr = startProc(p.ID, base)
	x, err := pr.do(cmdMsg{Lane: l.Name, Idx: o.Idx, Replay: true, P: P, S: S, Verbose: true}, 400*time.Second)
	if err != nil || x.Viol == nil {
		P, S = o.P, o.S
		pr.stop()
		pr = startProc(p.ID, base)
		x, err = pr.do(cmdMsg{Lane: l.Name, Idx: o.Idx, Replay: true, P: P, S: S, Verbose: true}, 400*time.Second)
		if err != nil || x.Viol == nil {
			return ""
		}
	}
	fmt.Printf("%s: %s\n  in %s run %d, plan: %s\n  minimised to %d plan and %d schedule choices in %d attempts\n", x.Viol.Kind, x.Viol.Detail, l.Name, o.Idx, x.Plan, len(P), len(S), tries)
	return writeReplay(p, l, o.Idx, base, P, S, x.Viol, x.Trace, x.Plan, false)
}

// ------------------------------------------------------------------ evidence

func writeEvidence(p *Prop, tier string, seed uint64, st *stats, wall time.Duration, violations, workers int) {
	faults := map[string]int64{}
	syncs := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range st.counts {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[strings.TrimPrefix(k, "fault:")] = v
		case strings.HasPrefix(k, "sync:"):
			syncs[strings.TrimPrefix(k, "sync:")] = v
		default:
			probes[k] = v
		}
	}
	faults["preemption at a statement"] = st.counts["preemption"]
	hours := wall.Hours()
	seam := "small parameter sets injected at the four parameter getters"
	if !seamTest() {
		seam = "the parameter seam is ineffective on this tree: real levels only"
	}
	doc := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":            st.runs,
			"oracle_evaluations":     st.evals,
			"distinct_nontrivial":    len(st.nontrivial),
			"rule":                   p.Rule + " A run counts as distinct and non-trivial if at least one oracle was evaluated in it and its hash over every decision and event differs from all others.",
			"samples":                st.samples,
			"runs_per_lane":          st.perLane,
			"seeds_per_hour":         float64(st.runs) / hours,
			"simulated_statements":   st.ticks,
			"simulated_time_s":       float64(st.simNs) / 1e9,
			"scheduling_decisions":   st.decisions,
			"task_switches":          st.switches,
			"tasks":                  st.tasks,
			"distinct_interleavings": map[string]interface{}{"count": len(st.scheds), "measure": "distinct hashes of the sequence (statement number, task) of all task switches of a run"},
			"faults_injected":        faults,
			"synchronisation_points": syncs,
			"probes":                 probes,
			"determinism_selftest":   fmt.Sprintf("%d of %d seeds repeated in two further processes gave identical hash, statement count and schedule", st.detSame, st.detTotal),
			"irreproducible":         st.irrepro,
			"stopped_by_time_cap":    st.stopped,
			"workers":                workers,
			"parameter_seam":         seam,
			"components": map[string]string{
				"real":      "every non-test package of the library, compiled from the current working tree with preemption points inserted",
				"simulated": "goroutine scheduling, sync.{Mutex,RWMutex,WaitGroup,Once,Pool,Cond,Map}, channels, math/rand and crypto/rand, time, runtime.NumCPU/GOMAXPROCS; process restart by re-running package initialisation",
				"stub":      "clients, network and durable storage of the client-server and proxy workloads (harness code)",
			},
		},
		"assumptions": []string{
			"interleavings are explored at statement granularity (with read-modify-write statements on shared variables split), under sequential consistency",
			"seeded sampling: a clean batch is evidence, not proof",
		},
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var _ = vsim.Mix
