//go:build go1.23

package main

import (
	"fmt"
	"sort"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
)

func init() {
	addProp("C17", "A process lives through thousands of calls of every kind on ever new inputs, by one to three callers, with failing calls, level switches, new keys, new evaluators and new tables; at checkpoints everything reachable from the library's package-level variables and from the callers' long-lived evaluators, generators and keys is counted, and no goroutine may be left blocked. If a count grew in every one of the last intervals the life is prolonged fivefold, and growth in every interval of that too is a violation.",
		&Lane{Name: "all", Quick: 48, Thorough: 3000, Fn: func(r *R) { c17(r, famAll) }},
		&Lane{Name: "gates", Quick: 24, Thorough: 1500, Fn: func(r *R) { c17(r, famGate|famBatch) }},
		&Lane{Name: "tables", Quick: 24, Thorough: 1500, Fn: func(r *R) { c17(r, famPBS) }},
		&Lane{Name: "low", Quick: 24, Thorough: 1500, Fn: func(r *R) { c17(r, famLow|famPoly) }},
		&Lane{Name: "small", Quick: 24, Thorough: 1500, Fn: func(r *R) { r.drawStrategy(); c17at(r, smallLevels[r.P.N(3)], famAll, 6) }})
}

func c17(r *R, fam int) {
	l := r.aged()
	if r.P.N(2) == 1 {
		l = levelByName("s32") // has more distinct ciphertexts
	}
	c17at(r, l, fam, 30)
}

// c17at: lives of segments; a segment is a number of rounds on new inputs.
func c17at(r *R, l *Level, fam, rounds int) {
	w := r.world(l, r.P.N(3))
	other := r.world(smallLevels[r.P.N(3)], 0)
	if other.Level == l {
		other = w
	}
	nact := 1 + r.P.N(3)
	faults := r.P.N(3) == 2
	switches := r.P.N(3) == 2 && other != w
	keys := r.P.N(3) == 2
	keepEv := r.P.N(2) == 1 // the callers keep one evaluator for life
	r.Planf("%d callers, failing calls %v, level switches %v, new keys %v, callers keep their evaluators %v", nact, faults, switches, keys, keepEv)
	r.reset()
	setLevel(w.Level)
	acts := make([]*Actor, nact)
	modes := make([]int, nact)
	for a := range acts {
		modes[a] = r.P.N(2)
		acts[a] = newActor(modes[a])
	}
	var ev *evaluator.Evaluator
	var pe *poly.Evaluator
	var gen *lut.Generator
	r.Inert(func() {
		ev = evaluator.NewEvaluator(w.N)
		pe = poly.NewEvaluator(w.N)
		gen = lut.NewGenerator(2)
	})
	dead := false
	round := func() {
		if dead {
			return
		}
		var pool *Pool
		r.Inert(func() {
			setLevel(w.Level)
			pool = mkPool(r, w, true)
			pool.baseE, pool.baseP, pool.gen = ev, pe, gen
			pool.m = 2
		})
		if pool.lutm[0] != 2 { // made with another modulus than the generator's
			pool.gen = lut.NewGenerator(pool.lutm[0])
			pool.m = pool.lutm[0]
		}
		calls := make([][]*call, nact)
		for a := range calls {
			for i := 0; i < 8; i++ {
				op := (*Op)(nil)
				if faults && r.P.N(6) == 5 {
					op = r.drawFault(pool)
				} else {
					op = r.drawOp(pool, fam)
				}
				calls[a] = append(calls[a], &call{op: op})
			}
		}
		newKey := keys && r.P.N(8) == 7
		visit := switches && r.P.N(4) == 3
		res := r.Sim(simOpt{allowCrash: faults}, func() {
			var ts []*vsim.Task
			for a := range calls {
				a := a
				ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
					act := acts[a]
					if !keepEv {
						act = newActor(modes[a])
					}
					act.used = nil
					for _, c := range calls[a] {
						if c.op.fault {
							if e := vsim.Try(func() { c.op.run(act) }); e != nil {
								vsim.Count("fault:failed call")
							}
							continue
						}
						c.op.run(act)
						r.Eval(1)
					}
				}))
			}
			vsim.Join(ts...)
			if newKey {
				sk := key.NewSecretKey()
				gates2[0].f(w.enc(true), w.enc(false), cloudkey.NewCloudKey(sk))
			}
			if visit {
				vsim.Count("fault:level-switch")
				setLevel(other.Level)
				gates2[r.P.N(10)].f(other.enc(true), other.enc(false), other.ck)
				setLevel(w.Level)
			}
		})
		if res.Crash != "" {
			r.Count("process died in a failing call", 1)
			dead = true
		}
	}
	look := func() map[string]int64 {
		objs := map[string]interface{}{"a cloud key": w.ck, "a secret key": w.sk, "an evaluator": ev, "a polynomial evaluator": pe, "a generator": gen}
		for a := range acts {
			for n, e := range acts[a].ev {
				objs[fmt.Sprintf("evaluator of caller %d for %s", a, n)] = e
			}
			for n, e := range acts[a].pe {
				objs[fmt.Sprintf("polynomial evaluator of caller %d for %s", a, n)] = e
			}
		}
		m := measure(objs)
		r.Eval(len(m))
		return m
	}
	// growing names every count that grew in each of the intervals.
	growing := func(hist []map[string]int64, least int64) []string {
		var out []string
		for n := range hist[len(hist)-1] {
			grew := true
			for i := 1; i < len(hist); i++ {
				grew = grew && hist[i][n] >= hist[i-1][n]+least
			}
			if grew {
				out = append(out, n)
			}
		}
		sort.Strings(out)
		return out
	}
	live := func(segs, per int) []map[string]int64 {
		hist := []map[string]int64{look()}
		for s := 0; s < segs; s++ {
			for i := 0; i < per; i++ {
				round()
			}
			hist = append(hist, look())
		}
		return hist
	}
	live(1, rounds)
	if len(growing(live(5, rounds), 1)) == 0 || dead {
		return
	}
	// A bounded store may still be filling up: the life goes on for as long as
	// it grows by an element in 20 calls, until it has taken 16384 elements.
	r.Count("lives prolonged", 1)
	per := rounds * 10
	first := look()
	calls := 0
	for i := 0; i < 14; i++ {
		hist := live(3, per)
		calls += 3 * per * nact * 8
		g := growing(hist, int64(per*nact*8/20))
		if len(g) == 0 || dead {
			return
		}
		if n := g[0]; hist[3][n]-first[n] >= 16384 {
			r.Fail("grows", "what the library retains in %s grows with every call: from %d to %d elements over the last %d calls, in each of %d intervals", n, first[n], hist[3][n], calls, 3*(i+1))
		}
	}
	r.Count("lives that grew too slowly to tell", 1)
}
