//go:build go1.23

package main

import (
	"fmt"
	"math"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	addProp("C01", "Seeded batches of every gate and many sizes, chained through earlier results, issued by one or several callers next to single gates, under a seeded scheduler that preempts worker goroutines at statements and synchronisation points and decides what the evaluator pool hands back.",
		append([]*Lane{
			{Name: "small", Quick: 5000, Thorough: 150000, Fn: func(r *R) { r.drawStrategy(); c01(r, r.world(r.pickSmall(), r.P.N(3))) }},
			{Name: "large-batch", Quick: 250, Thorough: 8000, Fn: c01large},
			{Name: "aged", Quick: 24, Thorough: 2500, Fn: c01aged},
		}, realLanes(c01real, map[string][2]int{"80": {1, 4}, "110": {1, 4}, "128": {1, 6}, "u1": {1, 3}, "u2": {1, 3}, "u3": {1, 3}, "u4": {1, 2}, "u5": {1, 2}})...)...)
	addProp("C02", "Seeded random circuits over all gates, evaluated by one or several tasks in a seeded order consistent with the data flow, for one or two key sets, on processes with a seeded history; every wire is compared with the plaintext circuit.",
		append([]*Lane{
			{Name: "small", Quick: 5000, Thorough: 150000, Fn: func(r *R) { r.drawStrategy(); c02(r, r.pickSmall(), 0) }},
			{Name: "aged", Quick: 8, Thorough: 4000, Fn: func(r *R) { c02(r, r.aged(), 9000) }},
			{Name: "deep", Quick: 150, Thorough: 4000, Fn: func(r *R) { r.drawStrategy(); c02(r, smallLevels[r.P.N(3)], 600) }},
		}, realLanes(c02real, map[string][2]int{"80": {1, 3}, "110": {1, 3}, "128": {1, 5}, "u1": {1, 3}, "u2": {1, 3}, "u3": {1, 3}, "u4": {1, 2}, "u5": {1, 2}})...)...)
	addProp("C03", "Seeded concurrent callers, each with its own sequence of operations on shared inputs; every result must equal, bit for bit, that of the same call run alone in a fresh process.",
		append([]*Lane{
			{Name: "small", Quick: 5000, Thorough: 150000, Fn: func(r *R) { r.drawStrategy(); c03(r, r.world(r.pickSmall(), r.P.N(3)), famAll, 4) }},
			{Name: "gates", Quick: 1200, Thorough: 40000, Fn: func(r *R) {
				r.drawStrategy()
				c03(r, r.world(r.pickSmall(), r.P.N(3)), famGate|famBatch|famPBS, 3)
			}},
			{Name: "aged", Quick: 24, Thorough: 2500, Fn: func(r *R) { c03(r, r.world(r.aged(), r.P.N(3)), famAll, 1200) }},
		}, realLanes(c03real, map[string][2]int{"80": {1, 4}, "128": {1, 6}, "u3": {1, 3}})...)...)
}

// realLanes builds one pinned lane per real parameter set.
func realLanes(f func(r *R, l *Level), n map[string][2]int) []*Lane {
	var out []*Lane
	// the expensive ones first
	for i := len(realLevels) - 1; i >= 0; i-- {
		l := realLevels[i]
		c, ok := n[l.Name]
		if !ok {
			continue
		}
		out = append(out, &Lane{Name: "real-" + l.Name, Quick: c[0], Thorough: c[1], Pinned: true, Fn: func(r *R) { f(r, l) }})
	}
	return out
}

// budget is roughly how many bootstraps a run at this level may do.
func (l *Level) budget(max int) int {
	b := 1500000 / (l.N0 * l.N * l.L)
	if b > max {
		b = max
	}
	if b < 4 {
		b = 4
	}
	return b
}

// wire is one value of a circuit.
type wire struct {
	ct   *tlwe.TLWELv0
	val  bool
	tol  float64
	done bool
	name string
}

// worn is the noise an input of any gate may carry without the gate's rounding
// reaching the decision boundary, or 0 if fresh outputs are about as noisy.
func (l *Level) worn() float64 {
	rd := float64(l.N0+1) * 0.5 / float64(2*l.N)
	if l.Real {
		rd = 10 * math.Sqrt((float64(l.N0)/2+1)/12) / float64(2*l.N)
	}
	d := 0.85*(0.125-rd)/3 - 12*l.A0
	if d < 1.4*l.tolBoot() {
		return 0
	}
	return d
}

// sibling is an encryption of the other bit that differs in a single word.
func (r *R) sibling(w *World, c *tlwe.TLWELv0, val bool) *tlwe.TLWELv0 {
	o := cloneCt(c)
	d := Torus(1 << 30)
	if val {
		d = -d
	}
	k := r.P.N(w.N0 + 1)
	for q := 0; q < w.N0; q++ { // a mask word of a set key bit, or the body
		i := (k + q) % (w.N0 + 1)
		if i == w.N0 {
			break
		}
		if w.sk.KeyLv0[i] == 1 {
			o.P[i] -= d
			return o
		}
	}
	o.P[w.N0] += d
	return o
}

// edgy draws a word that is random, extreme, or right at a rounding boundary
// of a decomposition that keeps that many bits (each side equally often).
func edgy(s *uint64, bits int) Torus {
	*s = vsim.Mix(*s)
	v := *s
	switch v & 7 {
	case 0:
		return edgeWords[v>>8%uint64(len(edgeWords))]
	case 1, 2, 3:
		if bits > 0 && bits < 32 {
			return Torus(v>>32)>>(32-bits)<<(32-bits) + 1<<(31-bits) - Torus(v>>8&1)
		}
	}
	return Torus(v >> 32)
}

// craft is a noiseless ciphertext of the torus value v with edgy words.
func (r *R) craft(w *World, v float64) *tlwe.TLWELv0 {
	s := uint64(r.P.N(1 << 30))
	bits := 1
	for 1<<bits < 2*w.N {
		bits++
	}
	ct := &tlwe.TLWELv0{P: make([]Torus, w.N0+1)}
	for i := range ct.P {
		ct.P[i] = edgy(&s, bits)
	}
	fix := Torus(int64(math.Round(v*4294967296))) - phase(ct.P, w.sk.KeyLv0)
	for i, k := range w.sk.KeyLv0 {
		if k == 1 && s>>40&1 == 1 { // leave the body at the edge
			ct.P[i] -= fix
			return ct
		}
	}
	ct.P[w.N0] += fix
	return ct
}

func (r *R) craft1(w *World, b bool) *tlwe.TLWELv1 {
	s := uint64(r.P.N(1 << 30))
	ct := &tlwe.TLWELv1{P: make([]Torus, w.N+1)}
	for i := range ct.P[:w.N] {
		ct.P[i] = edgy(&s, w.KBit*w.KT)
	}
	ct.P[w.N] = Torus(int64(pm(b)*4294967296)) - phase(ct.P, w.sk.KeyLv1)
	return ct
}

func (r *R) craftR(w *World, v []bool) *trlwe.TRLWELv1 {
	s := uint64(r.P.N(1 << 30))
	t := &trlwe.TRLWELv1{A: make([]Torus, w.N), B: make([]Torus, w.N)}
	for i := range t.A {
		t.A[i] = edgy(&s, w.L*w.BgBit)
	}
	for i := range t.B {
		t.B[i] = Torus(int64(pm(v[i])*4294967296)) - phase1(t.A, t.B, w.sk.KeyLv1, i) + t.B[i]
	}
	return t
}

func (r *R) inputs(w *World, n int) []*wire {
	var ws []*wire
	for i := 0; i < n; i++ {
		b := i%2 == 0
		if i > 3 {
			b = r.P.N(2) == 1
		}
		ct := w.enc(b)
		o := &wire{ct: ct, val: b, tol: 12*w.A0 + 1e-8, done: true, name: fmt.Sprintf("in%d", i)}
		if d := w.worn(); d > 0 && n > 2 {
			// an input as noisy as a gate still accepts
			switch r.P.N(4) {
			case 1:
				ct.P[w.N0] += Torus(d * 4294967296)
				o.tol += d
			case 2:
				ct.P[w.N0] -= Torus(d * 4294967296)
				o.tol += d
			}
		}
		if n > 2 && r.P.N(6) == 5 {
			// a trivial one, or one with words at the edges of the rounding
			if w.Real || r.P.N(2) == 1 {
				o.ct = gates.Constant(b)
			} else {
				o.ct = r.craft(w, pm(b))
			}
			o.tol = 1e-8
		}
		if i > 3 && r.P.N(3) == 0 {
			// the sibling of an earlier input: all words but one are the same
			j := r.P.N(i)
			o.ct = r.sibling(w, ws[j].ct, ws[j].val)
			o.val, o.tol = !ws[j].val, ws[j].tol
		}
		ws = append(ws, o)
	}
	return ws
}

var batchSizes = []int{2, 0, 1, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129, 200, 257}

func c01large(r *R) {
	r.drawStrategy()
	if r.strat.PreemptMean == 20 {
		r.strat.PreemptMean = 150
	}
	w := r.world(smallLevels[r.P.N(3)], r.P.N(3))
	var in []*wire
	r.Inert(func() { in = r.inputs(w, 8) })
	n := batchSizes[12+r.P.N(len(batchSizes)-12)]
	g := batchFns[r.P.N(len(batchFns))]
	var prs [][2]*tlwe.TLWELv0
	var want []bool
	for i := 0; i < n; i++ {
		a, b := in[r.P.N(8)], in[r.P.N(8)]
		prs = append(prs, [2]*tlwe.TLWELv0{a.ct, b.ct})
		want = append(want, g.t(a.val, b.val))
	}
	r.Planf("%s(%d)", g.name, n)
	r.reset()
	setLevel(w.Level)
	var out []*tlwe.TLWELv0
	r.Sim(simOpt{}, func() { out = g.f(prs, w.ck) })
	r.bitsFlat(w, g.name, flat(out...), want, w.tolBoot())
}

// aged prepares a run with a long history: a tiny level and few interruptions.
func (r *R) aged() *Level {
	r.drawStrategy()
	if r.strat.PreemptMean < 20000 {
		r.strat.PreemptMean = 20000
	}
	return levelByName("s16")
}

var hugeBatches = []int{300, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2000, 2048, 3000}

// c01aged: very many small batches in one process, then a very large one.
func c01aged(r *R) {
	w := r.world(r.aged(), r.P.N(3))
	var in []*wire
	r.Inert(func() { in = r.inputs(w, 8) })
	nact := 1 + r.P.N(3)
	type job struct {
		g    int
		in   [][2]*tlwe.TLWELv0
		want []bool
		out  []*tlwe.TLWELv0
	}
	jobs := make([][]*job, nact)
	mk := func(n int) *job {
		j := &job{g: r.P.N(len(batchFns))}
		for i := 0; i < n; i++ {
			a, b := in[r.P.N(8)], in[r.P.N(8)]
			j.in = append(j.in, [2]*tlwe.TLWELv0{a.ct, b.ct})
			j.want = append(j.want, batchFns[j.g].t(a.val, b.val))
		}
		return j
	}
	n := 200 << r.P.N(4)
	for a := range jobs {
		for i := 0; i < n/nact; i++ {
			jobs[a] = append(jobs[a], mk(r.P.N(6)))
		}
		jobs[a] = append(jobs[a], mk(hugeBatches[r.P.N(len(hugeBatches))]))
		jobs[a] = append(jobs[a], mk(3))
		r.Planf("actor%d: %d small batches, then one of %d", a, n/nact, len(jobs[a][n/nact].in))
	}
	r.reset()
	setLevel(w.Level)
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for a := range jobs {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				for _, j := range jobs[a] {
					j.out = batchFns[j.g].f(j.in, w.ck)
				}
			}))
		}
		vsim.Join(ts...)
	})
	for a := range jobs {
		for i, j := range jobs[a] {
			r.bitsFlat(w, fmt.Sprintf("actor%d batch %d: %s(%d)", a, i, batchFns[j.g].name, len(j.in)), flat(j.out...), j.want, w.tolBoot())
		}
	}
}

func c01real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 20000
	w := r.world(l, 0)
	c01(r, w)
}

// c01: callers issue chains of batches and single gates.
func c01(r *R, w *World) {
	type step struct {
		fn   int
		gate bool
		in   [][2]*wire
		out  []*wire
		desc string
	}
	nact := 1 + r.P.N(3)
	left := w.budget(40)
	if w.Real {
		nact = 2
		left = 8
	}
	ws := []*World{w}
	if !w.Real && r.P.N(3) == 2 { // batches under another key at the same time
		ws = append(ws, r.world(w.Level, 3))
	}
	var acts [][]*step
	var ins [][]*wire
	r.Inert(func() {
		for _, w := range ws {
			ins = append(ins, r.inputs(w, 6))
		}
	})
	for a := 0; a < nact; a++ {
		pool := append([]*wire{}, ins[a%len(ws)]...)
		var steps []*step
		for i, n := 0, 1+r.P.N(3); i < n && left > 0; i++ {
			s := &step{}
			k := 1
			if r.P.N(5) == 4 {
				s.gate = true
				s.fn = r.P.N(len(gates2))
			} else {
				s.fn = r.P.N(len(batchFns))
				k = batchSizes[r.P.N(11)]
				if r.P.N(10) == 9 {
					k = batchSizes[r.P.N(len(batchSizes))]
				}
				if k > left {
					k = left
				}
			}
			left -= k
			t := gates2[s.fn].t
			nm := gates2[s.fn].name
			if !s.gate {
				t = batchFns[s.fn].t
				nm = batchFns[s.fn].name
			}
			same := r.P.N(6) == 5 // the same pair over and over
			var x, y *wire
			for j := 0; j < k; j++ {
				if j == 0 || !same {
					x, y = pool[r.P.N(len(pool))], pool[r.P.N(len(pool))]
				}
				s.in = append(s.in, [2]*wire{x, y})
				s.out = append(s.out, &wire{val: t(x.val, y.val), tol: w.tolBoot(), name: fmt.Sprintf("actor%d.%d %s[%d of %d]", a, i, nm, j, k)})
			}
			pool = append(pool, s.out...)
			s.desc = fmt.Sprintf("%s(%d)", nm, k)
			steps = append(steps, s)
			r.Planf("actor%d.%d %s", a, i, s.desc)
		}
		acts = append(acts, steps)
	}
	r.reset()
	setLevel(w.Level)
	if r.P.N(3) == 2 { // a process that has evaluated other batches before
		r.Planf("warm")
		in := ins[0]
		r.Inert(func() {
			for i := 0; i < 1+r.P.N(3); i++ {
				gates.BatchNAND([][2]*tlwe.TLWELv0{{in[0].ct, in[1].ct}, {in[1].ct, in[1].ct}}[:1+i%2], w.ck)
			}
		})
	}
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for a := range acts {
			steps := acts[a]
			w := ws[a%len(ws)]
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				for _, s := range steps {
					vsim.Note("%s", s.desc)
					if s.gate {
						s.out[0].ct = gates2[s.fn].f(s.in[0][0].ct, s.in[0][1].ct, w.ck)
						continue
					}
					prs := make([][2]*tlwe.TLWELv0, len(s.in))
					for i, p := range s.in {
						prs[i] = [2]*tlwe.TLWELv0{p[0].ct, p[1].ct}
					}
					if len(prs) == 0 && len(acts) > 1 {
						prs = nil
					}
					out := batchFns[s.fn].f(prs, w.ck)
					r.Eval(1)
					if len(out) != len(s.out) {
						r.Fail("count", "%s returned %d results for %d pairs", s.desc, len(out), len(s.out))
					}
					for i := range out {
						if out[i] == nil {
							r.Fail("count", "%s: result %d is missing", s.desc, i)
						}
						for j := 0; j < i; j++ {
							if out[i] == out[j] {
								r.Fail("count", "%s: results %d and %d are one object", s.desc, i, j)
							}
						}
						s.out[i].ct = out[i]
					}
				}
			}))
		}
		vsim.Join(ts...)
	})
	for a, steps := range acts {
		for _, s := range steps {
			for _, o := range s.out {
				r.bit(ws[a%len(ws)], o.name, o.ct, o.val, o.tol)
			}
		}
	}
}

// c02: a random circuit, evaluated in a seeded order.
func c02(r *R, l *Level, size int) {
	nk := 1 + r.P.N(2)
	nt := 1 + r.P.N(3)
	if size == 0 {
		size = l.budget(40)
	}
	ws := []*World{r.world(l, r.P.N(2))}
	if nk > 1 {
		ws = append(ws, r.world(l, 2))
	}
	circuit(r, ws, nt, size, r.P.N(2) == 1)
}

type cstep struct {
	op   int
	in   []*wire
	out  *wire
	w    *World
	cst  bool
	desc string
}

func circuit(r *R, ws []*World, nt, size int, recent bool) {
	pools := make([][]*wire, len(ws))
	r.Inert(func() {
		for i, w := range ws {
			pools[i] = r.inputs(w, 5)
		}
	})
	var steps []*cstep
	owner := []int{}
	mode := r.P.N(4)
	for i := 0; i < size; i++ {
		k := r.P.N(len(ws))
		w := ws[k]
		pick := func() *wire {
			p := pools[k]
			if recent && r.P.N(3) != 0 && len(p) > 3 {
				return p[len(p)-1-r.P.N(3)]
			}
			return p[r.P.N(len(p))]
		}
		s := &cstep{w: w}
		s.op = r.P.N(15)
		if mode == 1 { // few kinds of gate
			s.op = []int{0, 3, 10, 5}[r.P.N(4)]
		}
		o := &wire{tol: w.tolBoot()}
		switch {
		case s.op < 10:
			a, b := pick(), pick()
			s.in = []*wire{a, b}
			o.val = gates2[s.op].t(a.val, b.val)
			s.desc = gates2[s.op].name
		case s.op == 10:
			a, b, c := pick(), pick(), pick()
			s.in = []*wire{a, b, c}
			o.val = c.val
			if a.val {
				o.val = b.val
			}
			s.desc = "MUX"
		case s.op == 11:
			a := pick()
			s.in = []*wire{a}
			o.val, o.tol = !a.val, a.tol
			s.desc = "NOT"
		case s.op == 12:
			a := pick()
			s.in = []*wire{a}
			o.val, o.tol = a.val, a.tol
			s.desc = "Copy"
		case s.op == 13:
			s.cst = r.P.N(2) == 1
			o.val, o.tol = s.cst, 1e-8
			s.desc = fmt.Sprintf("Constant(%v)", s.cst)
		default: // the same wire twice
			a := pick()
			s.op = r.P.N(10)
			s.in = []*wire{a, a}
			o.val = gates2[s.op].t(a.val, a.val)
			s.desc = gates2[s.op].name + "(x,x)"
		}
		o.name = fmt.Sprintf("wire %d = %s", i, s.desc)
		for j, x := range s.in {
			o.name += []string{"(", ",", ","}[j] + fmt.Sprint(x.val)
		}
		s.out = o
		pools[k] = append(pools[k], o)
		steps = append(steps, s)
		owner = append(owner, r.P.N(nt))
		if i < 60 {
			r.Planf("%s", o.name)
		}
	}
	r.reset()
	setLevel(ws[0].Level)
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for t := 0; t < nt; t++ {
			t := t
			ts = append(ts, vsim.Spawn(fmt.Sprintf("task%d", t), func() {
				for i, s := range steps {
					if owner[i] != t {
						continue
					}
					for _, x := range s.in {
						if !x.done {
							x := x
							vsim.WaitFor("input", func() bool { return x.done })
						}
					}
					ck := s.w.ck
					switch {
					case len(s.in) == 2:
						s.out.ct = gates2[s.op].f(s.in[0].ct, s.in[1].ct, ck)
					case len(s.in) == 3:
						s.out.ct = gates.MUX(s.in[0].ct, s.in[1].ct, s.in[2].ct, ck)
					case s.op == 11:
						s.out.ct = gates.NOT(s.in[0].ct)
					case s.op == 12:
						s.out.ct = gates.Copy(s.in[0].ct)
					default:
						s.out.ct = gates.Constant(s.cst)
					}
					s.out.done = true
				}
			}))
		}
		vsim.Join(ts...)
	})
	for _, s := range steps {
		r.bit(s.w, s.out.name, s.out.ct, s.out.val, s.out.tol)
	}
}

// c02real: the complete truth table of every gate, then a small circuit.
func c02real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	w := r.world(l, 0)
	var in []*wire
	r.Inert(func() { in = r.inputs(w, 2) })
	type cell struct {
		name string
		f    func() *tlwe.TLWELv0
		want bool
		out  *tlwe.TLWELv0
	}
	var cs []*cell
	vals := []*wire{in[1], in[0]}
	cheap := l.N0*l.N*l.L < 2200000
	for _, g := range gates2 {
		for q := 0; q < 4; q++ {
			if !cheap && (q+len(cs))%2 == 0 {
				continue
			}
			g, a, b := g, vals[q&1], vals[q>>1]
			cs = append(cs, &cell{name: fmt.Sprintf("%s(%v,%v)", g.name, a.val, b.val), f: func() *tlwe.TLWELv0 { return g.f(a.ct, b.ct, w.ck) }, want: g.t(a.val, b.val)})
		}
	}
	for q := 0; q < 8; q++ {
		if !cheap && q%3 != 0 {
			continue
		}
		a, b, c := vals[q&1], vals[q>>1&1], vals[q>>2]
		want := c.val
		if a.val {
			want = b.val
		}
		cs = append(cs, &cell{name: fmt.Sprintf("MUX(%v,%v,%v)", a.val, b.val, c.val), f: func() *tlwe.TLWELv0 { return gates.MUX(a.ct, b.ct, c.ct, w.ck) }, want: want})
	}
	r.reset()
	setLevel(l)
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for t := 0; t < 3; t++ {
			t := t
			ts = append(ts, vsim.Spawn(fmt.Sprintf("task%d", t), func() {
				for i := t; i < len(cs); i += 3 {
					cs[i].out = cs[i].f()
				}
			}))
		}
		vsim.Join(ts...)
	})
	for _, c := range cs {
		r.bit(w, c.name, c.out, c.want, w.tolBoot())
	}
	circuit(r, []*World{w}, 2, 10, true)
}

func c03real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 20000
	c03(r, r.world(l, 0), famGate|famBatch|famPBS|famLow, 2)
}

type call struct {
	op  *Op
	out []Torus
	ref []Torus
}

// c03: concurrent callers against solo references.
func c03(r *R, w *World, fam, maxOps int) {
	var pool *Pool
	r.Inert(func() { pool = mkPool(r, w, true) })
	nact := 2 + r.P.N(4)
	if w.Real {
		nact = 2
	}
	calls := make([][]*call, nact)
	modes := make([]int, nact)
	for a := range calls {
		modes[a] = r.P.N(2)
		for i, n := 0, 1+r.P.N(maxOps); i < n; i++ {
			op := r.drawOp(pool, fam)
			calls[a] = append(calls[a], &call{op: op})
			r.Planf("actor%d.%d %s", a, i, op.name)
		}
	}
	r.reset()
	setLevel(w.Level)
	fp := pool.fingerprint()
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for a := range calls {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				act := newActor(modes[a])
				for i, c := range calls[a] {
					vsim.Note("call %d %s", i, c.op.name)
					c.out = c.op.run(act)
				}
			}))
		}
		vsim.Join(ts...)
	})
	if pool.fingerprint() != fp {
		r.Fail("input-mutated", "an input changed during the concurrent phase")
	}
	r.solo(w, calls)
}

// solo runs every call alone in a fresh process and compares.
func (r *R) solo(w *World, calls [][]*call) {
	r.reset()
	setLevel(w.Level)
	r.Inert(func() {
		for a := range calls {
			for _, c := range calls[a] {
				if c.out != nil && !c.op.rnd {
					c.ref = c.op.run(newActor(0))
				}
			}
		}
	})
	for a := range calls {
		for i, c := range calls[a] {
			if c.out == nil {
				continue
			}
			what := fmt.Sprintf("actor%d call %d %s", a, i, c.op.name)
			c.op.check(r, what, c.out)
			if !c.op.rnd && !eqT(c.out, c.ref) {
				r.Fail("differs-from-solo", "%s: the result differs from the same call run alone", what)
			}
		}
	}
}
