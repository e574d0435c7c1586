//go:build go1.23

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	addProp("C07", "Seeded tables (functions with outputs outside the message range, custom scales, arbitrary torus outputs, copies, tables re-generated in place) over every message modulus, applied through every entry point to inputs placed anywhere in their slot and to earlier results, by one or several callers that share generators and tables; results are compared with f(x) and, bit for bit, with the same call alone in a fresh process.",
		append([]*Lane{
			{Name: "small", Quick: 4000, Thorough: 150000, Fn: func(r *R) { r.drawStrategy(); c07(r, r.world(r.pickSmall(), r.P.N(3)), 0) }},
			{Name: "chain", Quick: 300, Thorough: 10000, Fn: func(r *R) { r.drawStrategy(); c07(r, r.world(smallLevels[r.P.N(6)], r.P.N(3)), 40) }},
			{Name: "sweep", Quick: 300, Thorough: 6000, Fn: c07sweep},
			{Name: "aged", Quick: 16, Thorough: 1500, Fn: func(r *R) {
				r.aged()
				c07(r, r.world(smallLevels[1], r.P.N(3)), 1500)
			}},
			{Name: "half-u8", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c07half(r, levelByName("u8"), 256) }},
			{Name: "half-u7", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c07half(r, levelByName("u7"), 128) }},
			{Name: "half-u6", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c07half(r, levelByName("u6"), 64) }},
		}, realLanes(c07real, map[string][2]int{"80": {1, 3}, "128": {1, 4}, "u1": {1, 4}, "u2": {1, 4}, "u3": {1, 4}, "u4": {1, 4}, "u5": {1, 4}})...)...)
	addProp("C08", "Seeded sequences of level switches between parameter sets of equal and different dimensions; in each segment one to three callers, who keep the evaluators they made at each level, run operations of every family or generate keys; every result must equal, bit for bit, that of the same call in a process started at that level.",
		&Lane{Name: "small", Quick: 3000, Thorough: 100000, Fn: func(r *R) { r.drawStrategy(); c08(r, nil, 0) }},
		&Lane{Name: "gates", Quick: 1500, Thorough: 50000, Fn: func(r *R) { r.drawStrategy(); c08(r, nil, famGate|famBatch|famPBS) }},
		&Lane{Name: "aged", Quick: 24, Thorough: 2500, Fn: func(r *R) {
			r.aged()
			c08run(r, []*Level{levelByName("s16"), smallLevels[r.P.N(3)], smallLevels[9+r.P.N(2)]}, 0, 60<<r.P.N(3), 2)
		}},
		&Lane{Name: "real-a", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c08real(r, "80", "u5") }},
		&Lane{Name: "real-b", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c08real(r, "128", "u1", "80") }},
		&Lane{Name: "real-c", Quick: 1, Thorough: 3, Pinned: true, Fn: func(r *R) { c08real(r, "110", "u2", "u3") }},
		&Lane{Name: "real-d", Quick: 0, Thorough: 3, Pinned: true, Fn: func(r *R) { c08real(r, "u4", "128", "u5") }})
	addProp("C13", "A server process with one to three workers answers requests of several clients over a network that delays, reorders, duplicates and loses messages or is cut altogether, while the server crashes and restarts at seeded points (during start-up too) with only its keys surviving, on machines with different processor counts; every reply ever sent for a request must be bit-identical to a fresh process's and decrypt correctly, and once faults stop every request must be answered in bounded time.",
		append([]*Lane{
			{Name: "small", Quick: 3000, Thorough: 100000, Fn: func(r *R) { r.drawStrategy(); c13(r, r.pickSmall(), 0) }},
			{Name: "crashy", Quick: 1000, Thorough: 40000, Fn: func(r *R) {
				r.drawStrategy()
				if r.strat.PreemptMean == 0 {
					r.strat.PreemptMean = 1000
				}
				c13(r, smallLevels[r.P.N(4)], 0)
			}},
			{Name: "aged", Quick: 16, Thorough: 1500, Fn: func(r *R) { c13(r, r.aged(), 300) }},
		}, realLanes(c13real, map[string][2]int{"80": {1, 3}, "u1": {1, 3}})...)...)
}

// ---------------------------------------------------------------- C07

// tabl is a table with its meaning.
type tabl struct {
	desc  string
	m     int
	out   []float64               // torus value for each message
	msg   []int                   // message, if the output uses the default encoding modulo m
	gen   func() *lut.LookUpTable // makes it on its own (references)
	fn    func(int) int           // for entry points that take a function
	use   func(g *lut.Generator, dirty *lut.LookUpTable) *lut.LookUpTable
	table *lut.LookUpTable
}

type pstep struct {
	tb     *tabl
	shared *tabl // use this shared table as it is
	entry  int
	src    int // -1: input; else earlier step of this caller
	in     *tlwe.TLWELv0
	x      int
	known  bool // x is known to sit inside its slot
	ct     *tlwe.TLWELv0
	out    []Torus
	desc   string
}

func (r *R) drawModulus(w *World) int {
	if r.P.N(3) == 0 || w.MaxM == 2 {
		m := 2
		for m*2 <= w.MaxM && r.P.N(3) != 0 {
			m *= 2
		}
		return m
	}
	return 2 + r.P.N(w.MaxM-1)
}

// drawTabl plans a table over messages modulo m.
func (r *R) drawTabl(m int, chain bool) *tabl {
	c := r.P
	base := r.drawTable(m)
	if c.N(4) == 3 { // single spike
		k := c.N(m)
		for i := range base {
			base[i] = 0
		}
		base[k] = m - 1
	}
	wrap := make([]int, m)
	if c.N(3) == 2 {
		for i := range wrap {
			wrap[i] = (c.N(5) - 2) * m
		}
	}
	f := func(x int) int { return base[x] + wrap[x] }
	t := &tabl{m: m, fn: f}
	deft := func() {
		t.msg = base
		for _, y := range base {
			t.out = append(t.out, float64(y)/float64(2*m))
		}
	}
	scale := 1 / float64(2*m)
	k := c.N(8)
	if chain && k > 4 {
		k = c.N(5)
	}
	switch k {
	case 0, 1:
		deft()
		t.desc = "GenLookUpTable"
		t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTable(f) }
		t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
			if g != nil && g.Encoder.MessageModulus == m {
				return g.GenLookUpTable(f)
			}
			return lut.NewGenerator(m).GenLookUpTable(f)
		}
	case 2:
		deft()
		t.desc = "GenLookUpTableAssign"
		t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTable(f) }
		t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
			if g == nil || g.Encoder.MessageModulus != m {
				g = lut.NewGenerator(m)
			}
			g.GenLookUpTableAssign(f, d)
			return d
		}
	case 3:
		deft()
		t.desc = "Copy and regenerate"
		t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTable(f) }
		t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
			a := t.gen()
			b := a.Copy()
			a.Clear()
			lut.NewGenerator(m).GenLookUpTableAssign(func(x int) int { return base[m-1-x] + 1 }, a)
			return b
		}
	case 4:
		deft()
		t.desc = "CopyFrom"
		t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTable(f) }
		t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
			a := t.gen()
			d.CopyFrom(a)
			a.Clear()
			return d
		}
	case 5, 6:
		scale = []float64{1 / float64(m), 1 / float64(4*m), 0.37 / float64(m), 0.125, 1 / float64(2*m)}[c.N(5)]
		for _, y := range base {
			t.out = append(t.out, float64(y)*scale)
		}
		t.desc = fmt.Sprintf("custom scale %.5f", scale)
		t.fn = nil
		if c.N(2) == 0 {
			t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTableCustom(f, m, scale) }
			t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
				if g == nil {
					return t.gen()
				}
				return g.GenLookUpTableCustom(f, m, scale) // g may be for another modulus
			}
		} else {
			t.gen = func() *lut.LookUpTable { return lut.NewGeneratorWithScale(m, scale).GenLookUpTable(f) }
			t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
				lut.NewGeneratorWithScale(m, scale).GenLookUpTableAssign(f, d)
				return d
			}
		}
	default:
		v := make([]Torus, m)
		for i := range v {
			v[i] = Torus(c.U64())
			t.out = append(t.out, tf(v[i]))
		}
		t.fn = nil
		ft := func(x int) Torus { return v[x] }
		t.desc = "full torus"
		t.gen = func() *lut.LookUpTable { return lut.NewGenerator(m).GenLookUpTableFull(ft) }
		as := c.N(2) == 1
		t.use = func(g *lut.Generator, d *lut.LookUpTable) *lut.LookUpTable {
			if g == nil || g.Encoder.MessageModulus != m {
				g = lut.NewGenerator(m)
			}
			if as {
				g.GenLookUpTableFullAssign(ft, d)
				return d
			}
			return g.GenLookUpTableFull(ft)
		}
	}
	return t
}

// encIn encrypts x somewhere inside its slot.
func (r *R) encIn(w *World, x, m int) *tlwe.TLWELv0 {
	slot := 1 / float64(4*m)
	if !w.Real && r.P.N(3) == 2 { // as far out as the slot reaches
		sg := float64(2*r.P.N(2) - 1)
		for k := w.N / (2 * m); k > 0; k-- {
			for i := 0; i < 3; i++ {
				ct := r.craft(w, float64(x)/float64(2*m)+sg*float64(k)/float64(2*w.N))
				if w.slotOK(ct.P, x, m) {
					return ct
				}
			}
		}
	}
	d := 0.0
	if r.P.N(2) == 1 {
		d = (float64(r.P.N(2001))/1000 - 1) * slot * 0.97
	}
	for i, i0 := 0, r.P.N(3); i < 40; i++ {
		ct := tlwe.NewTLWELv0().EncryptF64(float64(x)/float64(2*m)+d, w.A0, w.sk.KeyLv0)
		if !w.Real && (i+i0)%3 == 2 {
			ct = r.craft(w, float64(x)/float64(2*m)+d)
		}
		if w.slotOK(ct.P, x, m) {
			return ct
		}
		d *= 0.85
	}
	return nil
}

func dirtyTable(k int) *lut.LookUpTable {
	t := lut.NewLookUpTable()
	for i := range t.Poly.A {
		t.Poly.A[i] = Torus(0x9e3779b9 * uint32(i+k))
		t.Poly.B[i] = Torus(0x85ebca6b * uint32(i+k+1))
	}
	return t
}

func bootEntry(w *World, e *evaluator.Evaluator, entry int, ct *tlwe.TLWELv0, t *lut.LookUpTable, fn func(int) int, m int, into *tlwe.TLWELv0) *tlwe.TLWELv0 {
	bk, kk, off := w.ck.BootstrappingKey, w.ck.KeySwitchingKey, w.ck.DecompositionOffset
	switch entry {
	case 0:
		return e.BootstrapLUT(ct, t, bk, kk, off)
	case 1:
		return cloneCt(e.BootstrapLUTTemp(ct, t, bk, kk, off))
	case 2:
		e.BootstrapLUTAssign(ct, t, bk, kk, off, into)
		return cloneCt(into)
	case 3:
		return e.BootstrapFunc(ct, fn, m, bk, kk, off)
	}
	e.BootstrapFuncAssign(ct, fn, m, bk, kk, off, into)
	return cloneCt(into)
}

var entryNames = []string{"BootstrapLUT", "BootstrapLUTTemp", "BootstrapLUTAssign", "BootstrapFunc", "BootstrapFuncAssign"}

// c07: callers apply tables; length > 0 asks for long chains.
func c07(r *R, w *World, length int) {
	nact := 1 + r.P.N(4)
	ops := 1 + r.P.N(4)
	if b := w.budget(16); nact*ops > b {
		nact, ops = 1+r.P.N(2), 2
	}
	if w.Real {
		nact, ops = 2, 2
	}
	if length > 0 {
		nact, ops = 1+r.P.N(2), 5+r.P.N(length)
	}
	m := r.drawModulus(w)
	m2 := r.drawModulus(w)
	var gens []*lut.Generator
	var sharedT []*tabl
	acts := make([][]*pstep, nact)
	modes := make([]int, nact)
	for i := 0; i < 2; i++ {
		sharedT = append(sharedT, r.drawTabl(m, true))
	}
	r.Inert(func() {
		gens = []*lut.Generator{lut.NewGenerator(m), lut.NewGenerator(m2)}
		for _, t := range sharedT {
			t.table = t.gen()
		}
		for a := range acts {
			modes[a] = r.P.N(2)
			var can []int // earlier steps whose output can be fed on
			for i := 0; i < ops; i++ {
				s := &pstep{src: -1}
				mm := m
				if length == 0 && r.P.N(4) == 3 {
					mm = m2
				}
				if len(can) > 0 && (length > 0 || r.P.N(2) == 1) {
					s.src = can[len(can)-1]
					mm = m
				}
				if mm == m && r.P.N(4) == 3 {
					s.shared = sharedT[r.P.N(2)]
					s.tb = s.shared
				} else {
					s.tb = r.drawTabl(mm, length > 0)
				}
				s.entry = r.P.N(5)
				if s.entry > 2 && (s.tb.fn == nil || s.shared != nil) {
					s.entry = r.P.N(3)
				}
				if k := r.P.N(2 * (i + 1)); s.src < 0 && k > 0 && k <= i && acts[a][k-1].src < 0 && acts[a][k-1].tb.m == mm {
					// an input used before, with another table
					s.x, s.in, s.known = acts[a][k-1].x, acts[a][k-1].in, acts[a][k-1].known
				}
				if s.src < 0 && s.in == nil {
					s.x = r.P.N(mm)
					s.in = r.encIn(w, s.x, mm)
					s.known = s.in != nil
					if !s.known {
						s.in = w.encMsg(s.x, mm)
						r.Count("skipped: rounding at the slot edge", 1)
					}
				}
				s.desc = fmt.Sprintf("%s m=%d %s", entryNames[s.entry], mm, s.tb.desc)
				if s.src >= 0 {
					s.desc += fmt.Sprintf(" on step %d", s.src)
				} else {
					s.desc += fmt.Sprintf(" x=%d", s.x)
				}
				acts[a] = append(acts[a], s)
				if mm == m && s.tb.msg != nil {
					can = append(can, i)
				}
				if i < 12 {
					r.Planf("actor%d.%d %s", a, i, s.desc)
				}
			}
		}
	})
	useGen := r.P.N(3)
	rbuf := r.P.N(2) == 1 // every caller keeps its input in one object of its own
	r.reset()
	setLevel(w.Level)
	var baseE *evaluator.Evaluator
	r.Sim(simOpt{}, func() {
		baseE = evaluator.NewEvaluator(w.N)
		var ts []*vsim.Task
		for a := range acts {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				var e *evaluator.Evaluator
				if modes[a] == 1 {
					e = baseE.ShallowCopy()
				} else {
					e = evaluator.NewEvaluator(w.N)
				}
				dirty := dirtyTable(a)
				into := dirtyCt(w)
				buf := tlwe.NewTLWELv0()
				for i, s := range acts[a] {
					vsim.Note("step %d %s", i, s.desc)
					s.ct = s.in
					if s.src >= 0 {
						s.ct = &tlwe.TLWELv0{P: append([]Torus(nil), acts[a][s.src].out...)}
					}
					var t *lut.LookUpTable
					if s.entry <= 2 {
						if s.shared != nil {
							t = s.shared.table
						} else {
							var g *lut.Generator
							if useGen > 0 {
								g = gens[(a+i)%useGen%2]
							}
							t = s.tb.use(g, dirty)
						}
					}
					in := s.ct
					if rbuf {
						copy(buf.P, in.P)
						in = buf
					}
					s.out = flat(bootEntry(w, e, s.entry, in, t, s.tb.fn, s.tb.m, into))
				}
			}))
		}
		vsim.Join(ts...)
	})
	for a := range acts {
		for i, s := range acts[a] {
			if s.src >= 0 {
				p := acts[a][s.src]
				s.x = p.tb.msg[p.x]
				s.known = p.known && len(s.ct.P) == w.N0+1 && w.slotOK(s.ct.P, s.x, s.tb.m)
				if p.known && !s.known {
					r.Count("skipped: rounding at the slot edge", 1)
				}
			}
			if !s.known {
				continue
			}
			what := fmt.Sprintf("actor%d step %d: %s, x=%d", a, i, s.desc, s.x)
			r.torus(w, what, s.out, s.tb.out[s.x])
			if s.tb.msg != nil {
				r.msg(w, what, s.out, s.tb.msg[s.x], s.tb.m)
			}
		}
	}
	r.reset()
	setLevel(w.Level)
	r.Inert(func() {
		for a := range acts {
			for i, s := range acts[a] {
				if length > 0 && i%5 != 4 {
					continue
				}
				ref := flat(bootEntry(w, evaluator.NewEvaluator(w.N), s.entry, s.ct, s.tb.gen(), s.tb.fn, s.tb.m, tlwe.NewTLWELv0()))
				r.Eval(1)
				if !eqT(ref, s.out) {
					r.Fail("differs-from-solo", "actor%d step %d: %s: the result differs from the same call run alone in a fresh process", a, i, s.desc)
				}
			}
		}
	})
}

func (r *R) torus(w *World, what string, out []Torus, want float64) {
	r.Eval(1)
	if len(out) != w.N0+1 {
		r.Fail("malformed", "%s: %d words", what, len(out))
	}
	if d := dist(phase(out, w.sk.KeyLv0), want); d > w.tolBoot() {
		r.Fail("wrong-value", "%s: phase %.5f, want %.5f (allowed error %.5f)", what, tf(phase(out, w.sk.KeyLv0)), want, w.tolBoot())
	}
}

// c07sweep: every message of one table, at both ends of its slot, by
// interleaved callers that share the table.
func c07sweep(r *R) {
	r.drawStrategy()
	lv := smallLevels[r.P.N(9)]
	w := r.world(lv, r.P.N(3))
	m := r.drawModulus(w)
	if m > 8 && w.N > 512 {
		m = 2 + r.P.N(7)
	}
	tb := r.drawTabl(m, false)
	entry := r.P.N(3)
	type cell struct {
		x   int
		ct  *tlwe.TLWELv0
		out []Torus
	}
	var cells []*cell
	r.Planf("m=%d %s %s", m, tb.desc, entryNames[entry])
	r.Inert(func() {
		for x := 0; x < m; x++ {
			for _, sg := range []float64{-1, 0, 1} {
				d := sg * (1/float64(4*m) - 3/float64(2*w.N))
				if w.N > 8*m {
					d += sg * 2.5 / float64(2*w.N)
				}
				for q := 0; q < 30; q++ {
					ct := tlwe.NewTLWELv0().EncryptF64(float64(x)/float64(2*m)+d, w.A0, w.sk.KeyLv0)
					if q%2 == 1 {
						ct = r.craft(w, float64(x)/float64(2*m)+d)
					}
					if w.slotOK(ct.P, x, m) {
						cells = append(cells, &cell{x: x, ct: ct})
						break
					}
					d -= sg * 0.4 / float64(2*w.N)
				}
			}
		}
	})
	nt := 1 + r.P.N(3)
	r.reset()
	setLevel(w.Level)
	r.Sim(simOpt{}, func() {
		t := tb.use(nil, dirtyTable(3))
		var ts []*vsim.Task
		for k := 0; k < nt; k++ {
			k := k
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", k), func() {
				e := evaluator.NewEvaluator(w.N)
				into := dirtyCt(w)
				for i := k; i < len(cells); i += nt {
					c := cells[i]
					c.out = flat(bootEntry(w, e, entry, c.ct, t, nil, m, into))
				}
			}))
		}
		vsim.Join(ts...)
	})
	for _, c := range cells {
		what := fmt.Sprintf("%s of %s, m=%d, x=%d", entryNames[entry], tb.desc, m, c.x)
		r.torus(w, what, c.out, tb.out[c.x])
		if tb.msg != nil {
			r.msg(w, what, c.out, tb.msg[c.x], m)
		}
	}
}

func c07real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 20000
	c07(r, r.world(l, 0), 0)
}

// c07half runs the part of a programmable bootstrap that reads the table, at
// the parameter sets whose key-switching key is too large to simulate, by
// several callers; then it measures the rounding error of the rotation against
// the slot of the message modulus the set is documented to support.
func c07half(r *R, l *Level, claimed int) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	setLevel(l)
	const nact, nops, nrot = 3, 2, 24
	var sk *key.SecretKey
	var bsk []*trgsw.TRGSWLv1FFT
	var off Torus
	half := func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, tv *trlwe.TRLWELv1) Torus {
		acc := trlwe.NewTRLWELv1()
		ev.BlindRotateAssign(ct, tv, bsk, off, acc)
		return phase(trlwe.SampleExtractIndex(acc, 0).P, sk.KeyLv1)
	}
	r.Inert(func() {
		sk = key.NewSecretKey()
		pe := poly.NewEvaluator(l.N)
		for _, b := range sk.KeyLv0 {
			bsk = append(bsk, trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(b, params.BSKAlpha(), sk.KeyLv1, pe), pe))
		}
	})
	for i := 0; i < l.L; i++ {
		off += Torus(1) << (31 - i*l.BgBit)
	}
	m := l.MaxM
	mul, add := 1+r.P.N(m), r.P.N(m)
	f := func(x int) int { return (x*mul + add) % m }
	r.Planf("level %s m=%d f(x)=(%dx+%d)%%m", l.Name, m, mul, add)
	xs := make([][]int, nact)
	for a := range xs {
		for k := 0; k < nops; k++ {
			xs[a] = append(xs[a], r.P.N(m))
		}
	}
	got := make([][]Torus, nact)
	r.Sim(simOpt{}, func() {
		setLevel(l)
		tab := lut.NewGenerator(m).GenLookUpTable(f)
		var ts []*vsim.Task
		for a := 0; a < nact; a++ {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				ev := evaluator.NewEvaluator(l.N)
				for _, x := range xs[a] {
					ct := tlwe.NewTLWELv0().EncryptLWEMessage(x, m, l.A0, sk.KeyLv0)
					got[a] = append(got[a], half(ev, ct, tab.Poly))
				}
			}))
		}
		vsim.Join(ts...)
	})
	for a := range got {
		if len(got[a]) != nops {
			r.Fail("incomplete", "actor%d made %d of %d rotations", a, len(got[a]), nops)
		}
		for k, g := range got[a] {
			r.Eval(1)
			want := float64(f(xs[a][k])) / float64(2*m)
			if d := dist(g, want); d > 0.5/float64(2*m) {
				r.Fail("wrong-value", "actor%d rotation %d of x=%d (m=%d): phase %.5f, want %.5f", a, k, xs[a][k], m, tf(g), want)
			}
		}
	}
	// neighbouring entries of this table lie 1/128 apart: how far the rotation
	// that took place is off can be read from the result
	var sum float64
	r.Inert(func() {
		setLevel(l)
		ev := evaluator.NewEvaluator(l.N)
		tv := trlwe.NewTRLWELv1()
		for p := range tv.B {
			tv.B[p] = Torus(p) << 25
		}
		for k := 0; k < nrot; k++ {
			x := 1.0/16 + 0.375*float64(k)/nrot
			ct := tlwe.NewTLWELv0().EncryptF64(x, l.A0, sk.KeyLv0)
			d := tf(half(ev, ct, tv)) - x*float64(2*l.N)/128
			d = (d - math.Round(d)) * 128
			sum += d * d
		}
	})
	sd := math.Sqrt(sum / nrot)
	slot := float64(l.N) / float64(2*claimed)
	r.Eval(1)
	r.Count("noise:rotations-measured", nrot)
	if expect := math.Sqrt((float64(l.N0)/2+1)/12) + 0.5; sd > 1.8*expect {
		r.Fail("noise", "level %s: rotations are off by %.1f positions (rms), rounding explains %.1f", l.Name, sd, expect)
	}
	if slot < 4.5*sd {
		r.known(fmt.Sprintf("programmable bootstrapping at security level %s with message modulus %d: the rotation's rounding error leaves the slot", l.Name, claimed),
			"rms %.1f positions, half a slot is %.1f", sd, slot)
	}
}

// ---------------------------------------------------------------- C08

func c08real(r *R, names ...string) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	var ls []*Level
	for _, n := range names {
		ls = append(ls, levelByName(n))
	}
	c08(r, ls, famGate|famBatch|famPBS)
}

var levelPairs = [][]int{{1, 2}, {3, 4}, {0, 1}, {1, 3}, {5, 0}, {3, 5}, {6, 1}, {2, 7}, {1, 9}, {1, 10}, {9, 10}, {1, 9, 10}}

func c08(r *R, ls []*Level, fam int) { c08run(r, ls, fam, 0, 2) }

func c08run(r *R, ls []*Level, fam, nseg, maxOps int) {
	real := ls != nil && ls[0].Real
	if ls == nil {
		p := levelPairs[r.P.N(len(levelPairs))]
		for _, i := range p {
			ls = append(ls, smallLevels[i])
		}
		for n := r.P.N(3); n > 0; n-- {
			x := r.pickSmall()
			dup := false
			for _, l := range ls {
				dup = dup || l == x
			}
			if !dup {
				ls = append(ls, x)
			}
		}
	}
	if fam == 0 {
		fam = famAll
	}
	var ws []*World
	for _, l := range ls {
		ws = append(ws, r.world(l, r.P.N(2)))
	}
	pools := make([]*Pool, len(ws))
	for i, w := range ws {
		i, w := i, w
		r.reset()
		setLevel(w.Level)
		r.Inert(func() { pools[i] = mkPool(r, w, !real) })
	}
	type seg struct {
		lv     int
		calls  [][]*call
		keygen bool
		kout   []bool
		kwant  []bool
	}
	nact := 1 + r.P.N(3)
	if k := r.P.N(5); nseg == 0 {
		nseg = 3 + k
	}
	if real {
		nact, nseg, maxOps = 2, len(ls)+1, 1
	}
	var segs []*seg
	prev := -1
	for i := 0; i < nseg; i++ {
		s := &seg{lv: r.P.N(len(ws))}
		if s.lv == prev {
			s.lv = (s.lv + 1) % len(ws)
		}
		if real {
			s.lv = i % len(ws)
		}
		prev = s.lv
		na := 1 + r.P.N(nact)
		for a := 0; a < na; a++ {
			var cs []*call
			for k, n := 0, 1+r.P.N(maxOps); k < n; k++ {
				op := r.drawOp(pools[s.lv], fam)
				cs = append(cs, &call{op: op})
				r.Planf("%d:%s actor%d %s", i, ws[s.lv].Name, a, op.name)
			}
			s.calls = append(s.calls, cs)
		}
		if !real && r.P.N(6) == 5 && ws[s.lv].N <= 128 {
			s.keygen = true
			r.Planf("%d:%s keygen", i, ws[s.lv].Name)
		}
		segs = append(segs, s)
	}
	acts := make([]*Actor, nact)
	for a := range acts {
		acts[a] = newActor(r.P.N(2))
	}
	r.reset()
	for _, s := range segs {
		s := s
		w := ws[s.lv]
		r.Count("fault:level-switch", 1)
		r.Sim(simOpt{}, func() {
			setLevel(w.Level)
			vsim.Note("level %s", w.Name)
			var ts []*vsim.Task
			for a := range s.calls {
				a := a
				ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
					for _, c := range s.calls[a] {
						vsim.Note("%s", c.op.name)
						c.out = c.op.run(acts[a])
					}
				}))
			}
			if s.keygen {
				ts = append(ts, vsim.Spawn("keygen", func() {
					sk := key.NewSecretKey()
					ck := cloudkey.NewCloudKey(sk)
					x := tlwe.NewTLWELv0().EncryptBool(true, w.A0, sk.KeyLv0)
					y := tlwe.NewTLWELv0().EncryptBool(false, w.A0, sk.KeyLv0)
					for _, g := range gates2[:6] {
						s.kout = append(s.kout, g.f(x, y, ck).DecryptBool(sk.KeyLv0), g.f(x, x, ck).DecryptBool(sk.KeyLv0))
						s.kwant = append(s.kwant, g.t(true, false), g.t(true, true))
					}
					if len(sk.KeyLv0) != w.N0 || len(sk.KeyLv1) != w.N || len(ck.BootstrappingKey) != w.N0 {
						r.Fail("malformed", "keys generated after switching to level %s have other dimensions", w.Name)
					}
				}))
			}
			vsim.Join(ts...)
		})
	}
	for i, s := range segs {
		w := ws[s.lv]
		setLevel(w.Level)
		for q := range s.kout {
			r.Eval(1)
			if s.kout[q] != s.kwant[q] {
				r.Fail("wrong-value", "segment %d: gate %s with keys generated after switching to level %s decrypts to %v", i, gates2[q/2].name, w.Name, s.kout[q])
			}
		}
		r.solo(w, s.calls)
	}
}

// ---------------------------------------------------------------- C13

// srv is one incarnation of the server process: what it loaded from disk.
type srv struct {
	ck *cloudkey.CloudKey
	re *proxyreenc.ProxyReencryptionKey
}

// request is what a client asks for.
type request struct {
	id     int
	ten    int // whose keys
	desc   string
	in     []*tlwe.TLWELv0
	exec   func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus
	check  func(r *R, what string, o []Torus)
	ref    []Torus
	cost   time.Duration
	reply  []Torus
	answAt time.Duration
	sends  int
}

func (r *R) drawRequest(w *World, id int, re *proxyreenc.ProxyReencryptionKey, sk2 []Torus) *request {
	c := r.P
	q := &request{id: id}
	var vals []bool
	bit := func() int {
		b := c.N(2) == 1
		ct := w.enc(b)
		if n := len(q.in); n > 0 && c.N(6) == 5 {
			b = !vals[n-1]
			ct = r.sibling(w, q.in[n-1], !b)
		}
		q.in = append(q.in, ct)
		vals = append(vals, b)
		return len(vals) - 1
	}
	tol := w.tolBoot()
	switch c.N(8) {
	case 0, 1:
		g := gates2[c.N(len(gates2))]
		bit()
		bit()
		want := []bool{g.t(vals[0], vals[1])}
		q.desc = g.name
		q.exec = func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus { return flat(g.f(in[0], in[1], s.ck)) }
		q.check = func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, want, tol) }
	case 2, 3:
		g := batchFns[c.N(len(batchFns))]
		n := 1 + c.N(5)
		var want []bool
		for i := 0; i < n; i++ {
			bit()
			bit()
			want = append(want, g.t(vals[2*i], vals[2*i+1]))
		}
		q.desc = fmt.Sprintf("%s(%d)", g.name, n)
		q.exec = func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus {
			var prs [][2]*tlwe.TLWELv0
			for i := 0; i+1 < len(in); i += 2 {
				prs = append(prs, [2]*tlwe.TLWELv0{in[i], in[i+1]})
			}
			return flat(g.f(prs, s.ck)...)
		}
		q.check = func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, want, tol) }
	case 4, 5:
		n := 2 + c.N(4)
		for i := 0; i < 3; i++ {
			bit()
		}
		type st struct{ op, a, b, c int }
		var prog []st
		v := append([]bool(nil), vals...)
		for i := 0; i < n; i++ {
			x := st{c.N(11), c.N(len(v)), c.N(len(v)), c.N(len(v))}
			prog = append(prog, x)
			if x.op == 10 {
				y := v[x.c]
				if v[x.a] {
					y = v[x.b]
				}
				v = append(v, y)
			} else {
				v = append(v, gates2[x.op].t(v[x.a], v[x.b]))
			}
		}
		want := v[3:]
		q.desc = fmt.Sprintf("circuit(%d)", n)
		q.exec = func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus {
			ws := append([]*tlwe.TLWELv0(nil), in...)
			for _, x := range prog {
				if x.op == 10 {
					ws = append(ws, gates.MUX(ws[x.a], ws[x.b], ws[x.c], s.ck))
				} else {
					ws = append(ws, gates2[x.op].f(ws[x.a], ws[x.b], s.ck))
				}
			}
			return flat(ws[3:]...)
		}
		q.check = func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, want, tol) }
	case 6:
		m := r.drawModulus(w)
		x := c.N(m)
		ct := r.encIn(w, x, m)
		safe := ct != nil
		if !safe {
			ct = w.encMsg(x, m)
		}
		q.in = []*tlwe.TLWELv0{ct}
		tb := r.drawTabl(m, true)
		how := c.N(3)
		q.desc = fmt.Sprintf("table m=%d %s", m, tb.desc)
		q.exec = func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus {
			bk, kk, off := s.ck.BootstrappingKey, s.ck.KeySwitchingKey, s.ck.DecompositionOffset
			switch how {
			case 0:
				return flat(e.BootstrapFunc(in[0], tb.fn, m, bk, kk, off))
			case 1:
				return flat(e.BootstrapLUT(in[0], tb.use(nil, dirtyTable(1)), bk, kk, off))
			}
			o := tlwe.NewTLWELv0()
			e.BootstrapLUTAssign(in[0], tb.gen(), bk, kk, off, o)
			return flat(o)
		}
		q.check = func(r *R, what string, o []Torus) {
			if safe {
				r.msg(w, what, o, tb.msg[x], m)
			}
		}
	default:
		bit()
		want := vals[0]
		q.desc = "re-encrypt"
		q.exec = func(s *srv, e *evaluator.Evaluator, in []*tlwe.TLWELv0) []Torus {
			return flat(proxyreenc.ReencryptTLWELv0(in[0], s.re))
		}
		q.check = func(r *R, what string, o []Torus) {
			r.Eval(1)
			tol := 12*w.A0 + 12*1e-8*math.Sqrt(float64(10*w.N0)) + float64(w.N0)*math.Exp2(-30) + 1e-6
			if len(o) != w.N0+1 || dist(phase(o, sk2), pm(want)) > tol {
				r.Fail("wrong-value", "%s: does not decrypt under the recipient's key", what)
			}
		}
	}
	return q
}

func c13real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	c13(r, l, 0)
}

func c13(r *R, l *Level, aged int) {
	ten := []*World{r.world(l, r.P.N(2)*btoi(!l.Real))}
	if !l.Real && r.P.N(2) == 1 { // two customers with keys of their own
		ten = append(ten, r.world(l, 2))
	}
	w := ten[0]
	nclients := 1 + r.P.N(3)
	nreq := 2 + r.P.N(5)
	if l.Real {
		nclients, nreq = 2, 3
	} else if l.N >= 512 {
		nreq = 2 + r.P.N(2)
	}
	if aged > 0 {
		nreq = aged + r.P.N(aged)
	}
	var reqs []*request
	var res []*proxyreenc.ProxyReencryptionKey
	sk2 := make([]Torus, w.N0)
	r.Inert(func() {
		for i := range sk2 {
			sk2[i] = Torus(r.P.N(2))
		}
		for _, w := range ten {
			kb, kt := 3, 10
			if l.Real {
				kb, kt = 2, 14
			}
			res = append(res, proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.sk.KeyLv0, sk2, 1e-8, kb, kt))
		}
		for i := 0; i < nreq; i++ {
			t := r.P.N(len(ten))
			q := r.drawRequest(ten[t], i, res[t], sk2)
			q.ten = t
			reqs = append(reqs, q)
			r.Planf("request %d of customer %d %s", i, t, q.desc)
		}
	})
	clone := func(in []*tlwe.TLWELv0) []*tlwe.TLWELv0 {
		var o []*tlwe.TLWELv0
		for _, c := range in {
			o = append(o, cloneCt(c))
		}
		return o
	}
	// references: every request alone in a fresh process
	total := time.Duration(0)
	for _, q := range reqs {
		q := q
		r.reset()
		setLevel(l)
		t0 := r.out.Ticks
		r.Inert(func() {
			q.ref = q.exec(&srv{ck: ten[q.ten].ck, re: res[q.ten]}, evaluator.NewEvaluator(w.N), clone(q.in))
		})
		q.cost = time.Duration(r.out.Ticks-t0) * 10
		total += q.cost
		q.check(r, fmt.Sprintf("request %d %s in a fresh process", q.id, q.desc), q.ref)
	}
	crashes := r.P.N(5)
	if l.Real {
		crashes = 1 + r.P.N(2)
	}
	lossPct := []int{0, 10, 35}[r.P.N(3)]
	dupPct := []int{0, 15, 40}[r.P.N(3)]
	nworkers := 1 + r.P.N(3)
	cutNet := r.P.N(4) == 3
	rbuf := r.P.N(2) == 1
	eager := r.P.N(3) // how early clients lose patience
	faultsFor := total*2 + 5*time.Millisecond
	r.Planf("%d clients, %d workers, %d crashes, loss %d%%, duplication %d%%, cut %v", nclients, nworkers, crashes, lossPct, dupPct, cutNet)
	cpus := []int{8, 1, 2, 4, 16}
	cpu0 := r.P.N(5)

	const group = 500
	r.reset()
	r.Sim(simOpt{cap: 1 << 33}, func() {
		type msg struct {
			q  *request
			in []*tlwe.TLWELv0
		}
		var inbox []*msg // in the server's memory: lost when it crashes
		up := false
		faulty := true
		cut := false
		inc := 0
		alldone := false
		quietAt := time.Duration(0)

		transmit := func(deliver func()) {
			n := 1
			if faulty {
				if cut || r.S.Bool(lossPct, 100) {
					vsim.Count("fault:message-loss")
					return
				}
				if r.S.Bool(dupPct, 100) {
					vsim.Count("fault:message-duplication")
					n = 2
				}
			}
			for ; n > 0; n-- {
				d := time.Duration(r.S.N(1000)) * time.Microsecond
				if faulty && r.S.N(5) == 4 {
					d += time.Duration(r.S.N(100)) * total / 50
					vsim.Count("fault:message-delay")
				}
				vsim.AfterFunc(d, deliver)
			}
		}
		respond := func(q *request, out []Torus) {
			transmit(func() {
				if q.reply == nil {
					q.reply = out
					q.answAt = vsim.Clock()
				} else {
					vsim.Count("late or repeated reply")
				}
			})
		}
		boot := func() {
			inc++
			my := inc
			inbox = nil
			n := 8
			if inc > 1 || cpu0 > 0 {
				n = cpus[(cpu0+inc-1)%len(cpus)]
			}
			vsim.SetNumCPU(n)
			vsim.SpawnGroup(group, fmt.Sprintf("server%d", my), func() {
				r.reset()
				setLevel(l)
				var ss []*srv
				for t, w := range ten { // load from disk
					s := &srv{ck: w.ck, re: deepCopy(res[t])}
					if !l.Real {
						s.ck = deepCopy(w.ck)
					}
					ss = append(ss, s)
				}
				up = true
				for k := 0; k < nworkers; k++ {
					vsim.Spawn(fmt.Sprintf("server%d.worker%d", my, k), func() {
						e := evaluator.NewEvaluator(w.N)
						var bufs []*tlwe.TLWELv0
						for {
							vsim.WaitFor("request", func() bool { return len(inbox) > 0 || alldone })
							if len(inbox) == 0 {
								return
							}
							i := 0
							if faulty {
								i = r.S.N(len(inbox))
								if i > 0 {
									vsim.Count("fault:reorder")
								}
							}
							m := inbox[i]
							inbox = append(inbox[:i:i], inbox[i+1:]...)
							vsim.Note("executes request %d %s", m.q.id, m.q.desc)
							in := m.in
							if rbuf { // received into the worker's own buffers
								for len(bufs) < len(in) {
									bufs = append(bufs, tlwe.NewTLWELv0())
								}
								for k, c := range in {
									copy(bufs[k].P, c.P)
								}
								in = bufs[:len(in):len(in)]
							}
							out := m.q.exec(ss[m.q.ten], e, in)
							vsim.Count("executions")
							r.Eval(1)
							if !eqT(out, m.q.ref) {
								r.Fail("reply-differs", "request %d %s executed by incarnation %d of the server gives another ciphertext than a fresh process", m.q.id, m.q.desc, my)
							}
							if faulty && r.S.N(12) == 11 {
								vsim.Count("fault:stall")
								vsim.TimeSleep(total / 4)
							}
							respond(m.q, out)
						}
					})
				}
			})
		}
		boot()
		// the environment: crashes, partitions, and their end
		env := vsim.Spawn("environment", func() {
			for k := 0; k < crashes; k++ {
				d := time.Duration(r.S.N(1000)) * faultsFor / time.Duration(600*crashes)
				if r.S.N(6) == 5 {
					d = time.Duration(r.S.N(2000)) * time.Nanosecond // during start-up
				}
				vsim.TimeSleep(d)
				if alldone {
					return
				}
				n := vsim.KillGroup(group)
				up = false
				inbox = nil
				vsim.Count("fault:crash")
				vsim.Note("crash, %d tasks killed", n)
				if n > nworkers+1 {
					vsim.Count("crash while goroutines of an operation were running")
				}
				if r.S.N(3) == 2 {
					vsim.TimeSleep(time.Duration(r.S.N(100)) * total / 50)
				}
				boot()
				if cutNet && r.S.N(2) == 1 {
					cut = true
					vsim.Count("fault:partition")
					vsim.TimeSleep(time.Duration(r.S.N(100)) * total / 50)
					cut = false
				}
			}
			faulty = false
			quietAt = vsim.Clock()
			vsim.Note("faults stop")
		})
		var ts []*vsim.Task
		for c := 0; c < nclients; c++ {
			c := c
			ts = append(ts, vsim.Spawn(fmt.Sprintf("client%d", c), func() {
				for i := c; i < len(reqs); i += nclients {
					q := reqs[i]
					wait := []time.Duration{q.cost * 3, q.cost, total * 4}[eager] + 2*time.Millisecond
					for q.reply == nil {
						q.sends++
						if q.sends > 1 {
							vsim.Count("retries")
						}
						in := clone(q.in)
						transmit(func() {
							if up {
								inbox = append(inbox, &msg{q, clone(in)})
							} else {
								vsim.Count("request reached a dead server")
							}
						})
						over := false
						vsim.AfterFunc(wait, func() { over = true })
						vsim.WaitFor("reply", func() bool { return q.reply != nil || over })
						if wait < total*16 {
							wait *= 2
						}
						if !faulty && q.reply == nil && vsim.Clock() > quietAt+total*400+time.Second {
							r.Fail("unanswered", "request %d %s has no answer %v after the last fault (it takes %v on its own)", q.id, q.desc, vsim.Clock()-quietAt, q.cost)
						}
					}
				}
			}))
		}
		vsim.Join(ts...)
		alldone = true
		vsim.Join(env)
	})
	for _, q := range reqs {
		q.check(r, fmt.Sprintf("request %d %s", q.id, q.desc), q.reply)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
