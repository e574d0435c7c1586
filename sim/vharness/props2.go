//go:build go1.23

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	addProp("C04", "Seeded callers run every kind of operation, failing ones included, on shared inputs while an onlooker compares all inputs, keys and tables with their fingerprints whenever the scheduler interrupts a task, and at the end.",
		append([]*Lane{
			{Name: "small", Quick: 4000, Thorough: 120000, Fn: func(r *R) { r.drawStrategy(); c04(r, r.world(r.pickSmall(), r.P.N(3)), 4) }},
			{Name: "aged", Quick: 16, Thorough: 1500, Fn: func(r *R) { c04(r, r.world(r.aged(), r.P.N(3)), 300) }},
			{Name: "keygen", Quick: 150, Thorough: 4000, Fn: func(r *R) { r.drawStrategy(); c04keygen(r, r.world(smallLevels[r.P.N(3)], r.P.N(3))) }},
		}, realLanes(c04real, map[string][2]int{"80": {1, 3}, "128": {1, 3}, "u3": {1, 2}})...)...)
	addProp("C05", "Seeded callers collect live results of every kind, allocated and pooled, overwrite some of the allocated ones, and go on working; an onlooker compares every result that is still promised to be intact with its value when it was returned, address ranges of allocated results are checked for overlap, and all values are compared with solo runs.",
		append([]*Lane{
			{Name: "small", Quick: 4000, Thorough: 120000, Fn: func(r *R) { r.drawStrategy(); c05(r, r.world(r.pickSmall(), r.P.N(3)), 10) }},
			{Name: "long", Quick: 120, Thorough: 4000, Fn: func(r *R) { r.drawStrategy(); c05(r, r.world(smallLevels[r.P.N(3)], r.P.N(3)), 80) }},
			{Name: "aged", Quick: 40, Thorough: 1500, Fn: func(r *R) { c05(r, r.world(r.aged(), r.P.N(3)), 1500) }},
		}, realLanes(c05real, map[string][2]int{"80": {1, 3}, "u3": {1, 2}})...)...)
	addProp("C09", "Seeded callers mix valid operations with calls that fail part-way (panicking callbacks, truncated or missing keys, nil or short ciphertexts) on the same evaluators, generators and package-level state; every valid result must equal that of a fresh process that never saw a failure.",
		append([]*Lane{
			{Name: "small", Quick: 5000, Thorough: 150000, Fn: func(r *R) { r.drawStrategy(); c09(r, r.world(r.pickSmall(), r.P.N(3)), 6) }},
			{Name: "gates", Quick: 800, Thorough: 30000, Fn: func(r *R) { r.drawStrategy(); c09(r, r.world(r.pickSmall(), r.P.N(3)), -6) }},
			{Name: "storm", Quick: 700, Thorough: 20000, Fn: func(r *R) { r.drawStrategy(); c09run(r, r.world(smallLevels[r.P.N(4)], r.P.N(3)), 4-8*r.P.N(2), true) }},
			{Name: "aged", Quick: 24, Thorough: 2500, Fn: func(r *R) {
				l := r.aged()
				c09run(r, r.world(l, r.P.N(3)), []int{300, -300}[r.P.N(2)], r.P.N(2) == 1)
			}},
		}, realLanes(c09real, map[string][2]int{"80": {1, 3}, "128": {1, 3}, "u3": {1, 2}})...)...)
	addProp("C12", "Seeded parallel operations, one or several at a time, under scheduling policies that starve, delay or reorder goroutines and vary the reported processor count; a step bound relative to a sequential execution, deadlock and crash detection, and checks that nothing is left running or written after the call returned.",
		append([]*Lane{
			{Name: "small", Quick: 3500, Thorough: 100000, Fn: func(r *R) { r.drawStrategy(); c12(r, r.world(smallLevels[r.P.N(6)], r.P.N(3)), 3) }},
			{Name: "wide", Quick: 150, Thorough: 5000, Fn: func(r *R) { r.drawStrategy(); c12wide(r) }},
			{Name: "aged", Quick: 16, Thorough: 1500, Fn: func(r *R) { c12run(r, r.world(r.aged(), r.P.N(3)), 1+r.P.N(2), 120, 2*r.P.N(2)) }},
		}, realLanes(c12real, map[string][2]int{"80": {1, 2}, "u1": {1, 2}})...)...)
	addProp("C14", "Long seeded sequences of external products, multiplexers, rotations, extractions, key switches and polynomial products on the same evaluators, by one or several callers; every result is compared with an independent computation of its phase and with the same call on a fresh evaluator.",
		append([]*Lane{
			{Name: "small", Quick: 1500, Thorough: 50000, Fn: func(r *R) { r.drawStrategy(); c14(r, r.world(r.pickSmall(), r.P.N(3)), 14) }},
			{Name: "soak", Quick: 60, Thorough: 2000, Fn: func(r *R) { r.drawStrategy(); c14(r, r.world(smallLevels[r.P.N(5)], r.P.N(3)), 200) }},
			{Name: "aged", Quick: 16, Thorough: 1500, Fn: func(r *R) { c14(r, r.world(r.aged(), r.P.N(3)), 2500) }},
		}, realLanes(c14real, map[string][2]int{"80": {1, 3}, "110": {1, 2}, "128": {1, 4}, "u1": {1, 2}, "u2": {1, 2}, "u3": {1, 2}, "u4": {1, 2}, "u5": {1, 2}})...)...)
}

// onlooker limits how often an expensive comparison runs.
func onlooker(budget int, f func() string) func() string {
	n, skip := 0, 0
	return func() string {
		n++
		if n > budget {
			skip++
			if skip%16 != 0 {
				return ""
			}
		}
		return f()
	}
}

// ---------------------------------------------------------------- C04

func c04real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 400000
	c04(r, r.world(l, 0), 2)
}

func c04(r *R, w *World, maxOps int) {
	var pool *Pool
	r.Inert(func() { pool = mkPool(r, w, true) })
	nact := 1 + r.P.N(4)
	if w.Real {
		nact = 2
	}
	calls := make([][]*call, nact)
	modes := make([]int, nact)
	for a := range calls {
		modes[a] = r.P.N(2)
		for i, n := 0, 1+r.P.N(maxOps); i < n; i++ {
			var op *Op
			if r.P.N(5) == 4 {
				op = r.drawFault(pool)
			} else {
				op = r.drawOp(pool, famAll)
			}
			calls[a] = append(calls[a], &call{op: op})
			r.Planf("actor%d.%d %s", a, i, op.name)
		}
	}
	r.reset()
	setLevel(w.Level)
	fp := pool.fingerprint()
	var ins []func() uint64
	var inv []uint64
	for _, cs := range calls {
		for _, c := range cs {
			if c.op.ins != nil {
				ins = append(ins, c.op.ins)
				inv = append(inv, c.op.ins())
			}
		}
	}
	turn := 0
	look := func() string {
		turn++
		r.Eval(1)
		if pool.fingerprint() != fp {
			return "an input ciphertext, table, polynomial or re-encryption key differs from what it was: " + pool.diff(fp)
		}
		for i, f := range ins {
			if f() != inv[i] {
				return "an input slice differs from what it was"
			}
		}
		if turn%4 == 0 && !w.Real && w.fingerprint() != w.fp {
			return "secret or cloud key material differs from what it was"
		}
		return ""
	}
	budget := 300
	if w.Real {
		budget = 40
	}
	inFault := 0
	acts := make([]*Actor, nact)
	res := r.Sim(simOpt{observe: onlooker(budget, look), allowCrash: true}, func() {
		var ts []*vsim.Task
		for a := range calls {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				act := newActor(modes[a])
				acts[a] = act
				for i, c := range calls[a] {
					vsim.Note("call %d %s", i, c.op.name)
					if c.op.fault {
						inFault++
						if e := vsim.Try(func() { c.op.run(act) }); e != nil {
							vsim.Count("fault:failed call")
						}
						inFault--
						continue
					}
					c.op.run(act)
				}
			}))
		}
		vsim.Join(ts...)
	})
	if res.Crash != "" {
		if inFault == 0 {
			r.Fail("crash", "a panic nobody recovers in %s: %s", res.CrashTask, res.Crash)
		}
		r.Count("skipped: process died in a failing call", 1)
	}
	turn = 3
	if m := look(); m != "" {
		r.Fail("input-mutated", "after the run: %s", m)
	}
	for a, act := range acts {
		if act != nil && act.dirty != "" {
			r.Fail("input-mutated", "%s by actor%d changed an input the caller had filled in", act.dirty, a)
		}
	}
}

// diff names the part of the pool that changed, as well as it can.
func (p *Pool) diff(fp uint64) string {
	return fmt.Sprintf("level %s", p.w.Name)
}

// c04keygen: key generation must not touch the secret key, even under preemption.
func c04keygen(r *R, w *World) {
	n := 1 + r.P.N(2)
	asym := r.P.N(2) == 1
	var sk2 []Torus
	var pk *proxyreenc.PublicKeyLv0
	r.Inert(func() {
		sk2 = key.NewSecretKey().KeyLv0
		pk = proxyreenc.NewPublicKeyLv0WithParams(sk2, 6, 1e-7)
	})
	h0 := func() uint64 {
		h := hashT(hashT(hashT(7, w.sk.KeyLv0), w.sk.KeyLv1), sk2)
		for _, c := range pk.Encryptions {
			h = hashT(h, c.P)
		}
		return h
	}
	fp := h0()
	r.Planf("%d key generations, asym=%v", n, asym)
	r.reset()
	setLevel(w.Level)
	r.Sim(simOpt{observe: onlooker(2000, func() string {
		r.Eval(1)
		if h0() != fp {
			return "a secret or public key differs from what it was"
		}
		return ""
	})}, func() {
		var ts []*vsim.Task
		for i := 0; i < n; i++ {
			ts = append(ts, vsim.Spawn(fmt.Sprintf("gen%d", i), func() { cloudkey.NewCloudKey(w.sk) }))
		}
		ts = append(ts, vsim.Spawn("regen", func() {
			if asym {
				proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(w.sk.KeyLv0, pk, 1e-7, 2, 4)
			} else {
				proxyreenc.NewProxyReencryptionKeySymmetric(w.sk.KeyLv0, sk2)
			}
			proxyreenc.NewPublicKeyLv0(w.sk.KeyLv0)
		}))
		vsim.Join(ts...)
	})
	if h0() != fp {
		r.Fail("input-mutated", "a secret or public key changed during key generation")
	}
}

// ---------------------------------------------------------------- C05

// seg is one piece of memory of a result.
type seg struct {
	t  []Torus
	f  []float64
	ct *tlwe.TLWELv0   // the object it came in, for use as an operand
	tr *trlwe.TRLWELv1 // likewise
}

const (
	ringNone = iota
	ringEval // results of evaluator.Bootstrap / BootstrapLUTTemp
	ringTR   // results of ExternalProductWithFFT / CMUX / BlindRotate
	ringRot  // results of PolyMulWithXK
)

// hop is an operation whose result stays live memory.
type hop struct {
	name string
	ring int     // pool the result lives in
	uses [4]int  // buffers taken from each pool
	end  [4]bool // this call may reuse every buffer of that pool
	rnd  bool
	take func(a *Actor) []seg
	feed int // 0: inputs only; otherwise take an operand from an earlier result
}

type handle struct {
	h       *hop
	segs    []seg
	val     []Torus
	fval    []float64
	born    []Torus // value when returned
	bornF   []float64
	expired bool
	actor   int
	left    int // buffers that may still be taken from its pool
	fedCt   *tlwe.TLWELv0
	fedTr   *trlwe.TRLWELv1
}

func segVals(s []seg) (t []Torus, f []float64) {
	for _, x := range s {
		t = append(t, x.t...)
		f = append(f, x.f...)
	}
	return
}

func (h *handle) intact() bool {
	i, j := 0, 0
	for _, x := range h.segs {
		for _, v := range x.t {
			if v != h.val[i] {
				return false
			}
			i++
		}
		for _, v := range x.f {
			if math.Float64bits(v) != math.Float64bits(h.fval[j]) {
				return false
			}
			j++
		}
	}
	return true
}

func ctSeg(cs ...*tlwe.TLWELv0) []seg {
	var s []seg
	for _, c := range cs {
		s = append(s, seg{t: c.P, ct: c})
	}
	return s
}

func trSeg(cs ...*trlwe.TRLWELv1) []seg {
	var s []seg
	for _, c := range cs {
		s = append(s, seg{t: c.A, tr: c}, seg{t: c.B})
	}
	return s
}

func ckSegs(ck *cloudkey.CloudKey) []seg {
	s := trSeg(ck.BlindRotateTestvec)
	for _, c := range ck.KeySwitchingKey {
		s = append(s, seg{t: c.P})
	}
	for _, g := range ck.BootstrappingKey {
		for _, x := range g.TRLWEFFT {
			s = append(s, seg{f: x.A.Coeffs}, seg{f: x.B.Coeffs})
		}
	}
	return s
}

func (r *R) drawHop(p *Pool) *hop {
	feed := 0
	if r.P.N(2) == 1 {
		feed = 1 + r.P.N(8)
	}
	h := r.drawHop1(p)
	h.feed = feed
	return h
}

// fed is the operand of a call: an earlier result, if the plan says so.
func (a *Actor) fed(x *tlwe.TLWELv0) *tlwe.TLWELv0 {
	if a.fedCt != nil {
		return a.fedCt
	}
	return x
}

func (a *Actor) fedTR(x *trlwe.TRLWELv1) *trlwe.TRLWELv1 {
	if a.fedTr != nil {
		return a.fedTr
	}
	return x
}

func (r *R) drawHop1(p *Pool) *hop {
	w, c := p.w, r.P
	bk, kk, off := w.ck.BootstrappingKey, w.ck.KeySwitchingKey, w.ck.DecompositionOffset
	tv := w.ck.BlindRotateTestvec
	b := func() *tlwe.TLWELv0 { return p.bits[c.N(len(p.bits))] }
	x, y, z := b(), b(), b()
	m := p.msgs[c.N(len(p.msgs))]
	li := c.N(len(p.luts))
	lt := p.luts[li]
	f := tableFn(p.lutf[li])
	tr, tr2 := p.tr[c.N(len(p.tr))], p.tr[c.N(len(p.tr))]
	tg := p.tg[c.N(len(p.tg))]
	pa, pb := p.pol[c.N(len(p.pol))], p.pols[c.N(len(p.pols))]
	alloc := func(n string, t func(a *Actor) []seg) *hop { return &hop{name: n, take: t} }
	e1 := [4]int{0, 1, 0, 0}
	switch c.N(40) {
	case 0, 1, 2:
		g := gates2[c.N(len(gates2))]
		return alloc(g.name, func(a *Actor) []seg { return ctSeg(g.f(a.fed(x), y, w.ck)) })
	case 3:
		return alloc("MUX", func(a *Actor) []seg { return ctSeg(gates.MUX(x, a.fed(y), z, w.ck)) })
	case 4, 5:
		g := batchFns[c.N(len(batchFns))]
		n := c.N(4)
		var in [][2]*tlwe.TLWELv0
		for i := 0; i < n; i++ {
			in = append(in, [2]*tlwe.TLWELv0{b(), b()})
		}
		return alloc(fmt.Sprintf("%s(%d)", g.name, n), func(a *Actor) []seg {
			in := append([][2]*tlwe.TLWELv0(nil), in...)
			if n > 0 {
				in[n-1][n%2] = a.fed(in[n-1][n%2])
			}
			return ctSeg(g.f(in, w.ck)...)
		})
	case 6, 7:
		n := 1 + c.N(3)
		var in []*tlwe.TLWELv0
		for i := 0; i < n; i++ {
			in = append(in, b())
		}
		return alloc(fmt.Sprintf("BatchBlindRotate(%d)", n), func(a *Actor) []seg {
			in := append([]*tlwe.TLWELv0(nil), in...)
			in[0] = a.fed(in[0])
			return trSeg(trgsw.BatchBlindRotate(in, tv, bk, off)...)
		})
	case 8, 9:
		h := alloc("BootstrapLUT", func(a *Actor) []seg { return ctSeg(a.Ev(p).BootstrapLUT(a.fed(m), lt, bk, kk, off)) })
		h.uses = e1
		return h
	case 10:
		h := alloc("BootstrapFunc", func(a *Actor) []seg { return ctSeg(a.Ev(p).BootstrapFunc(a.fed(m), f, p.m, bk, kk, off)) })
		h.uses = e1
		return h
	case 11, 12, 13:
		return &hop{name: "Bootstrap", ring: ringEval, uses: e1, take: func(a *Actor) []seg { return ctSeg(a.Ev(p).Bootstrap(a.fed(x), tv, bk, kk, off)) }}
	case 14, 15, 16:
		return &hop{name: "BootstrapLUTTemp", ring: ringEval, uses: e1, take: func(a *Actor) []seg { return ctSeg(a.Ev(p).BootstrapLUTTemp(a.fed(m), lt, bk, kk, off)) }}
	case 17:
		return alloc("BootstrapLUTAssign", func(a *Actor) []seg {
			o := dirtyCt(w)
			a.Ev(p).BootstrapLUTAssign(a.fed(m), lt, bk, kk, off, o)
			return ctSeg(o)
		})
	case 18:
		return alloc("BlindRotateAssign", func(a *Actor) []seg {
			o := dirtyTr(w)
			a.Ev(p).BlindRotateAssign(a.fed(x), lt.Poly, bk, off, o)
			return trSeg(o)
		})
	case 19, 20:
		return &hop{name: "ExternalProductWithFFT", ring: ringTR, uses: [4]int{0, 0, 1, 0}, take: func(a *Actor) []seg { return trSeg(trgsw.ExternalProductWithFFT(tg, a.fedTR(tr), off, a.Pe(p))) }}
	case 21, 22:
		return &hop{name: "CMUX", ring: ringTR, uses: [4]int{0, 0, 2, 0}, take: func(a *Actor) []seg { return trSeg(trgsw.CMUX(a.fedTR(tr), tr2, tg, off, a.Pe(p))) }}
	case 23:
		return &hop{name: "BlindRotate", ring: ringTR, end: [4]bool{false, false, true, true}, take: func(a *Actor) []seg { return trSeg(trgsw.BlindRotate(a.fed(x), lt.Poly, bk, off, a.Pe(p))) }}
	case 24, 25:
		k := c.N(2 * w.N)
		return &hop{name: "PolyMulWithXK", ring: ringRot, uses: [4]int{0, 0, 0, 1}, take: func(a *Actor) []seg { return []seg{{t: a.Pe(p).PolyMulWithXK(pa.Coeffs, k)}} }}
	case 26:
		return alloc("CMuxAssign", func(a *Actor) []seg {
			o := dirtyTr(w)
			a.Ev(p).CMuxAssign(tg, tr, a.fedTR(tr2), off, o)
			return trSeg(o)
		})
	case 27:
		k := c.N(w.N)
		return alloc("SampleExtractIndex", func(a *Actor) []seg { return []seg{{t: trlwe.SampleExtractIndex(a.fedTR(tr), k).P}} })
	case 28:
		return alloc("IdentityKeySwitching", func(a *Actor) []seg { return ctSeg(trgsw.IdentityKeySwitching(p.l1[0], kk)) })
	case 29:
		return alloc("MulPoly", func(a *Actor) []seg { return []seg{{t: a.Pe(p).MulPoly(pa, pb).Coeffs}} })
	case 30:
		return alloc("ToFourierPoly/ToPoly", func(a *Actor) []seg {
			fp := a.Pe(p).ToFourierPoly(pa)
			return []seg{{f: fp.Coeffs}, {t: a.Pe(p).ToPoly(fp).Coeffs}}
		})
	case 31:
		if c.N(2) == 0 {
			return alloc("PrepareNAND/AND/OR/XOR", func(a *Actor) []seg {
				e := a.Ev(p)
				return ctSeg(e.PrepareNAND(a.fed(x), y), e.PrepareAND(x, a.fed(y)), e.PrepareOR(x, y), e.PrepareXOR(x, y))
			})
		}
		return alloc("NOT/Copy/Constant", func(a *Actor) []seg { return ctSeg(gates.NOT(a.fed(x)), gates.Copy(a.fed(x)), gates.Constant(true)) })
	case 32:
		k := Torus(c.N(5)) - 1
		return alloc("Add/Sub/Neg/Mul/AddMul/SubMul", func(a *Actor) []seg {
			return ctSeg(a.fed(x).Add(y), x.Sub(a.fed(y)), a.fed(x).Neg(), a.fed(x).AddMul(y, k), a.fed(x).SubMul(y, k), x.Mul(y))
		})
	case 33, 34:
		return alloc("GenLookUpTable/Custom/Full", func(a *Actor) []seg {
			return trSeg(p.gen.GenLookUpTable(f).Poly, p.gen.GenLookUpTableCustom(f, p.m, 1/float64(2*p.m)).Poly,
				p.gen.GenLookUpTableFull(func(v int) Torus { return Torus(f(v)) << 20 }).Poly)
		})
	case 35:
		return alloc("LookUpTable.Copy/CopyFrom", func(a *Actor) []seg {
			l1 := lt.Copy()
			l2 := lut.NewLookUpTable()
			l2.CopyFrom(lt)
			return trSeg(l1.Poly, l2.Poly)
		})
	case 36:
		h := alloc("Encrypt", func(a *Actor) []seg {
			s := ctSeg(w.enc(true), w.encMsg(0, p.m), p.pk.EncryptBool(true, w.A0))
			s = append(s, seg{t: tlwe.NewTLWELv1().EncryptBool(true, w.A1, w.sk.KeyLv1).P})
			s = append(s, trSeg(trlwe.NewTRLWELv1().EncryptBool(p.trv[0], w.A1, w.sk.KeyLv1, a.Pe(p)))...)
			return s
		})
		h.rnd = true
		return h
	case 37:
		h := alloc("TRGSW", func(a *Actor) []seg {
			g := trgsw.NewTRGSWLv1().EncryptTorus(1, w.A1, w.sk.KeyLv1, a.Pe(p))
			s := trSeg(g.TRLWE...)
			for _, q := range trgsw.NewTRGSWLv1FFT(g, a.Pe(p)).TRLWEFFT {
				s = append(s, seg{f: q.A.Coeffs}, seg{f: q.B.Coeffs})
			}
			return s
		})
		h.rnd = true
		return h
	case 38:
		return alloc("Reencrypt", func(a *Actor) []seg { return ctSeg(proxyreenc.ReencryptTLWELv0(a.fed(x), p.re)) })
	}
	if w.N > 64 || c.N(3) != 0 {
		h := alloc("secret and re-encryption key", func(a *Actor) []seg {
			k := key.NewSecretKey()
			s := []seg{{t: k.KeyLv0}, {t: k.KeyLv1}}
			if w.N0 < 20 {
				s = append(s, ctSeg(proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.sk.KeyLv0, k.KeyLv0, 1e-7, 2, 3).KeyEncryptions...)...)
				s = append(s, ctSeg(proxyreenc.NewPublicKeyLv0WithParams(k.KeyLv0, 3, 1e-7).Encryptions...)...)
			}
			return s
		})
		h.rnd = true
		return h
	}
	h := alloc("NewCloudKey", func(a *Actor) []seg { return ckSegs(cloudkey.NewCloudKey(w.sk)) })
	h.rnd = true
	return h
}

func c05real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 400000
	c05(r, r.world(l, 0), 5)
}

// feedFrom picks earlier results of the actor that are still promised as
// operands: the k-th last ciphertext, and the k-th last ring ciphertext.
func (a *Actor) feedFrom(mine []*handle, k int, w *World) {
	kc, kt := k, k
	for i := len(mine) - 1; i >= 0; i-- {
		if mine[i].expired {
			continue
		}
		for _, s := range mine[i].segs {
			if s.ct != nil && len(s.ct.P) == w.N0+1 && kc > 0 {
				a.fedCt = s.ct
				kc--
			}
			if s.tr != nil && len(s.tr.A) == w.N && kt > 0 {
				a.fedTr = s.tr
				kt--
			}
		}
	}
}

func c05(r *R, w *World, maxOps int) {
	var pool *Pool
	r.Inert(func() { pool = mkPool(r, w, true) })
	nact := 1 + r.P.N(3)
	plans := make([][]*hop, nact)
	scrib := make([][]bool, nact)
	modes := make([]int, nact)
	for a := range plans {
		modes[a] = r.P.N(2)
		few := 0 // a long life of few kinds of call
		if maxOps > 1000 {
			few = r.P.N(4)
		}
		for i, n := 0, 2+r.P.N(maxOps); i < n; i++ {
			var h *hop
			if few > 0 && i >= few {
				h = plans[a][i%few]
			} else {
				h = r.drawHop(pool)
				for k := 0; few > 0 && (k < 3 && h.ring != ringNone || strings.HasPrefix(h.name, "New")); k++ {
					h = r.drawHop(pool)
				}
			}
			plans[a] = append(plans[a], h)
			s := r.P.N(4) == 3
			scrib[a] = append(scrib[a], s)
			if i < 40 {
				r.Planf("actor%d.%d %s", a, i, h.name)
				if s {
					r.Planf("then overwrite it")
				}
			}
		}
	}
	r.reset()
	setLevel(w.Level)
	fp := pool.fingerprint()
	var live []*handle
	look := func() string {
		r.Eval(1)
		n := len(live)
		lo := 0
		if n > 60 {
			lo = n - 60
		}
		for _, h := range live[lo:] {
			if !h.expired && !h.intact() {
				return fmt.Sprintf("a result of %s (actor%d) changed after it was returned", h.h.name, h.actor)
			}
		}
		return ""
	}
	r.Sim(simOpt{observe: onlooker(250, look), obsKind: "result-changed"}, func() {
		var ts []*vsim.Task
		for a := range plans {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				act := newActor(modes[a])
				var mine []*handle
				for i, h := range plans[a] {
					vsim.Note("%d %s", i, h.name)
					// results in a pool this call draws on stop being promised now
					for _, o := range mine {
						if o.h.ring == ringNone {
							continue
						}
						o.left -= h.uses[o.h.ring]
						if h.end[o.h.ring] || o.left < 0 {
							o.expired = true
						}
					}
					act.fedCt, act.fedTr = nil, nil
					if h.feed > 0 {
						act.feedFrom(mine, h.feed, w)
					}
					hd := &handle{h: h, actor: a, left: 3}
					if act.fedCt != nil {
						hd.fedCt = cloneCt(act.fedCt)
					}
					if act.fedTr != nil {
						hd.fedTr = &trlwe.TRLWELv1{A: append([]Torus(nil), act.fedTr.A...), B: append([]Torus(nil), act.fedTr.B...)}
					}
					segs := h.take(act)
					hd.segs = segs
					hd.val, hd.fval = segVals(segs)
					hd.born, hd.bornF = append([]Torus(nil), hd.val...), append([]float64(nil), hd.fval...)
					mine = append(mine, hd)
					live = append(live, hd)
					if scrib[a][i] && h.ring == ringNone {
						k := 0
						for _, s := range segs {
							for q := range s.t {
								s.t[q] = Torus(0xdeadbeef + q)
								hd.val[k] = s.t[q]
								k++
							}
						}
						k = 0
						for _, s := range segs {
							for q := range s.f {
								s.f[q] = 1e300
								hd.fval[k] = 1e300
								k++
							}
						}
						vsim.Count("fault:result overwritten by its owner")
					}
					for k, o := range mine {
						if len(mine)-k > 100 && i%64 != 63 {
							continue // all at the end, and now and then
						}
						if !o.expired && !o.intact() {
							r.Fail("result-changed", "a result of %s (actor%d) changed during a later %s", o.h.name, a, h.name)
						}
					}
				}
			}))
		}
		vsim.Join(ts...)
	})
	for _, h := range live {
		if !h.expired && !h.intact() {
			r.Fail("result-changed", "a result of %s (actor%d) changed after it was returned", h.h.name, h.actor)
		}
	}
	if pool.fingerprint() != fp {
		r.Fail("input-mutated", "overwriting a result, or a later call, changed an input")
	}
	overlap(r, pool, live)
	r.checkWorlds()
	// values, against solo runs
	r.reset()
	setLevel(w.Level)
	i := 0
	for _, h := range live {
		if h.h.rnd || (w.Real && i > 2) {
			continue
		}
		i++
		var t []Torus
		var f []float64
		h := h
		solo := newActor(0)
		solo.fedCt, solo.fedTr = h.fedCt, h.fedTr
		r.Inert(func() { t, f = segVals(h.h.take(solo)) })
		r.Eval(1)
		same := eqT(t, h.born) && len(f) == len(h.bornF)
		for q := range f {
			same = same && math.Float64bits(f[q]) == math.Float64bits(h.bornF[q])
		}
		if !same {
			r.Fail("differs-from-solo", "the result of %s (actor%d) differs from the same call run alone", h.h.name, h.actor)
		}
	}
}

// overlap: allocated results share memory with nothing.
func overlap(r *R, p *Pool, live []*handle) {
	type reg struct {
		lo, hi uintptr
		what   string
		pooled bool
	}
	var rs []reg
	add := func(s []seg, what string, pooled bool) {
		for _, x := range s {
			if len(x.t) > 0 {
				lo := uintptr(unsafe.Pointer(&x.t[0]))
				rs = append(rs, reg{lo, lo + uintptr(4*len(x.t)), what, pooled})
			}
			if len(x.f) > 0 {
				lo := uintptr(unsafe.Pointer(&x.f[0]))
				rs = append(rs, reg{lo, lo + uintptr(8*len(x.f)), what, pooled})
			}
		}
	}
	for _, h := range live {
		add(h.segs, "a result of "+h.h.name, h.h.ring != ringNone)
	}
	add(ctSeg(p.bits...), "an input", false)
	add(ctSeg(p.msgs...), "an input", false)
	add(trSeg(p.tr...), "an input", false)
	for _, t := range p.luts {
		add(trSeg(t.Poly), "a table", false)
	}
	for _, q := range p.pol {
		add([]seg{{t: q.Coeffs}}, "an input", false)
	}
	add([]seg{{t: p.w.sk.KeyLv0}, {t: p.w.sk.KeyLv1}, {t: p.w.ck.BlindRotateTestvec.B}}, "a key", false)
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	for i := 1; i < len(rs); i++ {
		r.Eval(1)
		if rs[i].lo < rs[i-1].hi && !(rs[i].pooled && rs[i-1].pooled) {
			r.Fail("shared-memory", "%s shares memory with %s", rs[i].what, rs[i-1].what)
		}
	}
}

// ---------------------------------------------------------------- C09

func c09real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	c09(r, r.world(l, 0), 3)
}

func c09(r *R, w *World, maxOps int) { c09run(r, w, maxOps, false) }

func c09run(r *R, w *World, maxOps int, storm bool) {
	fam := famAll
	if maxOps < 0 {
		maxOps = -maxOps
		fam = famGate | famBatch | famPBS
	}
	var pool *Pool
	r.Inert(func() { pool = mkPool(r, w, true) })
	nact := 1 + r.P.N(3)
	if w.Real {
		nact = 1
	}
	calls := make([][]*call, nact)
	modes := make([]int, nact)
	for a := range calls {
		modes[a] = r.P.N(2)
		if storm {
			// the same failure over and over, as a client that retries causes it
			k := 5 << r.P.N(5)
			op := r.drawFault(pool)
			for i := 0; i < k; i++ {
				calls[a] = append(calls[a], &call{op: op})
			}
			r.Planf("actor%d %d times %s", a, k, op.name)
		}
		for i, n := 0, 2+r.P.N(maxOps); i < n; i++ {
			var op *Op
			if !storm && i < n-1 && r.P.N(2) == 1 {
				op = r.drawFault(pool)
			} else {
				op = r.drawOp(pool, fam)
			}
			calls[a] = append(calls[a], &call{op: op})
			r.Planf("actor%d.%d %s", a, i, op.name)
		}
	}
	r.reset()
	setLevel(w.Level)
	fp := pool.fingerprint()
	inFault := 0
	res := r.Sim(simOpt{allowCrash: true}, func() {
		var ts []*vsim.Task
		for a := range calls {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				act := newActor(modes[a])
				for i, c := range calls[a] {
					vsim.Note("call %d %s", i, c.op.name)
					if c.op.fault {
						inFault++
						if e := vsim.Try(func() { c.op.run(act) }); e != nil {
							vsim.Count("fault:failed call")
							vsim.Note("failed: %v", e)
						}
						inFault--
						continue
					}
					c.out = c.op.run(act)
				}
			}))
		}
		vsim.Join(ts...)
	})
	if res.Crash != "" {
		if inFault == 0 {
			r.Fail("crash", "a panic nobody recovers in %s: %s", res.CrashTask, res.Crash)
		}
		r.Count("skipped: process died in a failing call", 1)
		return
	}
	if pool.fingerprint() != fp {
		r.Fail("input-mutated", "an input, table or generator changed")
	}
	r.solo(w, calls)
}

// ---------------------------------------------------------------- C12

func c12real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	c12(r, r.world(l, 0), 1)
}

type parOp struct {
	name string
	run  func() []seg
	n    int
}

func (r *R) drawPar(w *World, in []*wire, wide int) *parOp {
	c := r.P
	b := func() *tlwe.TLWELv0 { return in[c.N(len(in))].ct }
	n := batchSizes[c.N(11)]
	if wide > 0 {
		n = batchSizes[c.N(len(batchSizes))]
	}
	if w.Real {
		n = 1 + c.N(3)
	}
	switch c.N(5) {
	case 0:
		if !w.Real && w.N <= 64 {
			return &parOp{name: "NewCloudKey", run: func() []seg { return ckSegs(cloudkey.NewCloudKey(w.sk)) }, n: -1}
		}
		fallthrough
	case 1:
		var src []*tlwe.TLWELv0
		for i := 0; i < n; i++ {
			src = append(src, b())
		}
		return &parOp{name: fmt.Sprintf("BatchBlindRotate(%d)", n), n: n, run: func() []seg {
			out := trgsw.BatchBlindRotate(src, w.ck.BlindRotateTestvec, w.ck.BootstrappingKey, w.ck.DecompositionOffset)
			for i, o := range out {
				if o == nil {
					r.Fail("incomplete", "BatchBlindRotate returned before result %d was there", i)
				}
			}
			return trSeg(out...)
		}}
	}
	g := batchFns[c.N(len(batchFns))]
	var prs [][2]*tlwe.TLWELv0
	for i := 0; i < n; i++ {
		prs = append(prs, [2]*tlwe.TLWELv0{b(), b()})
	}
	return &parOp{name: fmt.Sprintf("%s(%d)", g.name, n), n: n, run: func() []seg {
		out := g.f(prs, w.ck)
		for i, o := range out {
			if o == nil {
				r.Fail("incomplete", "%s returned before result %d was there", g.name, i)
			}
		}
		return ctSeg(out...)
	}}
}

func c12wide(r *R) {
	if r.strat.PreemptMean == 20 {
		r.strat.PreemptMean = 150
	}
	w := r.world(smallLevels[r.P.N(2)], r.P.N(3))
	c12run(r, w, 4+r.P.N(4), 1, 1)
}

func c12(r *R, w *World, maxOps int) {
	nact := 1 + r.P.N(3)
	if w.Real {
		nact = 2
	}
	c12run(r, w, nact, maxOps, 0)
}

func c12run(r *R, w *World, nact, maxOps, wide int) {
	var in []*wire
	r.Inert(func() { in = r.inputs(w, 5) })
	plans := make([][]*parOp, nact)
	for a := range plans {
		for i, n := 0, 1+r.P.N(maxOps); i < n; i++ {
			o := r.drawPar(w, in, wide)
			plans[a] = append(plans[a], o)
			r.Planf("actor%d.%d %s", a, i, o.name)
		}
	}
	// how much work is it when nothing interferes?
	r.reset()
	setLevel(w.Level)
	ref := r.Sim(simOpt{inert: true}, func() {
		for _, ops := range plans {
			for _, o := range ops {
				o.run()
			}
		}
	})
	inFp := func() uint64 {
		h := uint64(3)
		for _, x := range in {
			h = hashT(h, x.ct.P)
		}
		return h
	}
	fp := inFp()
	r.reset()
	setLevel(w.Level)
	limit := 4*ref.Ticks + 300000
	r.Planf("step bound %d", limit)
	r.Sim(simOpt{cap: limit}, func() {
		var ts []*vsim.Task
		for a := range plans {
			a := a
			ts = append(ts, vsim.SpawnGroup(100+a, fmt.Sprintf("actor%d", a), func() {
				for i, o := range plans[a] {
					vsim.Note("%d %s", i, o.name)
					segs := o.run()
					// the caller now owns the results and overwrites them
					for _, s := range segs {
						for q := range s.t {
							s.t[q] = 0x5eed5eed
						}
						for q := range s.f {
							s.f[q] = -1e111
						}
					}
					before := vsim.GroupTicks(100 + a)
					left, blocked := vsim.QuiesceGroup(100 + a)
					used := vsim.GroupTicks(100+a) - before
					r.Eval(1)
					if blocked != "" {
						r.Fail("leak", "%s returned and left a goroutine blocked: %s", o.name, blocked)
					}
					if used > int64(40*(left+1)) {
						r.Fail("still-running", "%s returned while %d goroutines of its own were still at work (%d more statements)", o.name, left, used)
					}
					for _, s := range segs {
						for q := range s.t {
							if s.t[q] != 0x5eed5eed {
								r.Fail("late-write", "a goroutine of %s wrote to a result after the call had returned", o.name)
							}
						}
						for q := range s.f {
							if s.f[q] != -1e111 {
								r.Fail("late-write", "a goroutine of %s wrote to a key after the call had returned", o.name)
							}
						}
					}
				}
			}))
		}
		vsim.Join(ts...)
	})
	if inFp() != fp {
		r.Fail("input-mutated", "an input changed")
	}
}

// ---------------------------------------------------------------- C14

func c14real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 50000
	n := 6
	if l.N > 1024 {
		n = 4
	}
	c14(r, r.world(l, 0), n)
}

func c14(r *R, w *World, maxOps int) {
	var pool *Pool
	r.Inert(func() { pool = mkPool(r, w, true) })
	nact := 1 + r.P.N(3)
	fam := []int{famLow | famPoly, famLow, famPoly, famLow | famPoly | famPBS, famLow | famPoly | famCrypt}[r.P.N(5)]
	if w.Real {
		nact, fam = 2, famLow|famPoly
	}
	calls := make([][]*call, nact)
	modes := make([]int, nact)
	for a := range calls {
		modes[a] = r.P.N(2)
		for i, n := 0, maxOps/2+r.P.N(maxOps); i < n; i++ {
			op := r.drawOp(pool, fam)
			calls[a] = append(calls[a], &call{op: op})
			if i < 40 {
				r.Planf("actor%d.%d %s", a, i, op.name)
			}
		}
	}
	r.reset()
	setLevel(w.Level)
	fp := pool.fingerprint()
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for a := range calls {
			a := a
			ts = append(ts, vsim.Spawn(fmt.Sprintf("actor%d", a), func() {
				act := newActor(modes[a])
				for i, c := range calls[a] {
					vsim.Note("call %d %s", i, c.op.name)
					c.out = c.op.run(act)
				}
			}))
		}
		vsim.Join(ts...)
	})
	if pool.fingerprint() != fp {
		r.Fail("input-mutated", "an input changed")
	}
	r.solo(w, calls)
}

var _ = evaluator.NewEvaluator
var _ = poly.NewPoly
