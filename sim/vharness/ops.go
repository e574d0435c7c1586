//go:build go1.23

package main

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

// ---------------------------------------------------------------- noise bounds

// sdKS is the standard deviation of what key switching adds.
func (l *Level) sdKS() float64 {
	prec := math.Exp2(-float64(l.KBit*l.KT + 1))
	return math.Sqrt(float64(l.N*l.KT)*l.A0*l.A0 + float64(l.N)/2*prec*prec/3)
}

// sdEP is the standard deviation of what one external product adds to a coefficient.
func (l *Level) sdEP() float64 {
	bg := math.Exp2(float64(l.BgBit))
	prec := math.Exp2(-float64(l.L*l.BgBit + 1))
	q := math.Exp2(-32)
	a1 := math.Max(l.A1, q)
	// accumulated rounding of double precision in the transform
	fft := bg / 2 * math.Sqrt(float64(2*l.L*l.N)) * math.Exp2(-53) * 8
	// the gadget decomposition truncates: its error is not centred
	bias := float64(l.N) / 2 * prec
	return math.Sqrt(float64(2*l.L*l.N)*bg*bg/12*a1*a1 + (float64(l.N)/2+1)*prec*prec*4/3 + fft*fft + bias*bias/4)
}

func (l *Level) sdBR() float64 { return math.Sqrt(float64(l.N0)) * l.sdEP() }

// tolBoot bounds the noise of a bootstrapped ciphertext (ten standard deviations).
func (l *Level) tolBoot() float64 {
	return 10*math.Hypot(l.sdKS(), l.sdBR()) + 1e-5
}

func (l *Level) tolEP() float64 { return 10*l.sdEP() + 12*l.A1 + 1e-6 }
func (l *Level) tolBR() float64 { return 10*l.sdBR() + 12*l.A1 + float64(l.N0)*1e-9 + 1e-6 }
func (l *Level) tolKS() float64 { return 10*l.sdKS() + 12*l.A1 + 1e-6 }

// roundPhase is the position in [0,2N) the mod-switched ciphertext points at.
func (w *World) roundPhase(p []Torus) int {
	n2 := 2 * w.N
	rd := func(t Torus) int { return int((uint64(t)*uint64(n2) + 1<<31) >> 32) }
	v := rd(p[w.N0])
	for i := 0; i < w.N0; i++ {
		if w.sk.KeyLv0[i] != 0 {
			v -= rd(p[i])
		}
	}
	return ((v % n2) + n2) % n2
}

// slotOK: does the ciphertext's rounded phase lie safely inside the slot of
// message x? (At real parameter sets rounding can, rarely, leave it.)
func (w *World) slotOK(p []Torus, x, m int) bool {
	// distances in units of 1/2m of a position
	n2 := 2 * w.N * 2 * m
	d := ((w.roundPhase(p)*2*m-2*x*w.N)%n2 + n2) % n2
	if d > n2/2 {
		d = n2 - d
	}
	return d <= w.N-2*m // at least one position away from the border of the slot
}

// rotCoeff is coefficient j of X^-p * tv (negacyclic).
func rotCoeff(tv []Torus, p, j int) Torus {
	n := len(tv)
	k := (p + j) % (2 * n)
	if k < n {
		return tv[k]
	}
	return -tv[k-n]
}

// phase1 is coefficient k of B - A*s for a ring ciphertext.
func phase1(a, b, s []Torus, k int) Torus {
	n := len(s)
	ph := b[k]
	for i := 0; i < n; i++ {
		if s[i] != 0 {
			if i <= k {
				ph -= a[k-i]
			} else {
				ph += a[n+k-i]
			}
		}
	}
	return ph
}

func coeffSample(n int) []int {
	if n <= 128 {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	return []int{0, 1, n / 4, n/2 - 1, n / 2, n - 2, n - 1}
}

// ---------------------------------------------------------------- material

// Pool is the shared, read-only input material of a run at one world.
type Pool struct {
	w     *World
	bits  []*tlwe.TLWELv0
	bval  []bool
	m     int
	msgs  []*tlwe.TLWELv0
	mval  []int
	m2    int // a modulus of its own for custom tables
	msgs2 []*tlwe.TLWELv0
	mval2 []int
	tr    []*trlwe.TRLWELv1
	trv   [][]bool
	tg    []*trgsw.TRGSWLv1FFT
	tgv   []bool
	l1    []*tlwe.TLWELv1
	l1v   []bool
	pol   []poly.Poly // random torus polynomials
	pols  []poly.Poly // small polynomials
	luts  []*lut.LookUpTable
	lutf  [][]int
	lutm  []int
	sk2   []Torus
	re    *proxyreenc.ProxyReencryptionKey
	pk    *proxyreenc.PublicKeyLv0
	bools []bool
	baseE *evaluator.Evaluator
	baseP *poly.Evaluator
	gen   *lut.Generator
}

// mkPool draws material; must run inside a (usually inert) simulation.
func mkPool(r *R, w *World, low bool) *Pool {
	p := &Pool{w: w}
	for i := 0; i < 5; i++ {
		b := i%2 == 1
		p.bits = append(p.bits, w.enc(b))
		p.bval = append(p.bval, b)
	}
	// a trivial and a bootstrapped one as well
	p.bits = append(p.bits, gates.Constant(true), gates.Constant(false))
	p.bval = append(p.bval, true, false)
	// and two that differ from another one in a single word
	for i := 0; i < 2; i++ {
		p.bits = append(p.bits, r.sibling(w, p.bits[i], p.bval[i]))
		p.bval = append(p.bval, !p.bval[i])
	}
	if !w.Real {
		for i := 0; i < 2; i++ {
			p.bits = append(p.bits, r.craft(w, pm(i == 0)))
			p.bval = append(p.bval, i == 0)
		}
	}
	p.m = 2
	for p.m*2 <= w.MaxM && r.P.N(3) != 0 {
		p.m *= 2
	}
	for i := 0; i < 4; i++ {
		x := (i*7 + r.P.N(p.m)) % p.m
		p.msgs = append(p.msgs, w.encMsg(x, p.m))
		p.mval = append(p.mval, x)
	}
	sib := cloneCt(p.msgs[0])
	p.msgs = append(p.msgs, sib)
	p.mval = append(p.mval, p.mval[0]-1)
	if p.mval[0] == 0 {
		sib.P[w.N0] = p.msgs[0].P[w.N0] + Torus((1<<31)/uint64(p.m))
		p.mval[len(p.mval)-1] = 1
	} else {
		sib.P[w.N0] = p.msgs[0].P[w.N0] - Torus((1<<31)/uint64(p.m))
	}
	p.m2 = 2 + r.P.N(w.MaxM-1)
	for i := 0; i < 2; i++ {
		x := r.P.N(p.m2)
		p.msgs2 = append(p.msgs2, w.encMsg(x, p.m2))
		p.mval2 = append(p.mval2, x)
	}
	p.gen = lut.NewGenerator(p.m)
	for i := 0; i < 3; i++ {
		f := r.drawTable(p.m)
		p.luts = append(p.luts, p.gen.GenLookUpTable(tableFn(f)))
		p.lutf = append(p.lutf, f)
		p.lutm = append(p.lutm, p.m)
	}
	p.baseE = evaluator.NewEvaluator(w.N)
	p.baseP = poly.NewEvaluator(w.N)
	if !low {
		return p
	}
	for i := 0; i < 3; i++ {
		v := make([]bool, w.N)
		x := r.P.N(1 << 30)
		for j := range v {
			v[j] = (x>>(j%30))&1 == 1
		}
		p.tr = append(p.tr, trlwe.NewTRLWELv1().EncryptBool(v, w.A1, w.sk.KeyLv1, p.baseP))
		p.trv = append(p.trv, v)
	}
	{
		k := r.P.N(w.N)
		v := append([]bool(nil), p.trv[0]...)
		v[k] = !v[k]
		t := &trlwe.TRLWELv1{A: append([]Torus(nil), p.tr[0].A...), B: append([]Torus(nil), p.tr[0].B...)}
		if v[k] {
			t.B[k] += 1 << 30
		} else {
			t.B[k] -= 1 << 30
		}
		p.tr, p.trv = append(p.tr, t), append(p.trv, v)
	}
	for i := 0; i < 2; i++ {
		p.tg = append(p.tg, trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(Torus(i), w.A1, w.sk.KeyLv1, p.baseP), p.baseP))
		p.tgv = append(p.tgv, i == 1)
		p.l1 = append(p.l1, tlwe.NewTLWELv1().EncryptBool(i == 1, w.A1, w.sk.KeyLv1))
		p.l1v = append(p.l1v, i == 1)
	}
	s := uint64(r.P.N(1<<30)) + 1
	for i := 0; i < 2; i++ {
		a, b := poly.NewPoly(w.N), poly.NewPoly(w.N)
		for j := 0; j < w.N; j++ {
			s = s*6364136223846793005 + 1442695040888963407
			a.Coeffs[j] = Torus(s >> 32)
			b.Coeffs[j] = Torus(int32(s>>61) - 3)
		}
		p.pol = append(p.pol, a)
		p.pols = append(p.pols, b)
	}
	for i, k := 0, r.P.N(w.N); i < 1; i++ {
		a, b := p.pol[0].Copy(), p.pols[0].Copy()
		a.Coeffs[k] += 12345678
		b.Coeffs[k] += 2
		p.pol, p.pols = append(p.pol, a), append(p.pols, b)
	}
	p.l1 = append(p.l1, &tlwe.TLWELv1{P: append([]Torus(nil), p.l1[1].P...)})
	p.l1v = append(p.l1v, false)
	for k := r.P.N(w.N); ; k++ {
		if k >= w.N {
			p.l1[2].P[w.N] -= 1 << 30
			break
		}
		if w.sk.KeyLv1[k] == 1 {
			p.l1[2].P[k] += 1 << 30
			break
		}
	}
	p.l1 = append(p.l1, r.craft1(w, true))
	p.l1v = append(p.l1v, true)
	p.tr, p.trv = append(p.tr, r.craftR(w, p.trv[1])), append(p.trv, p.trv[1])
	p.sk2 = make([]Torus, w.N0)
	for j := range p.sk2 {
		s = s*6364136223846793005 + 1442695040888963407
		p.sk2[j] = Torus(s>>63) & 1
	}
	p.pk = proxyreenc.NewPublicKeyLv0WithParams(w.sk.KeyLv0, 6, math.Min(w.A0, 1e-6))
	p.bools = []bool{true, false, true, true, false}
	p.re = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.sk.KeyLv0, p.sk2, 1e-7, 3, 5)
	return p
}

func (r *R) drawTable(m int) []int {
	f := make([]int, m)
	switch r.P.N(4) {
	case 0:
		for i := range f {
			f[i] = i
		}
	case 1:
		c := r.P.N(m)
		for i := range f {
			f[i] = c
		}
	default:
		for i := range f {
			f[i] = r.P.N(m)
		}
	}
	return f
}

func tableFn(f []int) func(int) int { return func(x int) int { return f[x%len(f)] } }

// fingerprint of everything in the pool: inputs must never change.
func (p *Pool) fingerprint() uint64 {
	h := uint64(1469598103934665603)
	for _, c := range p.bits {
		h = hashT(h, c.P)
	}
	for _, c := range p.msgs {
		h = hashT(h, c.P)
	}
	for _, c := range p.msgs2 {
		h = hashT(h, c.P)
	}
	for _, c := range p.tr {
		h = hashT(hashT(h, c.A), c.B)
	}
	for _, c := range p.tg {
		for _, x := range c.TRLWEFFT {
			h = hashF(hashF(h, x.A.Coeffs), x.B.Coeffs)
		}
	}
	for _, c := range p.l1 {
		h = hashT(h, c.P)
	}
	for _, c := range p.pol {
		h = hashT(h, c.Coeffs)
	}
	for _, c := range p.pols {
		h = hashT(h, c.Coeffs)
	}
	for _, c := range p.luts {
		h = hashT(hashT(h, c.Poly.A), c.Poly.B)
	}
	if p.re != nil {
		h = hashT(h, p.sk2)
		for _, c := range p.re.KeyEncryptions {
			h = hashT(h, c.P)
		}
		h = (h ^ uint64(p.re.Base)<<8 ^ uint64(p.re.T)) * 1099511628211
		for _, c := range p.pk.Encryptions {
			h = hashT(h, c.P)
		}
		for i, b := range p.bools {
			if b {
				h ^= 1 << i
			}
		}
	}
	h = (h ^ uint64(p.gen.Encoder.MessageModulus) ^ math.Float64bits(p.gen.Encoder.Scale) ^ uint64(p.gen.PolyDegree)<<20 ^ uint64(p.gen.LookUpTableSize)<<36) * 1099511628211
	return h
}

// ---------------------------------------------------------------- actors

// Actor is one caller with evaluators of its own.
type Actor struct {
	ev map[string]*evaluator.Evaluator
	pe map[string]*poly.Evaluator
	mk int // 0: new evaluators; 1: shallow copies of the pool's
	// slots are objects of the caller's own that it fills in again for every
	// call, as programs that avoid allocation do
	slots map[string]any
	srcs  []*tlwe.TLWELv0
	pairs [][2]*tlwe.TLWELv0
	used  []func() bool
	dirty string // a call changed one of its inputs
	fedCt *tlwe.TLWELv0
	fedTr *trlwe.TRLWELv1
}

// slot returns the actor's own object number k of the kind, if use is set.
func slot[T any](a *Actor, use bool, k int, kind string, src *T, clone func(*T) *T, set func(dst, src *T), same func(x, y *T) bool) *T {
	if !use || src == nil {
		return src
	}
	if a.slots == nil {
		a.slots = map[string]any{}
	}
	key := fmt.Sprintf("%s/%d", kind, k)
	o, _ := a.slots[key].(*T)
	if o == nil {
		o = clone(src)
		a.slots[key] = o
	} else {
		set(o, src)
	}
	a.used = append(a.used, func() bool { return same(o, src) })
	return o
}

func (a *Actor) ct(p *Pool, use bool, k int, src *tlwe.TLWELv0) *tlwe.TLWELv0 {
	return slot(a, use, k, p.w.Name+"ct", src, cloneCt, func(d, s *tlwe.TLWELv0) { copy(d.P, s.P) },
		func(x, y *tlwe.TLWELv0) bool { return eqT(x.P, y.P) })
}

func (a *Actor) ct1(p *Pool, use bool, k int, src *tlwe.TLWELv1) *tlwe.TLWELv1 {
	return slot(a, use, k, p.w.Name+"ct1", src, func(s *tlwe.TLWELv1) *tlwe.TLWELv1 { return &tlwe.TLWELv1{P: append([]Torus(nil), s.P...)} },
		func(d, s *tlwe.TLWELv1) { copy(d.P, s.P) },
		func(x, y *tlwe.TLWELv1) bool { return eqT(x.P, y.P) })
}

func (a *Actor) tr(p *Pool, use bool, k int, src *trlwe.TRLWELv1) *trlwe.TRLWELv1 {
	return slot(a, use, k, p.w.Name+"tr", src,
		func(s *trlwe.TRLWELv1) *trlwe.TRLWELv1 {
			return &trlwe.TRLWELv1{A: append([]Torus(nil), s.A...), B: append([]Torus(nil), s.B...)}
		},
		func(d, s *trlwe.TRLWELv1) { copy(d.A, s.A); copy(d.B, s.B) },
		func(x, y *trlwe.TRLWELv1) bool { return eqT(x.A, y.A) && eqT(x.B, y.B) })
}

func (a *Actor) lut(p *Pool, use bool, k int, src *lut.LookUpTable) *lut.LookUpTable {
	return slot(a, use, k, p.w.Name+"lut", src, func(s *lut.LookUpTable) *lut.LookUpTable { return s.Copy() },
		func(d, s *lut.LookUpTable) { copy(d.Poly.A, s.Poly.A); copy(d.Poly.B, s.Poly.B) },
		func(x, y *lut.LookUpTable) bool { return eqT(x.Poly.A, y.Poly.A) && eqT(x.Poly.B, y.Poly.B) })
}

func (a *Actor) pol(p *Pool, use bool, k int, src poly.Poly) poly.Poly {
	return *slot(a, use, k, p.w.Name+"pol", &src, func(s *poly.Poly) *poly.Poly { o := s.Copy(); return &o },
		func(d, s *poly.Poly) { copy(d.Coeffs, s.Coeffs) },
		func(x, y *poly.Poly) bool { return eqT(x.Coeffs, y.Coeffs) })
}

// settle notes whether the call just made left the actor's own inputs alone.
func (a *Actor) settle(what string) {
	for _, f := range a.used {
		if !f() && a.dirty == "" {
			a.dirty = what
		}
	}
	a.used = a.used[:0]
}

func newActor(mode int) *Actor {
	return &Actor{ev: map[string]*evaluator.Evaluator{}, pe: map[string]*poly.Evaluator{}, mk: mode}
}

func (a *Actor) Ev(p *Pool) *evaluator.Evaluator {
	e := a.ev[p.w.Name]
	if e == nil {
		if a.mk == 1 {
			e = p.baseE.ShallowCopy()
		} else {
			e = evaluator.NewEvaluator(p.w.N)
		}
		a.ev[p.w.Name] = e
	}
	return e
}

func (a *Actor) Pe(p *Pool) *poly.Evaluator {
	e := a.pe[p.w.Name]
	if e == nil {
		if a.mk == 1 {
			e = p.baseP.ShallowCopy()
		} else {
			e = poly.NewEvaluator(p.w.N)
		}
		a.pe[p.w.Name] = e
	}
	return e
}

// Op is one library call with its oracle.
type Op struct {
	name  string
	par   bool // runs goroutines of its own
	rnd   bool // draws randomness: the result is checked but not reproducible
	fault bool // a call that is expected to fail
	ins   func() uint64
	run   func(a *Actor) []Torus
	check func(r *R, what string, out []Torus)
}

type gate2 struct {
	name string
	f    func(a, b *tlwe.TLWELv0, ck *cloudkey.CloudKey) *tlwe.TLWELv0
	t    func(a, b bool) bool
}

var gates2 = []gate2{
	{"NAND", gates.NAND, func(a, b bool) bool { return !(a && b) }},
	{"AND", gates.AND, func(a, b bool) bool { return a && b }},
	{"OR", gates.OR, func(a, b bool) bool { return a || b }},
	{"XOR", gates.XOR, func(a, b bool) bool { return a != b }},
	{"NOR", gates.NOR, func(a, b bool) bool { return !(a || b) }},
	{"XNOR", gates.XNOR, func(a, b bool) bool { return a == b }},
	{"ANDNY", gates.ANDNY, func(a, b bool) bool { return !a && b }},
	{"ANDYN", gates.ANDYN, func(a, b bool) bool { return a && !b }},
	{"ORNY", gates.ORNY, func(a, b bool) bool { return !a || b }},
	{"ORYN", gates.ORYN, func(a, b bool) bool { return a || !b }},
}

var batchFns = []struct {
	name string
	f    func(in [][2]*tlwe.TLWELv0, ck *cloudkey.CloudKey) []*tlwe.TLWELv0
	t    func(a, b bool) bool
}{
	{"BatchNAND", gates.BatchNAND, gates2[0].t},
	{"BatchAND", gates.BatchAND, gates2[1].t},
	{"BatchOR", gates.BatchOR, gates2[2].t},
	{"BatchXOR", gates.BatchXOR, gates2[3].t},
	{"BatchNOR", gates.BatchNOR, gates2[4].t},
	{"BatchXNOR", gates.BatchXNOR, gates2[5].t},
}

func flat(cs ...*tlwe.TLWELv0) []Torus {
	var o []Torus
	for _, c := range cs {
		if c == nil {
			o = append(o, 0xdeadbeef)
			continue
		}
		o = append(o, c.P...)
	}
	return o
}

func (r *R) bitsFlat(w *World, what string, out []Torus, want []bool, tol float64) {
	if len(out) != len(want)*(w.N0+1) {
		r.Fail("malformed", "%s: %d words returned, want %d ciphertexts of %d", what, len(out), len(want), w.N0+1)
	}
	for i, b := range want {
		r.bit(w, fmt.Sprintf("%s[%d]", what, i), &tlwe.TLWELv0{P: out[i*(w.N0+1) : (i+1)*(w.N0+1)]}, b, tol)
	}
}

// msg checks an encryption of message y modulo m.
func (r *R) msg(w *World, what string, out []Torus, y, m int) {
	r.Eval(1)
	if len(out) != w.N0+1 {
		r.Fail("malformed", "%s: wrong size", what)
	}
	ph := phase(out, w.sk.KeyLv0)
	want := float64(y) / float64(2*m)
	tol := math.Min(w.tolBoot(), 1/float64(4*m))
	if d := dist(ph, want); d > tol {
		r.Fail("wrong-value", "%s: phase %.5f decodes to %.2f, want message %d of %d (off by %.5f, allowed %.5f)", what, tf(ph), math.Mod(tf(ph)*2*float64(m)+2*float64(m), 2*float64(m)), y, m, d, tol)
	}
	if got := (&tlwe.TLWELv0{P: out}).DecryptLWEMessage(m, w.sk.KeyLv0); got != y {
		r.Fail("wrong-value", "%s: DecryptLWEMessage gives %d, want %d", what, got, y)
	}
}

const (
	famGate = 1 << iota
	famBatch
	famPBS
	famLow
	famPoly
	famMisc
	famCrypt
	famAll = 127
)

// drawOp plans one operation on the pool.
func (r *R) drawOp(p *Pool, fam int) *Op {
	op := r.drawOp1(p, fam)
	run, pre := op.run, r.P.N(16)
	op.run = func(a *Actor) []Torus {
		// housekeeping a caller may do between calls; it has no result
		switch pre {
		case 13:
			a.Ev(p).ResetBuffers()
		case 14:
			a.Pe(p).ResetRotationPool()
		case 15:
			a.Pe(p).ResetTRLWEPool()
		}
		a.used = a.used[:0]
		o := run(a)
		a.settle(op.name)
		return o
	}
	return op
}

func (r *R) drawOp1(p *Pool, fam int) *Op {
	w := p.w
	u := r.P.N(3) == 2
	c := r.P
	var kinds []int
	for i := 0; i < 7; i++ {
		if fam&(1<<i) != 0 {
			kinds = append(kinds, 1<<i)
		}
	}
	bi := func() int { return c.N(len(p.bits)) }
	tolB := w.tolBoot()
	switch kinds[c.N(len(kinds))] {
	case famGate:
		if c.N(8) == 7 {
			i, j, k := bi(), bi(), bi()
			want := p.bval[k]
			if p.bval[i] {
				want = p.bval[j]
			}
			return &Op{name: fmt.Sprintf("MUX(b%d,b%d,b%d)", i, j, k),
				run: func(a *Actor) []Torus {
					return flat(gates.MUX(a.ct(p, u, 0, p.bits[i]), a.ct(p, u, 1, p.bits[j]), a.ct(p, u, 2, p.bits[k]), w.ck))
				},
				check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{want}, tolB) }}
		}
		g := gates2[c.N(len(gates2))]
		i, j := bi(), bi()
		want := g.t(p.bval[i], p.bval[j])
		return &Op{name: fmt.Sprintf("%s(b%d,b%d)", g.name, i, j),
			run:   func(a *Actor) []Torus { return flat(g.f(a.ct(p, u, 0, p.bits[i]), a.ct(p, u, 1, p.bits[j]), w.ck)) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{want}, tolB) }}
	case famBatch:
		n := c.N(6)
		if c.N(12) == 11 {
			n = 7 + c.N(20)
		}
		if c.N(6) == 5 {
			// batch blind rotation itself
			var in []*tlwe.TLWELv0
			for i := 0; i < n; i++ {
				in = append(in, p.bits[bi()])
			}
			in0 := in
			return &Op{name: fmt.Sprintf("BatchBlindRotate(%d)", n), par: true,
				ins: func() uint64 {
					h := uint64(len(in))
					for _, c := range in {
						h = ptrHash(h, c)
					}
					return h
				},
				run: func(a *Actor) []Torus {
					var o []Torus
					in := in
					if u {
						in = a.srcs[:0]
						for i, c := range in0 {
							in = append(in, a.ct(p, true, i, c))
						}
						a.srcs = in
					}
					for _, t := range trgsw.BatchBlindRotate(in, w.ck.BlindRotateTestvec, w.ck.BootstrappingKey, w.ck.DecompositionOffset) {
						o = append(append(o, t.A...), t.B...)
					}
					return o
				},
				check: func(r *R, what string, o []Torus) {
					if len(o) != n*2*w.N {
						r.Fail("malformed", "%s: %d words, want %d", what, len(o), n*2*w.N)
					}
					for i, ct := range in {
						r.rotated(w, fmt.Sprintf("%s[%d]", what, i), o[i*2*w.N:(i+1)*2*w.N], w.ck.BlindRotateTestvec.B, w.roundPhase(ct.P))
					}
				}}
		}
		g := batchFns[c.N(len(batchFns))]
		var in [][2]*tlwe.TLWELv0
		var want []bool
		for i := 0; i < n; i++ {
			x, y := bi(), bi()
			in = append(in, [2]*tlwe.TLWELv0{p.bits[x], p.bits[y]})
			want = append(want, g.t(p.bval[x], p.bval[y]))
		}
		return &Op{name: fmt.Sprintf("%s(%d)", g.name, n), par: true,
			ins: func() uint64 {
				h := uint64(len(in))
				for _, c := range in {
					h = ptrHash(ptrHash(h, c[0]), c[1])
				}
				return h
			},
			run: func(a *Actor) []Torus {
				if !u {
					return flat(g.f(in, w.ck)...)
				}
				// the caller's own slice and ciphertexts, filled in again
				prs := a.pairs[:0]
				for i, c := range in {
					prs = append(prs, [2]*tlwe.TLWELv0{a.ct(p, true, 2*i, c[0]), a.ct(p, true, 2*i+1, c[1])})
				}
				a.pairs = prs
				return flat(g.f(prs, w.ck)...)
			},
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, want, tolB) }}
	case famPBS:
		return r.drawPBS(p)
	case famLow:
		return r.drawLow(p)
	case famPoly:
		return r.drawPoly(p)
	case famCrypt:
		return r.drawCrypt(p)
	}
	return r.drawMisc(p)
}

// rotated checks a blind rotation of test vector tv by position pos.
func (r *R) rotated(w *World, what string, o []Torus, tv []Torus, pos int) {
	r.Eval(1)
	a, b := o[:w.N], o[w.N:]
	for _, k := range coeffSample(w.N) {
		want := rotCoeff(tv, pos, k)
		got := phase1(a, b, w.sk.KeyLv1, k)
		if d := math.Abs(tf(got - want)); d > w.tolBR() {
			r.Fail("wrong-value", "%s: coefficient %d of the rotated test vector is %.5f, want %.5f (allowed error %.5f)", what, k, tf(got), tf(want), w.tolBR())
		}
	}
}

func (r *R) drawPBS(p *Pool) *Op {
	w, c := p.w, r.P
	u := c.N(3) == 2
	i := c.N(len(p.msgs))
	li := c.N(len(p.luts))
	x, m := p.mval[i], p.m
	y := p.lutf[li][x]
	ct := p.msgs[i]
	f := tableFn(p.lutf[li])
	bk, kk, off := w.ck.BootstrappingKey, w.ck.KeySwitchingKey, w.ck.DecompositionOffset
	safe := w.slotOK(ct.P, x, m)
	chk := func(r *R, what string, o []Torus) {
		if !safe {
			r.Count("skipped: rounding at the slot edge", 1)
			return
		}
		r.msg(w, what, o, y, m)
	}
	mk := func(n string, run func(a *Actor) []Torus) *Op {
		return &Op{name: fmt.Sprintf("%s(m%d=%d,lut%d)", n, i, x, li), run: run, check: chk}
	}
	switch c.N(11) {
	case 10: // a table for another modulus, on another scale, by the shared generator
		q := c.N(len(p.msgs2))
		m2, x2, ct2 := p.m2, p.mval2[q], p.msgs2[q]
		f2 := r.drawTable(m2)
		den := []int{2 * m2, 4 * m2, m2, 3 * m2}[c.N(4)]
		scale := 1 / float64(den)
		safe2 := w.slotOK(ct2.P, x2, m2)
		return &Op{name: fmt.Sprintf("GenLookUpTableCustom(%d,1/%d)+BootstrapLUT(m'%d=%d)", m2, den, q, x2),
			run: func(a *Actor) []Torus {
				t := p.gen.GenLookUpTableCustom(tableFn(f2), m2, scale)
				return flat(a.Ev(p).BootstrapLUT(a.ct(p, u, 0, ct2), t, bk, kk, off))
			},
			check: func(r *R, what string, o []Torus) {
				if !safe2 {
					r.Count("skipped: rounding at the slot edge", 1)
					return
				}
				r.torus(w, what, o, float64(f2[x2])*scale)
			}}
	case 8: // gate preparation on the evaluator, then a bootstrap
		q, j, k := c.N(4), c.N(len(p.bits)), c.N(len(p.bits))
		g := []int{0, 1, 2, 3}[q]
		return &Op{name: fmt.Sprintf("Prepare%s(b%d,b%d)+Bootstrap", gates2[g].name, j, k),
			run: func(a *Actor) []Torus {
				e := a.Ev(p)
				prep := []func(x, y *tlwe.TLWELv0) *tlwe.TLWELv0{e.PrepareNAND, e.PrepareAND, e.PrepareOR, e.PrepareXOR}[q](a.ct(p, u, 0, p.bits[j]), a.ct(p, u, 1, p.bits[k]))
				return flat(cloneCt(e.Bootstrap(prep, w.ck.BlindRotateTestvec, bk, kk, off)))
			},
			check: func(r *R, what string, o []Torus) {
				r.bitsFlat(w, what, o, []bool{gates2[g].t(p.bval[j], p.bval[k])}, w.tolBoot())
			}}
	case 0:
		return mk("BootstrapLUT", func(a *Actor) []Torus {
			return flat(a.Ev(p).BootstrapLUT(a.ct(p, u, 0, ct), a.lut(p, u, 0, p.luts[li]), bk, kk, off))
		})
	case 1:
		return mk("BootstrapLUTTemp", func(a *Actor) []Torus {
			return flat(cloneCt(a.Ev(p).BootstrapLUTTemp(a.ct(p, u, 0, ct), a.lut(p, u, 0, p.luts[li]), bk, kk, off)))
		})
	case 2:
		return mk("BootstrapLUTAssign", func(a *Actor) []Torus {
			o := dirtyCt(w)
			a.Ev(p).BootstrapLUTAssign(a.ct(p, u, 0, ct), a.lut(p, u, 0, p.luts[li]), bk, kk, off, o)
			return flat(o)
		})
	case 3:
		return mk("BootstrapFunc", func(a *Actor) []Torus { return flat(a.Ev(p).BootstrapFunc(a.ct(p, u, 0, ct), f, m, bk, kk, off)) })
	case 4:
		return mk("BootstrapFuncAssign", func(a *Actor) []Torus {
			o := dirtyCt(w)
			a.Ev(p).BootstrapFuncAssign(a.ct(p, u, 0, ct), f, m, bk, kk, off, o)
			return flat(o)
		})
	case 5: // a table generated on the spot by the shared generator
		return mk("GenLookUpTable+BootstrapLUT", func(a *Actor) []Torus {
			return flat(a.Ev(p).BootstrapLUT(a.ct(p, u, 0, ct), p.gen.GenLookUpTable(f), bk, kk, off))
		})
	case 6: // custom modulus and scale through the shared generator
		return mk("GenLookUpTableCustom+BootstrapLUT", func(a *Actor) []Torus {
			return flat(a.Ev(p).BootstrapLUT(a.ct(p, u, 0, ct), p.gen.GenLookUpTableCustom(f, m, 1/float64(2*m)), bk, kk, off))
		})
	case 7:
		return mk("GenLookUpTableFull+BootstrapLUT", func(a *Actor) []Torus {
			t := p.gen.GenLookUpTableFull(func(v int) Torus { return Torus(uint64(f(v)) << 31 / uint64(m)) })
			return flat(a.Ev(p).BootstrapLUT(a.ct(p, u, 0, ct), t, bk, kk, off))
		})
	default: // gate bootstrap: sign of the phase
		j := c.N(len(p.bits))
		if c.N(2) == 0 {
			return &Op{name: fmt.Sprintf("Bootstrap(b%d)", j),
				run: func(a *Actor) []Torus {
					return flat(cloneCt(a.Ev(p).Bootstrap(a.ct(p, u, 0, p.bits[j]), w.ck.BlindRotateTestvec, bk, kk, off)))
				},
				check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{p.bval[j]}, w.tolBoot()) }}
		}
		return &Op{name: fmt.Sprintf("BootstrapAssign(b%d)", j),
			run: func(a *Actor) []Torus {
				o := dirtyCt(w)
				a.Ev(p).BootstrapAssign(a.ct(p, u, 0, p.bits[j]), w.ck.BlindRotateTestvec, bk, kk, off, o)
				return flat(o)
			},
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{p.bval[j]}, w.tolBoot()) }}
	}
}

// dirtyCt is an output argument full of garbage: it must be overwritten.
func dirtyCt(w *World) *tlwe.TLWELv0 {
	o := tlwe.NewTLWELv0()
	for i := range o.P {
		o.P[i] = Torus(0xa5a5a5a5 + i*77)
	}
	return o
}

func dirtyTr(w *World) *trlwe.TRLWELv1 {
	o := trlwe.NewTRLWELv1()
	for i := range o.A {
		o.A[i] = Torus(0x5a5a5a5a + i*31)
		o.B[i] = Torus(0x3c3c3c3c + i*57)
	}
	return o
}

func trFlat(t *trlwe.TRLWELv1) []Torus { return append(append([]Torus(nil), t.A...), t.B...) }

func (r *R) ring(w *World, what string, o []Torus, want func(k int) float64, tol float64) {
	r.Eval(1)
	if len(o) != 2*w.N {
		r.Fail("malformed", "%s: %d words, want %d", what, len(o), 2*w.N)
	}
	for _, k := range coeffSample(w.N) {
		got := phase1(o[:w.N], o[w.N:], w.sk.KeyLv1, k)
		if d := dist(got, want(k)); d > tol {
			r.Fail("wrong-value", "%s: coefficient %d has phase %.6f, want %.6f (allowed error %.6f)", what, k, tf(got), want(k), tol)
		}
	}
}

func pm(b bool) float64 {
	if b {
		return 0.125
	}
	return -0.125
}

func (r *R) drawLow(p *Pool) *Op {
	w, c := p.w, r.P
	u := c.N(3) == 2
	off := w.ck.DecompositionOffset
	i, j, g := c.N(len(p.tr)), c.N(len(p.tr)), c.N(len(p.tg))
	sel := func(k int) float64 {
		if p.tgv[g] {
			return pm(p.trv[j][k])
		}
		return pm(p.trv[i][k])
	}
	prod := func(k int) float64 {
		if p.tgv[g] {
			return pm(p.trv[i][k])
		}
		return 0
	}
	switch c.N(9) {
	case 0:
		return &Op{name: fmt.Sprintf("ExternalProductWithFFT(g%d,t%d)", g, i),
			run: func(a *Actor) []Torus {
				return trFlat(trgsw.ExternalProductWithFFT(p.tg[g], a.tr(p, u, 0, p.tr[i]), off, a.Pe(p)))
			},
			check: func(r *R, what string, o []Torus) { r.ring(w, what, o, prod, w.tolEP()) }}
	case 1:
		return &Op{name: fmt.Sprintf("ExternalProductAssign(g%d,t%d)", g, i),
			run: func(a *Actor) []Torus {
				o := dirtyTr(w)
				a.Ev(p).ExternalProductAssign(p.tg[g], a.tr(p, u, 0, p.tr[i]), off, o)
				return trFlat(o)
			},
			check: func(r *R, what string, o []Torus) { r.ring(w, what, o, prod, w.tolEP()) }}
	case 2:
		return &Op{name: fmt.Sprintf("CMUX(t%d,t%d,g%d)", i, j, g),
			run: func(a *Actor) []Torus {
				return trFlat(trgsw.CMUX(a.tr(p, u, 0, p.tr[i]), a.tr(p, u, 1, p.tr[j]), p.tg[g], off, a.Pe(p)))
			},
			check: func(r *R, what string, o []Torus) { r.ring(w, what, o, sel, w.tolEP()+12*w.A1) }}
	case 3:
		return &Op{name: fmt.Sprintf("CMuxAssign(g%d,t%d,t%d)", g, i, j),
			run: func(a *Actor) []Torus {
				o := dirtyTr(w)
				a.Ev(p).CMuxAssign(p.tg[g], a.tr(p, u, 0, p.tr[i]), a.tr(p, u, 1, p.tr[j]), off, o)
				return trFlat(o)
			},
			check: func(r *R, what string, o []Torus) { r.ring(w, what, o, sel, w.tolEP()+12*w.A1) }}
	case 4:
		b, l := c.N(len(p.bits)), c.N(len(p.luts)+1)
		tv := w.ck.BlindRotateTestvec
		if l > 0 {
			tv = p.luts[l-1].Poly
		}
		pos := w.roundPhase(p.bits[b].P)
		return &Op{name: fmt.Sprintf("BlindRotate(b%d,tv%d)", b, l),
			run: func(a *Actor) []Torus {
				return trFlat(trgsw.BlindRotate(a.ct(p, u, 0, p.bits[b]), a.tr(p, u, 2, tv), w.ck.BootstrappingKey, off, a.Pe(p)))
			},
			check: func(r *R, what string, o []Torus) { r.rotated(w, what, o, tv.B, pos) }}
	case 5:
		b, l := c.N(len(p.bits)), c.N(len(p.luts)+1)
		tv := w.ck.BlindRotateTestvec
		if l > 0 {
			tv = p.luts[l-1].Poly
		}
		pos := w.roundPhase(p.bits[b].P)
		return &Op{name: fmt.Sprintf("BlindRotateAssign(b%d,tv%d)", b, l),
			run: func(a *Actor) []Torus {
				o := dirtyTr(w)
				a.Ev(p).BlindRotateAssign(a.ct(p, u, 0, p.bits[b]), a.tr(p, u, 2, tv), w.ck.BootstrappingKey, off, o)
				return trFlat(o)
			},
			check: func(r *R, what string, o []Torus) { r.rotated(w, what, o, tv.B, pos) }}
	case 6:
		k := c.N(w.N)
		as := c.N(2) == 1
		return &Op{name: fmt.Sprintf("SampleExtract(t%d,%d,assign=%v)", i, k, as),
			run: func(a *Actor) []Torus {
				if as {
					o := tlwe.NewTLWELv1()
					for q := range o.P {
						o.P[q] = 0x77777777
					}
					trlwe.SampleExtractIndexAssign(a.tr(p, u, 0, p.tr[i]), k, o)
					return append([]Torus(nil), o.P...)
				}
				return append([]Torus(nil), trlwe.SampleExtractIndex(a.tr(p, u, 0, p.tr[i]), k).P...)
			},
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				if len(o) != w.N+1 {
					r.Fail("malformed", "%s: %d words", what, len(o))
				}
				if d := dist(phase(o, w.sk.KeyLv1), pm(p.trv[i][k])); d > 12*w.A1+float64(w.N)*2.4e-10+1e-8 {
					r.Fail("wrong-value", "%s: phase %.6f, want %.3f", what, tf(phase(o, w.sk.KeyLv1)), pm(p.trv[i][k]))
				}
			}}
	default:
		l := c.N(len(p.l1))
		as := c.N(2) == 1
		return &Op{name: fmt.Sprintf("IdentityKeySwitching(l%d,assign=%v)", l, as),
			run: func(a *Actor) []Torus {
				if as {
					o := dirtyCt(w)
					trgsw.IdentityKeySwitchingAssign(a.ct1(p, u, 0, p.l1[l]), w.ck.KeySwitchingKey, o)
					return flat(o)
				}
				return flat(trgsw.IdentityKeySwitching(a.ct1(p, u, 0, p.l1[l]), w.ck.KeySwitchingKey))
			},
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{p.l1v[l]}, w.tolKS()) }}
	}
}

// mulCoeff is coefficient k of a*b in the negacyclic ring, exactly.
func mulCoeff(a, b []Torus, k int) Torus {
	n := len(a)
	var s Torus
	for i := 0; i < n; i++ {
		if i <= k {
			s += a[i] * b[k-i]
		} else {
			s -= a[i] * b[n+k-i]
		}
	}
	return s
}

func (r *R) drawPoly(p *Pool) *Op {
	w, c := p.w, r.P
	u := c.N(3) == 2
	i, j := c.N(len(p.pol)), c.N(len(p.pols))
	a0, b0 := p.pol[i], p.pols[j]
	near := func(r *R, what string, o []Torus, want func(k int) Torus, tol int64) {
		r.Eval(1)
		if len(o) != w.N {
			r.Fail("malformed", "%s: %d coefficients", what, len(o))
		}
		for _, k := range coeffSample(w.N) {
			if d := int64(int32(o[k] - want(k))); d > tol || d < -tol {
				r.Fail("wrong-value", "%s: coefficient %d is %d, want %d", what, k, o[k], want(k))
			}
		}
	}
	dirtyF := func(a *Actor) poly.FourierPoly {
		f := a.Pe(p).NewFourierPoly()
		for q := range f.Coeffs {
			f.Coeffs[q] = float64(q*7919 - 1000)
		}
		return f
	}
	dirtyP := func(a *Actor) poly.Poly {
		o := a.Pe(p).NewPoly()
		for q := range o.Coeffs {
			o.Coeffs[q] = 0x2468ace0 + Torus(q)
		}
		return o
	}
	switch c.N(9) {
	case 6: // the transform into and out of buffers of the caller
		how := c.N(4)
		return &Op{name: fmt.Sprintf("ToFourierPolyAssign(p%d)+back%d", i, how),
			run: func(a *Actor) []Torus {
				e := a.Pe(p)
				f, o := dirtyF(a), dirtyP(a)
				e.ToFourierPolyAssign(a.pol(p, u, 0, a0), f)
				switch how {
				case 0:
					h := hashF(1, f.Coeffs)
					a.used = append(a.used, func() bool { return hashF(1, f.Coeffs) == h })
					e.ToPolyAssign(f, o)
					again := e.ToPoly(f) // f is still there
					if !eqT(o.Coeffs, again.Coeffs) {
						return []Torus{1}
					}
				case 1:
					e.ToPolyAssignUnsafe(f, o)
				case 2:
					copy(o.Coeffs, b0.Coeffs)
					e.ToPolyAddAssignUnsafe(f, o)
				case 3:
					copy(o.Coeffs, b0.Coeffs)
					e.ToPolySubAssignUnsafe(f, o)
				}
				return append([]Torus(nil), o.Coeffs...)
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(k int) Torus {
					switch how {
					case 2:
						return b0.Coeffs[k] + a0.Coeffs[k]
					case 3:
						return b0.Coeffs[k] - a0.Coeffs[k]
					}
					return a0.Coeffs[k]
				}, 64)
			}}
	case 7: // arithmetic in the Fourier domain
		how := c.N(10)
		j2 := c.N(len(p.pols))
		b1 := p.pols[j2]
		mul := float64(1 + c.N(7))
		return &Op{name: fmt.Sprintf("Fourier%d(p%d,q%d,q%d,%v)", how, i, j, j2, mul),
			run: func(a *Actor) []Torus {
				e := a.Pe(p)
				fa, fb := e.ToFourierPoly(a.pol(p, u, 0, a0)), e.ToFourierPoly(a.pol(p, u, 1, b0))
				acc := e.ToFourierPoly(a.pol(p, u, 2, b1))
				o := dirtyF(a)
				h := hashF(hashF(1, fa.Coeffs), fb.Coeffs)
				a.used = append(a.used, func() bool { return hashF(hashF(1, fa.Coeffs), fb.Coeffs) == h })
				switch how {
				case 0:
					o = e.AddFourierPoly(fa, fb)
				case 1:
					e.AddFourierPolyAssign(fa, fb, o)
				case 2:
					o = e.SubFourierPoly(fa, fb)
				case 3:
					e.SubFourierPolyAssign(fa, fb, o)
				case 4:
					o = e.MulFourierPoly(fa, fb)
				case 5:
					e.MulFourierPolyAssign(fa, fb, o)
				case 6:
					o = acc
					e.MulAddFourierPolyAssign(fa, fb, o)
				case 7:
					o = acc
					e.MulSubFourierPolyAssign(fa, fb, o)
				case 8:
					e.FloatMulFourierPolyAssign(fb, mul, o)
				case 9:
					o = acc
					e.FloatMulAddFourierPolyAssign(fb, mul, o)
				}
				return append([]Torus(nil), e.ToPoly(o).Coeffs...)
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(k int) Torus {
					x, y, z := a0.Coeffs[k], b0.Coeffs[k], b1.Coeffs[k]
					switch how {
					case 0, 1:
						return x + y
					case 2, 3:
						return x - y
					case 4, 5:
						return mulCoeff(a0.Coeffs, b0.Coeffs, k)
					case 6:
						return z + mulCoeff(a0.Coeffs, b0.Coeffs, k)
					case 7:
						return z - mulCoeff(a0.Coeffs, b0.Coeffs, k)
					case 8:
						return y * Torus(mul)
					}
					return z + y*Torus(mul)
				}, 64)
			}}
	case 8:
		k := c.N(8*w.N) - 4*w.N
		if c.N(4) == 0 {
			k = []int{0, w.N, 2 * w.N, -w.N, -2 * w.N, w.N - 1, 2*w.N - 1, 1, -1}[c.N(9)]
		}
		dir := c.N(2) == 1
		return &Op{name: fmt.Sprintf("PolyMulWithXKInPlace(p%d,%d,direct=%v)", i, k, dir),
			run: func(a *Actor) []Torus {
				o := dirtyP(a).Coeffs
				if dir {
					a.Pe(p).PolyMulWithXKDirect(a.pol(p, u, 0, a0).Coeffs, k, o)
				} else {
					poly.PolyMulWithXKInPlace(a.pol(p, u, 0, a0).Coeffs, k, o)
				}
				return o
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(q int) Torus { return rotCoeff(a0.Coeffs, (((-k)%(2*w.N))+2*w.N)%(2*w.N), q) }, 1)
			}}
	case 0, 1:
		as := c.N(2) == 1
		return &Op{name: fmt.Sprintf("MulPoly(p%d,q%d,assign=%v)", i, j, as),
			run: func(a *Actor) []Torus {
				if as {
					o := a.Pe(p).NewPoly()
					for q := range o.Coeffs {
						o.Coeffs[q] = 0x13579bdf
					}
					a.Pe(p).MulPolyAssign(a.pol(p, u, 0, a0), a.pol(p, u, 1, b0), o)
					return append([]Torus(nil), o.Coeffs...)
				}
				return append([]Torus(nil), a.Pe(p).MulPoly(a.pol(p, u, 0, a0), a.pol(p, u, 1, b0)).Coeffs...)
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(k int) Torus { return mulCoeff(a0.Coeffs, b0.Coeffs, k) }, 64)
			}}
	case 2:
		sub := c.N(2) == 1
		return &Op{name: fmt.Sprintf("MulAdd/SubPoly(p%d,q%d,sub=%v)", i, j, sub),
			run: func(a *Actor) []Torus {
				o := p.pol[(i+1)%len(p.pol)].Copy()
				if sub {
					a.Pe(p).MulSubPolyAssign(a.pol(p, u, 0, a0), a.pol(p, u, 1, b0), o)
				} else {
					a.Pe(p).MulAddPolyAssign(a.pol(p, u, 0, a0), a.pol(p, u, 1, b0), o)
				}
				return o.Coeffs
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(k int) Torus {
					m := mulCoeff(a0.Coeffs, b0.Coeffs, k)
					if sub {
						m = -m
					}
					return p.pol[(i+1)%len(p.pol)].Coeffs[k] + m
				}, 64)
			}}
	case 3:
		return &Op{name: fmt.Sprintf("ToFourier+ToPoly(p%d)", i),
			run: func(a *Actor) []Torus {
				return append([]Torus(nil), a.Pe(p).ToPoly(a.Pe(p).ToFourierPoly(a.pol(p, u, 0, a0))).Coeffs...)
			},
			check: func(r *R, what string, o []Torus) { near(r, what, o, func(k int) Torus { return a0.Coeffs[k] }, 64) }}
	default:
		k := c.N(2 * w.N)
		return &Op{name: fmt.Sprintf("PolyMulWithXK(p%d,%d)", i, k),
			run: func(a *Actor) []Torus {
				return append([]Torus(nil), a.Pe(p).PolyMulWithXK(a.pol(p, u, 0, a0).Coeffs, k)...)
			},
			check: func(r *R, what string, o []Torus) {
				near(r, what, o, func(q int) Torus { return rotCoeff(a0.Coeffs, 2*w.N-k, q) }, 1)
			}}
	}
}

func (r *R) drawMisc(p *Pool) *Op {
	w, c := p.w, r.P
	i, j := c.N(len(p.bits)), c.N(len(p.bits))
	u := c.N(3) == 2
	small := 12*w.A0 + 1e-8
	switch c.N(7) {
	case 0:
		return &Op{name: fmt.Sprintf("NOT(b%d)", i), run: func(a *Actor) []Torus { return flat(gates.NOT(a.ct(p, u, 0, p.bits[i]))) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{!p.bval[i]}, small) }}
	case 1:
		return &Op{name: fmt.Sprintf("Copy(b%d)", i), run: func(a *Actor) []Torus { return flat(gates.Copy(a.ct(p, u, 0, p.bits[i]))) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{p.bval[i]}, small) }}
	case 2:
		v := c.N(2) == 1
		return &Op{name: fmt.Sprintf("Constant(%v)", v), run: func(*Actor) []Torus { return flat(gates.Constant(v)) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{v}, 1e-8) }}
	case 3, 4:
		k := c.N(7)
		mul := Torus(c.N(9))
		return &Op{name: fmt.Sprintf("linear%d(b%d,b%d,%d)", k, i, j, mul),
			run: func(act *Actor) []Torus {
				a, b := act.ct(p, u, 0, p.bits[i]), act.ct(p, u, 1, p.bits[j])
				switch k {
				case 0:
					return flat(a.Add(b))
				case 1:
					return flat(a.Sub(b))
				case 2:
					return flat(a.Neg())
				case 3:
					return flat(a.AddMul(b, mul))
				case 4:
					return flat(a.SubMul(b, mul))
				case 5:
					o := dirtyCt(w)
					a.AddAssign(b, o)
					return flat(o)
				}
				return flat(a.Mul(b))
			},
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				for q := range o {
					x, y := p.bits[i].P[q], p.bits[j].P[q]
					want := []Torus{x + y, x - y, -x, x + y*mul, x - y*mul, x + y, x * y}[k]
					if o[q] != want {
						r.Fail("wrong-value", "%s: word %d is %d, want %d", what, q, o[q], want)
					}
				}
			}}
	case 5:
		li := c.N(len(p.luts))
		return &Op{name: fmt.Sprintf("LUT.Copy/CopyFrom(lut%d)", li),
			run: func(*Actor) []Torus {
				a := p.luts[li].Copy()
				b := lut.NewLookUpTable()
				b.CopyFrom(a)
				a.Clear()
				return append(trFlat(b.Poly), trFlat(a.Poly)...)
			},
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				want := append(trFlat(p.luts[li].Poly), make([]Torus, 2*w.N)...)
				if !eqT(o, want) {
					r.Fail("wrong-value", "%s: the copy differs from the table", what)
				}
			}}
	}
	if p.re == nil {
		return r.drawMisc(p)
	}
	return &Op{name: fmt.Sprintf("Reencrypt(b%d)", i), run: func(a *Actor) []Torus { return flat(proxyreenc.ReencryptTLWELv0(a.ct(p, u, 0, p.bits[i]), p.re)) },
		check: func(r *R, what string, o []Torus) {
			r.Eval(1)
			if len(o) != w.N0+1 {
				r.Fail("malformed", "%s: wrong size", what)
			}
			tol := 12*w.A0 + 12*1e-7*math.Sqrt(float64(5*w.N0)) + float64(w.N0)*math.Exp2(-16)
			if d := dist(phase(o, p.sk2), pm(p.bval[i])); d > tol {
				r.Fail("wrong-value", "%s: phase %.5f under the recipient's key, want %.3f", what, tf(phase(o, p.sk2)), pm(p.bval[i]))
			}
		}}
}

var _ = params.Torus(0)

func ptrHash(h uint64, c *tlwe.TLWELv0) uint64 {
	h = (h ^ uint64(uintptr(unsafe.Pointer(c)))) * 1099511628211
	if c != nil {
		h = hashT(h, c.P)
	}
	return h
}

// drawCrypt: encryption and decryption entry points.
func (r *R) drawCrypt(p *Pool) *Op {
	w, c := p.w, r.P
	if p.re == nil {
		return r.drawMisc(p)
	}
	b := c.N(2) == 1
	i := c.N(len(p.bits))
	switch c.N(10) {
	case 0:
		return &Op{name: fmt.Sprintf("EncryptBool(%v)", b), rnd: true, run: func(*Actor) []Torus { return flat(w.enc(b)) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{b}, 12*w.A0+1e-8) }}
	case 1:
		x := c.N(p.m)
		return &Op{name: fmt.Sprintf("EncryptLWEMessage(%d)", x), rnd: true, run: func(*Actor) []Torus { return flat(w.encMsg(x, p.m)) },
			check: func(r *R, what string, o []Torus) { r.msg(w, what, o, x, p.m) }}
	case 2:
		return &Op{name: fmt.Sprintf("EncryptBool1(%v)", b), rnd: true,
			run: func(*Actor) []Torus { return tlwe.NewTLWELv1().EncryptBool(b, w.A1, w.sk.KeyLv1).P },
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				if len(o) != w.N+1 || dist(phase(o, w.sk.KeyLv1), pm(b)) > 12*w.A1+1e-8 {
					r.Fail("wrong-value", "%s: not a level-1 encryption of %v", what, b)
				}
			}}
	case 3:
		v := p.trv[c.N(len(p.trv))]
		return &Op{name: "TRLWE.EncryptBool", rnd: true,
			run: func(a *Actor) []Torus { return trFlat(trlwe.NewTRLWELv1().EncryptBool(v, w.A1, w.sk.KeyLv1, a.Pe(p))) },
			check: func(r *R, what string, o []Torus) {
				r.ring(w, what, o, func(k int) float64 { return pm(v[k]) }, 12*w.A1+1e-7)
			}}
	case 4:
		j := c.N(len(p.tr))
		return &Op{name: fmt.Sprintf("TRLWE.DecryptBool(t%d)", j),
			run: func(a *Actor) []Torus { return boolFlat(p.tr[j].DecryptBool(w.sk.KeyLv1, a.Pe(p))) },
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				if !eqT(o, boolFlat(p.trv[j])) {
					r.Fail("wrong-value", "%s: wrong message", what)
				}
			}}
	case 5:
		return &Op{name: "EncryptBits", rnd: true,
			run:   func(a *Actor) []Torus { return flat(bitutils.EncryptBits(p.bools, w.A0, w.sk.KeyLv0)...) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, p.bools, 12*w.A0+1e-8) }}
	case 6:
		return &Op{name: "DecryptBits",
			run: func(a *Actor) []Torus { return boolFlat(bitutils.DecryptBits(p.bits, w.sk.KeyLv0)) },
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				if !eqT(o, boolFlat(p.bval)) {
					r.Fail("wrong-value", "%s: wrong message", what)
				}
			}}
	case 7:
		return &Op{name: fmt.Sprintf("PublicKey.EncryptBool(%v)", b), rnd: true,
			run:   func(a *Actor) []Torus { return flat(p.pk.EncryptBool(b, w.A0)) },
			check: func(r *R, what string, o []Torus) { r.bitsFlat(w, what, o, []bool{b}, 12*w.A0+6*12e-6+1e-8) }}
	case 8:
		j := c.N(len(p.msgs))
		return &Op{name: fmt.Sprintf("DecryptLWEMessage(m%d)", j),
			run: func(a *Actor) []Torus { return []Torus{Torus(p.msgs[j].DecryptLWEMessage(p.m, w.sk.KeyLv0))} },
			check: func(r *R, what string, o []Torus) {
				r.Eval(1)
				if int(o[0]) != p.mval[j] {
					r.Fail("wrong-value", "%s: %d, want %d", what, o[0], p.mval[j])
				}
			}}
	}
	return &Op{name: fmt.Sprintf("NewProxyReencryptionKeySymmetric+Reencrypt(b%d)", i), rnd: true,
		run: func(a *Actor) []Torus {
			k := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.sk.KeyLv0, p.sk2, 1e-7, 2, 7)
			return flat(proxyreenc.ReencryptTLWELv0(p.bits[i], k))
		},
		check: func(r *R, what string, o []Torus) {
			r.Eval(1)
			tol := 12*w.A0 + 12*1e-7*math.Sqrt(float64(7*w.N0)) + float64(w.N0)*math.Exp2(-15)
			if len(o) != w.N0+1 || dist(phase(o, p.sk2), pm(p.bval[i])) > tol {
				r.Fail("wrong-value", "%s: does not decrypt under the recipient's key", what)
			}
		}}
}

func boolFlat(v []bool) []Torus {
	o := make([]Torus, len(v))
	for i, b := range v {
		if b {
			o[i] = 1
		}
	}
	return o
}
