//go:build go1.23

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	addProp("C06", "Seeded key generations, one to three at a time, under a scheduler that interleaves the generating goroutines at statements and at every draw of randomness, in one or two process lifetimes; every entry of the resulting keys is decrypted by the harness, masks are compared pairwise and noise statistics tested, and a gate is evaluated with each key.",
		append([]*Lane{
			{Name: "small", Quick: 900, Thorough: 30000, Fn: func(r *R) { r.drawStrategy(); c06(r, smallLevels[r.P.N(5)], 0) }},
			{Name: "aged", Quick: 6, Thorough: 400, Fn: func(r *R) { r.aged(); c06(r, smallLevels[r.P.N(2)], 30) }},
			{Name: "secrets", Quick: 150, Thorough: 3000, Fn: c06secrets},
			{Name: "medium", Quick: 40, Thorough: 1200, Fn: func(r *R) { r.drawStrategy(); c06(r, smallLevels[5+r.P.N(4)], 0) }},
		}, realLanes(c06real, map[string][2]int{"80": {1, 2}, "110": {0, 2}, "128": {1, 3}, "u1": {1, 2}, "u2": {0, 1}, "u3": {0, 1}, "u4": {0, 1}, "u5": {0, 1}})...)...)
	addProp("C10", "Seeded concurrent callers encrypt through every entry point under every clock behaviour and in one or two process lifetimes; every ciphertext is decrypted by the harness, masks are compared pairwise (as overlapping 64-bit windows), and mask uniformity, noise mean, deviation, repetition and correlations are tested at seven standard deviations.",
		append([]*Lane{
			{Name: "small", Quick: 2500, Thorough: 80000, Fn: func(r *R) { r.drawStrategy(); c10(r, r.world(r.pickSmall(), r.P.N(3)), 500) }},
			{Name: "many", Quick: 48, Thorough: 1500, Fn: func(r *R) {
				r.drawStrategy()
				r.strat.PreemptMean = []int{0, 8000}[r.P.N(2)]
				c10(r, r.world(smallLevels[0], r.P.N(3)), 45000)
			}},
			{Name: "coins", Quick: 8, Thorough: 300, Fn: c10coins},
		}, realLanes(c10real, map[string][2]int{"80": {1, 2}, "128": {1, 2}, "u3": {1, 1}})...)...)
	addProp("C11", "Seeded parties exchange ciphertexts through re-encryption proxies that receive them late, reordered, repeated or not at all, work concurrently and are restarted; every delivered ciphertext is decrypted by the harness under every party's secret and repeated re-encryptions are compared bit for bit.",
		append([]*Lane{
			{Name: "small", Quick: 1200, Thorough: 40000, Fn: func(r *R) { r.drawStrategy(); c11(r, r.pickSmall(), 0) }},
			{Name: "aged", Quick: 12, Thorough: 800, Fn: func(r *R) { r.aged(); c11(r, smallLevels[r.P.N(2)], 700) }},
			{Name: "wrong-key", Quick: 150, Thorough: 5000, Fn: func(r *R) { r.drawStrategy(); c11wrong(r) }},
		}, realLanes(c11real, map[string][2]int{"80": {1, 2}, "110": {0, 2}, "128": {1, 2}, "u1": {1, 2}, "u2": {0, 2}, "u3": {0, 1}, "u4": {0, 1}, "u5": {0, 1}})...)...)
}

// ---------------------------------------------------------------- statistics

const sigmas = 7.0

// noiseStat collects noise samples normalised to their requested deviation.
type noiseStat struct {
	z   []float64
	ulp map[int64]int // repeated values, at large deviations
	su  float64
	dup int
}

func (s *noiseStat) add(z float64) { s.z = append(s.z, z) }

func (r *R) noise(what string, s *noiseStat) {
	n := float64(len(s.z))
	if n < 250 {
		return
	}
	var m, v, lag float64
	for i, z := range s.z {
		m += z
		v += z * z
		if i > 0 {
			lag += z * s.z[i-1]
		}
	}
	r.Eval(3)
	if d := math.Abs(m / n); d > sigmas/math.Sqrt(n) {
		r.Fail("noise-bias", "%s: the mean of %d noise samples is %.3f standard deviations away from zero", what, len(s.z), m/n)
	}
	if q := v / n; math.Abs(q-1) > sigmas*math.Sqrt(2/n)*1.3+0.01 {
		r.Fail("noise-deviation", "%s: %d noise samples have %.3f times the requested standard deviation", what, len(s.z), math.Sqrt(q))
	}
	if d := math.Abs(lag / n); d > sigmas/math.Sqrt(n)*1.2 {
		r.Fail("noise-correlated", "%s: consecutive noise samples correlate (%.3f over %d)", what, lag/n, len(s.z))
	}
}

// corr checks that two series are uncorrelated (both roughly centred, unit variance).
func (r *R) corr(what string, x, y []float64) { r.corrN(what, x, y, 1.2) }

// corrN allows for heavier tails (squares of noise) by a factor.
func (r *R) corrN(what string, x, y []float64, fac float64) {
	n := float64(len(x))
	if n < 250 {
		return
	}
	var mx, my, sx, sy, c float64
	for i := range x {
		mx += x[i]
		my += y[i]
	}
	mx /= n
	my /= n
	for i := range x {
		sx += (x[i] - mx) * (x[i] - mx)
		sy += (y[i] - my) * (y[i] - my)
		c += (x[i] - mx) * (y[i] - my)
	}
	if sx == 0 || sy == 0 {
		return
	}
	r.Eval(1)
	if q := c / math.Sqrt(sx*sy); math.Abs(q) > sigmas/math.Sqrt(n)*fac {
		r.Fail("noise-correlated", "%s (correlation %.3f over %d samples)", what, q, len(x))
	}
}

// repeats checks that noise values do not repeat more often than chance allows.
func (r *R) repeats(what string, u []int64, sd float64) {
	if sd < 100 || len(u) < 100 {
		return
	}
	cnt := map[int64]int{}
	pairs := 0
	for _, v := range u {
		pairs += cnt[v]
		cnt[v]++
	}
	n := float64(len(u))
	lam := n * n / (4 * math.Sqrt(math.Pi) * sd)
	r.Eval(1)
	if float64(pairs) > lam*1.2+9*math.Sqrt(lam)+9 {
		r.Fail("noise-repeats", "%s: %d pairs of equal noise values among %d samples, %.1f expected", what, pairs, len(u), lam)
	}
}

// masks detects shared mask material as repeated 64-bit windows.
type masks struct {
	seen map[uint64]int32
	sum  float64
	n    float64
	bits [32]int
	name []string
}

func newMasks() *masks { return &masks{seen: map[uint64]int32{}} }

// add registers a mask; step 1 looks at every window.
func (m *masks) add(r *R, what string, a []Torus, step int) {
	id := int32(len(m.name))
	m.name = append(m.name, what)
	for i := 0; i+1 < len(a); i += step {
		k := uint64(a[i])<<32 | uint64(a[i+1])
		if o, ok := m.seen[k]; ok {
			r.Fail("mask-repeats", "%s and %s share mask words %08x %08x", m.name[o], what, uint32(a[i]), uint32(a[i+1]))
		}
		m.seen[k] = id
	}
	r.Eval(1)
	st := 1
	if len(a) > 64 {
		st = len(a) / 64
	}
	for i := 0; i < len(a); i += st {
		m.sum += float64(uint32(a[i]))/4294967296.0 - 0.5
		m.n++
		for b := 0; b < 32; b++ {
			m.bits[b] += int(a[i]>>b) & 1
		}
	}
}

func (m *masks) uniform(r *R, what string) {
	if m.n < 500 {
		return
	}
	r.Eval(33)
	if d := math.Abs(m.sum / m.n); d > sigmas*math.Sqrt(1/12.0/m.n) {
		r.Fail("mask-bias", "%s: the mean of %.0f mask words is off by %.4f", what, m.n, d)
	}
	for b := 0; b < 32; b++ {
		if d := math.Abs(float64(m.bits[b]) - m.n/2); d > sigmas*math.Sqrt(m.n)/2 {
			r.Fail("mask-bias", "%s: bit %d is set in %d of %.0f mask words", what, b, m.bits[b], m.n)
		}
	}
}

// ---------------------------------------------------------------- C06

type genKey struct {
	l    *Level
	sk   *key.SecretKey
	ck   *cloudkey.CloudKey
	name string
}

func c06(r *R, l *Level, n int) {
	together := n == 0 // all at once, or a long series
	if n == 0 {
		n = 1 + r.P.N(3)
		if l.N > 128 {
			n = 1 + r.P.N(2)
		}
	}
	restart := r.P.N(3) == 2
	share := n > 1 && r.P.N(3) == 2 // several cloud keys for one secret
	r.Planf("level %s: %d generations, restart=%v, shared secret=%v", l.Name, n, restart, share)
	setLevel(l)
	var ks []*genKey
	phases := 1
	if restart {
		phases = 2
	}
	for ph := 0; ph < phases; ph++ {
		r.reset()
		setLevel(l)
		r.Sim(simOpt{}, func() {
			var sk *key.SecretKey
			if share {
				sk = key.NewSecretKey()
			}
			var ts []*vsim.Task
			for i := 0; i < n; i++ {
				g := &genKey{l: l, name: fmt.Sprintf("generation %d of process %d", i, ph)}
				ks = append(ks, g)
				ts = append(ts, vsim.Spawn(fmt.Sprintf("gen%d", i), func() {
					g.sk = sk
					if sk == nil {
						g.sk = key.NewSecretKey()
					}
					g.ck = snapKey(cloudkey.NewCloudKey(g.sk))
				}))
				if !together && i%3 == 2 {
					vsim.Join(ts...)
				}
			}
			vsim.Join(ts...)
		})
	}
	ms := newMasks()
	for i, g := range ks {
		for j := 0; j < i; j++ {
			if g.sk != ks[j].sk {
				r.Eval(1)
				if eqT(g.sk.KeyLv1, ks[j].sk.KeyLv1) && eqT(g.sk.KeyLv0, ks[j].sk.KeyLv0) {
					r.Fail("same-key", "%s and %s made the same secret key", g.name, ks[j].name)
				}
				if l.N >= 64 && eqT(g.sk.KeyLv1, ks[j].sk.KeyLv1) {
					r.Fail("same-key", "%s and %s made the same level-1 key", g.name, ks[j].name)
				}
			}
		}
		r.checkKey(g, ms, 1, 1)
	}
	ms.uniform(r, "key material")
}

// snapKey is the key as it is at this very moment: whatever a goroutine that is
// still at work adds later does not count.
func snapKey(k *cloudkey.CloudKey) *cloudkey.CloudKey {
	if k == nil {
		return nil
	}
	c := *k
	c.KeySwitchingKey = append(c.KeySwitchingKey[:0:0], k.KeySwitchingKey...)
	c.BootstrappingKey = append(c.BootstrappingKey[:0:0], k.BootstrappingKey...)
	if params.GetTRGSWLv1().N <= 512 {
		return deepCopy(&c)
	}
	return &c
}

func c06real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 100000
	setLevel(l)
	r.reset()
	setLevel(l)
	g := &genKey{l: l, name: "the generation"}
	r.Sim(simOpt{}, func() {
		g.sk = key.NewSecretKey()
		g.ck = snapKey(cloudkey.NewCloudKey(g.sk))
	})
	ms := newMasks()
	kstep := 1
	if len(g.ck.KeySwitchingKey)*l.N0 > 4000000 {
		kstep = 3
	}
	r.checkKey(g, ms, kstep, 7)
	ms.uniform(r, "key material")
}

// c06secrets: many secret keys, large ones, concurrently.
func c06secrets(r *R) {
	r.drawStrategy()
	l := append(append([]*Level{}, smallLevels[5:9]...), realLevels...)[r.P.N(12)]
	r.Planf("level %s", l.Name)
	var sks []*key.SecretKey
	for ph := 0; ph < 2; ph++ {
		r.reset()
		setLevel(l)
		r.Sim(simOpt{}, func() {
			var ts []*vsim.Task
			for t := 0; t < 4; t++ {
				ts = append(ts, vsim.Spawn(fmt.Sprintf("gen%d", t), func() {
					for i := 0; i < 5; i++ {
						sks = append(sks, key.NewSecretKey())
					}
				}))
			}
			vsim.Join(ts...)
		})
	}
	ones, n := 0.0, 0.0
	seen := map[uint64]bool{}
	for i, s := range sks {
		r.secretOK(l, fmt.Sprintf("secret %d", i), s)
		r.Eval(1)
		h := hashT(1, s.KeyLv1)
		if seen[h] {
			r.Fail("same-key", "two of %d secret keys are the same", len(sks))
		}
		seen[h] = true
		for j := 0; j < i; j++ {
			// independent keys agree on about half of their bits
			d := 0
			for q, v := range s.KeyLv1 {
				if v == sks[j].KeyLv1[q] {
					d++
				}
			}
			if dd := math.Abs(float64(d) - float64(l.N)/2); dd > sigmas*1.1*math.Sqrt(float64(l.N))/2 {
				r.Fail("same-key", "secret keys %d and %d agree on %d of %d bits", j, i, d, l.N)
			}
		}
		for _, v := range append(append([]Torus{}, s.KeyLv0...), s.KeyLv1...) {
			ones += float64(v)
			n++
		}
	}
	if math.Abs(ones-n/2) > sigmas*math.Sqrt(n)/2 {
		r.Fail("unbalanced", "%.0f of %.0f secret bits are set", ones, n)
	}
}

func (r *R) secretOK(l *Level, what string, s *key.SecretKey) {
	if s == nil || len(s.KeyLv0) != l.N0 || len(s.KeyLv1) != l.N {
		r.Fail("malformed", "%s: secret key of the wrong size", what)
	}
	for _, v := range s.KeyLv0 {
		if v > 1 {
			r.Fail("not-binary", "%s: level-0 secret coefficient %d", what, v)
		}
	}
	for _, v := range s.KeyLv1 {
		if v > 1 {
			r.Fail("not-binary", "%s: level-1 secret coefficient %d", what, v)
		}
	}
}

// checkKey decrypts a whole cloud key.
func (r *R) checkKey(g *genKey, ms *masks, kstep, bstep int) {
	l := g.l
	if g.ck == nil {
		r.Fail("malformed", "%s: no key", g.name)
	}
	r.secretOK(l, g.name, g.sk)
	base := 1 << l.KBit
	if len(g.ck.KeySwitchingKey) != base*l.KT*l.N {
		r.Fail("malformed", "%s: the key-switching key has %d entries, want %d", g.name, len(g.ck.KeySwitchingKey), base*l.KT*l.N)
	}
	ns := &noiseStat{}
	var ulps []int64
	step := 1
	if l.Real {
		step = 40
	}
	for i := 0; i < l.N; i++ {
		for j := 0; j < l.KT; j++ {
			for k := 1; k < base; k++ {
				idx := base*l.KT*i + base*j + k
				if kstep > 1 && idx%kstep != 0 {
					continue
				}
				ct := g.ck.KeySwitchingKey[idx]
				if ct == nil || len(ct.P) != l.N0+1 {
					r.Fail("malformed", "%s: key-switching entry (%d,%d,%d) is missing or of the wrong size", g.name, i, j, k)
				}
				want := float64(k) * float64(g.sk.KeyLv1[i]) / math.Exp2(float64((j+1)*l.KBit))
				r.Eval(1)
				ph := phase(ct.P, g.sk.KeyLv0)
				e := tf(ph - Torus(uint32(uint64(int64(math.Floor(want*4294967296)))&0xffffffff)))
				if math.Abs(e) > 8*l.A0+4e-9 {
					r.Fail("wrong-entry", "%s: key-switching entry (%d,%d,%d) has phase %.6f, want %.6f", g.name, i, j, k, tf(ph), want)
				}
				ns.add(e / l.A0)
				ulps = append(ulps, int64(math.Round(e*4294967296)))
				ms.add(r, fmt.Sprintf("key-switching entry (%d,%d,%d) of %s", i, j, k, g.name), ct.P[:l.N0], step)
			}
		}
	}
	r.noise(g.name+": key-switching key", ns)
	r.repeats(g.name+": key-switching key", ulps, l.A0*4294967296)
	// bootstrapping key
	if len(g.ck.BootstrappingKey) != l.N0 {
		r.Fail("malformed", "%s: the bootstrapping key has %d entries, want %d", g.name, len(g.ck.BootstrappingKey), l.N0)
	}
	bs := &noiseStat{}
	var as, bb []Torus
	// double precision keeps a 32-bit coefficient to well below one unit
	slack := 64.0 / 4294967296
	tolB := 8*l.A1 + slack
	for i := 0; i < l.N0; i += bstep {
		e := g.ck.BootstrappingKey[i]
		if e == nil || len(e.TRLWEFFT) != 2*l.L {
			r.Fail("malformed", "%s: bootstrapping entry %d is missing or incomplete", g.name, i)
		}
		for row := 0; row < 2*l.L; row++ {
			r.Inert(func() {
				ev := poly.NewEvaluator(l.N)
				as = ev.ToPoly(e.TRLWEFFT[row].A.Copy()).Coeffs
				bb = ev.ToPoly(e.TRLWEFFT[row].B.Copy()).Coeffs
			})
			gd := math.Exp2(-float64((row%l.L + 1) * l.BgBit))
			p := float64(g.sk.KeyLv0[i])
			r.Eval(1)
			for _, k := range coeffSample(l.N) {
				want := 0.0
				if row >= l.L {
					if k == 0 {
						want = p * gd
					}
				} else {
					want = -p * gd * float64(g.sk.KeyLv1[k])
				}
				ph := phase1(as, bb, g.sk.KeyLv1, k)
				d := tf(ph) - want
				d -= math.Round(d)
				if math.Abs(d) > tolB {
					r.Fail("wrong-entry", "%s: bootstrapping entry %d row %d coefficient %d has phase %.8f, want %.8f", g.name, i, row, k, tf(ph), want)
				}
				if l.A1*4294967296 > 20 {
					bs.add(d / l.A1)
				}
			}
			q := make([]Torus, 0, l.N)
			for x := 1; x+2 < l.N; x++ { // coefficient 0 carries the gadget
				// windows of three words, each rounded to its top 21 bits
				q = append(q, as[x]>>11)
			}
			st := 1
			if l.N > 128 {
				st = 17
			}
			for x := 0; x+2 < len(q); x += st {
				h := uint64(q[x])<<42 | uint64(q[x+1])<<21 | uint64(q[x+2])
				h = vsim.Mix(h) ^ 0x42534b
				if o, ok := ms.seen[h]; ok {
					r.Fail("mask-repeats", "bootstrapping entry %d row %d of %s shares its mask with %s", i, row, g.name, ms.name[o])
				}
				ms.seen[h] = int32(len(ms.name))
			}
			ms.name = append(ms.name, fmt.Sprintf("bootstrapping entry %d row %d of %s", i, row, g.name))
		}
	}
	r.noise(g.name+": bootstrapping key", bs)
	// and it works
	w := &World{Level: l, sk: g.sk, ck: g.ck}
	var o *tlwe.TLWELv0
	r.Inert(func() { o = gates2[0].f(w.enc(true), w.enc(true), g.ck) })
	r.bit(w, g.name+": NAND(true,true)", o, false, w.tolBoot())
}

// ---------------------------------------------------------------- C10

func c10real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 20000
	w := &World{Level: l}
	r.reset()
	setLevel(l)
	r.Inert(func() { w.sk = key.NewSecretKey() })
	r.Planf("level %s", l.Name)
	c10(r, w, 300)
}

var c10alphas = []float64{1e-6, 1e-3, 1e-5, 1e-4, 3e-5}

var c10names = []string{"TLWELv0.EncryptBool", "TLWELv0.EncryptLWEMessage", "TLWELv0.EncryptF64", "TLWELv1.EncryptBool", "TRLWELv1.EncryptBool", "TRGSWLv1.EncryptTorus", "EncryptBits", "PublicKeyLv0.EncryptBool", "TLWELv1.EncryptF64", "TRLWELv1.EncryptF64", "PublicKeyLv0.EncryptF64"}

type encRec struct {
	kind  int
	mask  []Torus
	phase Torus
	want  float64
	alpha float64
	task  int
	seq   int
	msgv  float64
	obj   string
}

// ringRec is the noise of one ring ciphertext, coefficient by coefficient,
// in units of the requested deviation.
type ringRec struct {
	kind, task, row int
	z               []float64
}

func c10(r *R, w *World, total int) {
	nt := 1 + r.P.N(6)
	phases := 1 + r.P.N(2)
	alpha := c10alphas[r.P.N(len(c10alphas))]
	alphas := [2]float64{alpha, alpha}
	if r.P.N(2) == 1 { // callers that ask for different noise
		alphas[1] = c10alphas[r.P.N(len(c10alphas))]
	}
	reuse := r.P.N(3) // 0: fresh objects, 1: reused ones, 2: both
	many := total > 5000
	only := -1
	if r.P.N(3) == 2 || many {
		only = r.P.N(11)
		if only == 7 || only == 10 {
			only = 6
		}
		if many {
			only = []int{0, 0, 1, 2}[r.P.N(4)]
		}
	}
	if w.Real {
		nt, only = 3, -1
	}
	r.Planf("%d encryptions by %d tasks, alpha %g and %g, objects %s, %d process lifetimes, only=%d", total, nt, alphas[0], alphas[1], []string{"fresh", "reused", "fresh and reused"}[reuse], phases, only)
	var recs []*encRec
	var rings []*ringRec
	seq := 0
	pkSize := 80
	pkNoise := math.Min(alphas[0], alphas[1]) / 1000
	sks := []*key.SecretKey{w.sk, nil}
	for ph := 0; ph < phases; ph++ {
		r.reset()
		setLevel(w.Level)
		var pk *proxyreenc.PublicKeyLv0
		r.Sim(simOpt{}, func() {
			if sks[1] == nil {
				sks[1] = key.NewSecretKey()
			}
			if !many {
				pk = proxyreenc.NewPublicKeyLv0WithParams(w.sk.KeyLv0, pkSize, pkNoise)
			}
			var ts []*vsim.Task
			for t := 0; t < nt; t++ {
				t := t
				kind := only
				ts = append(ts, vsim.Spawn(fmt.Sprintf("enc%d", t), func() {
					pe := poly.NewEvaluator(w.N)
					o0, o1, oR, oG := tlwe.NewTLWELv0(), tlwe.NewTLWELv1(), trlwe.NewTRLWELv1(), trgsw.NewTRGSWLv1()
					for i := 0; i < total/nt/phases; i++ {
						k := kind
						if k < 0 {
							k = (i*5 + t) % 11
							if (k == 4 || k == 5 || k == 9) && i%3 != 0 {
								k = i % 4
							}
						}
						h := vsim.Mix(uint64(i)<<8 | uint64(t)<<40 | uint64(ph))
						b := h%3 == 0
						alpha := alphas[h>>8&1]
						sk := sks[btoi(h>>9&3 == 3)]
						obj := ""
						if reuse == 1 || reuse == 2 && h>>11&1 == 1 {
							obj = ", into a reused object"
						} else {
							o0, o1, oR, oG = tlwe.NewTLWELv0(), tlwe.NewTLWELv1(), trlwe.NewTRLWELv1(), trgsw.NewTRGSWLv1()
						}
						add := func(p []Torus, n int, s []Torus, want float64) {
							recs = append(recs, &encRec{kind: k, mask: append([]Torus(nil), p[:n]...), phase: phase(p, s), want: want, alpha: alpha, task: t, seq: seq, msgv: want, obj: obj})
							seq++
						}
						ring := func(row int, ct *trlwe.TRLWELv1, want func(q int) float64) {
							rr := &ringRec{kind: k, task: t, row: row}
							st := 1
							if w.N > 128 {
								st = w.N / 64
							}
							for q := 0; q < w.N; q += st {
								p := phase1(ct.A, ct.B, sk.KeyLv1, q)
								d := tf(p) - want(q)
								d -= math.Round(d)
								rr.z = append(rr.z, d/alpha)
								if math.Abs(d) > 8*alpha+1e-7 || q == 0 {
									rec := &encRec{kind: k, phase: p, want: want(q), alpha: alpha, task: t, seq: seq, msgv: want(q), obj: obj}
									if q == 0 {
										rec.mask = append([]Torus(nil), ct.A...)
									}
									recs = append(recs, rec)
								}
							}
							rings = append(rings, rr)
							seq++
						}
						switch k {
						case 0:
							add(o0.EncryptBool(b, alpha, sk.KeyLv0).P, w.N0, sk.KeyLv0, pm(b))
						case 1:
							m := []int{4, 2, 8, 16}[h>>16&3]
							x := int(h>>20) & (m - 1)
							y := x + m*(int(h>>40)&3-1) // any representative
							add(o0.EncryptLWEMessage(y, m, alpha, sk.KeyLv0).P, w.N0, sk.KeyLv0, float64(x)/float64(2*m))
						case 2:
							v := float64(int(h>>20)&31)/32 - 0.5
							add(o0.EncryptF64(v, alpha, sk.KeyLv0).P, w.N0, sk.KeyLv0, v)
						case 3:
							add(o1.EncryptBool(b, alpha, sk.KeyLv1).P, w.N, sk.KeyLv1, pm(b))
						case 8:
							v := float64(int(h>>20)&31)/32 - 0.5
							add(o1.EncryptF64(v, alpha, sk.KeyLv1).P, w.N, sk.KeyLv1, v)
						case 4:
							v := make([]bool, w.N)
							for q := range v {
								v[q] = b || h>>20&1 == 1 && (q+i)%3 == 0 // all false, all true or mixed
							}
							ring(0, oR.EncryptBool(v, alpha, sk.KeyLv1, pe), func(q int) float64 { return pm(v[q]) })
						case 9:
							v := make([]float64, w.N)
							for q := range v {
								if h>>20&1 == 1 {
									v[q] = float64((q*7+i)&31)/32 - 0.5
								}
							}
							ring(0, oR.EncryptF64(v, alpha, sk.KeyLv1, pe), func(q int) float64 { return v[q] })
						case 5:
							p := Torus(h >> 20 & 1)
							for row, ct := range oG.EncryptTorus(p, alpha, sk.KeyLv1, pe).TRLWE {
								gd := float64(p) * math.Exp2(-float64((row%w.L+1)*w.BgBit))
								row := row
								ring(row, ct, func(q int) float64 {
									if row < w.L {
										return -gd * float64(sk.KeyLv1[q])
									}
									if q == 0 {
										return gd
									}
									return 0
								})
							}
						case 6:
							bs := []bool{b, !b, true}
							for q, ct := range bitutils.EncryptBits(bs, alpha, sk.KeyLv0) {
								b = bs[q]
								add(ct.P, w.N0, sk.KeyLv0, pm(b))
							}
						case 7, 10:
							if pk == nil || i%2 == 0 {
								break
							}
							if k == 7 {
								add(pk.EncryptBool(b, alpha).P, w.N0, w.sk.KeyLv0, pm(b))
							} else {
								v := float64(int(h>>20)&31)/32 - 0.5
								add(pk.EncryptF64(v, alpha).P, w.N0, w.sk.KeyLv0, v)
							}
						}
					}
				}))
			}
			vsim.Join(ts...)
		})
		if pk != nil && ph == 0 {
			ms := newMasks()
			for i, e := range pk.Encryptions {
				ms.add(r, fmt.Sprintf("public key element %d", i), e.P[:w.N0], 1)
			}
		}
	}
	ms := newMasks()
	all := &noiseStat{}
	per := map[int]*noiseStat{}
	perMsg := map[float64]*noiseStat{}
	perObj := map[string]*noiseStat{}
	var z, zz, m0, m1, msg []float64
	ulps := map[float64][]int64{}
	mags := map[float64][]int64{}
	byTask := map[int][]float64{}
	for _, e := range recs {
		what := fmt.Sprintf("encryption %d (%s by task %d%s)", e.seq, c10names[e.kind], e.task, e.obj)
		r.Eval(1)
		d := tf(e.phase) - e.want
		d -= math.Round(d)
		if math.Abs(d) > 8*e.alpha+1e-7 {
			r.Fail("wrong-value", "%s: phase %.6f, want %.6f", what, tf(e.phase), e.want)
		}
		if e.mask != nil {
			st := 1
			if len(e.mask) > 200 {
				st = 7
			}
			ms.add(r, what, e.mask, st)
		}
		q := d / e.alpha
		all.add(q)
		into(per, e.kind).add(q)
		into(perMsg, e.msgv).add(q)
		into(perObj, e.obj).add(q)
		if len(e.mask) > 1 {
			z = append(z, q)
			zz = append(zz, q*q)
			m0 = append(m0, tf(e.mask[0]))
			m1 = append(m1, tf(e.mask[len(e.mask)-1]))
			msg = append(msg, e.msgv)
		}
		u := int64(math.Round(d * 4294967296))
		ulps[e.alpha] = append(ulps[e.alpha], u)
		mags[e.alpha] = append(mags[e.alpha], max(u, -u))
		byTask[e.task] = append(byTask[e.task], q)
	}
	ms.uniform(r, "encryptions")
	r.noise("all encryptions", all)
	for k := range c10names {
		if per[k] != nil {
			r.noise(c10names[k], per[k])
		}
	}
	for _, m := range sortedF(perMsg) {
		r.noise(fmt.Sprintf("encryptions of %g", m), perMsg[m])
	}
	for _, o := range []string{"", ", into a reused object"} {
		if perObj[o] != nil {
			r.noise("encryptions"+o, perObj[o])
		}
	}
	r.corr("noise correlates with the first mask word", z, m0)
	r.corr("noise correlates with the last mask word", z, m1)
	r.corr("noise correlates with the message", z, msg)
	r.corrN("the magnitude of the noise correlates with the first mask word", zz, m0, 2.5)
	r.corrN("the magnitude of the noise correlates with the message", zz, msg, 2.5)
	for _, a := range sortedF(ulps) {
		r.repeats("all encryptions", ulps[a], a*4294967296)
		r.repeats("all encryptions, up to sign", mags[a], a*4294967296/2)
	}
	// equal noise magnitude pattern between tasks
	for t := 1; t < nt; t++ {
		n := min(len(byTask[t]), len(byTask[t-1]))
		r.corr(fmt.Sprintf("the noise of tasks %d and %d correlates", t-1, t), byTask[t][:n], byTask[t-1][:n])
	}
	// within and between ring ciphertexts
	rn := &noiseStat{}
	pairs := [5][2][]float64{}
	pair := func(i int, x, y float64) {
		pairs[i][0] = append(pairs[i][0], x)
		pairs[i][1] = append(pairs[i][1], y)
	}
	for i, rr := range rings {
		h := len(rr.z) / 2
		for q, v := range rr.z {
			rn.add(v)
			if q < h {
				pair(0, v, rr.z[q+h])
				pair(1, v, rr.z[len(rr.z)-1-q])
			}
			if q+1 < len(rr.z) {
				pair(2, v, rr.z[q+1])
			}
			if i > 0 {
				pair(3, v, rings[i-1].z[q])
			}
			if i >= w.L {
				pair(4, v, rings[i-w.L].z[q])
			}
		}
	}
	r.noise("ring ciphertexts", rn)
	for i, what := range []string{"the two halves of a ring ciphertext", "mirrored coefficients of a ring ciphertext", "neighbouring coefficients of a ring ciphertext", "consecutive ring ciphertexts", "the two halves of a TRGSW ciphertext"} {
		r.corr("the noise of "+what+" correlates", pairs[i][0], pairs[i][1])
	}
}

func into[K comparable](m map[K]*noiseStat, k K) *noiseStat {
	if m[k] == nil {
		m[k] = &noiseStat{}
	}
	return m[k]
}

func sortedF[V any](m map[float64]V) []float64 {
	var ks []float64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Float64s(ks)
	return ks
}

// ---------------------------------------------------------------- C11

type party struct {
	name string
	s    []Torus
	pk   *proxyreenc.PublicKeyLv0
}

type edge struct {
	from, to int
	key      *proxyreenc.ProxyReencryptionKey
	tol      float64
	desc     string
}

var reParams = [][2]int{{2, 8}, {3, 5}, {1, 10}, {1, 16}, {2, 5}, {3, 10}, {4, 4}, {4, 7}, {5, 3}, {5, 6}, {6, 5}, {8, 2}, {8, 3}, {1, 31}, {2, 15}, {15, 2}, {10, 3}, {4, 8}, {2, 16}, {8, 4}, {1, 32}}

// newEdge makes a re-encryption key; must run inside a simulation.
func (r *R) newEdge(l *Level, ps []*party, from, to, mode, pi int, def bool) *edge {
	e := &edge{from: from, to: to}
	kb, kt := reParams[pi][0], reParams[pi][1]
	if l.N0 > 8 && kb > 6 {
		kb, kt = 4, 4
	}
	alpha := 1e-8
	if def {
		kb, kt, alpha = l.KBit, l.KT, l.A0
	}
	// rounding at the last digit, and the noise of the entries that are added up
	rounding := float64(l.N0) * math.Exp2(-float64(kb*kt+1))
	en := alpha
	switch {
	case mode == 0 && def:
		e.key = proxyreenc.NewProxyReencryptionKeySymmetric(ps[from].s, ps[to].s)
	case mode == 0:
		e.key = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(ps[from].s, ps[to].s, alpha, kb, kt)
	case def:
		e.key = proxyreenc.NewProxyReencryptionKeyAsymmetric(ps[from].s, ps[to].pk)
		en = l.A0 * math.Sqrt(1+float64(len(ps[to].pk.Encryptions))/2*2)
	default:
		e.key = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(ps[from].s, ps[to].pk, alpha, kb, kt)
		en = math.Max(alpha, 1e-8) * math.Sqrt(1+float64(len(ps[to].pk.Encryptions)))
	}
	e.tol = rounding + 10*en*math.Sqrt(float64(l.N0*kt)) + 2e-9*float64(l.N0*kt)
	e.desc = fmt.Sprintf("%d->%d %s base 2^%d x%d", from, to, []string{"symmetric", "asymmetric"}[mode], kb, kt)
	if def {
		e.desc += " default"
	}
	return e
}

func distinctSecrets(r *R, l *Level, n int) []*party {
	var ps []*party
	for len(ps) < n {
		s := key.NewSecretKey().KeyLv0
		dup := false
		for _, p := range ps {
			dup = dup || eqT(p.s, s)
		}
		if !dup {
			ps = append(ps, &party{name: fmt.Sprintf("party%d", len(ps)), s: s})
		}
	}
	return ps
}

var edgeWords = []Torus{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0xc0000000, 0x00010000, 0x0000ffff, 0xfffe0000, 0xaaaaaaaa, 0x55555555}

// bump is a ciphertext whose phase is d further and that differs in one word.
func bump(c *vsim.Choices, l *Level, s []Torus, ct *tlwe.TLWELv0, d float64) *tlwe.TLWELv0 {
	o := cloneCt(ct)
	u := Torus(int64(math.Round(d * 4294967296)))
	k := c.N(l.N0 + 1)
	if k < l.N0 && s[k] == 1 {
		o.P[k] -= u
	} else {
		o.P[l.N0] += u
	}
	return o
}

// c11: a delivery network of proxies.
func c11(r *R, l *Level, aged int) {
	setLevel(l)
	r.reset()
	setLevel(l)
	np := 2 + r.P.N(3)
	nh := 1 + r.P.N(5)
	def := r.P.N(4) == 3
	big := r.P.N(6) == 5
	var ps []*party
	var es []*edge
	type item struct {
		hop int
		id  int
		ct  *tlwe.TLWELv0
	}
	type plan struct{ from, to, mode, pi int }
	var pls []plan
	cur := 0
	for i := 0; i < nh; i++ {
		to := (cur + 1 + r.P.N(np-1)) % np
		pi := r.P.N(14)
		if r.P.N(6) == 5 { // digits that cover the whole torus
			pi = 17 + r.P.N(4)
		}
		if big && l.N0 <= 8 {
			pi = r.P.N(len(reParams))
		}
		if reParams[pi][0] > 8 && l.N0 > 8 {
			pi = 0
		}
		pls = append(pls, plan{cur, to, r.P.N(2), pi})
		cur = to
	}
	nct := 2 + r.P.N(6)
	if aged > 0 {
		nct = aged + r.P.N(aged)
	}
	nproxy := 1 + r.P.N(3)
	rbuf := r.P.N(2) == 1 // each proxy receives into one buffer of its own
	how := make([]int, nct)
	for i := range how {
		how[i] = r.P.N(7)
	}
	sib := r.P
	var src []*tlwe.TLWELv0
	var val []float64
	r.Sim(simOpt{}, func() { // key set-up, itself concurrent
		ps = distinctSecrets(r, l, np)
		for _, p := range ps {
			if def {
				p.pk = proxyreenc.NewPublicKeyLv0(p.s)
			} else {
				p.pk = proxyreenc.NewPublicKeyLv0WithParams(p.s, 2*l.N0, 1e-8)
			}
		}
		es = make([]*edge, nh)
		var ts []*vsim.Task
		for i, pl := range pls {
			i, pl := i, pl
			ts = append(ts, vsim.Spawn(fmt.Sprintf("keygen%d", i), func() { es[i] = r.newEdge(l, ps, pl.from, pl.to, pl.mode, pl.pi, def) }))
		}
		vsim.Join(ts...)
		for i := 0; i < nct; i++ {
			v := pm(i%2 == 0)
			ct := tlwe.NewTLWELv0()
			switch h := how[i]; {
			case h == 4 && i > 0: // differs from the previous one in a single word
				v = val[i-1] + 0.25 + 0.25*float64(sib.N(3))
				ct = bump(sib, l, ps[0].s, src[i-1], v-val[i-1])
			case h == 5: // crafted mask words at the edges of the digits
				for q := 0; q < l.N0; q++ {
					ct.P[q] = edgeWords[sib.N(len(edgeWords))] + Torus(sib.N(3)) - 1
				}
				ct.P[l.N0] = 0
				ct.P[l.N0] = Torus(int64(v*4294967296)) - phase(ct.P, ps[0].s)
			case h == 6:
				v = float64(sib.N(32)) / 32
				ct.EncryptF64(v, l.A0, ps[0].s)
			case h == 3 && !def:
				ct = ps[0].pk.EncryptBool(v > 0, 1e-8)
			default:
				ct.EncryptBool(v > 0, l.A0, ps[0].s)
			}
			src = append(src, ct)
			val = append(val, v)
		}
	})
	for _, e := range es {
		r.Planf("%s", e.desc)
	}
	r.Planf("%d ciphertexts (kinds %v), %d proxies, receive buffers %v", nct, how[:min(nct, 10)], nproxy, rbuf)
	// results[hop][ct]: all values ever produced for it
	type slot struct{ first []Torus }
	results := make([][]slot, nh)
	for i := range results {
		results[i] = make([]slot, nct)
	}
	round := func(copyKeys bool) {
		r.reset()
		setLevel(l)
		if copyKeys { // a restarted proxy loads its keys from disk
			for _, e := range es {
				e.key = deepCopy(e.key)
			}
		}
		r.Sim(simOpt{}, func() {
			var q []*item
			outstanding := 0
			send := func(it *item) {
				deliver := 1
				switch r.S.N(8) {
				case 7:
					deliver = 2
					vsim.Count("fault:duplicate")
				case 6:
					if r.S.N(3) == 0 {
						vsim.Count("fault:loss")
						return
					}
				}
				for ; deliver > 0; deliver-- {
					outstanding++
					d := r.S.N(2000)
					if r.S.N(6) == 5 {
						d *= 50
						vsim.Count("fault:delay")
					}
					vsim.AfterFunc(vd(d), func() { q = append(q, it) })
				}
			}
			for i := range src {
				send(&item{id: i, ct: src[i]})
			}
			var ts []*vsim.Task
			for pr := 0; pr < nproxy; pr++ {
				ts = append(ts, vsim.Spawn(fmt.Sprintf("proxy%d", pr), func() {
					buf := tlwe.NewTLWELv0()
					for {
						vsim.WaitFor("message", func() bool { return len(q) > 0 || outstanding == 0 })
						if len(q) == 0 {
							return
						}
						i := r.S.N(len(q)) // out of order
						if i > 0 {
							vsim.Count("fault:reorder")
						}
						it := q[i]
						q = append(q[:i:i], q[i+1:]...)
						e := es[it.hop]
						vsim.Note("hop %d of ciphertext %d", it.hop, it.id)
						in := it.ct
						if rbuf {
							copy(buf.P, in.P)
							in = buf
						}
						out := proxyreenc.ReencryptTLWELv0(in, e.key)
						sl := &results[it.hop][it.id]
						if sl.first == nil {
							sl.first = append([]Torus(nil), out.P...)
						}
						r.Eval(1)
						if !eqT(sl.first, out.P) {
							r.Fail("not-deterministic", "ciphertext %d re-encrypted twice with the key %s gives different results", it.id, e.desc)
						}
						if it.hop+1 < nh {
							send(&item{hop: it.hop + 1, id: it.id, ct: out})
						}
						outstanding--
					}
				}))
			}
			vsim.Join(ts...)
		})
	}
	round(false)
	if r.P.N(2) == 1 {
		r.Planf("proxies restarted")
		r.Count("fault:restart", 1)
		round(true)
	}
	for i := range src {
		tol := 12*l.A0 + 2e-6
		for h := 0; h < nh; h++ {
			f := results[h][i].first
			tol += es[h].tol
			if f == nil {
				continue
			}
			r.Eval(1)
			if len(f) != l.N0+1 {
				r.Fail("malformed", "re-encryption %s: wrong size", es[h].desc)
			}
			ph := phase(f, ps[es[h].to].s)
			if tol > 0.12 {
				r.Count("skipped: noise budget used up", 1)
				continue
			}
			if d := dist(ph, val[i]); d > tol {
				r.Fail("wrong-value", "ciphertext %d (%.5f) after hop %d (%s): phase %.5f under the recipient's key, allowed error %.5f", i, val[i], h, es[h].desc, tf(ph), tol)
			}
			if math.Abs(val[i]) != 0.125 {
				continue
			}
			if got := (&tlwe.TLWELv0{P: f}).DecryptBool(ps[es[h].to].s); got != (val[i] > 0) {
				r.Fail("wrong-value", "ciphertext %d after hop %d decrypts to %v, want %v", i, h, got, val[i] > 0)
			}
		}
	}
}

// c11wrong: nobody but the recipient can decrypt.
func c11wrong(r *R) {
	l := r.pickSmall()
	setLevel(l)
	r.reset()
	setLevel(l)
	mode := r.P.N(2)
	pi := r.P.N(5)
	hops := 1 + r.P.N(2)
	r.Planf("level %s mode %d hops %d", l.Name, mode, hops)
	const n = 300
	r.Sim(simOpt{}, func() {
		ps := distinctSecrets(r, l, 4)
		for _, p := range ps {
			p.pk = proxyreenc.NewPublicKeyLv0WithParams(p.s, 2*l.N0, 1e-8)
		}
		e := r.newEdge(l, ps, 0, 1, mode, pi, false)
		e2 := r.newEdge(l, ps, 1, 2, 1-mode, pi, false)
		owner := hops
		agree := make([]float64, 4)
		mean := make([]float64, 4)
		for i := 0; i < n; i++ {
			b := i%2 == 0
			ct := proxyreenc.ReencryptTLWELv0(tlwe.NewTLWELv0().EncryptBool(b, l.A0, ps[0].s), e.key)
			if hops == 2 {
				ct = proxyreenc.ReencryptTLWELv0(ct, e2.key)
			}
			for q, p := range ps {
				if ct.DecryptBool(p.s) == b {
					agree[q]++
				}
				mean[q] += math.Cos(2*math.Pi*(tf(phase(ct.P, p.s))-pm(b))) / n
			}
		}
		r.Eval(4)
		for q := range ps {
			if q == owner {
				if agree[q] != n {
					r.Fail("wrong-value", "the recipient decrypts %g of %d re-encrypted ciphertexts", agree[q], n)
				}
				continue
			}
			if math.Abs(agree[q]-n/2) > sigmas*math.Sqrt(n)/2 {
				r.Fail("leaks-to-others", "party %d, who is not the recipient, decrypts %g of %d ciphertexts correctly", q, agree[q], n)
			}
			// phase of a ciphertext under a wrong key is uniform
			if math.Abs(mean[q]) > sigmas/math.Sqrt(2*n) {
				r.Fail("leaks-to-others", "party %d, who is not the recipient, sees phases that cluster around the message (%.3f)", q, mean[q])
			}
		}
	})
}

// c11real: the default parameters of the shipped security levels.
func c11real(r *R, l *Level) {
	r.drawStrategy()
	r.strat.PreemptMean = 100000
	setLevel(l)
	r.reset()
	setLevel(l)
	mode := (r.out.Idx + btoi(l.Name == "80")) % 2
	n := 150
	r.Planf("level %s mode %d", l.Name, mode)
	var ps []*party
	var e *edge
	var in, out []*tlwe.TLWELv0
	r.Sim(simOpt{}, func() {
		ps = distinctSecrets(r, l, 2)
		if mode == 1 {
			ps[1].pk = proxyreenc.NewPublicKeyLv0(ps[1].s)
		}
		e = r.newEdge(l, ps, 0, 1, mode, 0, true)
		for i := 0; i < n; i++ {
			in = append(in, tlwe.NewTLWELv0().EncryptBool(i%2 == 0, l.A0, ps[0].s))
		}
		out = make([]*tlwe.TLWELv0, n)
		var ts []*vsim.Task
		for t := 0; t < 3; t++ {
			t := t
			ts = append(ts, vsim.Spawn(fmt.Sprintf("proxy%d", t), func() {
				for i := t; i < n; i += 3 {
					out[i] = proxyreenc.ReencryptTLWELv0(in[i], e.key)
				}
			}))
		}
		vsim.Join(ts...)
	})
	// what the construction itself predicts
	kb, kt := float64(l.KBit), float64(l.KT)
	en := l.A0
	if mode == 1 {
		en = l.A0 * math.Sqrt(1+float64(len(ps[1].pk.Encryptions))/2)
	}
	nz := (1 - math.Exp2(-kb)) * kt * float64(l.N0) // digits that are not zero
	sd := math.Sqrt(l.A0*l.A0 + nz*en*en + float64(l.N0)/2*math.Exp2(-2*kb*kt)/12)
	var v, mean float64
	wrong := 0
	for i := range out {
		r.Eval(1)
		d := tf(phase(out[i].P, ps[1].s)) - pm(i%2 == 0)
		d -= math.Round(d)
		v += d * d / float64(n)
		mean += d / float64(n)
		if math.Abs(d) >= 0.125 {
			wrong++
		}
	}
	// entries are shared between re-encryptions, so part of the noise is a common
	// offset: judge the spread around it and the offset itself separately
	spread := math.Sqrt(math.Max(v-mean*mean, 0))
	if spread > 1.4*sd || math.Abs(mean) > 6*sd {
		r.Fail("noise", "default %s parameters at level %s: re-encryption adds noise of standard deviation %.4f around %.4f, the construction predicts %.4f around 0", []string{"symmetric", "asymmetric"}[mode], l.Name, spread, mean, sd)
	}
	if sd > 0.125/6.5 {
		p := math.Erfc(0.125 / sd / math.Sqrt2)
		r.known(fmt.Sprintf("%s re-encryption with the default parameters at security level %s: its noise leaves the decision margin", []string{"symmetric", "asymmetric"}[mode], l.Name),
			"standard deviation %.3f against a margin of 0.125: about one message in %.0f is delivered wrong", sd, 1/math.Max(p, 1e-9))
		return
	}
	if wrong > 0 {
		r.Fail("wrong-value", "default %s parameters at level %s: %d of %d messages do not decrypt under the recipient's key", []string{"symmetric", "asymmetric"}[mode], l.Name, wrong, n)
	}
}
