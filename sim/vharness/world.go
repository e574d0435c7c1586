//go:build go1.23

package main

import (
	"fmt"
	"math"
	"runtime/debug"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
)

func stack() string { return string(debug.Stack()) }

// Level is a parameter set the simulation can run at.
type Level struct {
	Name  string
	ID    params.SecurityLevel
	Real  bool
	N0    int
	N     int
	L     int
	BgBit int
	KBit  int
	KT    int
	A0    float64
	A1    float64
	Block int
	MaxM  int // largest message modulus used for programmable bootstrapping
	Gates bool
}

// Small parameter sets: the same code paths, but dimensions chosen so that the
// rounding error of a bootstrap cannot reach the decision boundary, which
// makes every wrong bit a bug and never bad luck.
var smallLevels = []*Level{
	{Name: "s32", N0: 6, N: 32, L: 2, BgBit: 8, KBit: 2, KT: 6, A0: 1e-6, A1: 2e-8, Block: 1, MaxM: 2},
	{Name: "s64", N0: 10, N: 64, L: 3, BgBit: 6, KBit: 2, KT: 7, A0: 2e-5, A1: 2e-8, Block: 3, MaxM: 4},
	{Name: "s64b", N0: 7, N: 64, L: 4, BgBit: 5, KBit: 1, KT: 12, A0: 1e-5, A1: 2e-8, Block: 2, MaxM: 4},
	{Name: "s128", N0: 16, N: 128, L: 2, BgBit: 10, KBit: 4, KT: 3, A0: 2e-6, A1: 2e-9, Block: 1, MaxM: 4},
	{Name: "s128b", N0: 12, N: 128, L: 1, BgBit: 18, KBit: 3, KT: 4, A0: 2e-6, A1: 2e-12, Block: 4, MaxM: 4},
	{Name: "s256", N0: 24, N: 256, L: 2, BgBit: 10, KBit: 3, KT: 4, A0: 2e-6, A1: 2e-9, Block: 7, MaxM: 8},
	{Name: "m512", N0: 5, N: 512, L: 1, BgBit: 18, KBit: 4, KT: 3, A0: 2e-6, A1: 2.3e-12, Block: 3, MaxM: 16},
	{Name: "m1024", N0: 4, N: 1024, L: 3, BgBit: 6, KBit: 2, KT: 9, A0: 2e-6, A1: 2e-8, Block: 3, MaxM: 16},
	{Name: "m2048", N0: 3, N: 2048, L: 1, BgBit: 22, KBit: 4, KT: 4, A0: 1e-7, A1: 2.2e-16, Block: 4, MaxM: 32},
	// near twins of s64, for state kept under an incomplete key
	{Name: "s64c", N0: 10, N: 64, L: 3, BgBit: 7, KBit: 3, KT: 5, A0: 2e-5, A1: 2e-8, Block: 3, MaxM: 4},
	{Name: "s64d", N0: 11, N: 64, L: 3, BgBit: 6, KBit: 2, KT: 7, A0: 2e-5, A1: 2e-8, Block: 3, MaxM: 4},
	// for long histories
	{Name: "s16", N0: 2, N: 16, L: 1, BgBit: 16, KBit: 4, KT: 4, A0: 1e-7, A1: 1e-9, Block: 1, MaxM: 2},
}

var realLevels = []*Level{
	{Name: "80", ID: params.Security80Bit, MaxM: 2},
	{Name: "110", ID: params.Security110Bit, MaxM: 2},
	{Name: "128", ID: params.Security128Bit, MaxM: 2},
	{Name: "u1", ID: params.SecurityUint1, MaxM: 2},
	{Name: "u2", ID: params.SecurityUint2, MaxM: 4},
	{Name: "u3", ID: params.SecurityUint3, MaxM: 8},
	{Name: "u4", ID: params.SecurityUint4, MaxM: 16},
	{Name: "u5", ID: params.SecurityUint5, MaxM: 32},
	// without a key-switching key (it would take 2 to 4 GB), in C07 only
	{Name: "u6", ID: params.SecurityUint6, MaxM: 16},
	{Name: "u7", ID: params.SecurityUint7, MaxM: 16},
	{Name: "u8", ID: params.SecurityUint8, MaxM: 16},
}

func init() {
	for i, l := range smallLevels {
		l.ID = params.SecurityLevel(10000 + i)
		nbit := 0
		for 1<<nbit < l.N {
			nbit++
		}
		params.VsimGetTLWELv0[l.ID] = params.TLWELv0Params{N: l.N0, ALPHA: l.A0}
		params.VsimGetTLWELv1[l.ID] = params.TLWELv1Params{N: l.N, ALPHA: l.A1}
		params.VsimGetTRLWELv1[l.ID] = params.TRLWELv1Params{N: l.N, ALPHA: l.A1}
		params.VsimGetTRGSWLv1[l.ID] = params.TRGSWLv1Params{N: l.N, NBIT: nbit, BGBIT: uint32(l.BgBit), BG: 1 << l.BgBit, L: l.L,
			BASEBIT: l.KBit, IKS_T: l.KT, ALPHA: l.A1, BlockSize: l.Block}
	}
	old := params.CurrentSecurityLevel
	for _, l := range realLevels {
		l.Real = true
		params.CurrentSecurityLevel = l.ID
		g := params.GetTRGSWLv1()
		l.N0, l.N, l.L, l.BgBit, l.KBit, l.KT = params.GetTLWELv0().N, g.N, g.L, int(g.BGBIT), g.BASEBIT, g.IKS_T
		l.A0, l.A1, l.Block = params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA, g.BlockSize
	}
	params.CurrentSecurityLevel = old
}

func levelByName(n string) *Level {
	for _, l := range append(append([]*Level{}, smallLevels...), realLevels...) {
		if l.Name == n {
			return l
		}
	}
	if !seamOK {
		return levelByName("80")
	}
	panic("no level " + n)
}

func setLevel(l *Level) { params.CurrentSecurityLevel = l.ID }

// World is a level with a client's secret key and the matching cloud key.
type World struct {
	*Level
	sk   *key.SecretKey
	ck   *cloudkey.CloudKey
	fp   uint64
	kidx int
}

var worldCache = map[string]*World{}

// world returns the key material number kidx of a level; it depends on the
// base seed only, so that a replay in another process sees the same keys.
func (r *R) world(l *Level, kidx int) *World {
	k := fmt.Sprintf("%s/%d/%d", l.Name, kidx, r.base)
	w := worldCache[k]
	setLevel(l)
	if w == nil {
		w = &World{Level: l, kidx: kidx}
		h := vsim.Mix(r.base ^ 0x77)
		for _, c := range k {
			h = vsim.Mix(h ^ uint64(c))
		}
		vsim.SetBoot(h)
		resetProcess()
		setLevel(l)
		res := vsim.Run(vsim.Config{Inert: true, RandSeed: h}, func() {
			w.sk = key.NewSecretKey()
			w.ck = cloudkey.NewCloudKey(w.sk)
		})
		if res.Crash != "" || res.Deadlock != "" || len(res.Leaked) > 0 || w.ck == nil {
			r.Fail("keygen", "key generation at level %s, run sequentially, failed: %s%s%v", l.Name, res.Crash, res.Deadlock, res.Leaked)
		}
		w.fp = w.fingerprint()
		if len(worldCache) > 60 {
			worldCache = map[string]*World{}
		}
		worldCache[k] = w
	}
	r.reset()
	setLevel(l)
	for _, x := range r.worlds {
		if x == w {
			return w
		}
	}
	r.worlds = append(r.worlds, w)
	r.Planf("level %s key %d", l.Name, kidx)
	return w
}

// fingerprint covers the whole key material of small levels and a fixed
// sample of the large ones.
func (w *World) fingerprint() uint64 {
	h := uint64(14695981039346656037)
	h = hashT(h, w.sk.KeyLv0)
	h = hashT(h, w.sk.KeyLv1)
	step := 1
	if len(w.ck.KeySwitchingKey)*w.N0 > 1<<22 {
		step = 61
	}
	for i := 0; i < len(w.ck.KeySwitchingKey); i += step {
		h = hashT(h, w.ck.KeySwitchingKey[i].P)
	}
	if step > 1 {
		step = 5
	}
	for i := 0; i < len(w.ck.BootstrappingKey); i += step {
		for _, x := range w.ck.BootstrappingKey[i].TRLWEFFT {
			h = hashF(h, x.A.Coeffs)
			h = hashF(h, x.B.Coeffs)
		}
	}
	h = hashT(h, w.ck.BlindRotateTestvec.A)
	h = hashT(h, w.ck.BlindRotateTestvec.B)
	return (h ^ uint64(w.ck.DecompositionOffset)) * 1099511628211
}

func hashT(h uint64, v []Torus) uint64 {
	h = (h ^ uint64(len(v))) * 1099511628211
	for _, x := range v {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func hashF(h uint64, v []float64) uint64 {
	h = (h ^ uint64(len(v))) * 1099511628211
	for _, x := range v {
		h = (h ^ math.Float64bits(x)) * 1099511628211
	}
	return h
}

// checkWorlds: keys shared by later operations must be as they were.
func (r *R) checkWorlds() {
	for _, w := range r.worlds {
		if w.fp != 0 && w.fingerprint() != w.fp {
			for k, v := range worldCache {
				if v == w {
					delete(worldCache, k)
				}
			}
			r.Fail("key-mutated", "the key material of level %s changed during the run", w.Name)
		}
	}
}

// phase of a level-0 ciphertext under s, computed by the harness itself.
func phase(p []Torus, s []Torus) Torus {
	n := len(s)
	var ip Torus
	for i := 0; i < n; i++ {
		ip += p[i] * s[i]
	}
	return p[n] - ip
}

func tf(t Torus) float64 { return float64(int32(t)) / 4294967296.0 }

// dist is the torus distance between a phase and a real number.
func dist(t Torus, x float64) float64 {
	d := tf(t) - x
	return math.Abs(d - math.Round(d))
}

func (w *World) enc(b bool) *tlwe.TLWELv0 {
	return tlwe.NewTLWELv0().EncryptBool(b, w.A0, w.sk.KeyLv0)
}

func (w *World) encMsg(x, m int) *tlwe.TLWELv0 {
	return tlwe.NewTLWELv0().EncryptLWEMessage(x, m, w.A0, w.sk.KeyLv0)
}

// bit checks that ct is a well-formed encryption of b with bounded noise.
func (r *R) bit(w *World, what string, ct *tlwe.TLWELv0, b bool, tol float64) {
	r.Eval(1)
	if ct == nil || len(ct.P) != w.N0+1 {
		r.Fail("malformed", "%s: result is nil or has the wrong size", what)
	}
	ph := phase(ct.P, w.sk.KeyLv0)
	want := 0.125
	if !b {
		want = -0.125
	}
	if got := int32(ph) >= 0; got != b {
		r.Fail("wrong-value", "%s: decrypts to %v, want %v (phase %.4f)", what, got, b, tf(ph))
	}
	if d := dist(ph, want); d > tol {
		r.Fail("noise", "%s: phase %.4f is %.4f away from the encoding of %v (allowed %.4f)", what, tf(ph), d, b, tol)
	}
	if got := ct.DecryptBool(w.sk.KeyLv0); got != b {
		r.Fail("wrong-value", "%s: DecryptBool gives %v, want %v", what, got, b)
	}
}

func cloneCt(c *tlwe.TLWELv0) *tlwe.TLWELv0 {
	return &tlwe.TLWELv0{P: append([]Torus(nil), c.P...)}
}

func eqT(a, b []Torus) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// pickSmall draws a small level; cheap ones are drawn more often.
func (r *R) pickSmall() *Level {
	i := r.P.N(16)
	if i < 12 {
		return smallLevels[i%6]
	}
	return smallLevels[6+(i-12)%3]
}
