//go:build go1.23

package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

// drawFault plans a call that fails part-way: broken callbacks, missing or
// truncated key material, nil or wrongly sized ciphertexts. It goes through the
// same evaluators, generator and package-level state as valid calls. Whether it
// panics or returns something is not judged; only what it leaves behind is.
func (r *R) drawFault(p *Pool) *Op {
	w, c := p.w, r.P
	bk, kk, off := w.ck.BootstrappingKey, w.ck.KeySwitchingKey, w.ck.DecompositionOffset
	ct := p.msgs[c.N(len(p.msgs))]
	bit := p.bits[c.N(len(p.bits))]
	bit2 := p.bits[c.N(len(p.bits))]
	lt := p.luts[c.N(len(p.luts))]
	at := c.N(p.m)
	bad := func(x int) int {
		if x == at {
			panic("callback fails")
		}
		return (x + 1) % p.m
	}
	cut := c.N(w.N0)
	tbk := bk[:cut]
	nbk := append([]*trgsw.TRGSWLv1FFT(nil), bk...)
	nbk[cut] = nil
	tkk := kk[:len(kk)*(1+c.N(7))/8]
	hole := func() []*tlwe.TLWELv0 {
		k := append([]*tlwe.TLWELv0(nil), kk...)
		for i := len(k) / 2; i < len(k); i++ {
			k[i] = nil
		}
		return k
	}
	short := &tlwe.TLWELv0{P: bit.P[:c.N(w.N0)]}
	shortTG := func() *trgsw.TRGSWLv1FFT {
		g := p.tg[c.N(len(p.tg))]
		return &trgsw.TRGSWLv1FFT{TRLWEFFT: g.TRLWEFFT[:c.N(len(g.TRLWEFFT))]}
	}
	tr := &trlwe.TRLWELv1{}
	if len(p.tr) > 0 {
		tr = p.tr[c.N(len(p.tr))]
	}
	ckWith := func(b []*trgsw.TRGSWLv1FFT, k []*tlwe.TLWELv0) *cloudkey.CloudKey {
		return &cloudkey.CloudKey{DecompositionOffset: off, BlindRotateTestvec: w.ck.BlindRotateTestvec, BootstrappingKey: b, KeySwitchingKey: k}
	}
	ckBad := []*cloudkey.CloudKey{ckWith(tbk, kk), ckWith(nbk, kk), ckWith(bk, tkk), ckWith(bk, nil), {DecompositionOffset: off, BootstrappingKey: bk, KeySwitchingKey: kk}}
	ckPick := ckBad[c.N(len(ckBad))]
	g2 := gates2[c.N(len(gates2))]
	mk := func(n string, f func(a *Actor)) *Op {
		return &Op{name: "faulty " + n, fault: true, run: func(a *Actor) []Torus { f(a); return nil }}
	}
	n := 30
	if len(p.tr) == 0 {
		n = 18
	}
	switch c.N(n) {
	case 0:
		return mk(fmt.Sprintf("BootstrapFunc, callback panics at %d", at), func(a *Actor) { a.Ev(p).BootstrapFunc(ct, bad, p.m, bk, kk, off) })
	case 1:
		return mk("BootstrapFuncAssign, callback panics", func(a *Actor) { a.Ev(p).BootstrapFuncAssign(ct, bad, p.m, bk, kk, off, dirtyCt(w)) })
	case 2:
		return mk("GenLookUpTable, callback panics", func(a *Actor) { p.gen.GenLookUpTable(bad) })
	case 3, 4:
		m := []int{2, p.m, 3, 5}[c.N(4)]
		return mk(fmt.Sprintf("GenLookUpTableCustom(%d), callback panics", m), func(a *Actor) {
			p.gen.GenLookUpTableCustom(func(x int) int {
				if x == at%m {
					panic("callback fails")
				}
				return 0
			}, m, 1/float64(2*m))
		})
	case 5:
		return mk("GenLookUpTableFull, callback panics", func(a *Actor) {
			p.gen.GenLookUpTableFull(func(x int) Torus { return Torus(bad(x)) })
		})
	case 6:
		return mk(fmt.Sprintf("BootstrapLUT, %d of %d bootstrapping key entries", cut, w.N0), func(a *Actor) { a.Ev(p).BootstrapLUT(ct, lt, tbk, kk, off) })
	case 7:
		return mk("BootstrapLUTTemp, truncated key-switching key", func(a *Actor) { a.Ev(p).BootstrapLUTTemp(ct, lt, bk, tkk, off) })
	case 8:
		return mk("BootstrapLUTAssign, nil entry in the bootstrapping key", func(a *Actor) { a.Ev(p).BootstrapLUTAssign(ct, lt, nbk, kk, off, dirtyCt(w)) })
	case 9:
		return mk("BootstrapLUT, nil table", func(a *Actor) { a.Ev(p).BootstrapLUT(ct, nil, bk, kk, off) })
	case 10:
		return mk("Bootstrap, short ciphertext", func(a *Actor) { a.Ev(p).Bootstrap(short, w.ck.BlindRotateTestvec, bk, kk, off) })
	case 11:
		return mk("Bootstrap, nil ciphertext", func(a *Actor) { a.Ev(p).Bootstrap(nil, w.ck.BlindRotateTestvec, bk, kk, off) })
	case 12:
		return mk(g2.name+", nil operand", func(a *Actor) { g2.f(bit, nil, w.ck) })
	case 13:
		return mk(g2.name+", no cloud key", func(a *Actor) { g2.f(bit, bit2, nil) })
	case 14:
		return mk(g2.name+", damaged cloud key", func(a *Actor) { g2.f(bit, bit2, ckPick) })
	case 15:
		return mk("MUX, damaged cloud key", func(a *Actor) { gates.MUX(bit, bit2, bit, ckPick) })
	case 16:
		return mk(g2.name+", short operand", func(a *Actor) { g2.f(short, bit, w.ck) })
	case 17:
		bf := batchFns[c.N(len(batchFns))]
		in := [][2]*tlwe.TLWELv0{{bit, bit2}, {bit2, nil}, {bit, bit}}
		if c.N(2) == 1 {
			in[0][1] = short
		}
		return mk(bf.name+", nil operand", func(a *Actor) { bf.f(in, w.ck) })
	case 18:
		g := shortTG()
		return mk("ExternalProductWithFFT, truncated TRGSW", func(a *Actor) { trgsw.ExternalProductWithFFT(g, tr, off, a.Pe(p)) })
	case 19:
		g := shortTG()
		return mk("ExternalProductAssign, truncated TRGSW", func(a *Actor) { a.Ev(p).ExternalProductAssign(g, tr, off, dirtyTr(w)) })
	case 20:
		g := shortTG()
		return mk("CMUX, truncated TRGSW", func(a *Actor) { trgsw.CMUX(tr, p.tr[0], g, off, a.Pe(p)) })
	case 21:
		return mk("CMuxAssign, short ciphertext", func(a *Actor) {
			a.Ev(p).CMuxAssign(p.tg[0], tr, &trlwe.TRLWELv1{A: tr.A[:w.N/2], B: tr.B[:w.N/2]}, off, dirtyTr(w))
		})
	case 22:
		return mk("BlindRotate, truncated key", func(a *Actor) { trgsw.BlindRotate(bit, lt.Poly, tbk, off, a.Pe(p)) })
	case 23:
		h := hole()
		return mk("IdentityKeySwitching, holes in the key", func(a *Actor) {
			trgsw.IdentityKeySwitchingAssign(p.l1[0], h, dirtyCt(w))
		})
	case 24:
		return mk("SampleExtractIndex, index out of range", func(a *Actor) { trlwe.SampleExtractIndex(tr, w.N+cut) })
	case 25:
		return mk("EncryptBool, short key", func(a *Actor) { tlwe.NewTLWELv0().EncryptBool(true, w.A0, w.sk.KeyLv0[:cut]) })
	case 26:
		return mk("TRLWE.EncryptF64, short message", func(a *Actor) {
			trlwe.NewTRLWELv1().EncryptF64(make([]float64, w.N/2), w.A1, w.sk.KeyLv1, a.Pe(p))
		})
	case 27:
		return mk("Reencrypt, truncated key", func(a *Actor) {
			proxyreenc.ReencryptTLWELv0(bit, &proxyreenc.ProxyReencryptionKey{KeyEncryptions: p.re.KeyEncryptions[:len(p.re.KeyEncryptions)/2], Base: p.re.Base, T: p.re.T})
		})
	case 28:
		return mk("MulPolyAssign, missing output", func(a *Actor) { a.Pe(p).MulPolyAssign(p.pol[0], p.pols[0], poly.Poly{}) })
	}
	return mk("GenLookUpTableAssign, no table", func(a *Actor) { p.gen.GenLookUpTableAssign(func(x int) int { return 0 }, nil) })
}

var _ = key.SecretKey{}
var _ = lut.Encoder{}
