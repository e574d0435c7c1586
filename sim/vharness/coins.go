//go:build go1.23

package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/thedonutfactory/go-tfhe/internal/vsim"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
)

// c10coins encrypts with a public key whose samples are unit vectors, so that
// the way each encryption combined them can be read off its mask, and tests
// that every sample is chosen independently of every other one, of the choices
// made for the next encryption, and of what another goroutine chose.
func c10coins(r *R) {
	r.drawStrategy()
	r.strat.PreemptMean = []int{0, 8000}[r.P.N(2)]
	w := r.world(smallLevels[3], r.P.N(3))
	nt := 1 + r.P.N(3)
	const total = 4096
	per := 16
	size := []int{64, 100, 256}[r.P.N(3)]
	r.Planf("%d encryptions by %d tasks with a public key of %d samples", total, nt, size)
	r.reset()
	setLevel(w.Level)
	var pk *proxyreenc.PublicKeyLv0
	r.Inert(func() { pk = proxyreenc.NewPublicKeyLv0WithParams(w.sk.KeyLv0, size, 1e-7) })
	for j, ct := range pk.Encryptions {
		clear(ct.P)
		if j < size {
			ct.P[j/per] = 1 << (2 * (j % per))
		}
	}
	rows := make([][]int8, 0, total)
	per1 := make([][][]int8, nt)
	r.Sim(simOpt{}, func() {
		var ts []*vsim.Task
		for t := 0; t < nt; t++ {
			t := t
			ts = append(ts, vsim.Spawn(fmt.Sprintf("enc%d", t), func() {
				for i := 0; i < total/nt; i++ {
					p := pk.EncryptBool(i&1 == 0, 1e-7).P
					row := make([]int8, size)
					for j := range row {
						if j%per == 0 {
							v := p[j/per]
							for q := 0; q < per && j+q < size; q++ {
								d := int32(v & 3)
								if d == 3 {
									d = -1
								}
								row[j+q] = int8(d)
								v = Torus(int32(v)-d) >> 2
							}
						}
					}
					per1[t] = append(per1[t], row)
				}
			}))
		}
		vsim.Join(ts...)
	})
	for _, x := range per1 {
		rows = append(rows, x...)
	}
	M := len(rows)
	words := (M + 63) / 64
	// feature 2j: sample j was used; 2j+1: it was added
	F := make([][]uint64, 2*size)
	for f := range F {
		F[f] = make([]uint64, words)
		for i, row := range rows {
			v := row[f/2]
			if f%2 == 0 && v != 0 || f%2 == 1 && v == 1 {
				F[f][i/64] |= 1 << (i % 64)
			}
		}
	}
	shift := func(x []uint64, by int) []uint64 { // row i takes the value of row i+by
		o := make([]uint64, words)
		for i := 0; i+by < M; i++ {
			k := i + by
			o[i/64] |= x[k/64] >> (k % 64) & 1 << (i % 64)
		}
		return o
	}
	test := func(a, b []uint64, n int, what string) {
		var na, nb, nab int
		for k := range a {
			na += bits.OnesCount64(a[k])
			nb += bits.OnesCount64(b[k])
			nab += bits.OnesCount64(a[k] & b[k])
		}
		pa, pb := float64(na)/float64(n), float64(nb)/float64(n)
		v := pa * (1 - pa) * pb * (1 - pb)
		if pa*float64(n) < 100 || pb*float64(n) < 100 || (1-pa)*float64(n) < 100 || (1-pb)*float64(n) < 100 {
			return // a coin that hardly ever falls one way tells nothing
		}
		z := (float64(nab)/float64(n) - pa*pb) / math.Sqrt(v/float64(n))
		if math.Abs(z) > 8 {
			r.Fail("correlated", "public-key encryption: %s (%.1f standard deviations over %d encryptions)", what, z, n)
		}
	}
	name := func(f int) string { return fmt.Sprintf("sample %d is %s", f/2, []string{"used", "added"}[f%2]) }
	r.Eval(1)
	for f := range F {
		for g := f + 1; g < len(F); g++ {
			if g/2 != f/2 {
				test(F[f], F[g], M, name(f)+" depends on whether "+name(g))
			}
		}
	}
	for _, by := range []int{1, 2} {
		for g := range F {
			s := shift(F[g], by)
			for f := range F {
				test(F[f], s, M-by, fmt.Sprintf("%s depends on whether %s %d encryptions later", name(f), name(g), by))
			}
		}
	}
}
