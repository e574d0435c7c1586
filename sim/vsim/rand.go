package vsim

import (
	crand "crypto/rand"
	"io"
	"math/rand"
)

// bootSt feeds draws made while a process initialises, before a simulation runs.
var (
	bootSt     uint64
	globalSeed *src // set by math/rand.Seed: the process-wide stream becomes a function of the seed
)

// SetBoot starts a fresh simulated process whose initialisation draws from seed.
func SetBoot(seed uint64) {
	bootSt = Mix(seed)
	globalSeed = nil
	boot = nil
}

func rnd() uint64 {
	if act == nil {
		bootSt = Mix(bootSt)
		return bootSt
	}
	act.randSt += 0x9e3779b97f4a7c15
	z := act.randSt
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	act.res.Counts["rand-global"]++
	return z
}

type src struct{ s uint64 }

// Uint64 is as unsafe for concurrent use as the real source: a task preempted
// in the middle rewinds the stream for everybody else.
func (s *src) Uint64() uint64 {
	z := s.s + 0x9e3779b97f4a7c15
	Y()
	s.s = z
	return mixOut(z)
}

func mixOut(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *src) Int63() int64 { return int64(s.Uint64() >> 1) }

// Seed keeps 31 bits of the seed, as math/rand does.
func (s *src) Seed(seed int64) {
	seed %= 1<<31 - 1
	if seed < 0 {
		seed += 1<<31 - 1
	}
	if seed == 0 {
		seed = 89482311
	}
	s.s = Mix(uint64(seed))
}

type gsrc struct{}

func (gsrc) Uint64() uint64 {
	if g := globalSeed; g != nil { // math/rand locks a seeded global source
		g.s += 0x9e3779b97f4a7c15
		return mixOut(g.s)
	}
	return rnd()
}
func (g gsrc) Int63() int64 { return int64(g.Uint64() >> 1) }
func (gsrc) Seed(int64)     {}

// global is the simulated process-wide generator.
var global = rand.New(gsrc{})

// RandNewSource replaces math/rand.NewSource: same contract (a stream that is a
// pure function of the seed), cheaper to seed.
func RandNewSource(seed int64) rand.Source { s := &src{}; s.Seed(seed); return s }

// Rand replaces math/rand.Rand so that the noise tail can be a fault.
type Rand struct {
	*rand.Rand
}

func RandNew(s rand.Source) *Rand { return &Rand{rand.New(s)} }

func (r *Rand) NormFloat64() float64 {
	v := r.Rand.NormFloat64()
	if s := act; s != nil && s.strat.NoiseTail > 0 && !s.inert {
		if r.Rand.Intn(s.strat.NoiseTail) == 0 {
			s.res.Counts["fault:noise-tail"]++
			if v < 0 {
				return -3 - r.Rand.Float64()*1.2
			}
			return 3 + r.Rand.Float64()*1.2
		}
	}
	return v
}

func RandSeed(seed int64) {
	syncPoint("rand")
	globalSeed = &src{}
	globalSeed.Seed(seed)
}
func RandInt63() int64                    { syncPoint("rand"); return global.Int63() }
func RandUint32() uint32                  { syncPoint("rand"); return global.Uint32() }
func RandUint64() uint64                  { syncPoint("rand"); return global.Uint64() }
func RandInt31() int32                    { syncPoint("rand"); return global.Int31() }
func RandInt() int                        { syncPoint("rand"); return global.Int() }
func RandInt63n(n int64) int64            { syncPoint("rand"); return global.Int63n(n) }
func RandInt31n(n int32) int32            { syncPoint("rand"); return global.Int31n(n) }
func RandIntn(n int) int                  { syncPoint("rand"); return global.Intn(n) }
func RandFloat64() float64                { syncPoint("rand"); return global.Float64() }
func RandFloat32() float32                { syncPoint("rand"); return global.Float32() }
func RandNormFloat64() float64            { syncPoint("rand"); return global.NormFloat64() }
func RandExpFloat64() float64             { syncPoint("rand"); return global.ExpFloat64() }
func RandPerm(n int) []int                { syncPoint("rand"); return global.Perm(n) }
func RandShuffle(n int, f func(i, j int)) { syncPoint("rand"); global.Shuffle(n, f) }
func RandRead(p []byte) (int, error)      { syncPoint("rand"); return global.Read(p) }

// math/rand/v2
func Rand2Int64() int64         { return RandInt63() }
func Rand2IntN(n int) int       { return RandIntn(n) }
func Rand2Int64N(n int64) int64 { return RandInt63n(n) }
func Rand2Int32N(n int32) int32 { return RandInt31n(n) }
func Rand2Uint32N(n uint32) uint32 {
	return uint32(RandInt63n(int64(n)))
}
func Rand2Uint64N(n uint64) uint64 { return RandUint64() % n }
func Rand2N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}](n I) I {
	return I(RandUint64() % uint64(n))
}

type creader struct{}

func (creader) Read(p []byte) (int, error) {
	syncPoint("crand")
	var w uint64
	for i := range p {
		if i%8 == 0 {
			w = rnd()
		}
		p[i] = byte(w)
		w >>= 8
	}
	return len(p), nil
}

// CrandReader replaces crypto/rand.Reader.
var CrandReader io.Reader = creader{}

func CrandRead(p []byte) (int, error) { return CrandReader.Read(p) }

var _ = crand.Reader
