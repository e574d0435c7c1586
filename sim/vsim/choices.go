// Package vsim is the deterministic simulator: one seed decides every
// scheduling choice, fault, clock reading and random draw of a run.
package vsim

// Choices is a recorded sequence of bounded decisions. In generate mode values
// come from a seeded PRNG; in replay mode they come from the recorded list, and
// once that is exhausted every decision is 0, which is always the most benign
// alternative (do not preempt, keep running the same task, no fault).
type Choices struct {
	rng    uint64
	replay bool
	in     []uint32
	pos    int
	Rec    []uint32
}

func NewChoices(seed uint64) *Choices { return &Choices{rng: Mix(seed)} }

func ReplayChoices(in []uint32) *Choices { return &Choices{replay: true, in: in} }

// Mix is the splitmix64 finaliser.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (c *Choices) next() uint64 {
	c.rng += 0x9e3779b97f4a7c15
	z := c.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws a value in [0,n).
func (c *Choices) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.replay {
		if c.pos < len(c.in) {
			v = c.in[c.pos] % uint32(n)
		}
		c.pos++
	} else {
		v = uint32(c.next() % uint64(n))
	}
	c.Rec = append(c.Rec, v)
	return int(v)
}

// Bool draws true with probability num/den; the benign value is false.
func (c *Choices) Bool(num, den int) bool {
	if num <= 0 {
		return false
	}
	return c.N(den) >= den-num
}

// In draws a value in [lo,hi]; the benign value is lo.
func (c *Choices) In(lo, hi int) int { return lo + c.N(hi-lo+1) }

// U64 draws 64 raw bits.
func (c *Choices) U64() uint64 {
	return uint64(c.N(1<<31-1))<<33 ^ uint64(c.N(1<<31-1))<<11 ^ uint64(c.N(1<<20))
}
