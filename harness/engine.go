package main

import (
	"fmt"
	"math/bits"
)

// T is the source of every random choice of a case. A case is a pure function of the
// sequence of choices it draws, so that sequence is what is shrunk, saved and replayed.
// The value 0 of a choice is always its simplest alternative.
type T struct {
	in       []uint64 // replayed choices
	inPos    int
	replay   bool
	tail     bool // random choices follow the replayed ones
	rng      uint64
	rec      []uint64
	jrn      *journal
	labels   map[string]int
	nontriv  bool
	key      uint64
	desc     func() string
	quiet    bool
	discards int
}

// Failure is the panic value used by Failf.
type Failure struct{ Msg string }

// Discard is the panic value of a rejected case.
type Discard struct{}

const maxChoices = 1 << 18

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(vs ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, v := range vs {
		h ^= v
		h = splitmix(&h)
	}
	return h
}

func newRandomT(seed uint64, j *journal) *T {
	return &T{rng: seed, jrn: j, labels: map[string]int{}}
}

func newReplayT(in []uint64, j *journal) *T {
	return &T{in: in, replay: true, jrn: j, labels: map[string]int{}}
}

// U64 draws a value in [0, max].
func (t *T) U64(max uint64) uint64 {
	var v uint64
	if t.replay {
		if t.inPos < len(t.in) {
			v = t.in[t.inPos]
			t.inPos++
		} else if t.tail {
			v = splitmix(&t.rng)
		}
		if v > max {
			v %= max + 1
		}
	} else {
		r := splitmix(&t.rng)
		if max == ^uint64(0) {
			v = r
		} else {
			v, _ = bits.Mul64(r, max+1)
		}
	}
	if len(t.rec) >= maxChoices {
		panic(Discard{})
	}
	t.rec = append(t.rec, v)
	if t.jrn != nil {
		t.jrn.add(v)
	}
	return v
}

// Int draws an int in [lo, hi], lo is the simplest.
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	if hi-lo >= 16 {
		if v, ok := t.dictWithin(lo, hi); ok {
			return v
		}
	}
	return lo + int(t.U64(uint64(hi-lo)))
}

// N draws an index in [0, n).
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.U64(uint64(n - 1)))
}

// Bool is false in the simplest case.
func (t *T) Bool() bool { return t.U64(1) == 1 }

// Chance is true with probability num/den, false in the simplest case.
func (t *T) Chance(num, den int) bool { return int(t.U64(uint64(den-1))) >= den-num }

// W draws an index with the given weights, index 0 is the simplest.
func (t *T) W(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := int(t.U64(uint64(sum - 1)))
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

func pick[V any](t *T, vs []V) V { return vs[t.N(len(vs))] }

func (t *T) Failf(f string, a ...any) { panic(&Failure{fmt.Sprintf(f, a...)}) }
func (t *T) Discard()                 { panic(Discard{}) }
func (t *T) Label(l string)           { t.labels[l]++ }

// NonTrivial marks the case; two cases with the same key count once.
func (t *T) NonTrivial(key uint64) { t.nontriv = true; t.key = mix(t.key, key) }

// Desc sets the lazily rendered description of the case.
func (t *T) Desc(f func() string) { t.desc = f }

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
func hashStr(s string) uint64 { return hashBytes([]byte(s)) }

type outcome struct {
	fail    *Failure
	discard bool
	choices []uint64
	t       *T
}

// runCase executes one case. A panic that is neither a Failure nor a Discard comes from the
// harness itself (library calls are guarded) and is not recovered.
func runCase(run func(*T), t *T) (o outcome) {
	defer func() {
		o.choices = t.rec
		o.t = t
		if r := recover(); r != nil {
			switch v := r.(type) {
			case *Failure:
				o.fail = v
			case Discard:
				o.discard = true
			default:
				panic(r)
			}
		}
	}()
	if t.jrn != nil {
		t.jrn.reset()
	}
	run(t)
	return
}

// shrink minimises a failing choice sequence, test reports whether a candidate still fails
// and which choices it really used.
func shrink(choices []uint64, budget int, test func([]uint64) (bool, []uint64)) []uint64 {
	cur := append([]uint64(nil), choices...)
	for len(cur) > 0 && cur[len(cur)-1] == 0 {
		cur = cur[:len(cur)-1] // draws past the end are 0
	}
	used := 0
	try := func(c []uint64) bool {
		if used >= budget {
			return false
		}
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		if !less(c, cur) {
			return false
		}
		used++
		ok, rec := test(c)
		if !ok {
			return false
		}
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if less(rec, c) {
			c = rec
		}
		cur = append([]uint64(nil), c...)
		return true
	}
	without := func(i, n int) []uint64 {
		c := append([]uint64(nil), cur[:i]...)
		return append(c, cur[i+n:]...)
	}
	for improved := true; improved && used < budget; {
		improved = false
		for n := len(cur) / 2; n >= 1 && used < budget; n = next(n) {
			for i := len(cur) - n; i >= 0; {
				if i+n <= len(cur) && try(without(i, n)) {
					improved = true
					if i > len(cur)-n {
						i = len(cur) - n
					}
					continue
				}
				if n > 8 {
					i -= n / 2
				} else {
					i--
				}
				if used >= budget {
					break
				}
			}
		}
		for n := 8; n >= 1 && used < budget; n /= 2 {
			for i := 0; i+n <= len(cur); i += n {
				c := append([]uint64(nil), cur...)
				for k := i; k < i+n; k++ {
					c[k] = 0
				}
				if try(c) {
					improved = true
				}
			}
		}
		// lower single values, alone or together with the removal of a later chunk
		for i := 0; i < len(cur) && used < budget; i++ {
			if cur[i] == 0 {
				continue
			}
			lo, hi := uint64(0), cur[i]
			for lo < hi && i < len(cur) && used < budget {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), cur...)
				c[i] = mid
				if try(c) {
					improved = true
					hi = mid
					if i >= len(cur) || cur[i] != mid {
						break
					}
				} else {
					lo = mid + 1
				}
			}
			if i < len(cur) && cur[i] > 0 && cur[i] < 64 {
				for n := 1; n <= 8 && i+1+n <= len(cur); n++ {
					c := append([]uint64(nil), cur[:i+1]...)
					c[i]--
					c = append(c, cur[i+1+n:]...)
					if try(c) {
						improved = true
						break
					}
				}
			}
		}
	}
	return cur
}

func next(n int) int {
	if n == 1 {
		return 0
	}
	return n / 2
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
