// Package maphash hashes with seeds drawn from the simulator.
package maphash

import "verifsim.local/hook"

// Seed is the seed of a hash.
type Seed struct{ s uint64 }

// MakeSeed returns a new seed.
func MakeSeed() Seed {
	for {
		if x := hook.Rand(); x != 0 {
			return Seed{x}
		}
	}
}

// Hash is a stand-in with the same methods; the zero Hash picks its seed.
type Hash struct {
	seed  Seed
	state uint64
	n     int
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.SetSeed(MakeSeed())
	}
}

func add(state uint64, b byte) uint64 { return (state ^ uint64(b)) * 0x100000001b3 }

func (h *Hash) WriteByte(b byte) error {
	h.init()
	h.state = add(h.state, b)
	h.n++
	return nil
}

func (h *Hash) Write(b []byte) (int, error) {
	for _, c := range b {
		h.WriteByte(c)
	}
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) {
	for i := 0; i < len(s); i++ {
		h.WriteByte(s[i])
	}
	return len(s), nil
}

func (h *Hash) Seed() Seed {
	h.init()
	return h.seed
}

func (h *Hash) SetSeed(seed Seed) {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed = seed
	h.Reset()
}

func (h *Hash) Reset() {
	h.init0()
	h.state, h.n = h.seed.s, 0
}

func (h *Hash) init0() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func (h *Hash) Sum64() uint64 {
	h.init()
	x := h.state + uint64(h.n)
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}

func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }

// Bytes is the hash of b.
func Bytes(seed Seed, b []byte) uint64 {
	var h Hash
	h.SetSeed(seed)
	h.Write(b)
	return h.Sum64()
}

// String is the hash of s.
func String(seed Seed, s string) uint64 {
	var h Hash
	h.SetSeed(seed)
	h.WriteString(s)
	return h.Sum64()
}
