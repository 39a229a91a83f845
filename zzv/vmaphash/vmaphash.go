// Package vmaphash replaces hash/maphash in instrumented code by a deterministic hash.
package vmaphash

type Seed struct{ s uint64 }

var n uint64

// Reset makes the seeds of the next execution those of the previous one.
func Reset() { n = 0 }

func MakeSeed() Seed { n++; return Seed{n * 0x9e3779b97f4a7c15} }

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>33
}

func Bytes(s Seed, b []byte) uint64 {
	h := s.s ^ 14695981039346656037
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(h)
}
func String(s Seed, x string) uint64 { return Bytes(s, []byte(x)) }

type Hash struct {
	s Seed
	b []byte
}

func (h *Hash) init() {
	if h.s.s == 0 {
		h.s = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error)       { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Hash) WriteByte(c byte) error            { h.Write([]byte{c}); return nil }
func (h *Hash) Sum64() uint64                     { h.init(); return Bytes(h.s, h.b) }
func (h *Hash) Reset()                            { h.b = h.b[:0] }
func (h *Hash) Seed() Seed                        { h.init(); return h.s }
func (h *Hash) SetSeed(s Seed)                    { h.s = s; h.b = nil }
