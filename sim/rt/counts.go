package simrt

// The containers below are what several tasks update while the happens-before
// detector is on. They avoid the built-in map, whose operations the detector
// checks even when they come from code it does not instrument.

// Counter is one named count.
type Counter struct {
	Name string
	N    int64
}

// Counters is a small set of named counts.
type Counters []Counter

// Add counts n more occurrences.
func (c *Counters) Add(name string, n int64) {
	for i := range *c {
		if (*c)[i].Name == name {
			(*c)[i].N += n
			return
		}
	}
	*c = append(*c, Counter{name, n})
}

// Get is the current count.
func (c Counters) Get(name string) int64 {
	for i := range c {
		if c[i].Name == name {
			return c[i].N
		}
	}
	return 0
}

// Set64 is a bounded set of non-zero numbers.
type Set64 struct {
	slot [4096]uint64
	n    int
}

// Add inserts v while there is room.
func (s *Set64) Add(v uint64) {
	if v == 0 || s.n >= 3000 {
		return
	}
	h := v * 0x9e3779b97f4a7c15 >> 52
	for s.slot[h] != 0 {
		if s.slot[h] == v {
			return
		}
		h = (h + 1) & 4095
	}
	s.slot[h] = v
	s.n++
}

// All lists the members.
func (s *Set64) All() []uint64 {
	out := make([]uint64, 0, s.n)
	for _, v := range s.slot {
		if v != 0 {
			out = append(out, v)
		}
	}
	return out
}

// covered marks the statements of the code under test that ran in this
// process.
var covered [1 << 18]bool

// Covered lists them.
func Covered() []uint32 {
	var out []uint32
	for i, b := range covered {
		if b {
			out = append(out, uint32(i))
		}
	}
	return out
}
