package simrt

// Choice streams. Every nondeterministic decision of a run is drawn from one
// of these named streams; each stream is seeded from (seed, stream name) and
// records what it handed out, so that a run is a pure function of its streams
// and can be replayed and minimised by editing the recorded lists.

type Stream int

const (
	SGen   Stream = iota // workload: configuration, documents, operations
	SSched               // which task runs next, and for how many steps
	SFault               // which fault fires where
	SDisk                // short reads and damage details
	SRand                // the library's own random draws
	SMap                 // map iteration order
	SPool                // sync.Pool behaviour
	SClock               // clock advances
	NStreams
)

var StreamNames = [NStreams]string{"gen", "sched", "fault", "disk", "rand", "map", "pool", "clock"}

type choiceStream struct {
	state  uint64
	replay []uint32
	pos    int
	rec    []uint32
	isRep  bool
	over   uint64 // decisions beyond those recorded
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (c *choiceStream) raw() uint32 {
	var v uint32
	if c.isRep {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos]
		}
		c.pos++
	} else {
		v = uint32(splitmix(&c.state) >> 32)
	}
	return v
}

// maxRecorded bounds what one stream records: a run that never ends must still
// have a replay file of reasonable size. Beyond it, the decisions are a fixed
// function of their position.
const maxRecorded = 60000

func (c *choiceStream) next(n uint32) uint32 {
	if n <= 1 {
		return 0
	}
	if len(c.rec) >= maxRecorded {
		c.over++
		x := c.over
		return uint32(splitmix(&x)>>32) % n
	}
	v := c.raw() % n
	c.rec = append(c.rec, v)
	return v
}

// Choices is a full set of streams.
type Choices struct{ s [NStreams]choiceStream }

// NewChoices derives all streams from one integer.
func NewChoices(seed uint64) *Choices {
	c := &Choices{}
	for i := range c.s {
		x := seed*0x9e3779b97f4a7c15 + uint64(i+1)*0xd1342543de82ef95
		splitmix(&x)
		c.s[i].state = splitmix(&x)
	}
	return c
}

// ReplayChoices replays recorded lists; a stream that runs out yields zeros.
func ReplayChoices(lists [NStreams][]uint32) *Choices {
	c := &Choices{}
	for i := range c.s {
		c.s[i].isRep = true
		c.s[i].replay = lists[i]
	}
	return c
}

// Recorded returns everything handed out so far.
func (c *Choices) Recorded() (out [NStreams][]uint32) {
	for i := range c.s {
		out[i] = append([]uint32(nil), c.s[i].rec...)
	}
	return
}

// N draws from 0..n-1. Zero is always the simplest alternative.
func (c *Choices) N(s Stream, n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.s[s].next(uint32(n)))
}

// P is true with probability num/den; replaying zero gives false.
func (c *Choices) P(s Stream, num, den int) bool {
	if num <= 0 {
		return false
	}
	return c.N(s, den) >= den-num
}

// U64 draws 62 bits.
func (c *Choices) U64(s Stream) uint64 {
	hi := uint64(c.s[s].next(1 << 31))
	lo := uint64(c.s[s].next(1 << 31))
	return hi<<31 | lo
}
