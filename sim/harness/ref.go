package main

// The reference model: what the documented behaviour of every stage
// prescribes, written from the documentation and independently of the code
// under test, on characters instead of byte ranges.

import (
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	ref2 "verif.local/regexp2ref"
)

// rch is one character of a normalized text and the original bytes it derives
// from.
type rch struct {
	t    string
	s, e int
}

// rns is a normalized string.
type rns struct {
	orig  string
	shift int
	ch    []rch
}

func refFrom(s string) *rns {
	n := &rns{orig: s}
	for i := 0; i < len(s); {
		_, w := utf8.DecodeRuneInString(s[i:])
		n.ch = append(n.ch, rch{s[i : i+w], i, i + w})
		i += w
	}
	return n
}

func (n *rns) clone() *rns {
	return &rns{n.orig, n.shift, append([]rch(nil), n.ch...)}
}

func (n *rns) norm() string {
	var b strings.Builder
	for _, c := range n.ch {
		b.WriteString(c.t)
	}
	return b.String()
}

func (n *rns) len() int {
	k := 0
	for _, c := range n.ch {
		k += len(c.t)
	}
	return k
}

func (c rch) r() rune { r, _ := utf8.DecodeRuneInString(c.t); return r }

func (n *rns) filter(keep func(rune) bool) {
	var out []rch
	for _, c := range n.ch {
		if keep(c.r()) {
			out = append(out, rch{string(c.r()), c.s, c.e})
		}
	}
	n.ch = out
}

func (n *rns) mapr(f func(rune) rune) {
	for i, c := range n.ch {
		n.ch[i].t = string(f(c.r()))
	}
}

func (n *rns) prepend(s string) {
	if len(n.ch) == 0 || s == "" {
		return
	}
	var out []rch
	for _, r := range s {
		out = append(out, rch{string(r), n.ch[0].s, n.ch[0].e})
	}
	n.ch = append(out, n.ch...)
}

func (n *rns) append(s string) {
	if len(n.ch) == 0 {
		return
	}
	l := n.ch[len(n.ch)-1]
	for _, r := range s {
		n.ch = append(n.ch, rch{string(r), l.s, l.e})
	}
}

func isSpace(r rune) bool { return unicode.Is(unicode.White_Space, r) }

func (n *rns) trim(left, right bool) {
	a, b := 0, len(n.ch)
	if left {
		for a < b && isSpace(n.ch[a].r()) {
			a++
		}
	}
	if right {
		for b > a && isSpace(n.ch[b-1].r()) {
			b--
		}
	}
	n.ch = append([]rch(nil), n.ch[a:b]...)
}

// expand replaces each character by a list of texts that all derive from it.
func (n *rns) expand(f func(t string) []string) {
	var out []rch
	for _, c := range n.ch {
		for _, t := range f(c.t) {
			out = append(out, rch{t, c.s, c.e})
		}
	}
	n.ch = out
}

// rcap is one piece of a text cut by a pattern.
type rcap struct {
	s, e int
	m    bool
}

// replace substitutes every match; the new text derives from the match's last
// character.
func (n *rns) replace(caps []rcap, content string) {
	var out []rch
	at := 0
	ci := 0
	for _, c := range caps {
		var last rch
		for ci < len(n.ch) && at < c.e {
			last = n.ch[ci]
			if !c.m {
				out = append(out, last)
			}
			at += len(last.t)
			ci++
		}
		if c.m && c.s == c.e {
			// Nothing is replaced: the new text goes with what is before it.
			last = rch{}
			if len(out) > 0 {
				last = out[len(out)-1]
			}
		}
		if c.m {
			for _, r := range content {
				out = append(out, rch{string(r), last.s, last.e})
			}
		}
	}
	n.ch = out
}

// index converts a byte position into a character index.
func (n *rns) index(pos int) int {
	at := 0
	for i, c := range n.ch {
		if at == pos {
			return i
		}
		at += len(c.t)
	}
	return len(n.ch)
}

// slice cuts out the bytes [s,e).
func (n *rns) slice(s, e int) *rns {
	a, b := n.index(s), n.index(e)
	if a >= b {
		return &rns{orig: "", shift: n.shift}
	}
	os, oe := n.ch[a].s, n.ch[b-1].e
	out := &rns{orig: n.orig[os:oe], shift: n.shift + os}
	for _, c := range n.ch[a:b] {
		out.ch = append(out.ch, rch{c.t, c.s - os, c.e - os})
	}
	return out
}

// origRange is the part of the original text that bytes [s,e) derive from.
func (n *rns) origRange(s, e int) (int, int) {
	at := 0
	os, oe := -1, -1
	for _, c := range n.ch {
		next := at + len(c.t)
		if next > s && at < e {
			if os < 0 {
				os = c.s
			}
			oe = c.e
		}
		at = next
	}
	return os, oe
}

// split cuts the text according to the documented delimiter behaviours.
func (n *rns) split(caps []rcap, behaviour int) []*rns {
	type piece struct{ s, e int }
	var out []piece
	switch behaviour {
	case bRemoved:
		for _, c := range caps {
			if !c.m {
				out = append(out, piece{c.s, c.e})
			}
		}
	case bIsolated:
		for _, c := range caps {
			out = append(out, piece{c.s, c.e})
		}
	case bPrevious: // a delimiter joins the text before it
		for i := 0; i < len(caps); i++ {
			p := piece{caps[i].s, caps[i].e}
			if !caps[i].m && i+1 < len(caps) && caps[i+1].m {
				p.e = caps[i+1].e
				i++
			}
			out = append(out, p)
		}
	case bNext: // a delimiter joins the text after it
		for i := 0; i < len(caps); i++ {
			p := piece{caps[i].s, caps[i].e}
			if caps[i].m && i+1 < len(caps) && !caps[i+1].m {
				p.e = caps[i+1].e
				i++
			}
			out = append(out, p)
		}
	case bContiguous: // adjacent delimiters stay together
		for i := 0; i < len(caps); i++ {
			p := piece{caps[i].s, caps[i].e}
			for i+1 < len(caps) && caps[i+1].m == caps[i].m {
				i++
				p.e = caps[i].e
			}
			out = append(out, p)
		}
	}
	var res []*rns
	for _, p := range out {
		res = append(res, n.slice(p.s, p.e))
	}
	return res
}

const (
	bRemoved = iota
	bIsolated
	bPrevious
	bNext
	bContiguous
)

// origAlignments maps every original byte to a range of the normalized text.
func (n *rns) origAlignments() [][2]int {
	out := make([][2]int, len(n.orig))
	type group struct{ s, e, ns, ne int }
	var gs []group
	at := 0
	for _, c := range n.ch {
		if k := len(gs) - 1; k >= 0 && gs[k].s == c.s && gs[k].e == c.e {
			gs[k].ne = at + len(c.t)
		} else {
			gs = append(gs, group{c.s, c.e, at, at + len(c.t)})
		}
		at += len(c.t)
	}
	sorted := true
	for i := 1; i < len(gs); i++ {
		sorted = sorted && gs[i-1].e <= gs[i].s
	}
	skip, past := 0, 0 // groups that end before b, and where the last one of them ends
	for b := range out {
		if sorted {
			for skip < len(gs) && gs[skip].e <= b {
				past = gs[skip].ne
				skip++
			}
		}
		pos := past
		found := false
		for _, g := range gs[skip:] {
			if sorted && g.s > b {
				break
			}
			if b >= g.s && b < g.e {
				out[b] = [2]int{g.ns, g.ne}
				found = true
				break
			}
			if g.e <= b {
				pos = g.ne
			}
		}
		if !found {
			out[b] = [2]int{pos, pos}
		}
	}
	return out
}

// --- patterns ---

func tile(s string, ms [][]int) []rcap {
	if s == "" {
		return []rcap{{0, 0, false}}
	}
	var out []rcap
	at := 0
	for _, m := range ms {
		if m[0] > at {
			out = append(out, rcap{at, m[0], false})
		}
		out = append(out, rcap{m[0], m[1], true})
		at = m[1]
	}
	if at < len(s) {
		out = append(out, rcap{at, len(s), false})
	}
	return out
}

func refFunc(s string, f func(rune) bool) []rcap {
	var ms [][]int
	for i, r := range s {
		if f(r) {
			_, w := utf8.DecodeRuneInString(s[i:])
			ms = append(ms, []int{i, i + w})
		}
	}
	return tile(s, ms)
}

func refString(s, d string) []rcap {
	var ms [][]int
	if d != "" {
		for i := 0; ; {
			k := strings.Index(s[i:], d)
			if k < 0 {
				break
			}
			ms = append(ms, []int{i + k, i + k + len(d)})
			i += k + len(d)
		}
	}
	return tile(s, ms)
}

func refRegexp(s string, re *regexp.Regexp) []rcap { return tile(s, re.FindAllStringIndex(s, -1)) }

func refRegexp2(s string, re *ref2.Regexp) []rcap {
	if s == "" {
		return tile(s, nil)
	}
	rs := []rune(s)
	pos := make([]int, len(rs)+1)
	for i, r := range rs {
		pos[i+1] = pos[i] + utf8.RuneLen(r)
	}
	var ms [][]int
	m, err := re.FindRunesMatch(rs)
	for m != nil && err == nil {
		ms = append(ms, []int{pos[m.Index], pos[m.Index+m.Length]})
		m, err = re.FindNextMatch(m)
	}
	if err != nil {
		panic("reference regexp failed: " + err.Error())
	}
	return tile(s, ms)
}

func refInvert(c []rcap) []rcap {
	out := make([]rcap, len(c))
	for i := range c {
		out[i] = rcap{c[i].s, c[i].e, !c[i].m}
	}
	return out
}

// --- pre-tokenized documents ---

type rtok struct {
	id   int
	val  string
	s, e int
}

type rsplit struct {
	ns   *rns
	toks []rtok
	has  bool
}

type rpts struct{ sp []rsplit }

func refPts(n *rns) *rpts { return &rpts{[]rsplit{{ns: n}}} }

func (p *rpts) clone() *rpts {
	q := &rpts{}
	for _, s := range p.sp {
		q.sp = append(q.sp, rsplit{s.ns.clone(), append([]rtok(nil), s.toks...), s.has})
	}
	return q
}

func (p *rpts) split(f func(i int, n *rns) []*rns) { p.splitTok(nil, f) }

// splitTok is split by a function that may attach tokens to the k-th non-empty
// piece of split i.
func (p *rpts) splitTok(tok func(i, k int, n *rns) ([]rtok, bool), f func(i int, n *rns) []*rns) {
	var out []rsplit
	for i, s := range p.sp {
		if s.has {
			out = append(out, s)
			continue
		}
		k := 0
		for _, n := range f(i, s.ns) {
			if len(n.ch) > 0 {
				x := rsplit{ns: n}
				if tok != nil {
					x.toks, x.has = tok(i, k, n)
				}
				k++
				out = append(out, x)
			}
		}
	}
	p.sp = out
}

type renc struct {
	ids, words, types []int
	toks              []string
	offs              [][2]int
}

func (p *rpts) encode(word, typ int) renc {
	var e renc
	for i, s := range p.sp {
		w := word
		if w < 0 {
			w = i
		}
		for _, t := range s.toks {
			a, b := -1-s.ns.shift, -1-s.ns.shift // no claim about tokens without text
			if t.s < t.e {
				a, b = s.ns.origRange(t.s, t.e)
			}
			e.ids = append(e.ids, t.id)
			e.toks = append(e.toks, t.val)
			e.words = append(e.words, w)
			e.types = append(e.types, typ)
			e.offs = append(e.offs, [2]int{s.ns.shift + a, s.ns.shift + b})
		}
	}
	return e
}

// --- models ---

type refErr int

const (
	errNone refErr = iota
	errUnkMissing
	errNoSuchID // a symbol of the result is not in the vocabulary
)

func (e refErr) String() string {
	switch e {
	case errUnkMissing:
		return "the unknown token is not in the vocabulary"
	case errNoSuchID:
		return "a merged symbol is not in the vocabulary"
	}
	return "there is no failure"
}

func (v *vocabSpec) id(t string) (int, bool) { id, ok := v.ids[t]; return id, ok }

func refWordPiece(v *vocabSpec, unk, prefix string, max int, w string) ([]rtok, refErr) {
	bad := func() ([]rtok, refErr) {
		id, ok := v.id(unk)
		if !ok {
			return nil, errUnkMissing
		}
		return []rtok{{id, unk, 0, len(w)}}, errNone
	}
	rs := []rune(w)
	if len(rs) > max {
		return bad()
	}
	var out []rtok
	at, pos := 0, 0
	for at < len(rs) {
		n := len(rs)
		for ; n > at; n-- {
			t := string(rs[at:n])
			if at > 0 {
				t = prefix + t
			}
			if id, ok := v.id(t); ok {
				l := len(string(rs[at:n]))
				out = append(out, rtok{id, t, pos, pos + l})
				pos += l
				break
			}
		}
		if n == at {
			return bad()
		}
		at = n
	}
	return out, errNone
}

type rsym struct{ id, s, e int }

// refBPEInit is the word cut into single characters.
func refBPEInit(v *vocabSpec, m *bpeSpec, w string) ([]rsym, refErr) {
	unkID := -1
	if m.unk != "" {
		id, ok := v.id(m.unk)
		if !ok {
			return nil, errUnkMissing
		}
		unkID = id
	}
	var out []rsym
	lastUnk := false
	for i, r := range w {
		t := string(r)
		end := i + len(t)
		if i > 0 {
			t = m.prefix + t
		}
		if end == len(w) {
			t += m.suffix
		}
		if id, ok := v.id(t); ok {
			out = append(out, rsym{id, i, end})
			lastUnk = false
			continue
		}
		if m.unk == "" {
			continue
		}
		if lastUnk && m.fuse {
			out[len(out)-1].e = end
		} else {
			out = append(out, rsym{unkID, i, end})
		}
		lastUnk = true
	}
	return out, errNone
}

// refBPE applies the applicable merge with the lowest rank, leftmost first,
// until none applies.
func refBPE(v *vocabSpec, m *bpeSpec, w string) ([]rtok, refErr) {
	sy, err := refBPEInit(v, m, w)
	if err != errNone {
		return nil, err
	}
	for {
		best, bi := refMerge{}, -1
		for i := 0; i+1 < len(sy); i++ {
			if mg, ok := m.table[[2]int{sy[i].id, sy[i+1].id}]; ok && (bi < 0 || mg.rank < best.rank) {
				best, bi = mg, i
			}
		}
		if bi < 0 {
			break
		}
		sy[bi] = rsym{best.id, sy[bi].s, sy[bi+1].e}
		sy = append(sy[:bi+1], sy[bi+2:]...)
	}
	for _, s := range sy {
		if _, ok := v.terms[s.id]; !ok {
			return nil, errNoSuchID
		}
	}
	return refToks(v, sy), errNone
}

func refToks(v *vocabSpec, sy []rsym) []rtok {
	var out []rtok
	for _, s := range sy {
		out = append(out, rtok{s.id, v.terms[s.id], s.s, s.e})
	}
	return out
}

type refMerge struct{ rank, id int }

// reachable reports, for every span of a word, which IDs merging can produce.
func reachable(m *bpeSpec, sy []rsym) [][]map[int]bool {
	n := len(sy)
	t := make([][]map[int]bool, n)
	for i := range t {
		t[i] = make([]map[int]bool, n+1)
		t[i][i+1] = map[int]bool{sy[i].id: true}
	}
	for l := 2; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			var s map[int]bool
			for k := i + 1; k < i+l; k++ {
				if len(t[k][i+l]) == 0 {
					continue
				}
				for a := range t[i][k] {
					for b := range t[k][i+l] {
						if mg, ok := m.table[[2]int{a, b}]; ok {
							if s == nil {
								s = map[int]bool{}
							}
							s[mg.id] = true
						}
					}
				}
			}
			t[i][i+l] = s
		}
	}
	return t
}

// --- byte-level table ---

var refByte [256]string

func init() {
	// Printable bytes stand for themselves, the others take the code points
	// from 256 on, in order.
	n := rune(256)
	for b := 0; b < 256; b++ {
		r := rune(b)
		if b >= 0x21 && b <= 0x7e || b >= 0xa1 && b <= 0xac || b >= 0xae {
			refByte[b] = string(r)
		} else {
			refByte[b] = string(n)
			n++
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
