package main

import (
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
)

var alphaLatin = []string{"a", "b", "c", "d", "e", "l", "n", "o", "r", "s", "t", "u"}
var alphaMixed = []string{"a", "b", "e", "s", "t", "A", "E", "T", "é", "ü", "ñ", "ß", "İ", "K", "Ⱥ", "日", "本", "語", "ー", "界", "я", "ж",
	"क", "ष", "ि", "שׁ", "ع", "𝔾", "𝕠", "👍", "🏽", "1", "2", "٣", "ﬁ", "Ǆ", "龍", "𠀀"}
var alphaMarks = []string{"\u0301", "\u0308", "\u200d", "\u200b", "\ufeff", "\u00ad", "\u0000", "\ufffd", "\u0007", "\u00a0", "\u3000", "\u2028", "\u0085", "\u1680"}
var alphaPunct = []string{".", ",", "!", "?", "-", "'", "\"", "(", ")", "…", "。", "、", "—", "_", "$", "+", "'s", "'re", "n't", "'LL", "##", "▁", "#", "@"}
var alphaSpace = []string{" ", " ", " ", " ", "  ", "\n", "\t", "\r\n", "\u00a0", "\u3000", "   ", "\u2028"}

// brokenBits are not valid UTF-8.
var brokenBits = []string{"\xff", "\xfe", "\xe4", "\xe4\xb8", "\xc3", "\x80", "\xa9"}

// alphaEdge are characters at the edges of the classes that the components
// distinguish, and of the UTF-8 encoding.
var alphaEdge = func() (l []string) {
	add := func(rs ...rune) {
		for _, r := range rs {
			l = append(l, string(r))
		}
	}
	for _, b := range [][2]rune{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0x2a700, 0x2b73f},
		{0x2b740, 0x2b81f}, {0x2b920, 0x2ceaf}, {0x2f800, 0x2fa1f}} { // CJK ideographs
		add(b[0]-1, b[0], b[0]+1, (b[0]+b[1])/2, (b[0]+b[1])/2+1, b[1]-1, b[1], b[1]+1)
	}
	for r := rune(1); r < 0x100; r++ { // ASCII and Latin-1, controls included
		if r < '0' || r > '9' && r < 'A' || r > 'Z' && r < 'a' || r > 'z' {
			add(r)
		}
	}
	add(0x1680, 0x2000, 0x2005, 0x200a, 0x200b, 0x200f, 0x2010, 0x2027, 0x2028, 0x2029, 0x202a, 0x202f, 0x205f, 0x2060, 0x3000, 0x3001, 0x303f) // spaces and their neighbours
	add(0x2ff, 0x300, 0x36f, 0x370, 0x483, 0x591, 0x5bf, 0x610, 0x64b, 0x20d0, 0xfe20, 0xfe0f, 0x1d167, 0xe0100)                                // marks
	add('Z', 'z', 'Σ', 'ς', 'σ', 'Ω', 'Å', 'ẞ', 'ſ', 'ı', 'Ⅷ', 'ⓐ', 'Ꭰ', 'ꭰ', 'Ⴀ', '𐐀', 'Ɐ', 'ȿ', 'ǅ')                                          // case, also of another length
	add(0x378, 0xe000, 0xf8ff, 0xd7ff, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10fffd, 0x10ffff)                                             // unassigned, private, last ones
	add(0x7f, 0x80, 0x7ff, 0x800, 0x60c, 0x61b, 0x66a, 0x966, 0xbf0, '²', '½', '€', '→', '‿', '⁀', '〇', '々', '〡')
	return l
}()

// world is what the callers of one run share.
type world struct {
	r       *Run
	lex     []string
	norms   []*normSpec
	pres    []*preSpec
	models  []*modelSpec
	pats    []*patSpec
	timeout bool
	own     bool // callers also supply editing pre-tokenizers and models
}

func (r *Run) word() string {
	var b strings.Builder
	style := r.n(5)
	n := 1 + r.n(6)
	if r.p(1, 12) {
		n += r.n(12)
	}
	for i := 0; i < n; i++ {
		switch {
		case style <= 1:
			b.WriteString(alphaLatin[r.n(len(alphaLatin))])
		case style == 2:
			b.WriteString(alphaLatin[r.n(4)])
		case style == 3:
			b.WriteString(pick(r, alphaMixed))
		default:
			switch r.n(6) {
			case 0:
				b.WriteString(pick(r, alphaMarks))
			case 1:
				b.WriteString(pick(r, alphaPunct))
			case 2:
				if r.p(1, 8) {
					b.WriteString(string(rune(0x20 + r.n(0xd7e0))))
				} else {
					b.WriteString(pick(r, alphaEdge))
				}
			default:
				b.WriteString(pick(r, alphaMixed))
			}
		}
	}
	return b.String()
}

func (r *Run) lexicon() []string {
	n := 3 + r.n(8)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, r.word())
	}
	return l
}

// longOdds: documents with many pieces are cheap where little is done to them.
func (r *Run) longOdds() int {
	switch r.Prop {
	case "C07", "C08", "C09", "C10":
		return 12
	}
	return 40
}

// doc draws a document that reuses the run's lexicon.
func (r *Run) doc(lex []string, maxWords int) string {
	if r.p(1, 25) {
		return ""
	}
	var b strings.Builder
	if r.p(1, 6) {
		b.WriteString(pick(r, alphaMarks))
	}
	if r.p(1, 5) {
		b.WriteString(pick(r, alphaSpace))
	}
	n := 1 + r.n(maxWords)
	large := 600
	switch r.Prop {
	case "C07", "C08", "C09":
		large = 150
	}
	if maxWords > 4 && r.p(1, large) {
		n = 60 + r.n(340) // many splits, several kilobytes
		r.probe("large-document")
	}
	if maxWords > 4 && r.p(1, r.longOdds()) {
		n += r.n(50)
		r.probe("longer-document")
	}
	long := -1
	if maxWords > 1 && r.p(1, 200) {
		long = r.n(n)
		r.probe("long-word")
	}
	for i := 0; i < n; i++ {
		if i > 0 && !r.p(1, 10) {
			b.WriteString(pick(r, alphaSpace))
		}
		if i == long { // without a break
			for k := 3 + r.n(40); k > 0; k-- {
				if r.p(1, 5) {
					b.WriteString(r.word())
				} else {
					b.WriteString(lex[r.n(len(lex))])
				}
			}
		} else if r.p(1, 6) {
			b.WriteString(r.word())
		} else {
			b.WriteString(lex[r.n(len(lex))])
		}
		if r.p(1, 4) {
			b.WriteString(pick(r, alphaPunct))
		}
	}
	if r.p(1, 6) {
		b.WriteString(pick(r, alphaSpace))
	}
	return b.String()
}

func (r *Run) str() string {
	switch r.n(6) {
	case 0:
		return pick(r, alphaPunct)
	case 1:
		return pick(r, alphaMixed)
	case 2:
		return pick(r, alphaLatin)
	case 3:
		return r.word()
	case 4:
		return " "
	}
	if r.p(1, 3) {
		return ""
	}
	return pick(r, alphaSpace)
}

// stdRes are what the reference uses.
var stdRes = [...]*regexp.Regexp{
	regexp.MustCompile(`\s+`), regexp.MustCompile(`\pL+`), regexp.MustCompile(`[^a-z]`), regexp.MustCompile(`ab|a`), regexp.MustCompile(`a|ab|[a-s]+?|\PL\PL?`),
	regexp.MustCompile(`\w+`), regexp.MustCompile(`(?i)s|t`), regexp.MustCompile(`.`), regexp.MustCompile(`[[:punct:]]`), regexp.MustCompile(`(?s).+`),
	regexp.MustCompile(`a*`), regexp.MustCompile(`\b`),
}

var re2s = []struct {
	re   string
	opts regexp2.RegexOptions
}{
	{`\s+`, regexp2.None}, {`\w+|[^\w\s]+`, regexp2.None}, {`\p{L}+|\p{N}+`, regexp2.None}, {`a(?=b)|[^a]`, regexp2.None},
	{`(?<=\s)\S+`, regexp2.None}, {`[aeiou]+|\p{M}`, regexp2.IgnoreCase}, {gpt2Re, regexp2.None}, {`(\w)\1`, regexp2.None}, {`\S+?`, regexp2.None},
	{`.`, regexp2.Singleline}, {`a*`, regexp2.None}, {`\b`, regexp2.None}, {`(?=\p{Lu})|(?<=e)`, regexp2.None},
}

// re2 draws a regular expression; a fresh instance each time.
func (r *Run) re2(w *world, def int) *reSpec {
	s := &reSpec{}
	switch {
	case def != 0 && (!w.timeout && r.p(1, 2) || w.timeout && r.p(1, 8)):
		s.def = def
		if r.defs[def] == 0 {
			// The first use decides whether this default has a limit.
			r.defs[def] = 1
			if w.timeout && r.p(1, 2) {
				r.defs[def] = time.Hour
				if def == 1 {
					bytelevelpretokenizer.DefaultSplittingRegexp.MatchTimeout = time.Hour
				} else {
					whitespacepretokenizer.DefaultWordRegexp.MatchTimeout = time.Hour
				}
			}
		}
		if r.defs[def] > 1 {
			s.timeout = r.defs[def]
		}
	default:
		if n := len(r.res); n > 0 && r.res[n-1].def == 0 && r.p(1, 6) {
			// The same text with other options
			s.re, s.opts = r.res[n-1].re, r.res[n-1].opts^regexp2.IgnoreCase
		} else {
			k := r.n(len(re2s))
			s.re, s.opts = re2s[k].re, re2s[k].opts
		}
		if w.timeout && !r.p(1, 8) {
			s.timeout = time.Hour
		}
	}
	r.res = append(r.res, s)
	return s
}

func (r *Run) pat(w *world, depth int) *patSpec {
	k := r.n(6)
	p := &patSpec{kind: k}
	switch k {
	case pkRune:
		p.r = []rune(pick(r, append(append(append([]string{}, alphaSpace...), alphaMarks...), append(alphaPunct, alphaMixed...)...)))[0]
	case pkString:
		p.s = r.str()
	case pkFunc:
		p.class = r.n(len(classNames))
		p.pred = r.p(1, 2)
	case pkRegexp:
		k := r.n(len(stdRes))
		p.re = stdRes[k]
		if r.stdReal[k] == nil { // the library gets an instance of its own
			r.stdReal[k] = regexp.MustCompile(p.re.String())
		}
		p.reReal = r.stdReal[k]
	case pkRegexp2:
		p.re2 = r.re2(w, 0)
	case pkInvert:
		if depth <= 0 {
			p.kind = pkFunc
			p.class = r.n(len(classNames))
		} else {
			p.inner = r.pat(w, depth-1)
		}
	}
	return p
}

func (r *Run) edit(w *world) *edit {
	e := &edit{kind: r.n(edKinds)}
	switch e.kind {
	case edPrepend, edAppend:
		e.s = r.str()
	case edReplace:
		e.s = r.str()
		e.pat = r.pat(&world{}, 1)
	case edFilter:
		e.class = r.n(len(classNames))
	case edMap:
		e.mapk = r.n(len(mapFns))
	case edTransform:
		e.class, e.mode, e.s = r.n(len(classNames)), r.n(3), r.str()
		e.a, e.b = 0, 1000
		if r.p(2, 3) {
			e.a = r.n(1001)
			e.b = e.a + r.n(1001-e.a)
		}
	}
	return e
}

func (r *Run) norm(w *world, depth int, supplied bool) *normSpec {
	k := r.n(nkEdit + 1)
	if k == nkEdit && !supplied {
		k = nkBert
	}
	if k == nkSeq && depth <= 0 {
		k = nkLower
	}
	s := &normSpec{kind: k}
	switch k {
	case nkBert:
		for i := range s.flags {
			s.flags[i] = r.p(2, 3)
		}
	case nkStrip:
		s.flags[0], s.flags[1] = r.p(2, 3), r.p(2, 3)
	case nkSeq:
		n := r.n(4)
		for i := 0; i < n; i++ {
			s.list = append(s.list, r.norm(w, depth-1, supplied))
		}
	case nkEdit:
		s.ed = r.edit(w)
	}
	return s
}

func (r *Run) pre(w *world, supplied bool) *preSpec {
	k := r.n(tkKinds)
	if k == tkCustom && !supplied || k == tkEdit && !(supplied && w.own) {
		k = tkByteLevel
	}
	s := &preSpec{kind: k}
	switch k {
	case tkByteLevel:
		s.re2 = r.re2(w, 1)
		s.pfx, s.trim = r.p(1, 2), r.p(1, 2)
	case tkMeta:
		s.r = r.near([]rune{'▁', '▁', '_', ' ', '界', '.'}[r.n(6)])
		s.pfx = r.p(1, 2)
	case tkRune:
		s.r = r.near([]rune{' ', '-', 'a', '日', '\u00a0', '.', 0xfffd, 0}[r.n(8)])
	case tkWS:
		s.re2 = r.re2(w, 2)
	case tkCustom:
		s.pat = r.pat(w, 2)
		s.behav = r.n(5)
	case tkEdit:
		s.ed = r.edit(w)
	}
	return s
}

// near mostly returns c itself, else a character that a careless table or
// conversion would take for c.
func (r *Run) near(c rune) rune {
	if !r.p(1, 5) {
		return c
	}
	d := []rune{64, 128, 256, 1024, 0x10000, 1, 32}[r.n(7)]
	if r.p(1, 3) {
		d = -d
	}
	if x := c + d; x > 0 && utf8.ValidRune(x) {
		return x
	}
	return c
}

// vary returns the configuration with one setting changed.
func (r *Run) vary(w *world, p pipe) pipe {
	switch k := r.n(4); {
	case k == 0 && p.norm != nil:
		n := *p.norm
		switch n.kind {
		case nkBert:
			i := r.n(4)
			n.flags[i] = !n.flags[i]
		case nkStrip:
			i := r.n(2)
			n.flags[i] = !n.flags[i]
		case nkSeq:
			n.list = append(append([]*normSpec(nil), n.list...), r.norm(w, 0, false))
		default:
			n = *r.norm(w, 1, false)
		}
		p.norm = &n
	case k == 1 && p.model != nil:
		m := *p.model
		m.def = false
		if m.bpe != nil {
			b := *m.bpe
			switch r.n(4) {
			case 0:
				b.unk = []string{"", "<unk>", "[UNK]"}[r.n(3)]
			case 1:
				b.fuse = !b.fuse
			case 2:
				b.suffix = []string{"", "</w>", "ǂ", "_"}[r.n(4)]
			default:
				b.cache = r.n(4)
			}
			m.bpe = &b
		} else {
			switch r.n(3) {
			case 0:
				m.wp.unk = []string{"[UNK]", "<unk>", ""}[r.n(3)]
			case 1:
				m.wp.prefix = []string{"##", "", "▁▁", "日", "#"}[r.n(5)]
			default:
				m.wp.max = 1 + r.n(12)
			}
		}
		p.model = &m
	case len(p.pres) > 0:
		i := r.n(len(p.pres))
		s := *p.pres[i]
		switch s.kind {
		case tkByteLevel:
			switch r.n(3) {
			case 0:
				s.pfx = !s.pfx
			case 1:
				s.trim = !s.trim
			default:
				s.re2 = r.re2(w, 1)
			}
		case tkMeta:
			if r.p(1, 3) {
				s.pfx = !s.pfx
			} else {
				s.r = r.near(r.near(r.near(s.r)))
			}
		case tkRune:
			s.r = r.near(r.near(r.near(s.r)))
		case tkWS:
			s.re2 = r.re2(w, 2)
		default:
			s = *r.pre(w, false)
		}
		pres := append([]*preSpec(nil), p.pres...)
		pres[i] = &s
		p.pres = pres
	}
	return p
}

// pieces cuts a word into single characters.
func pieces(w string) []string {
	var out []string
	for _, c := range w {
		out = append(out, string(c))
	}
	return out
}

// ids assigns IDs to terms in the way the vocabulary will get them.
func (r *Run) finishVocab(terms []string) *vocabSpec {
	v := newVocabSpec()
	seen := map[string]bool{}
	var uniq []string
	for _, t := range terms {
		if !seen[t] {
			seen[t] = true
			uniq = append(uniq, t)
		}
	}
	v.file = r.p(1, 2)
	at := func(i int) int { return i }
	if v.file && r.p(1, 2) {
		at = r.spreadIDs(false)
	}
	perm := make([]int, len(uniq))
	for i := range perm {
		perm[i] = i
	}
	if v.file && r.p(1, 2) {
		for i := len(perm) - 1; i > 0; i-- {
			j := r.n(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	for i, t := range uniq {
		v.add(t, at(perm[i]))
	}
	return v
}

// spreadIDs is a way of giving IDs to terms which leaves gaps: a vocabulary
// file may number its terms as it likes.
func (r *Run) spreadIDs(negative bool) func(i int) int {
	switch r.n(3) {
	case 0:
		g := 2 + r.n(5)
		return func(i int) int { return i * g }
	case 1:
		if !negative {
			from := 1 + r.n(100000)
			return func(i int) int { return from + i }
		}
		return func(i int) int { return -i - 1 }
	default:
		// equal in their low bits, or in their high ones
		k := 1 + r.n(6)
		shift := []int{7, 8, 15, 16, 20, 24, 31, 32, 33, 40}[r.n(10)]
		return func(i int) int { return i%k + (i/k)<<shift }
	}
}

func (r *Run) wordPiece(words []string) *modelSpec {
	m := &modelSpec{}
	m.wp.unk = []string{"[UNK]", "<unk>", ""}[r.n(3)]
	m.wp.prefix = []string{"##", "", "▁▁", "日", "#"}[r.n(5)]
	m.wp.max = []int{100, 100, 8, 3, 1}[r.n(5)]
	var terms []string
	if !r.p(1, 8) {
		terms = append(terms, m.wp.unk)
	}
	for _, w := range words {
		cs := pieces(w)
		for i := 0; i < len(cs); {
			n := 1 + r.n(len(cs)-i)
			if r.p(1, 3) {
				n = 1
			}
			t := strings.Join(cs[i:i+n], "")
			if i > 0 {
				t = m.wp.prefix + t
			}
			if !r.p(1, 10) {
				terms = append(terms, t)
			}
			if r.p(1, 3) && n > 1 {
				// a longer candidate that leads nowhere
				terms = append(terms, t+cs[0])
			}
			i += n
		}
	}
	m.v = r.finishVocab(terms)
	return m
}

func fileSafe(t string) bool {
	return t != "" && !strings.ContainsAny(t, " \n\r") && !strings.HasPrefix(t, "#version")
}

func (r *Run) bpe(words []string) *modelSpec {
	b := &bpeSpec{table: map[[2]int]refMerge{}}
	b.unk = []string{"", "<unk>", "<unk>", "[UNK]"}[r.n(4)]
	b.prefix = []string{"", "", "##", "–", "-"}[r.n(5)]
	b.suffix = []string{"", "", "</w>", "ǂ", "_"}[r.n(5)]
	b.fuse = r.p(1, 2)
	b.cache = []int{10000, 10000, 0, 1, 2, 5}[r.n(6)]
	var terms []string
	if b.unk != "" && !r.p(1, 10) {
		terms = append(terms, b.unk)
	}
	var segs [][]string
	have := map[string]bool{}
	for _, w := range words {
		if w == "" {
			continue
		}
		cs := pieces(w)
		for i := range cs {
			if i > 0 {
				cs[i] = b.prefix + cs[i]
			}
			if i == len(cs)-1 {
				cs[i] += b.suffix
			}
			if !have[cs[i]] && !r.p(1, 14) {
				have[cs[i]] = true
				terms = append(terms, cs[i])
			}
		}
		segs = append(segs, cs)
	}
	done := map[[2]string]bool{}
	oov := r.p(1, 8)
	n := r.n(20)
	for k := 0; k < n && len(segs) > 0; k++ {
		si := r.n(len(segs))
		cs := segs[si]
		if len(cs) < 2 {
			continue
		}
		i := r.n(len(cs) - 1)
		l, q := cs[i], cs[i+1]
		if !have[l] || !have[q] || done[[2]string{l, q}] {
			continue
		}
		mg := l + q[len(b.prefix):]
		if mg == b.unk {
			continue
		}
		done[[2]string{l, q}] = true
		if !have[mg] {
			have[mg] = true
			if oov && r.p(1, 3) { // the merge makes a symbol that the vocabulary lacks
				if b.oov == nil {
					b.oov = map[string]int{}
				}
				b.oov[mg] = 1 + k
			} else {
				terms = append(terms, mg)
			}
		}
		b.merges = append(b.merges, [2]string{l, q})
		// apply it to all words, so that further merges build on it
		if r.p(3, 4) {
			for j := range segs {
				var out []string
				for x := 0; x < len(segs[j]); x++ {
					if x+1 < len(segs[j]) && segs[j][x] == l && segs[j][x+1] == q {
						out = append(out, mg)
						x++
					} else {
						out = append(out, segs[j][x])
					}
				}
				segs[j] = out
			}
		}
	}
	m := &modelSpec{bpe: b}
	if r.p(1, 4) { // rank order unrelated to derivation order
		for i := len(b.merges) - 1; i > 0; i-- {
			j := r.n(i + 1)
			b.merges[i], b.merges[j] = b.merges[j], b.merges[i]
		}
	}
	m.v = r.finishVocab(terms)
	base := 0
	for id := range m.v.terms {
		if id > base {
			base = id
		}
	}
	if len(b.oov) > 0 && r.p(1, 2) {
		base += 1 << 20
	}
	for t := range b.oov {
		b.oov[t] += base
	}
	b.file = r.p(1, 2) && b.oov == nil
	step := 1
	if r.p(1, 3) {
		step = []int{7, 7, 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 33}[r.n(8)]
	}
	for i, p := range b.merges {
		if !fileSafe(p[0]) || !fileSafe(p[1]) {
			b.file = false
		}
		b.ranks = append(b.ranks, i*step+step/2)
		_ = p
	}
	for i, p := range b.merges {
		rank := b.ranks[i]
		if b.file {
			rank = i
		}
		l, q, id := m.mergeIDs(p)
		b.table[[2]int{l, q}] = refMerge{rank, id}
	}
	return m
}

func (r *Run) model(words []string) *modelSpec {
	if r.p(1, 80) {
		// the default models know nothing
		m := &modelSpec{v: newVocabSpec(), def: true}
		m.wp.unk, m.wp.prefix, m.wp.max = "[UNK]", "##", 100
		if r.p(1, 2) {
			m.bpe = &bpeSpec{table: map[[2]int]refMerge{}}
		}
		return m
	}
	if r.p(1, 2) {
		return r.bpe(words)
	}
	return r.wordPiece(words)
}

// pipe is one pipeline configuration.
type pipe struct {
	norm  *normSpec
	pres  []*preSpec
	model *modelSpec
	word  int
	typ   int
}

// steps of the reference: the document after normalization and
// pre-tokenization.
func (p *pipe) refSplits(doc string) *rpts {
	n := refFrom(doc)
	if p.norm != nil {
		p.norm.ref(n, nil)
	}
	t := refPts(n)
	for _, s := range p.pres {
		s.ref(t)
	}
	return t
}

// refTokenize tokenizes all splits; the second result is the first error.
func (p *pipe) refTokenize(t *rpts) refErr {
	for i := range t.sp {
		if t.sp[i].has {
			continue
		}
		toks, err := p.model.ref(t.sp[i].ns.norm())
		if err != errNone {
			return err
		}
		t.sp[i].toks, t.sp[i].has = toks, true
	}
	return errNone
}

// newPipe draws a configuration and a model that fits the documents.
func (r *Run) newPipe(w *world, docs []string, supplied bool) *pipe {
	p := &pipe{word: -1}
	if !r.p(1, 6) {
		p.norm = r.norm(w, 2, supplied)
	}
	n := 1
	if r.p(1, 3) {
		n = r.n(3)
	}
	for i := 0; i < n; i++ {
		p.pres = append(p.pres, r.pre(w, supplied))
	}
	if r.p(1, 4) {
		p.word = []int{0, 1, 2, 3, 4, 5, 255, 256, 65536, 1 << 40}[r.n(10)]
	}
	p.typ = []int{0, 1, 2, 0, 1, 2, 0, 1, 256, 1 << 33, -1}[r.n(11)]
	own := supplied && w.own && r.p(1, 5)
	if own && r.p(1, 2) {
		p.pres = append(p.pres, &preSpec{kind: tkEdit, ed: r.edit(w)})
	}
	words := p.train(r, docs)
	p.model = r.model(words)
	if own {
		p.model.def = false
		p.model.own = 1 + r.n(127)
	}
	return p
}

// train collects the words the model will see.
func (p *pipe) train(r *Run, docs []string) []string {
	var words []string
	seen := map[string]bool{}
	for _, d := range docs {
		if r.p(1, 8) {
			continue // some documents hold unseen words
		}
		for _, s := range p.refSplits(d).sp {
			t := s.ns.norm()
			if len(t) < 200 && !seen[t] {
				seen[t] = true
				words = append(words, t)
			}
		}
	}
	return words
}

func (r *Run) docs(lex []string, n, maxWords int) []string {
	var out []string
	for i := 0; i < n; i++ {
		if len(out) > 0 && r.p(1, 6) {
			out = append(out, out[r.n(len(out))]) // the same document again
			continue
		}
		if len(out) > 0 && r.p(1, 6) {
			out = append(out, r.sibling(out[r.n(len(out))]))
			continue
		}
		out = append(out, r.doc(lex, maxWords))
	}
	return out
}

// sibling draws a document as long as the given one, and different from it
// in one place only, often in the size of a character.
func (r *Run) sibling(doc string) string {
	if doc == "" {
		return doc
	}
	at := 0
	if at = r.n(len(doc)); r.p(1, 2) {
		at = len(doc) - 1 - r.n(1+len(doc)/4)
	}
	for !utf8.RuneStart(doc[at]) {
		at--
	}
	_, size := utf8.DecodeRuneInString(doc[at:])
	if size > 1 {
		return doc[:at] + strings.Repeat(pick(r, []string{"a", "b", " "}), size) + doc[at+size:]
	}
	end := at
	for end < len(doc) && end < at+4 && doc[end] < utf8.RuneSelf {
		end++
	}
	return doc[:at] + []string{"", "b", "\u00e9", "\u0915", "\U0001d560"}[end-at] + doc[end:]
}
