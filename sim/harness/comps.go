package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	ref2 "verif.local/regexp2ref"
)

// Hook is called by supplied code at every call; it may return an error or
// panic, as the run decides.
type Hook func(where string) error

// --- character classes ---

var classNames = []string{"letter", "space", "punct", "upper", "digit", "mark", "non-ascii", "vowel", "all", "none"}

func classFn(c int) func(rune) bool {
	switch classNames[c] {
	case "letter":
		return unicode.IsLetter
	case "space":
		return isSpace
	case "punct":
		return unicode.IsPunct
	case "upper":
		return unicode.IsUpper
	case "digit":
		return unicode.IsDigit
	case "mark":
		return func(r rune) bool { return unicode.Is(unicode.M, r) }
	case "non-ascii":
		return func(r rune) bool { return r > 127 }
	case "vowel":
		return func(r rune) bool { return strings.ContainsRune("aeiouAEIOUéüİ", r) }
	case "all":
		return func(rune) bool { return true }
	}
	return func(rune) bool { return false }
}

// --- regular expressions ---

type reSpec struct {
	re      string
	opts    regexp2.RegexOptions
	def     int           // 1: the byte-level default, 2: the white-space default
	timeout time.Duration // 0: none

	real *regexp2.Regexp
	ref  *ref2.Regexp
}

const gpt2Re = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`
const wordRe = `\w+|[^\w\s]+`

var refCache = map[string]*ref2.Regexp{}

// build makes the shared instance; equal specs keep their own instance.
func (s *reSpec) build() {
	if s.real != nil {
		return
	}
	switch s.def {
	case 1:
		s.re, s.opts = gpt2Re, regexp2.IgnoreCase|regexp2.Multiline
		s.real = bytelevelpretokenizer.DefaultSplittingRegexp
	case 2:
		s.re, s.opts = wordRe, regexp2.IgnoreCase|regexp2.Multiline
		s.real = whitespacepretokenizer.DefaultWordRegexp
	default:
		s.real = regexp2.MustCompile(s.re, s.opts)
		if s.timeout > 0 {
			s.real.MatchTimeout = s.timeout
		}
	}
	k := fmt.Sprint(int(s.opts), s.re)
	if refCache[k] == nil {
		refCache[k] = ref2.MustCompile(s.re, ref2.RegexOptions(s.opts))
	}
	s.ref = refCache[k]
}

// wantRegexes checks that the expressions are as they were handed over.
func (r *Run) wantRegexes() {
	for _, s := range r.res {
		want := s.timeout
		if want == 0 {
			want = regexp2.DefaultMatchTimeout
		}
		if s.real != nil && s.real.MatchTimeout != want {
			r.Fail("the time limit of the expression %q is %v, but was %v", s.re, s.real.MatchTimeout, want)
		}
	}
}

// prebuild compiles the expressions of a pipeline, so that components made
// from it later, by different callers, share them as they would a global.
func (p *pipe) prebuild() {
	var pat func(*patSpec)
	pat = func(x *patSpec) {
		if x == nil {
			return
		}
		if x.re2 != nil {
			x.re2.build()
		}
		pat(x.inner)
	}
	var norm func(*normSpec)
	norm = func(x *normSpec) {
		if x == nil {
			return
		}
		if x.ed != nil {
			pat(x.ed.pat)
		}
		for _, y := range x.list {
			norm(y)
		}
	}
	norm(p.norm)
	for _, x := range p.pres {
		if x.re2 != nil {
			x.re2.build()
		}
		pat(x.pat)
	}
}

// --- patterns ---

const (
	pkRune = iota
	pkString
	pkFunc
	pkRegexp
	pkRegexp2
	pkInvert
	pkHooked // supplied by the caller, may fail
	pkMemo   // supplied by the caller, returns stored captures
)

type patSpec struct {
	kind   int
	r      rune
	s      string
	class  int
	pred   bool // the function is supplied code that may panic
	re     *regexp.Regexp
	reReal *regexp.Regexp
	re2    *reSpec
	inner  *patSpec
}

func (p *patSpec) String() string {
	switch p.kind {
	case pkRune:
		return fmt.Sprintf("rune %q", p.r)
	case pkString:
		return fmt.Sprintf("string %q", p.s)
	case pkFunc:
		return "func " + classNames[p.class]
	case pkRegexp:
		return "regexp " + p.re.String()
	case pkRegexp2:
		return "regexp2 " + p.re2.re
	case pkInvert:
		return "invert(" + p.inner.String() + ")"
	case pkHooked:
		return "supplied(" + p.inner.String() + ")"
	}
	return "memo(" + p.inner.String() + ")"
}

type hookedPattern struct {
	inner splitpattern.SplitPattern
	hook  Hook
}

func (h *hookedPattern) FindMatches(s string) ([]splitpattern.Capture, error) {
	if h.hook != nil {
		if err := h.hook("pattern"); err != nil {
			if leaking() {
				_, n := utf8.DecodeRuneInString(s)
				return []splitpattern.Capture{{Offsets: strutils.ByteOffsets{Start: 0, End: n}, IsMatch: true}}, err
			}
			return nil, err
		}
	}
	return h.inner.FindMatches(s)
}

type memoPattern struct {
	inner  splitpattern.SplitPattern
	stored map[string][]splitpattern.Capture
	copies map[string][]splitpattern.Capture
}

func (h *memoPattern) FindMatches(s string) ([]splitpattern.Capture, error) {
	if c, ok := h.stored[s]; ok {
		return c, nil
	}
	c, err := h.inner.FindMatches(s)
	if err != nil {
		return nil, err
	}
	// the list is a part of a longer one of the supplied component
	for k := 0; k < 2; k++ {
		c = append(c, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: -7, End: -7 - k}, IsMatch: true})
	}
	h.copies[s] = append([]splitpattern.Capture(nil), c...)
	c = c[:len(c)-2]
	h.stored[s] = c
	return c, nil
}

// changed reports whether a stored value was modified by somebody else.
func (h *memoPattern) changed() string {
	found := ""
	for s, c := range h.stored {
		d := h.copies[s]
		c = c[:len(d)]
		for i := range d {
			if c[i] != d[i] && (found == "" || s < found) {
				found = s
			}
		}
	}
	return found
}

// real builds the pattern; memo patterns are reported through memos.
func (p *patSpec) real(hook Hook, memos *[]*memoPattern) splitpattern.SplitPattern {
	switch p.kind {
	case pkRune:
		return splitpattern.FromRune(p.r)
	case pkString:
		return splitpattern.FromString(p.s)
	case pkFunc:
		f := classFn(p.class)
		if hook == nil || !p.pred {
			return splitpattern.FromFunc(f)
		}
		return splitpattern.FromFunc(func(r rune) bool {
			hookPanicOnly("predicate")
			return f(r)
		})
	case pkRegexp:
		return splitpattern.FromRegexp(p.reReal)
	case pkRegexp2:
		p.re2.build()
		return splitpattern.FromRegexp2(p.re2.real)
	case pkInvert:
		return splitpattern.Invert(p.inner.real(hook, memos))
	case pkHooked:
		return &hookedPattern{p.inner.real(hook, memos), hook}
	}
	m := &memoPattern{p.inner.real(hook, memos), map[string][]splitpattern.Capture{}, map[string][]splitpattern.Capture{}}
	if memos != nil {
		*memos = append(*memos, m)
	}
	return m
}

func (p *patSpec) ref(s string) []rcap {
	switch p.kind {
	case pkRune:
		return refFunc(s, func(r rune) bool { return r == p.r })
	case pkString:
		return refString(s, p.s)
	case pkFunc:
		return refFunc(s, classFn(p.class))
	case pkRegexp:
		return refRegexp(s, p.re)
	case pkRegexp2:
		p.re2.build()
		return refRegexp2(s, p.re2.ref)
	case pkInvert:
		return refInvert(p.inner.ref(s))
	}
	return p.inner.ref(s)
}

// --- edits of a normalized string ---

const (
	edPrepend = iota
	edAppend
	edReplace
	edFilter
	edMap
	edUpper
	edLower
	edTrim
	edTrimLeft
	edTrimRight
	edTransform // changes to a range, spelt out by the caller
	edKinds
)

type edit struct {
	kind  int
	s     string
	pat   *patSpec
	class int
	mapk  int
	mode  int // edTransform: 0 keep, 1 delete, 2 insert after
	a, b  int // edTransform: permille of the characters
}

var edNames = []string{"Prepend", "Append", "Replace", "Filter", "Map", "ToUpper", "ToLower", "Trim", "TrimLeft", "TrimRight", "TransformRange"}

func (e *edit) String() string {
	switch e.kind {
	case edPrepend, edAppend:
		return fmt.Sprintf("%s(%q)", edNames[e.kind], e.s)
	case edReplace:
		return fmt.Sprintf("Replace(%v, %q)", e.pat, e.s)
	case edFilter:
		return "Filter(not " + classNames[e.class] + ")"
	case edMap:
		return fmt.Sprintf("Map(%d)", e.mapk)
	case edTransform:
		return fmt.Sprintf("TransformRange(%d..%d permille, %s at %s, %q)", e.a, e.b, []string{"upper case", "delete", "insert"}[e.mode], classNames[e.class], e.s)
	}
	return edNames[e.kind]
}

var mapFns = []func(rune) rune{
	unicode.ToUpper,
	unicode.ToLower,
	func(r rune) rune {
		if r == 'a' {
			return 'é'
		}
		return r
	},
	func(r rune) rune {
		if r > 127 {
			return '?'
		}
		return r
	},
	func(r rune) rune { return '界' },
	func(r rune) rune {
		if isSpace(r) {
			return '_'
		}
		return r
	},
	func(r rune) rune { return []rune{r, -1, 0xD800, 0x110000, r, 0xFFFD}[uint32(r)%6] }, // no such character
}

// apply performs the edit on the real string; rune callbacks go through hook.
func (e *edit) apply(r *Run, ns *normalizedstring.NormalizedString, pat splitpattern.SplitPattern, runeHook func()) error {
	switch e.kind {
	case edPrepend:
		ns.Prepend(e.s)
	case edAppend:
		ns.Append(e.s)
	case edReplace:
		return ns.Replace(pat, e.s)
	case edFilter:
		f := classFn(e.class)
		ns.Filter(func(c rune) bool {
			if runeHook != nil {
				runeHook()
			}
			return !f(c)
		})
	case edMap:
		f := mapFns[e.mapk]
		ns.Map(func(c rune) rune {
			if runeHook != nil {
				runeHook()
			}
			return f(c)
		})
	case edUpper:
		ns.ToUpper()
	case edLower:
		ns.ToLower()
	case edTrim:
		ns.Trim()
	case edTrimLeft:
		ns.TrimLeft()
	case edTrimRight:
		ns.TrimRight()
	case edTransform:
		text := ns.Get()
		rs := []rune(text)
		i, j := e.span(text, len(rs))
		initial := 0
		var l []normalizedstring.RuneChange
		f := classFn(e.class)
		for _, c := range rs[i:j] {
			switch {
			case e.mode == 1 && f(c) && len(l) == 0:
				initial++
				continue
			case e.mode == 1 && f(c):
				l[len(l)-1].Change--
				continue
			case e.mode == 0 && f(c):
				c = unicode.ToUpper(c)
			}
			l = append(l, normalizedstring.RuneChange{Rune: c})
			if e.mode == 2 && f(c) {
				for _, x := range e.s {
					l = append(l, normalizedstring.RuneChange{Rune: x, Change: 1})
				}
			}
		}
		if i == 0 && j == len(rs) {
			ns.Transform(l, initial)
		} else {
			s := len(string(rs[:i]))
			ns.TransformRange(normalizedstring.NewNormalizedRange(s, s+len(string(rs[i:j]))), l, initial)
		}
	}
	return nil
}

// span is the range of characters to transform.
func (e *edit) span(text string, n int) (int, int) {
	if !utf8.ValidString(text) {
		return 0, n
	}
	return e.a * n / 1000, (e.b*n + 999) / 1000
}

func (e *edit) ref(n *rns) {
	switch e.kind {
	case edPrepend:
		n.prepend(e.s)
	case edAppend:
		n.append(e.s)
	case edReplace:
		n.replace(e.pat.ref(n.norm()), e.s)
	case edFilter:
		f := classFn(e.class)
		n.filter(func(c rune) bool { return !f(c) })
	case edMap:
		n.mapr(mapFns[e.mapk])
	case edUpper:
		n.mapr(unicode.ToUpper)
	case edLower:
		n.mapr(unicode.ToLower)
	case edTrim:
		n.trim(true, true)
	case edTrimLeft:
		n.trim(true, false)
	case edTrimRight:
		n.trim(false, true)
	case edTransform:
		i, j := e.span(n.norm(), len(n.ch))
		f := classFn(e.class)
		out := append([]rch(nil), n.ch[:i]...)
		for _, c := range n.ch[i:j] {
			t := c.r()
			match := f(t)
			if match && e.mode == 1 {
				continue
			}
			if match && e.mode == 0 {
				t = unicode.ToUpper(t)
			}
			out = append(out, rch{string(t), c.s, c.e})
			if match && e.mode == 2 {
				for _, x := range e.s {
					out = append(out, rch{string(x), c.s, c.e})
				}
			}
		}
		n.ch = append(out, n.ch[j:]...)
	}
}

// --- normalizers ---

const (
	nkBert = iota
	nkLower
	nkStrip
	nkSeq
	nkEdit // supplied by the caller
)

type normSpec struct {
	kind  int
	flags [4]bool
	list  []*normSpec
	ed    *edit
}

func (s *normSpec) String() string {
	switch s.kind {
	case nkBert:
		return fmt.Sprintf("bert%v", s.flags)
	case nkLower:
		return "lowercase"
	case nkStrip:
		return fmt.Sprintf("strip%v", s.flags[:2])
	case nkSeq:
		var l []string
		for _, x := range s.list {
			l = append(l, x.String())
		}
		return "sequence(" + strings.Join(l, ", ") + ")"
	}
	return "supplied(" + s.ed.String() + ")"
}

type editNormalizer struct {
	r    *Run
	ed   *edit
	pat  splitpattern.SplitPattern
	hook Hook
}

func (n *editNormalizer) Normalize(ns *normalizedstring.NormalizedString) error {
	if n.hook != nil {
		if err := n.hook("normalizer " + edNames[n.ed.kind]); err != nil {
			return err
		}
	}
	return n.ed.apply(n.r, ns, n.pat, nil)
}

// real builds the normalizer. Equal ones may be one instance, in several
// places and orders, as long as callers have not started.
func (s *normSpec) real(r *Run, hook Hook) normalizers.Normalizer {
	if r == nil || r.started || s.supplied() > 0 {
		return s.fresh(r, hook)
	}
	if r.norms == nil {
		r.norms = map[string]normalizers.Normalizer{}
		r.oneNorm = r.p(1, 3)
	}
	if !r.oneNorm {
		return s.fresh(r, hook)
	}
	k := s.String()
	if r.norms[k] == nil {
		r.norms[k] = s.fresh(r, hook)
	}
	return r.norms[k]
}

func (s *normSpec) fresh(r *Run, hook Hook) normalizers.Normalizer {
	switch s.kind {
	case nkBert:
		if s.flags == [4]bool{true, true, true, true} {
			return bertnormalizer.DefaultBertNormalizer()
		}
		return bertnormalizer.NewBertNormalizer(s.flags[0], s.flags[1], s.flags[2], s.flags[3])
	case nkLower:
		return lowercasenormalizer.NewLowerCaseNormalizer()
	case nkStrip:
		return stripnormalizer.NewStripNormalizer(s.flags[0], s.flags[1])
	case nkSeq:
		var l []normalizers.Normalizer
		for _, x := range s.list {
			l = append(l, x.real(r, hook))
		}
		return sequencenormalizer.NewSequenceNormalizer(l)
	}
	n := &editNormalizer{r: r, ed: s.ed, hook: hook}
	if s.ed.pat != nil {
		n.pat = s.ed.pat.real(nil, nil)
	}
	return n
}

// supplied counts the caller-supplied parts, in call order.
func (s *normSpec) supplied() int {
	switch s.kind {
	case nkSeq:
		k := 0
		for _, x := range s.list {
			k += x.supplied()
		}
		return k
	case nkEdit:
		return 1
	}
	return 0
}

func isChinese(r rune) bool {
	for _, b := range [][2]rune{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df},
		{0x2a700, 0x2b73f}, {0x2b740, 0x2b81f}, {0x2b920, 0x2ceaf}, {0x2f800, 0x2fa1f}} {
		if r >= b[0] && r <= b[1] {
			return true
		}
	}
	return false
}

// ref applies the documented behaviour; after `until` supplied parts have been
// reached it stops (until < 0: never). It reports whether it went through.
func (s *normSpec) ref(n *rns, until *int) bool {
	switch s.kind {
	case nkBert:
		ws := func(r rune) bool { return r == '\t' || r == '\n' || r == '\r' || isSpace(r) }
		if s.flags[0] {
			n.filter(func(r rune) bool {
				if r == '\t' || r == '\n' || r == '\r' {
					return true
				}
				return r != 0 && r != unicode.ReplacementChar && !unicode.Is(unicode.C, r)
			})
			n.mapr(func(r rune) rune {
				if ws(r) {
					return ' '
				}
				return r
			})
		}
		if s.flags[1] {
			n.expand(func(t string) []string {
				if isChinese([]rune(t)[0]) {
					return []string{" ", t, " "}
				}
				return []string{t}
			})
		}
		if s.flags[2] {
			n.filter(func(r rune) bool { return !unicode.Is(unicode.Mn, r) })
		}
		if s.flags[3] {
			n.mapr(unicode.ToLower)
		}
	case nkLower:
		n.mapr(unicode.ToLower)
	case nkStrip:
		n.trim(s.flags[0], s.flags[1])
	case nkSeq:
		for _, x := range s.list {
			if !x.ref(n, until) {
				return false
			}
		}
	case nkEdit:
		if until != nil && *until >= 0 {
			if *until == 0 {
				return false
			}
			*until--
		}
		s.ed.ref(n)
	}
	return true
}

// --- pre-tokenizers ---

const (
	tkBert = iota
	tkByteLevel
	tkMeta
	tkRune
	tkWS
	tkWSSplit
	tkCustom // supplied by the caller: a pattern and a behaviour
	tkEdit   // supplied by the caller: edits the pieces and cuts nothing
	tkKinds
)

type preSpec struct {
	kind  int
	re2   *reSpec
	pfx   bool
	trim  bool
	r     rune
	pat   *patSpec
	behav int
	ed    *edit
}

var behavNames = []string{"removed", "isolated", "merged-with-previous", "merged-with-next", "contiguous"}
var behaviours = []normalizedstring.SplitDelimiterBehavior{
	normalizedstring.SplitDelimiterRemoved,
	normalizedstring.SplitDelimiterIsolated,
	normalizedstring.SplitDelimiterMergedWithPrevious,
	normalizedstring.SplitDelimiterMergedWithNext,
	normalizedstring.SplitDelimiterContiguous,
}

func (s *preSpec) String() string {
	switch s.kind {
	case tkBert:
		return "bert"
	case tkByteLevel:
		return fmt.Sprintf("byte-level(default=%v re=%q prefix=%v)", s.re2.def == 1, s.re2.re, s.pfx)
	case tkMeta:
		return fmt.Sprintf("metaspace(%q,%v)", s.r, s.pfx)
	case tkRune:
		return fmt.Sprintf("rune-delimiter(%q)", s.r)
	case tkWS:
		return fmt.Sprintf("white-space(default=%v re=%q)", s.re2.def == 2, s.re2.re)
	case tkWSSplit:
		return "white-space-split"
	case tkEdit:
		return "supplied(" + s.ed.String() + ")"
	}
	return fmt.Sprintf("supplied(%v, %s)", s.pat, behavNames[s.behav])
}

type customPre struct {
	pat  splitpattern.SplitPattern
	b    normalizedstring.SplitDelimiterBehavior
	hook Hook
}

func (c *customPre) PreTokenize(pts *pretokenizedstring.PreTokenizedString) error {
	return pts.Split(func(i int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
		if c.hook != nil {
			if err := c.hook("split"); err != nil {
				return leakSplits(ns), err
			}
		}
		nss, err := ns.Split(c.pat, c.b)
		if err != nil {
			return nil, err
		}
		return pretokenizedstring.SplitsFromNormalizedStrings(nss), nil
	})
}

// editPre edits every piece.
type editPre struct {
	e   *edit
	pat splitpattern.SplitPattern
}

func (p *editPre) PreTokenize(pts *pretokenizedstring.PreTokenizedString) error {
	return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
		return p.e.apply(nil, ns, p.pat, nil)
	})
}

func (s *preSpec) real(hook Hook, memos *[]*memoPattern) pretokenizers.PreTokenizer {
	switch s.kind {
	case tkBert:
		return bertpretokenizer.New()
	case tkByteLevel:
		s.re2.build()
		if s.re2.def == 1 && s.pfx && s.trim {
			return bytelevelpretokenizer.NewDefault()
		}
		return bytelevelpretokenizer.New(s.re2.real, s.pfx, s.trim)
	case tkMeta:
		if s.r == metaspacepretokenizer.DefaultReplacementCharacter && s.pfx {
			return metaspacepretokenizer.NewDefault()
		}
		return metaspacepretokenizer.New(s.r, s.pfx)
	case tkRune:
		return runedelimiterpretokenizer.New(s.r)
	case tkWS:
		s.re2.build()
		if s.re2.def == 2 {
			return whitespacepretokenizer.NewDefault()
		}
		return whitespacepretokenizer.New(s.re2.real)
	case tkWSSplit:
		return whitespacesplitpretokenizer.New()
	case tkEdit:
		e := &editPre{e: s.ed}
		if s.ed.pat != nil {
			e.pat = s.ed.pat.real(nil, nil)
		}
		return e
	}
	return &customPre{s.pat.real(hook, memos), behaviours[s.behav], hook}
}

func (s *preSpec) ref(p *rpts) {
	by := func(f func(string) []rcap, b int) {
		p.split(func(_ int, n *rns) []*rns { return n.split(f(n.norm()), b) })
	}
	switch s.kind {
	case tkBert:
		by(func(t string) []rcap { return refFunc(t, isSpace) }, bRemoved)
		by(func(t string) []rcap { return refFunc(t, unicode.IsPunct) }, bIsolated)
	case tkByteLevel:
		s.re2.build()
		p.split(func(_ int, n *rns) []*rns {
			if s.pfx && len(n.ch) > 0 && !isSpace(n.ch[0].r()) {
				n.prepend(" ")
			}
			return n.split(refRegexp2(n.norm(), s.re2.ref), bIsolated)
		})
		for _, sp := range p.sp {
			if sp.has {
				continue
			}
			sp.ns.expand(func(t string) []string {
				var out []string
				for i := 0; i < len(t); i++ {
					out = append(out, refByte[t[i]])
				}
				return out
			})
		}
	case tkMeta:
		p.split(func(_ int, n *rns) []*rns {
			if s.pfx && !strings.HasPrefix(n.norm(), string(s.r)) {
				n.prepend(string(s.r))
			}
			n.replace(refFunc(n.norm(), func(r rune) bool { return r == ' ' }), string(s.r))
			return n.split(refFunc(n.norm(), func(r rune) bool { return r == s.r }), bNext)
		})
	case tkRune:
		by(func(t string) []rcap { return refFunc(t, func(r rune) bool { return r == s.r }) }, bRemoved)
	case tkWS:
		s.re2.build()
		by(func(t string) []rcap { return refInvert(refRegexp2(t, s.re2.ref)) }, bRemoved)
	case tkWSSplit:
		by(func(t string) []rcap { return refFunc(t, isSpace) }, bRemoved)
	case tkCustom:
		by(s.pat.ref, s.behav)
	case tkEdit:
		for _, sp := range p.sp {
			if !sp.has {
				s.ed.ref(sp.ns)
			}
		}
	}
}

// --- vocabularies, merges and models ---

type vocabSpec struct {
	list  []string // in order of addition
	ids   map[string]int
	terms map[int]string
	file  bool // loaded from a JSON file instead of built by additions
	real  *vocabulary.Vocabulary
}

func newVocabSpec() *vocabSpec { return &vocabSpec{ids: map[string]int{}, terms: map[int]string{}} }

func (v *vocabSpec) add(t string, id int) {
	if _, ok := v.ids[t]; ok {
		return
	}
	v.list = append(v.list, t)
	v.ids[t] = id
	v.terms[id] = t
}

func (v *vocabSpec) json() []byte {
	var b strings.Builder
	b.WriteString("{")
	for i, t := range v.list {
		if i > 0 {
			b.WriteString(",")
		}
		q, _ := json.Marshal(t)
		fmt.Fprintf(&b, "\n  %s: %d", q, v.ids[t])
	}
	b.WriteString("\n}\n")
	return []byte(b.String())
}

type bpeSpec struct {
	dropout             float64
	unk, prefix, suffix string
	fuse                bool
	cache               int
	merges              [][2]string // in rank order
	ranks               []int
	oov                 map[string]int // symbols that merges make without being in the vocabulary
	table               map[[2]int]refMerge
	file                bool
	real                *bpemodel.MergeMap
}

func (m *bpeSpec) mergesText() []byte {
	var b strings.Builder
	b.WriteString("#version: 0.2\n")
	for _, p := range m.merges {
		fmt.Fprintf(&b, "%s %s\n", p[0], p[1])
	}
	return []byte(b.String())
}

type modelSpec struct {
	v     *vocabSpec
	reach map[string][][]map[int]bool // what merging can make of a word, as far as asked
	bpe   *bpeSpec                    // nil: WordPiece
	wp    struct {
		unk, prefix string
		max         int
	}
	def bool // made by NewDefault
	own int  // not 0: supplied by the caller, with this behaviour
}

func (m *modelSpec) String() string {
	if m.own != 0 {
		return fmt.Sprintf("supplied(%#b)", m.own)
	}
	if m.bpe != nil {
		return fmt.Sprintf("bpe(vocab=%d merges=%d dropout=%v unk=%q prefix=%q suffix=%q fuse=%v cache=%d)", len(m.v.list), len(m.bpe.merges),
			m.bpe.dropout, m.bpe.unk, m.bpe.prefix, m.bpe.suffix, m.bpe.fuse, m.bpe.cache)
	}
	return fmt.Sprintf("wordpiece(vocab=%d unk=%q prefix=%q max=%d)", len(m.v.list), m.wp.unk, m.wp.prefix, m.wp.max)
}

// buildVocab makes the real vocabulary, through the disk when so specified.
func (r *Run) buildVocab(v *vocabSpec) *vocabulary.Vocabulary {
	if v.real != nil {
		return v.real
	}
	if v.file {
		path := fmt.Sprintf("/models/vocab-%d.json", r.next())
		r.D.Put(path, v.json())
		rv, err := vocabulary.FromJSONFile(path)
		if err != nil {
			r.Fail("loading a valid vocabulary from a healthy disk failed: %v\n%s", err, clip(string(v.json())))
		}
		v.real = rv
	} else {
		v.real = vocabulary.NewVocabulary()
		for _, t := range v.list {
			v.real.AddTerm(t)
		}
	}
	return v.real
}

func (r *Run) next() int { r.gen++; return r.gen }

// real builds the model.
func (m *modelSpec) real(r *Run) models.Model {
	v := r.buildVocab(m.v)
	if m.own != 0 {
		return ownModel(m.own)
	}
	if m.def && m.bpe == nil {
		return wordpiecemodel.NewDefault()
	} else if m.def {
		return bpemodel.NewDefault()
	}
	if m.bpe == nil {
		return wordpiecemodel.New(v, m.wp.unk, m.wp.prefix, m.wp.max)
	}
	b := m.bpe
	mm := b.real
	if mm != nil {
		// shared with other models
	} else if b.file {
		path := fmt.Sprintf("/models/merges-%d.txt", r.next())
		r.D.Put(path, b.mergesText())
		x, err := bpemodel.MergeMapFromFile(path, v, len(b.prefix))
		if err != nil {
			r.Fail("loading valid merges from a healthy disk failed: %v\n%s", err, clip(string(b.mergesText())))
		}
		mm = x
	} else {
		mm = bpemodel.NewMergeMap()
		for i, p := range b.merges {
			l, q, id := m.mergeIDs(p)
			mm.Set(l, q, bpemodel.MergeValue{Rank: b.ranks[i], ID: id})
		}
	}
	b.real = mm
	return bpemodel.New(v, mm, b.cache, b.dropout, b.unk, b.prefix, b.suffix, b.fuse)
}

// ownModel cuts words in ways no model of the library does.
type ownModel int

func (k ownModel) Tokenize(w string) ([]models.Token, error) {
	var out []models.Token
	add := func(s, e int) {
		t := models.Token{ID: len(w)*int(k) - 3*s + e, Value: fmt.Sprint("own", w[s:min(e, s+9)])}
		t.Offsets = strutils.ByteOffsets{Start: s, End: e}
		out = append(out, t)
	}
	if k&1 != 0 {
		add(0, 0)
	}
	at, n := 0, 0
	for i := range w {
		if i > at && (k&4 == 0 || n%3 == 2) {
			add(at, i)
			if k&8 != 0 {
				add(i, i)
			}
			at = i
			if k&16 != 0 && n%2 == 0 {
				at = 0 // once more from the start
			}
		}
		n++
	}
	if at < len(w) {
		add(at, len(w))
	}
	if k&2 != 0 {
		add(len(w), len(w))
	}
	if k&32 != 0 && w != "" {
		add(0, len(w))
	}
	if k&64 != 0 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out, nil
}

func (m *modelSpec) ref(w string) ([]rtok, refErr) {
	if m.own != 0 {
		toks, _ := ownModel(m.own).Tokenize(w)
		return obsToks(toks), errNone
	}
	if m.bpe == nil {
		return refWordPiece(m.v, m.wp.unk, m.wp.prefix, m.wp.max, w)
	}
	if w == "" {
		return nil, errNone
	}
	return refBPE(m.v, m.bpe, w)
}

// mergeIDs are the symbols that a merge takes and makes.
func (m *modelSpec) mergeIDs(p [2]string) (l, q, merged int) {
	id := func(t string) int {
		if i, ok := m.v.id(t); ok {
			return i
		}
		return m.bpe.oov[t]
	}
	return id(p[0]), id(p[1]), id(p[0] + p[1][len(m.bpe.prefix):])
}

// failsWith tells whether a failure is the expected one.
func (m *modelSpec) failsWith(e refErr, err error) bool {
	if e == errNoSuchID {
		return err != nil && err != m.unkErr()
	}
	return err == m.unkErr()
}

func (m *modelSpec) unkErr() error {
	if m.bpe == nil {
		return wordpiecemodel.ErrUnknownTokenOutOfVocabulary
	}
	return bpemodel.ErrUnknownTokenOutOfVocabulary
}
