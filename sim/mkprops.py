import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Shared components give every concurrent caller its own exact result",
 "Normalizers, pre-tokenizers, split patterns, models, loaded vocabularies and merge tables may be shared by any number of goroutines that work on different documents. Whatever the interleaving, each call returns exactly what it would have returned had it run alone, and calls never access shared memory without synchronisation (no data race, no deadlock).",
 ["schedules","inputs"],
 "For every interleaving of the steps of 2..n concurrent calls on the same component instances, each call on its own document.",
 "The tests call every component from one goroutine at a time (t.Parallel only runs unrelated tests side by side); no test shares an instance between goroutines or controls an interleaving.",
 ["models/bpemodel/bpemodel.go","models/bpemodel/wordcache.go","models/bpemodel/word.go","models/wordpiecemodel/wordpiecemodel.go","vocabulary/vocabulary.go","pretokenizers/","normalizers/","splitpattern/"],
 [("per-call Word, queue and token slices; read-only vocabulary, merges and options","models/bpemodel/bpemodel.go"),("patterns and byte tables built once and only read","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"),("runner cache under a mutex in the regexp2 dependency","splitpattern/regexp2.go")],
 ["Model.Tokenize","PreTokenizer.PreTokenize","Normalizer.Normalize","SplitPattern.FindMatches","Vocabulary.GetID/GetString"])

add("C02","Earlier calls and failures never change later results",
 "A component may be reused for any sequence of calls: each result depends only on the component's configuration and that call's input. Calls that failed, timed out, panicked in caller code or were abandoned half way leave no trace in later calls on the same or another instance, and equal calls keep giving equal results.",
 ["histories","fault_sequences"],
 "For every history of successful, failing, panicking and abandoned calls on long-lived instances of any configuration, including several instances with different configurations in one process.",
 "Each test makes a fresh instance and one or a few successful calls; none calls again after a failure or mixes differently configured instances in one history.",
 ["models/bpemodel/bpemodel.go","models/bpemodel/wordcache.go","models/wordpiecemodel/wordpiecemodel.go","pretokenizers/","normalizers/","splitpattern/","pretokenizedstring/pretokenizedstring.go"],
 [("no call-to-call state outside the (ineffective) word cache","models/bpemodel/wordcache.go"),("words cached only after the whole call succeeded","models/bpemodel/bpemodel.go")],
 ["Model.Tokenize","PreTokenizer.PreTokenize","Normalizer.Normalize","SplitPattern.FindMatches"])

add("C03","Loading a vocabulary is exact or fails, whatever the disk does",
 "Loading a vocabulary file either returns an error or returns exactly the term/ID associations in the complete file; it never reports success for a partially read, truncated or otherwise invalid file. How the storage delivers the bytes (short reads, slow reads, misreported sizes, several loaders at once) does not influence the result, and without an I/O failure a valid file always loads.",
 ["fault_sequences","schedules"],
 "For every valid or invalid vocabulary file and every sequence of open failures, read failures at any offset, short reads, wrong size hints, torn files and close failures, with any number of concurrent loaders.",
 "One test loads one three-entry file from a healthy disk; no I/O failure or partial read is ever exercised.",
 ["vocabulary/vocabulary.go"],
 [("whole-file read followed by strict JSON decoding, errors returned","vocabulary/vocabulary.go FromJSONFile")],
 ["vocabulary.FromJSONFile","Vocabulary.Size/GetID/GetString"])

add("C04","Loading BPE merges is exact or fails, whatever the disk does",
 "Loading a merges file either returns an error or returns exactly one entry per merge line of the complete file, ranked by the line's position among the merge lines; a failure to open, read or close the file, a malformed line or a token missing from the vocabulary is always reported as an error. How the storage delivers the bytes does not influence the result, and without an I/O failure a valid file always loads.",
 ["fault_sequences","schedules"],
 "For every valid or invalid merges file, prefix length and vocabulary, and every sequence of open, read and close failures, short reads and torn files, with any number of concurrent loaders.",
 "Two tests load one four-line file from a healthy disk; no I/O failure, partial read, malformed line or long line is exercised.",
 ["models/bpemodel/mergemap.go"],
 [("line scanner whose error is checked after the loop; rank counted per merge line; close error returned","models/bpemodel/mergemap.go MergeMapFromFile")],
 ["bpemodel.MergeMapFromFile","MergeMap.Get"])

add("C05","Every file a load opens is closed exactly once on every path",
 "When a load returns, successfully or with any error, or panics, every file it opened has been closed exactly once and no file is left open. A process that loads files again and again, however often the loads fail, never runs out of file descriptors because of them.",
 ["fault_sequences","histories"],
 "For every history of vocabulary and merges loads with every combination of I/O failures and invalid contents, under a small limit on open files.",
 "No test observes open descriptors, and no test drives a load into one of its failing paths.",
 ["vocabulary/vocabulary.go","models/bpemodel/mergemap.go"],
 [("deferred Close right after a successful open","models/bpemodel/mergemap.go MergeMapFromFile"),("whole-file helper that closes internally","vocabulary/vocabulary.go FromJSONFile")],
 ["the simulated disk's table of open handles after each load"])

add("C06","Damaged model files never crash, and a load depends only on the bytes",
 "Whatever damage storage did to a vocabulary or merges file (torn tail, flipped or zeroed bytes, lost or repeated blocks, contents that are valid but unexpected), loading it returns a usable value or an error and never panics, and adding terms to, or tokenizing with, a successfully loaded value never panics either. Loading the same bytes again always gives a value that answers every lookup identically.",
 ["fault_sequences","inputs","histories"],
 "For every damage sequence applied to any model file, every prefix length, every internal map iteration order, and every later use of what was loaded.",
 "The tests load two intact files once each; none loads damaged content, loads twice, or controls map iteration order.",
 ["vocabulary/vocabulary.go","models/bpemodel/mergemap.go","models/bpemodel/bpemodel.go","models/wordpiecemodel/wordpiecemodel.go"],
 [("decoding errors returned; reverse index built from the decoded map","vocabulary/vocabulary.go FromJSONFile"),("line and vocabulary checks before each entry","models/bpemodel/mergemap.go MergeMapFromFile"),("missing ID reported as an error","models/bpemodel/bpemodel.go wordToTokens")],
 ["vocabulary.FromJSONFile","bpemodel.MergeMapFromFile","Vocabulary.AddTerm","Model.Tokenize"])

add("C07","A failed split step leaves the document's splits as they were; retry converges",
 "If splitting or pre-tokenizing a document fails part way (an error or panic from caller-supplied code, or a regex time-out), the document still has the splits it had before, in the same order, covering the same parts of the original and with the same tokens attached. Repeating the step after the failure has gone gives exactly the splits a run without failures gives.",
 ["fault_sequences","histories"],
 "For every position at which a split callback, pattern or regex fails, every number of consecutive failures and retries, and every earlier history of splits and attached tokens.",
 "No test makes a split callback, a pattern or a regex fail, nor retries one.",
 ["pretokenizedstring/pretokenizedstring.go","normalizedstring/normalizedstring.go","pretokenizers/"],
 [("new splits are collected aside and installed only after the last callback succeeded","pretokenizedstring/pretokenizedstring.go Split")],
 ["PreTokenizedString.Split/Splits/GetOriginalByteSplits/GetNormalizedByteSplits","PreTokenizer.PreTokenize"])

add("C08","Tokenizing a document is resumable and exactly-once; no partial encoding",
 "When tokenizing a document fails part way, splits tokenized so far keep their tokens, the failing and later splits have none, and asking for an encoding returns an error instead of a partial encoding. Tokenizing again after the failure has gone processes each remaining split exactly once, never redoes a finished one, and ends in exactly the encoding a run without failures gives; splits with tokens are never split, normalized or tokenized again.",
 ["fault_sequences","histories"],
 "For every position and number of tokenizer failures (errors and panics), every interleaving of retries with further split and normalize steps, and every document.",
 "No test tokenizes or encodes a pre-tokenized document at all, and none makes a tokenizer fail.",
 ["pretokenizedstring/pretokenizedstring.go","encodings/encodings.go"],
 [("splits with tokens are skipped; tokens stored only after the callback succeeded","pretokenizedstring/pretokenizedstring.go Tokenize"),("all-splits-have-tokens check before encoding","pretokenizedstring/pretokenizedstring.go IntoEncoding")],
 ["PreTokenizedString.Tokenize/Normalize/Split/IntoEncoding/Splits"])

add("C09","A failure in supplied code reaches the caller unchanged and stops the work",
 "An error returned by a caller-supplied normalizer, split function, pattern or tokenizer, or by a regex, is returned by the operation that invoked it as that same error, and a panic reaches the caller as that same panic; no failure is swallowed, replaced or turned into a partial success. After the first failure no further supplied callback is invoked by that operation, and steps before it keep their effect in order.",
 ["fault_sequences","schedules"],
 "For every operation that calls supplied code, every position of the first failure, errors and panics, nested combinations of components, and concurrent callers.",
 "The sequence-normalizer test covers one failing normalizer; no other error path of patterns, splits, normalization or tokenization is exercised.",
 ["normalizers/sequencenormalizer/sequencenormalizer.go","pretokenizedstring/pretokenizedstring.go","normalizedstring/normalizedstring.go","splitpattern/invertedpattern.go","splitpattern/regexp2.go","pretokenizers/"],
 [("every callback's error checked and returned at once","pretokenizedstring/pretokenizedstring.go"),("match errors returned from the match loop","splitpattern/regexp2.go FindMatches")],
 ["return values and recovered panics of every operation that takes a callback, pattern, normalizer, pre-tokenizer or model"])

add("C10","An interrupted edit leaves a normalized string exactly as it was",
 "If filtering, mapping, replacing or splitting a normalized string is interrupted by an error or panic in caller-supplied code (a predicate, mapping or pattern), the normalized text, the original text, the offsets and the alignment between them are exactly what they were before the call. Later edits on the same string behave as if the interrupted call had never been made.",
 ["fault_sequences","histories"],
 "For every edit operation, every rune at which its callback fails, and every history of edits before and after the interruption.",
 "No test interrupts an edit; all callbacks and patterns used by the tests succeed.",
 ["normalizedstring/normalizedstring.go"],
 [("all changes are computed first and applied in one final step","normalizedstring/normalizedstring.go Filter, Map, Replace, Split, TransformRange")],
 ["NormalizedString.Get/GetOriginal/OriginalOffsets/OriginalAlignments/GetRange/GetOriginalRange"])

add("C11","Regex time limits yield a full result or an error, never a partial one",
 "When a splitting regex has a time limit, then however the clock behaves (stalls and jumps at any instant of the match) a split or pre-tokenization either returns the complete result or returns an error; it never returns a result built from only some of the matches. A regex that timed out keeps its limit and stays usable by all its users, and once the clock behaves the same call succeeds with the same result as without a limit.",
 ["fault_sequences","schedules"],
 "For every placement of clock stalls within the matches of a call, every later retry, and any number of concurrent users of the same regex.",
 "No test sets a time limit and none controls the clock; a time-out can only be hit by timing accident.",
 ["splitpattern/regexp2.go","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go","pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go"],
 [("errors from the first and from every following match returned","splitpattern/regexp2.go FindMatches")],
 ["SplitPattern.FindMatches","NormalizedString.Split/Replace","PreTokenizer.PreTokenize"])

add("C12","BPE dropout always yields a valid segmentation, for every random outcome",
 "With dropout enabled, whatever the random draws are and however they interleave with other callers, tokenization terminates and returns tokens that tile the whole input in order, each obtainable from single characters by merges of the merge table. With probability 1 no merge is ever applied, with probability 0 random outcomes have no influence and the result is the fully merged one, and in between each merge opportunity is dropped independently with the configured probability.",
 ["schedules","fault_sequences","inputs"],
 "For every sequence of random draws (including long streaks), every dropout probability, vocabulary, merge table, word and interleaving of callers.",
 "One test runs one word with probabilities 0, 1 and 0.3, and for 0.3 it only checks the token count of one random outcome.",
 ["models/bpemodel/word.go","models/bpemodel/bpemodel.go"],
 [("dropped candidates are set aside and re-queued after the next merge","models/bpemodel/word.go MergeAll"),("dropout bypasses the cache","models/bpemodel/bpemodel.go Tokenize")],
 ["BPEModel.Tokenize"])

add("C13","Every delivered encoding is exact end to end, despite concurrency and faults",
 "Running documents through normalizer, pre-tokenizer, model and encoding, with components shared by concurrent callers and with failures, time-outs and retries along the way, every encoding that is delivered is the one the documented behaviour of each stage prescribes for that document. Its parallel fields have equal length, tokens and IDs agree with the vocabulary, word indices follow the splits, and each token's offsets delimit, on character boundaries and in order, the part of the original document the token came from.",
 ["schedules","fault_sequences","inputs"],
 "For every UTF-8 document, every pipeline configuration, every interleaving of callers and every sequence of transient failures with retries.",
 "Tests check stages one by one on a few mostly ASCII strings; no test runs a whole pipeline, builds an encoding, or combines stages with failures or concurrency.",
 ["normalizedstring/normalizedstring.go","pretokenizedstring/pretokenizedstring.go","encodings/encodings.go","models/","normalizers/","pretokenizers/","splitpattern/","strutils/strutils.go"],
 [("alignments maintained by every edit and slice","normalizedstring/normalizedstring.go"),("token ranges mapped back through the split's alignments","pretokenizedstring/pretokenizedstring.go IntoEncoding"),("greedy longest match","models/wordpiecemodel/wordpiecemodel.go"),("lowest rank first merging","models/bpemodel/word.go")],
 ["PreTokenizedString.IntoEncoding","encodings.Encoding"])

add("C14","Results belong to the caller: modifying them affects nobody else",
 "The token and capture lists that models and split patterns return, and the byte-split lists, alignment lists and encodings obtained from a document, are the caller's own: overwriting their entries, at any time and concurrently with other callers, never changes the result of any other or later call (a document's splits, and the tokens attached to them, remain parts of that document). Likewise the library never modifies values that caller-supplied components return to it, so a supplied component may keep and reuse what it returned.",
 ["histories","schedules","fault_sequences"],
 "For every history of calls interleaved with callers overwriting everything they received, and supplied patterns and tokenizers that return the same stored values again and again.",
 "Tests only read results; none writes to a returned value or supplies a component that reuses its results.",
 ["models/bpemodel/bpemodel.go","models/wordpiecemodel/wordpiecemodel.go","splitpattern/invertedpattern.go","pretokenizedstring/pretokenizedstring.go","encodings/encodings.go","normalizedstring/normalizedstring.go"],
 [("results allocated per call","models/bpemodel/bpemodel.go wordToTokens"),("slices copied when a normalized string is cut","normalizedstring/normalizedstring.go Slice")],
 ["Model.Tokenize","SplitPattern.FindMatches","GetOriginalByteSplits/GetNormalizedByteSplits","IntoEncoding"])

add("C15","Every call returns within a bounded number of steps; nothing hangs",
 "Whatever the interleaving of callers, the random outcomes, the I/O failures, the damage in files and the clock do, every call returns or fails within a number of steps bounded by the size of its input, and no set of concurrent calls blocks itself. Once failures stop, every retried call succeeds.",
 ["schedules","fault_sequences"],
 "For every schedule including starvation of some callers, every fault sequence and every random outcome, counted in executed statements of the library.",
 "A test can only observe that its own few calls ended; it covers no adversarial schedules, random outcomes or faults, and sets no bound.",
 ["models/bpemodel/word.go","models/wordpiecemodel/wordpiecemodel.go","splitpattern/","pretokenizedstring/pretokenizedstring.go","models/bpemodel/mergemap.go"],
 [("each merge loop iteration consumes a queue entry or re-queues set-aside ones only after progress","models/bpemodel/word.go MergeAll"),("every scan advances by at least one character","splitpattern/")],
 ["executed library statements per call, blocked callers"])

add("C16","A vocabulary's associations are permanent and reproducible after restart",
 "Once a vocabulary associates a term with an ID, no later addition, load or failure changes that association in either direction, adding a known term changes nothing, and a new term never takes over an ID that is in use. A process that crashes at any point and, after restart, loads the same file and repeats the same additions (in whole or interrupted and repeated) gets the same IDs.",
 ["histories","crash_points","fault_sequences"],
 "For every base file (dense or with gaps in its IDs), every sequence of additions with repetitions, every crash point within it and every number of restarts and failed loads.",
 "Tests add terms to an empty vocabulary or load one dense file; none does both, repeats additions, or restarts.",
 ["vocabulary/vocabulary.go"],
 [("existing terms ignored; new ID derived from the size","vocabulary/vocabulary.go AddTerm"),("reverse index kept in step","vocabulary/vocabulary.go")],
 ["Vocabulary.AddTerm/GetID/GetString/Size"])

add("C17","Text damaged in transit never crashes the pipeline or escapes its bounds",
 "A document whose bytes were damaged on the way in (cut inside a multi-byte character by a torn or short read, flipped, lost or repeated bytes, so possibly not valid UTF-8) passes through every stage without a panic, and either yields an error or an encoding. All offsets in that encoding lie inside the document, start no later than they end, and the undamaged documents processed alongside are unaffected.",
 ["fault_sequences","inputs"],
 "For every damage sequence applied to the bytes of a document stream, every chunking, and every pipeline configuration.",
 "All test strings are valid UTF-8; no test feeds damaged bytes to any stage.",
 ["normalizedstring/normalizedstring.go","splitpattern/func.go","splitpattern/regexp2.go","models/bpemodel/bpemodel.go","models/wordpiecemodel/wordpiecemodel.go","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go","strutils/strutils.go"],
 [("byte lengths of runes tracked through alignments and captures","normalizedstring/normalizedstring.go, splitpattern/func.go")],
 ["every stage from FromString to IntoEncoding"])

add("C18","Documents may be read concurrently, and parts cut from them are independent",
 "Any number of callers may read one normalized or pre-tokenized string at the same time (its texts, lengths, offsets, alignments, range conversions, slices, splits by a pattern, byte splits, encodings) without synchronisation: every answer is the one the string gives when read alone, and reading changes nothing. Parts taken from a string by slicing or splitting are strings of their own: whoever edits the whole, a part, or a part of a part, in whatever order or concurrently, and even if the edit is interrupted, no other of them changes its text, its alignment or its offsets.",
 ["schedules","histories","fault_sequences"],
 "For every interleaving of readers and of editors of different strings of one family, every way of cutting the parts, and every edit, completed or interrupted.",
 "Tests read and edit one string in one goroutine and never look at the whole after editing a part, or at a part after editing the whole.",
 ["normalizedstring/normalizedstring.go","pretokenizedstring/pretokenizedstring.go","strutils/strutils.go"],
 [("slices copy the alignments of their range","normalizedstring/normalizedstring.go Slice"),("edits replace text and alignments, never write into them","normalizedstring/normalizedstring.go TransformRange"),("encodings are built afresh","pretokenizedstring/pretokenizedstring.go IntoEncoding")],
 ["NormalizedString reading methods, Slice, Split and edits; PreTokenizedString.GetOriginalByteSplits/GetNormalizedByteSplits/Splits/IntoEncoding; BytesToRuneOffsetConverter.Convert"])

pure="The existing tests sample a handful of strings; the claim ranges over every input."
add("N01","Edits keep text and alignment consistent for every input",
 "After any single edit of a normalized string (prepend, append, filter, map, replace, trim, case change, transform), each byte of the normalized text is aligned with the part of the original text it derives from, alignments are ordered, and converting a range to the other referential and back never loses text it covered.",
 ["inputs"],"For every string, range and edit argument.",pure,
 ["normalizedstring/normalizedstring.go"],[("alignment rebuilt by each transformation","normalizedstring/normalizedstring.go TransformRange")],["NormalizedString.CoerceRangeToOriginal/CoerceRangeToNormalized/OriginalAlignments"])
add("N02","Split patterns tile the string; each delimiter behaviour is as documented",
 "For every string, the captures of a pattern are contiguous, ordered and cover the whole string, inverting a pattern only exchanges matches and non-matches, and each delimiter behaviour cuts the string exactly as documented.",
 ["inputs"],"For every pattern, string and delimiter behaviour.",pure,
 ["splitpattern/","normalizedstring/normalizedstring.go"],[("gap captures emitted between matches","splitpattern/func.go, regexp.go, regexp2.go")],["SplitPattern.FindMatches","NormalizedString.Split"])
add("N03","WordPiece segmentation is greedy longest-match-first for every word",
 "For every word within the length limit, WordPiece returns the longest vocabulary prefix at each position (with the continuation prefix after the first), or a single unknown token when some position has none or the word is too long.",
 ["inputs"],"For every word, vocabulary and option set.",pure,
 ["models/wordpiecemodel/wordpiecemodel.go"],[("end shrinks until a vocabulary entry is found","models/wordpiecemodel/wordpiecemodel.go Tokenize")],["WordPieceModel.Tokenize"])
add("N04","BPE without dropout applies merges lowest rank first, leftmost first",
 "For every word, vocabulary and consistent merge table, BPE without dropout returns the segmentation obtained by repeatedly applying the lowest-ranked applicable merge, leftmost on ties, with unknown characters handled as configured.",
 ["inputs"],"For every word, vocabulary, merge table and option set.",pure,
 ["models/bpemodel/word.go","models/bpemodel/wordmerge.go","models/bpemodel/bpemodel.go"],[("priority queue by rank and position with stale-entry check","models/bpemodel/word.go MergeAll")],["BPEModel.Tokenize"])
add("N05","Byte-level remapping is reversible for every input",
 "The byte-to-character table of the byte-level pre-tokenizer is a bijection, so the bytes of every pre-token can be recovered exactly.",
 ["inputs"],"For every byte value and string.",pure,
 ["pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"],[("table built once at start-up","bytelevelpretokenizer.go init")],["PreTokenizedString.GetOriginalByteSplits"])
add("N06","Byte offsets convert to character offsets exactly",
 "For every string and every byte range on character boundaries, the converted range counts characters, is ordered and designates the same text.",
 ["inputs"],"For every string and range.",pure,
 ["strutils/strutils.go"],[("per-byte index table","strutils/strutils.go NewBytesToRuneOffsetConverter")],["BytesToRuneOffsetConverter.Convert"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,S)
    n=p["statement"].count(". ")+1
    if n>3: print(p["id"],n)
print(len(P))
