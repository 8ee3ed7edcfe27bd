import json
PR={p["id"]:p for p in map(json.loads,open("/verif/properties.jsonl"))}
T="deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real library, checked against a reference model"
common="Seeded exploration, not exhaustive: the statement is shown on the executions searched. Trusts the reference model in sim/harness, the source instrumenter (a scheduling point before every statement) and the simulated disk, clock, random source and synchronisation primitives. "
notes={
"C01":"Interleavings of 2..20 callers on shared components, preempted at statement granularity; a second pass runs the same simulation under the race detector with the simulator's own synchronisation hidden.",
"C02":"Histories of successful, failing, panicking, timed-out and abandoned calls on long-lived instances; every later result is compared with the reference.",
"C03":"Concurrent loads from a simulated disk with open/read/close errors, short reads, wrong size hints and torn files; the result is compared with the file's exact content.",
"C04":"As C03, for merges files, including malformed lines, unknown tokens, long lines and every prefix length.",
"C05":"The simulated disk's table of open handles is checked after every load, with a small limit on open files.",
"C06":"Arbitrary damage to model files, several loads of the same bytes under different map orders, and later use of what was loaded.",
"C07":"Failures (errors, panics, time-outs) at every position of a split or pre-tokenization step; the document's whole observable state is compared before and after, and the retry with a run without failures.",
"C08":"Tokenizer failures interleaved with further split, normalize and tokenize steps; counts calls per split and compares the final encoding.",
"C09":"The failure that comes out is compared by identity with the one injected, and later supplied calls are counted, for single and concurrent callers.",
"C10":"Every edit is interrupted at chosen callbacks; the complete observable state is compared before and after, and later edits with the reference.",
"C11":"Clock stalls and jumps at any reading; regexp2's time-out check runs on the simulated clock at a finer grain than shipped (every 4 steps instead of 1000).",
"C12":"Random draws come from the run, including adversarial streaks; validity of every segmentation, exactness at probabilities 0 and 1, and a statistical test of independent dropping over recorded draws.",
"C13":"Whole pipelines with shared components, failures, time-outs and retries; every delivered encoding is compared field by field with an independent reference pipeline.",
"C14":"Callers overwrite all they received, and supplied components return the same stored values again; a second pass runs under the race detector.",
"C15":"Executed library statements per call are bounded by a generous function of the input size; blocked callers and calls that fail although failures have stopped are violations.",
"C16":"Crashes at any statement of additions and loads, restarts, repeated and interrupted additions, compared with a reference of the associations.",
"C17":"Documents damaged in transit through every pipeline configuration, alongside undamaged ones that are compared exactly.",
"C18":"Concurrent readers of shared strings and documents and concurrent editors of strings cut from one another, compared with the reference and with the same string read alone; a second pass runs under the race detector.",
}
checks=[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":T,"level":"exploration","level_note":common+notes[i]} for i in sorted(notes)]
why="It quantifies over inputs of one sequential call only: no schedule, time, I/O, randomness or fault can influence it, so simulation has nothing to decide. "
na={
"N01":"C10, C13 and C17 compare edits with the reference incidentally.",
"N02":"C07, C11 and C13 compare captures and splits with the reference incidentally.",
"N03":"C01, C02 and C13 compare WordPiece results with the reference incidentally.",
"N04":"C01, C02 and C13 compare BPE results with the reference incidentally.",
"N05":"C13 compares byte-level pre-tokens with the reference incidentally.",
"N06":"C01, C02 and C13 compare some conversions with the reference incidentally.",
}
M={"version":1,"setup_cmd":"./setup.sh","checks":checks,
"not_applicable":[{"property":k,"reason":why+v} for k,v in sorted(na.items())],
"notes":"No hooks in /repo: every check copies /repo's working tree to a scratch directory and rewrites the copy's source (scheduling points before statements; os, sync, time, math/rand, map iteration and go statements redirected to the simulator)."}
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(M,json.load(open("/root/.vp/MANIFEST.schema.json")))
assert set(notes)|set(na)==set(PR)
