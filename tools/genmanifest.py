import json
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
NA={
"C23":"The codec is a pure function of its integer argument: no schedule, clock, I/O, randomness, crash or second party can change its result, so simulation adds nothing to plain input generation. What the tool does with the two payload sizes it uses is decided under C01, C04 and C17.",
"C24":"Packet, integer and count encodings are pure functions of their arguments; nothing the simulator controls can affect them. Their effect on the key blocks the tool delivers is decided under C09.",
"C25":"Reproducible builds are a property of the compiler and linker, which run before the simulated program exists; no schedule or fault inside the program can affect them.",
}
T="deterministic simulation with fault injection (seeded search over command histories, schedules and faults; reference-model oracle)"
N="Seeded exploration, not proof: the real CLI and library code runs in-process on a simulated OS (files, terminal, pipes, signals, clock, randomness, scheduler); every run is judged against an independent model of the specification, OpenPGP and the command line. Trusted: the simulated OS, the reference model in sim/simrun/ref, the source rewriter; argon2 is a keyed stand-in whose parameters are checked%s."
checks=[]
for p in sorted(titles):
    if p in NA: continue
    real=", and the real one in a few stories of this check" if p in("C01","C03","C05") else ""
    checks.append({"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,
      "evidence_file":"evidence/%s.json"%p,"technique":T,"level":"exploration","level_note":N%real})
m={"version":1,"setup_cmd":"./build.sh /tmp/simsetup && rm -rf /tmp/simsetup","checks":checks,
   "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
   "notes":"No hooks in /repo: the simulator's seams are put in by a source rewriter into a scratch copy at check time (see DESIGN.md). /repo's commits are repairs only (known-findings.txt). Replay a violation with ./replay.sh FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
