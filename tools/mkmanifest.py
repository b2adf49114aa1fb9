#!/usr/bin/env python3
# Source of MANIFEST.json.
import json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
SCHED="stateless model checking of the real code: exhaustive preemption-bounded schedule enumeration"
BFS="explicit-state model checking of the real code: exhaustive call-sequence exploration with state matching"
ENUM="bounded exhaustive model checking of the real code: every input up to a size"
T={
"C01":SCHED+", brute-force linearizability of every history",
"C02":SCHED+", plus explicit-state exploration of sequential histories",
"C03":SCHED+", window-consistency oracle for Range",
"C04":BFS+" against a reference map",
"C05":SCHED+" with the race detector fed by the controlled scheduler, deadlock and livelock detection",
"C06":BFS+" on a virtual clock",
"C07":SCHED+", brute-force linearizability with expiry",
"C08":BFS+"; "+SCHED+", results and callback counts explained together",
"C09":SCHED+" on a virtual clock and ticker, all start/close/store/time sequences up to a length",
"C10":SCHED+", single-flight oracle",
"C11":BFS+" on a virtual clock",
"C12":BFS+" on a virtual clock, every outcome of the refresh function",
"C13":SCHED+", brute-force linearizability of Get/Refresh/Clear",
"C14":BFS+"; "+SCHED+", oracle on what the user functions receive",
"C15":BFS+" against a reference sequence with element identity",
"C16":BFS+" with stale handles",
"C17":BFS+" and enumeration of range operations",
"C18":BFS+" against a reference ordered map",
"C19":BFS+" of heaps over all small inputs",
"C20":BFS+" and enumeration of Fix/Remove on all heaps",
"C21":BFS+" of rings against a reference permutation",
"C22":ENUM+", all pairs and triples of small sets against set algebra",
"C23":BFS+" of set and genmap against a reference",
"C24":BFS+" of vec against a reference slice",
"C25":BFS+" of pairs of aliased vecs",
"C26":ENUM+", all small vectors and comparison functions",
"C27":ENUM+", all histories of ring membership against a reference ring",
"C28":ENUM+", all membership changes over a small space",
"C29":ENUM+", all failover chains over a small space",
"C30":BFS+" and enumeration of all small tree shapes",
"C31":ENUM+", all tree shapes up to a size",
"C32":BFS+", exact heap reachability after every call",
"C33":ENUM+", all cycles of calls up to a length, counted steps against an order of growth",
}
NOTE_C="Every schedule of the listed programs within the preemption bound is executed on the real code (instrumented at build time: sync, sync/atomic, time, go, channels and map iteration go through a controlled scheduler and a virtual clock); results are judged on each. Assumes sequentially consistent atomics and that scheduling points at synchronisation operations suffice, which the race-detector runs of C05 justify. Bounds (threads, calls, keys, preemptions) are in the evidence file."
NOTE_S="Every call sequence over the listed operations up to the reported depth or closure is executed on the real code and compared with a reference implementation after each call; states are matched on a structural digest of the whole object graph, so a reported closure covers unbounded histories over that alphabet. Nothing beyond the stated sizes and values is covered."
conc={"C01","C02","C03","C05","C07","C08","C09","C10","C13","C14"}
props=[json.loads(l) for l in open("properties.jsonl")]
M={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    M["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i} --thorough","technique":T[i],"level":"model_checking","level_note":NOTE_C if i in conc else NOTE_S})
M["notes"]="No hooks in /repo: instrumentation is generated at check time by tools/vinst through go build -overlay. Genuine defects found and repaired are in KNOWN_FINDINGS.txt."
json.dump(M,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
