"""Writes MANIFEST.json from properties.jsonl and the checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C17": "A statement about the values of one pure function on one input: no schedule, fault, crash, clock, I/O or history can change whether it holds, so simulation would only be input sampling.",
    "C18": "A numerical inequality between the values of one pure function on two inputs; nothing a scheduler or fault injector controls bears on it.",
    "C19": "An invariance of one pure function over its inputs; nothing a scheduler or fault injector controls bears on it.",
    "C20": "Numerical agreement of a single call with a formula over inputs and parameters; no multi-party, timing or fault behaviour. (That a call in any history, interleaving or after any fault agrees with a fresh process is C01-C16.)",
    "C21": "A numerical property of arrays computed once from the parameters; deterministic, single-threaded, no I/O.",
    "C22": "Which arguments are rejected is a pure function of the arguments. (That a rejection leaves nothing behind is C03, C04 and C05.)",
    "C23": "A pure function of the parameters. (That shape, order and metadata do not depend on history or overlap is C01 and C07.)",
    "C24": "Correctness of a derivative formula at a point is a pure function of the input. (That gradients survive overlap, faults and history is C10.)",
}
TECH = {
    "C13": "deterministic simulation: simulated processes, threads and file-system calls, with crashes, errors and obstacles injected, against a model of the directory",
    "C11": "deterministic simulation: seeded histories and interleavings of parameter and buffer updates and calls with injected faults, against a fresh process given the same buffers",
}
DEF = "deterministic simulation with fault injection: seeded schedules of threads (preempted between lines or instructions), histories and failures, each result compared with a fresh process"
NOTE = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        import sys
        sys.path.insert(0, HERE)
        c = __import__("dst.checks." + i.lower(), fromlist=["CHECK"]).CHECK
        checks.append({
            "property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
            "technique": TECH.get(i, DEF), "level": "exploration",
            "level_note": "Seeded search, not exhaustive. Real: %s. Simulated: %s. Assumes: %s." % (c.real, c.stub, "; ".join(c.assumptions) or "nothing further")})
    doc = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation is sys.monitoring on kymatio's code objects, the os-function seam and sys.modules. Every VIOLATION names a replay file; bin/replay FILE executes it again."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
