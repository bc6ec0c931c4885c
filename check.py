#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property by deterministic simulation with fault injection: builds the simulator
around the library in /repo, searches schedules and fault sequences from VERIF_SEED, writes
evidence/<property>.json and exits 0 (held on everything explored) or 1 (with a VIOLATION line).
--replay executes one recorded scenario instead."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402

# seconds of search: quick, thorough
BUDGET = {"quick": 25, "thorough": 600}

RULE = (
    "One evaluation is one simulated execution: a whole program of one to three option tables, an environment and one or "
    "more tasks of library calls, drawn from (VERIF_SEED, index), run once without faults and then under schedules and "
    "fault sequences derived from what that run did (which request for memory, write, callback or descriptor call fails "
    "and how, where a task is preempted). It is non-trivial when it parsed, printed or checked something and, if faults or "
    "preemptions were scheduled, at least one of them took effect. Distinct: the hash over the complete history of "
    "observations and schedule."
)
REAL = [
    "every .c file under /repo/source, compiled from the working tree (argument parsing, environment, validation, handlers, "
    "collections, help, errors, stream redirection)",
    "libpcre2-8 (its memory comes from the simulated allocator only where the library requests it)",
    "callback code of the simulated program, entered by the library through its public interface",
]
STUB = [
    "memory: malloc, calloc, realloc, strdup, strndup, free (per-context accounting, poisoned blocks, failing requests)",
    "standard output and error, file descriptors: printf family, putc, puts, write, fflush, pipe, dup, dup2, fcntl, read, close",
    "environment: getenv (a per-execution map)",
    "process end: exit (unwinds to the simulated program, runs nothing after it)",
    "threads: caller threads are coroutines switched only by the seeded scheduler at basic-block boundaries",
]


def known_findings(prop):
    """(replay file, what fails) of every finding listed for this property."""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("replay="):
                out.append((w[2][7:], w[3].strip()))
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    t0 = time.time()
    try:
        exe, facts = B.build()
    except B.BuildError as e:
        print("the library or the simulator does not build:\n" + str(e))
        return 2
    B.prune(os.path.basename(os.path.dirname(exe)))
    built = time.time() - t0
    if "--replay" in args:
        f = os.path.abspath(args[args.index("--replay") + 1])
        return subprocess.run([exe, "exec", f, "--prop", prop, "--dir", os.path.join(HERE, "build", "exec-" + prop)]).returncode
    for replay, what in known_findings(prop):
        r = subprocess.run([exe, "exec", os.path.join(HERE, replay), "--prop", prop, "--dir", os.path.join(HERE, "build", "exec-" + prop)],
                           stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    work = os.path.join(HERE, "build", "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    secs = float(os.environ.get("SIM_SECONDS", BUDGET[tier]))
    jobs = int(os.environ.get("SIM_JOBS", min(8, os.cpu_count() or 8)))
    p = subprocess.run([exe, "batch", "--prop", prop, "--seed", str(seed), "--seconds", str(secs), "--jobs", str(jobs), "--dir", work,
                        "--minimise", "40" if tier == "quick" else "120"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    rc = p.returncode
    try:
        with open(os.path.join(work, "result.json")) as f:
            res = json.load(f)
    except (OSError, ValueError):
        print(p.stdout[-3000:])
        print("the search ended without a result (%d)" % rc)
        return 2
    search = max(res.get("search_s", 0.001), 0.001)
    cov = {
        "evaluations": int(res.get("executions", 0)),
        "distinct_nontrivial": int(res.get("distinct_nontrivial", 0)),
        "rule": RULE,
        "samples": res.get("samples", []),
        "seeds": int(res.get("seeds", 0)),
        "runs_per_hour": int(res.get("executions", 0) / search * 3600),
        "seeds_per_hour": int(res.get("seeds", 0) / search * 3600),
        "worker_processes": jobs,
        "search_s": round(search, 2),
        "build_s": round(built, 2),
        "simulated_time": {
            "unit": "basic blocks of the library (it reads no clock and has no timer)",
            "steps": int(res.get("steps", 0)),
        },
        "faults_fired": {k: int(v) for k, v in res.get("fired", {}).items()},
        "preemptions": int(res.get("switches", 0)),
        "nested_operations": int(res.get("nested", 0)),
        "operations": int(res.get("ops", 0)),
        "parses": {"total": int(res.get("parses", 0)), "succeeded": int(res.get("parse_ok", 0)),
                   "refused": int(res.get("parse_err", 0)), "ended_the_program": int(res.get("parse_exit", 0))},
        "memory_requests": int(res.get("allocs", 0)),
        "characters_written": int(res.get("writes", 0)),
        "callbacks": int(res.get("callbacks", 0)),
        "values_compared": int(res.get("observed", 0)),
        "reference_executions": int(res.get("solo", 0)),
        "distinct_histories": int(res.get("distinct_histories", 0)),
        "distinct_schedules": int(res.get("distinct_schedules", 0)),
        "library_blocks_reached": int(res.get("blocks_covered", 0)),
        "library_blocks": int(facts["blocks"]),
        "probes": {k: int(v) for k, v in res.get("probes", {}).items()},
        "real_components": REAL,
        "stub_components": STUB,
        "library_calls_behind_seams": facts["seams_used"].split(),
        "library_calls_without_seam": facts["without_seam"].split(),
        "unconfirmed": res.get("unconfirmed", []),
        "alarms_of_other_properties": res.get("others", {}),
        "exhaustive": False,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "the C library, libpcre2 and the compiler behave as documented",
            "the library reaches memory, streams, descriptors, environment and process end only through the calls listed as seams",
            "executions are sampled, not enumerated",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": int(res.get("violations", 0)),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d executions from %d seeds in %.1f s, %d distinct non-trivial, %d of %s library blocks reached" % (
        prop, cov["evaluations"], cov["seeds"], search, cov["distinct_nontrivial"], cov["library_blocks_reached"], facts["blocks"]))
    if rc == 1:
        lines = p.stdout.strip().splitlines()
        out = os.path.join(HERE, "replays")
        os.makedirs(out, exist_ok=True)
        for l in lines:
            if l.startswith("VIOLATION "):
                path = l.split("replay=", 1)[1]
                keep = os.path.join(out, os.path.basename(path))
                shutil.copyfile(path, keep)
                l = "VIOLATION property=%s replay=%s" % (prop, keep)
            print(l)
        return 1
    if rc != 0:
        print(p.stdout[-3000:])
        print("the search failed (%d)" % rc)
        return 2
    if cov["unconfirmed"]:
        print("unconfirmed: " + json.dumps(cov["unconfirmed"]))
        return 2
    if cov["evaluations"] == 0:
        print("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, not a verdict
        import traceback
        traceback.print_exc()
        print("error: %s" % e)
        sys.exit(2)
