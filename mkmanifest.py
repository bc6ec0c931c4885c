#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": "simulation of whole programs with failing, recurring and permanent memory exhaustion; invariants of the simulated heap",
    "C02": "simulation under memory faults, values compared with an executable reference model of the command line",
    "C03": "simulation under memory faults and callback failures, conservation of the simulated heap",
    "C04": "simulation under memory faults, callback failures and abrupt ends, exactly-once accounting of custom values",
    "C05": "simulation of every reading call in every state a faulted history can reach, against a reference model",
    "C06": "simulation of histories of repeated parses, refinement against a parse of a fresh table",
    "C07": "simulated caller threads preempted at basic blocks and nested parses, refinement against solo executions",
    "C08": "simulation with a changing environment, sources compared with a reference model of precedence",
    "C09": "simulation under memory faults and histories, refusals compared with a reference model of the constraints",
    "C10": "simulation with callbacks that fail, act, nest and switch, recorded order compared with a reference model",
    "C11": "simulation with failing, short and interrupted output, differential against working output",
    "C12": "simulation of program endings from every source and inside callbacks, under memory and output faults",
    "C13": "simulation of printed help under memory and output faults, step-bounded, against the table",
    "C14": "simulation with exhausted and failing descriptors and streams, conservation of descriptors",
    "C15": "simulation of deep and ambiguous command nesting under memory faults, against a reference model",
    "C16": "simulation with write-protected and checksummed inputs under faults",
    "C17": "simulation of growing collections under memory faults, against a reference model of accumulation",
}
NOTE = (
    "Seeded sampling of whole programs, schedules and fault sequences against the real library code; every report is repeated in two fresh "
    "processes to the last bit of its history and minimised. Silence is evidence, not proof. Trusted: the simulated C library calls, "
    "the reference model, libpcre2, the compiler."
)
NA = {
    "C18": "The conversion of one text to one value is a pure function of the text: no schedule, fault, history or second party takes part in it. "
           "(The values a parse delivers, also under faults, are C02, C08 and C17.)",
    "C19": "Which texts a constant regular expression matches is a pure function of the text; nothing in it depends on a schedule, fault or history.",
    "C20": "The message of an error code is a pure function of the code: a table lookup without state, faults or schedules.",
    "C21": "Which tables the structure check accepts is a pure function of the table. (What the check does to memory, streams and defaults under faults is C14.)",
}
m = {
    "version": 1,
    "setup_cmd": "python3 build.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the library's calls into the C library are redirected in its object files (objcopy) when the checks build it", "source_commits": []},
    "checks": [
        {"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "technique": "deterministic simulation with fault injection: " + t,
         "level": "exploration", "level_note": NOTE}
        for p, t in T.items()
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "VERIF_TIER=thorough searches 600 s per property; python3 check.py <id> --replay FILE executes a recorded violation again.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
