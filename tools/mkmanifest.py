#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over interleavings, lost memories, crashes and refusals; "
common = ("Seeded exploration, not exhaustive: it shows that no violation was met on the runs counted in the evidence file. "
          "All of derivre is real code; clients, threads' turns, random keys and faults are simulated. Trusts regex-syntax's parser and the reference model in sim/src/refmodel.rs. ")
C = {
 "C01": ("answers checked against a reference DFA", "Each session's answers are compared with a minimal DFA built independently; patterns of up to 250 reference states, small alphabets mostly."),
 "C02": ("dead states checked against reference liveness", "Dead/alive and always-empty of every state met are compared with liveness in the reference DFA, and on joint state spaces of up to 400 states."),
 "C03": ("hints checked against reference and against every next byte", "Every hint is checked against the reference and against the engine's own 256 successors; soundness only (SomeBytes is always allowed), plus stability."),
 "C04": ("shortest lookahead split computed from the definition", "Regexes A(?P<stop>B) and alternations of them, lookaheads of up to some thousand bytes."),
 "C05": ("differential re-execution without the losses and collisions", "Losses and hash collisions are injected through the hooks; the same history is executed again without them and cold. Without hooks only cold recomputation and clones remain."),
 "C06": ("differential re-execution with only one of the forked copies", "Each copy's calls are executed again alone and compared."),
 "C07": ("handles denoted again at the end against reference languages", "Languages of all handles are compared with the reference after the whole history. Prefixes over and/not is excluded (see known_findings.txt)."),
 "C08": ("differential re-execution without the refused requests", "Every refused request is left out of a second execution, whose results must be the same."),
 "C09": ("fuel limits placed at and around every point where a search can give up", "Verdicts under a limit are compared with the unlimited one and the reference."),
 "C10": ("containment verdicts checked by product construction", "Verdicts are compared with containment of the reference DFAs; transitivity over the history."),
 "C11": ("differential re-execution in another process with other keys, threads and neighbours", "All observations are compared between processes with different random keys, address layouts, thread placements and unrelated activity."),
 "C12": ("cost and memory accounts read around repeated ground", "Compares the library's own counters before and after ground that was already walked."),
 "C13": ("exported tables followed in lock step with the engine", "Tables of regexes with fewer than 250 states (the public export is limited to them)."),
 "C14": ("interning table compared with a vector model under forced collisions", "Sequences of up to 700 operations; collisions down to a 1-bit hash through the hook."),
 "C15": ("joint walk of the engine and an un-escaping reference, and corrupted streams", "Expressions over UTF-8 strings without and/not/prefixes. \\uXXXX for characters that need no escape is left open."),
 "C16": ("towers of thousands of levels on 512 KiB stacks", "Nine families of towers whose language has a closed form. The stack is that of an optimised build."),
 "C17": ("component interface with caches lost, shared or swapped between calls", "Residual languages compared with reference DFAs of each expression alone."),
}
checks = [{
    "property": k,
    "quick_cmd": f"./check.sh {k}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
    "technique": T + v[0],
    "level": "exploration",
    "level_note": common + v[1],
} for k, v in C.items()]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "derivre_sim",
        "enable": "RUSTFLAGS=\"--cfg derivre_sim\" (build.sh); if a changed tree does not build with it, the checks run without the hooks",
        "source_commits": ["8d1442f"],
    },
    "checks": checks,
    "not_applicable": [
        {"property": "C18", "reason": "printing is a pure function of one expression and a limit: no schedule, state, time, fault or history for a simulator to decide. (The simulated histories do call it, and its panics and its dependence on history are covered by C11 and C16.)"},
        {"property": "C19", "reason": "a pure function of two values of a four-case type: nothing for a simulator to schedule or to fail."},
    ],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
