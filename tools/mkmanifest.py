#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
SEQ = T + "TLC's transitions replayed on the code, recorded runs and explored schedules validated as traces by TLC"
C = {}
SEQN = "The specification is checked exhaustively within small constants; the code is bound to it by replaying every transition of the model, by validating long random walks, and by validating every history of a preemption-bounded exploration (plus random schedules) of the instrumented sources. Trusts the instrumentation, the scheduler and the cooperative versions of sync and sync/atomic."
for k in ["C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"]:
    C[k] = (SEQ, "model_checking", SEQN)
TIM = T + "histories with virtual time of explored schedules of the instrumented code validated as traces by TLC"
TIMN = "Histories of a preemption-bounded exploration plus random schedules of the instrumented sources, under virtual time, are validated by TLC against a timed trace specification. Bounded in threads, operations and preemptions; trusts the instrumentation, the scheduler and the cooperative versions of sync, sync/atomic, time and context."
for k in ["C04", "C05", "C06", "C09"]:
    C[k] = (TIM, "model_checking", TIMN)
for k in ["C01", "C02", "C03"]:
    C[k] = (T + "algorithm specification of the pool (PlusCal) refining its abstract specification, and explored schedules of the instrumented code validated as traces by TLC", "model_checking",
            "TLC checks the pool algorithm exhaustively for small programs; " + TIMN)
exec(open(os.path.join(here, "tools", "manifest_more.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i + " thorough", "evidence_file": "evidence/%s.json" % i,
                 "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]} for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in C],
     "notes": "Language: TLA+ with TLC. run.py reads VERIF_TIER and VERIF_SEED. No hooks in /repo: checks instrument scratch copies of its sources."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
