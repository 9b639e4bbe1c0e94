#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json, subprocess, os
SY = "symbolic execution of the compiled library (symbolic number type) with SMT (z3)"
KA = "bounded model checking of the compiled library (Kani/CBMC, SAT)"
BOTH = SY + "; " + KA
NOTE_SY = "every value of the symbolic coefficients and every choice of shape, labels and annealer answers within the stated bounds is decided by z3 on the real code's execution paths; exact arithmetic (no overflow or rounding); counterexamples are replayed natively; trusts rustc, std, z3 and the engine in symx/"
NOTE_KA = "every input within the harness bounds is decided by CBMC on the real code (unwinding assertions on); counterexamples are replayed natively; trusts Kani, CBMC, the SAT solver and the stubs named in DESIGN.md"
SC = SY + ", schedules as choices through a model of rayon"
NOTE_SC = "every order of the atomic sample runs and every annealer answer within the stated bounds, for all values of the symbolic coefficients (z3), on the real solve loop; rayon itself is replaced by a model of its documented interface in which each scheduling decision is a free choice, so interleavings within a run (which share no mutable data in safe code without locks) and rayon's own implementation are outside; counterexamples are replayed natively; trusts rustc, std, z3, the engine and the rayon model"
kani = "C09 C16 C24".split()
both = "C08 C10 C11 C12 C14 C15 C18 C20".split()
checks = []
for i in range(1, 40):
    p = "C%02d" % i
    ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
    if p not in ids:
        continue
    t, n = (KA, NOTE_KA) if p in kani else (BOTH, NOTE_SY + "; " + NOTE_KA) if p in both else (SC, NOTE_SC) if p == "C21" else (SY, NOTE_SY)
    checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n))
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook")]
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="cfg rustqubo_verif", enable="RUSTFLAGS='--cfg rustqubo_verif' (set by run.py for every build of the harness crates, which depend on /repo by path)", source_commits=hooks),
         checks=checks,
         not_applicable=[],
         notes="Engines: symx/ (symbolic number type + z3), sched/ (the same with a model of rayon) and kani/ (CBMC), all rebuilt from /repo on every run; see DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
