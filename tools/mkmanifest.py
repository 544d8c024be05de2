"""Writes MANIFEST.json from the checks registered in run.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/tools")
import run

NOTES = {
    "chains": ("TLA+ model checking (TLC) with conformance replay and trace validation",
               "TLC checks the bounded design exhaustively, generates one history per transition (per tree shape) of it, "
               "all are executed on the real store and TLC decides for each recorded trace whether it is a behaviour of "
               "the specification; random and deep histories extend the bounds by sampling. Trusted: the driver's recording, "
               "leveldb, and the small-scope assumption beyond the sampled sizes."),
    "crash": ("TLA+ model checking (TLC) with trace validation of crash and restart histories",
              "TLC checks that only whole-batch prefixes survive on the bounded design; the real store is cut at every "
              "journal byte range, copied live and killed with SIGKILL at random points, and TLC decides whether each "
              "reopened store is one of the specification's surviving states. Sampled beyond the bounds; the kernel and "
              "the disk are assumed to keep what the process wrote."),
    "conc": ("TLA+ linearization search (TLC) over recorded concurrent histories",
             "Real goroutines run over the real store; TLC searches, for each recorded history, for an order of the "
             "operations that the sequential specification allows. Schedules are sampled, not enumerated."),
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
reg = run.registry_modules()
checks, na = [], []
for p in props:
    if p in reg:
        mod = reg[p]
        tech, note = getattr(mod, "NOTES", {}).get(p) or NOTES[mod.__name__]
        checks.append(dict(property=p, quick_cmd="python3 run.py check " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py check " + p,
                           evidence_file="evidence/%s.json" % p, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
