"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
MC = {
    "C02": (T + "every transition of the model and random histories replayed on the real cache and validated by a TLC trace specification",
            "Exhaustive for the model (3-6 weights, every policy/limit/strict mode); the code is bound by validating the histories actually executed (all model transitions up to the bound, plus random ones). Assumes distinct weights sizes."),
    "C03": (T + "every transition of the model and random histories replayed on the real cache and validated by a TLC trace specification",
            "As C02; the eviction victims are fixed by the specification, which is itself checked against declarative victim/need properties."),
    "C04": (T + "every transition of the model and random histories replayed on the real cache and validated by a TLC trace specification",
            "As C02, with right, missing, too small and too large recorded sizes."),
}
CHECKS = {k: ("model_checking", *v) for k, v in MC.items()}
try:
    from manifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass
NA = {}
checks = []
for pid in sorted(CHECKS):
    level, tech, note = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 checks/{pid}.py", thorough_cmd=f"VERIF_TIER=thorough python3 checks/{pid}.py",
                       technique=tech, level=level, level_note=note))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="none", enable="no hooks are needed: the checks observe the public API", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/, drivers of the real code in drivers/, orchestration in lib/ and checks/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
