"""Writes MANIFEST.json from one table."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_E1 = "exhaustive bounded enumeration of networks x scenarios x requests on the real engine against an explicit-state reference model"
N = {}
exec(open(ROOT + "/tools/manifest_table.py").read())
checks = []
for p in sorted(TABLE):
    tech, level, note = TABLE[p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": tech, "level": level, "level_note": note})
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
na = [{"property": i, "reason": NOT_YET.get(i, "no check yet")} for i in ids if i not in TABLE]
m = {"version": 1, "setup_cmd": "./check setup",
     "hooks": {"guard": "TRROUTING_VERIF", "enable": "the C14 harness compiles /repo's sources with -DTRROUTING_VERIF and defines trrouting_verif_point(); every other build leaves it off", "source_commits": ["0909020"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
