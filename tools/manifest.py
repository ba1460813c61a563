"""Writes MANIFEST.json from the plans of tools/checks.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [], "hooks": {"guard": "verif", "enable": "no hooks in /repo: the harness is built in a directory of its own with -tags verif, against /repo's working tree and a copy of golang.org/x/crypto that reports calls of bcrypt", "source_commits": []},
           "notes": "TLA+ checked with TLC; see DESIGN.md"}
    for p in props:
        i = p["id"]
        if i in checks.PLAN:
            out["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
                                  "evidence_file": "evidence/%s.json" % i,
                                  "technique": checks.TECH[i],
                                  "level": checks.LEVEL.get(i, "model_checking"), "level_note": checks.NOTES[i]})
        else:
            out["not_applicable"].append({"property": i, "reason": "check not built yet"})
    json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(out["checks"]), "checks")


main()
