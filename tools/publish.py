"""Write properties.jsonl, MANIFEST.json and the property part of DESIGN.md from tools/records.py."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from tools.records import RECORDS  # noqa: E402

TECH = {"model_checking": "exhaustive bounded state exploration of the real code against a reference model",
        "fault_enumeration": "exhaustive enumeration of crash and fault points on the real code"}


def main():
    props, checks = [], []
    design = []
    for r in RECORDS:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        for f in r["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        mod = importlib.import_module("checks." + r["id"].lower())
        assert mod.PROPERTY == r["id"] and mod.LEVEL == r["level"], r["id"]
        props.append({"id": r["id"], "title": r["title"], "statement": r["statement"],
                      "quantifier": {"over": r["over"], "text": r["text"]}, "why_tests_cant": r["why"],
                      "anchors": {"files": r["files"], "mechanism": [{"name": n, "where": w} for n, w in r["mechanism"]],
                                  "state": r["state"], "observe_at": r["observe"], "hook_needed": None}})
        checks.append({"property": r["id"], "quick_cmd": "./run %s --tier quick" % r["id"],
                       "thorough_cmd": "./run %s --tier thorough" % r["id"],
                       "evidence_file": "evidence/%s.json" % r["id"], "technique": TECH[r["level"]], "level": r["level"],
                       "level_note": (r["note"] + " " if r["note"] else "") + "Exhaustive within: " + mod.BOUNDS["quick"] + ". Assumes: " + "; ".join(mod.ASSUMPTIONS) + "."})
        design += ["### %s: %s" % (r["id"], r["title"]), "", r["statement"], "",
                   "- Decided by: " + r["design"],
                   "- Unit of coverage: " + mod.RULE + ".",
                   "- Bounds, quick: " + mod.BOUNDS["quick"] + ".",
                   "- Bounds, thorough: " + mod.BOUNDS["thorough"] + ".",
                   "- Assumes: " + "; ".join(mod.ASSUMPTIONS) + ".",
                   "- Beyond tests: " + r["why"], ""]
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in props:
            fh.write(json.dumps(p) + "\n")
    manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
                "notes": "No hooks in /repo: the code is reached through its public interface, with an in-memory fsspec filesystem (mc/mcfs.py) "
                         "standing in for storage. Replay a violation with ./run <PROPERTY> --replay <file>."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path, encoding="utf-8") as fh:
        text = fh.read()
    a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
    head, tail = text.split(a)[0], text.split(b)[1]
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(head + a + "\n" + "\n".join(design) + b + tail)
    sys.path.pop()


main()
