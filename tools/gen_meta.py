"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P  # noqa: E402

checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], state=p["state"], observe_at=p["observe"],
                         hook_needed=None))) + "\n")
        mod = os.path.join(ROOT, "harness", "props", p["id"].lower() + ".py")
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif not os.path.exists(mod):
            na.append(dict(property=p["id"], reason="its check is still being built"))
        else:
            checks.append(dict(
                property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                technique=p["tech"], level="model_checking",
                level_note=p["note"] or "The TLA+ model is checked exhaustively within its constants; the real code is bound to it by replayed "
                "model behaviours and by recorded histories, each event of which TLC judges. Real executions are a finite sample of inputs; "
                "trusted: TLC, the harness's record encoder/decoder, JAX on CPU."))
man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
           notes="Specification language: TLA+ (spec/). No hooks in /repo. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
