"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
import na

V = os.path.dirname(HERE)


def line(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mechanism"], hook_needed=None))


with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in sorted(list(meta.P.values()) + na.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(line(p)) + "\n")
checks = []
for k, p in sorted(meta.P.items()):
    checks.append(dict(property=k, quick_cmd="python3 checker/run.py %s --tier quick" % k,
                       thorough_cmd="python3 checker/run.py %s --tier thorough" % k,
                       technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 -m compileall -q checker", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in na.P])
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
kf = os.path.join(V, "known_findings.json")
d = json.load(open(kf))
d["fixed"] = []
for l in open(os.path.join(HERE, "fixed.txt")):
    pid, commit, what = l.strip().split(" ", 2)
    d["fixed"].append("fixed: property=%s %s %s" % (pid, commit, what))
with open(kf, "w") as fh:
    json.dump(d, fh, indent=1)
    fh.write("\n")
out = [open(os.path.join(V, "doc", "head.md")).read(), "## Properties\n"]
for k, p in sorted(meta.P.items()):
    out += ["### %s %s\n" % (k, p["title"]), "*Claim.* %s\n" % p["statement"], "*Why not tests.* %s\n" % p["why"],
            "*Decided by* %s. %s\n" % (p["technique"], p["explain"].split("forked. ", 1)[-1]), "*Limits.* %s\n" % p["note"]]
out.append("## Not applicable\n")
out += ["- %s %s: %s" % (p["id"], p["title"], p["reason"]) for p in na.P]
fx = [l.strip().split(" ", 2) for l in open(os.path.join(HERE, "fixed.txt"))]
out.append("\n## Defects found and repaired in /repo\n")
out += ["- %s (%s): %s" % (c, pid, w) for pid, c, w in fx]
if d["findings"]:
    out.append("\n## Known findings (recorded, not repaired)\n")
    out += ["- %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in d["findings"]]
out.append("\n" + open(os.path.join(V, "doc", "tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
