#!/opt/venv/bin/python
"""Generate properties.jsonl and MANIFEST.json from the META blocks of checks/ and tools/na.json."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props, checks = [], []
for p in sorted(glob.glob(ROOT + "/checks/[a-z][0-9][0-9].py")):
    pid = os.path.basename(p)[:-3].upper()
    M = importlib.import_module("checks." + pid.lower()).META
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append(dict(id=pid, title=M["title"], statement=M["statement"],
                      quantifier=dict(over=M["over"], text=M["quant"]), why_tests_cant=M["why"],
                      anchors=dict(files=M["files"], mechanism=[dict(name=a, where=b) for a, b in M["mech"]],
                                   observe_at=M["observe"], hook_needed=None)))
    e = dict(property=pid, quick_cmd="./check.py %s" % pid, thorough_cmd="./check.py %s --thorough" % pid,
             technique=M["technique"], level="other", level_note=M["note"])
    checks.append(e)
na = json.load(open(ROOT + "/tools/na.json"))
for n in na:
    props.append(n["prop"])
with open(ROOT + "/properties.jsonl", "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="./selftest.py", checks=checks,
           not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in na],
           notes="No hooks are added to /repo. Checks elaborate /repo's current sources and analyse the elaborated FHDL.")
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
