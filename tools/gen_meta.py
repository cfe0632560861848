"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, not by the checks)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/gggears/"
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append((id, note))


CH = []
exec(open(os.path.join(ROOT, "tools", "meta_props.py")).read())

TECH = ("symbolic execution of the real Python source (re-read from /repo each run) over solver variables; "
        "z3 decides each assertion on each path; counterexamples replayed on the installed package")
NOTE = ("Every assertion is discharged for all inputs in the stated ranges on every feasible path, in exact real "
        "arithmetic; floats, scipy solvers and the CAD kernel are idealised or stubbed as listed in the evidence.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'",
           checks=[dict(property=i, quick_cmd=f"python3-vt -m symgg.run {i} --tier quick",
                        thorough_cmd=f"python3-vt -m symgg.run {i} --tier thorough",
                        technique=TECH, level="model_checking", level_note=NOTE + (" " + n if n else ""))
                   for i, n in CH],
           not_applicable=NA)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
