"""Rewrites the `fixed` entries of known_findings.jsonl from /repo's fix: commits (run by hand)."""
import json, subprocess, sys
MAP = [("invert()", "C01"), ("composing gear transforms", "C01"), ("reversing a curve did", "C03"), ("dividing a curve", "C03"),
       ("second and higher numeric", "C03"), ("curve chain returned None", "C04"), ("deleting an item", "C04"),
       ("trimming both ends of a curve chain", "C04"), ("length of an arc", "C05"), ("transforming a trimmed", "C05"),
       ("evaluating an arc at an array", "C05"), ("flat spherical involute", "C06"), ("flat conic cycloid", "C06"),
       ("octoid ignored", "C06"), ("reversing a NURB", "C07"), ("moving the points of a NURB", "C07"),
       ("bezier derivatives", "C07"), ("interpolating quadratic", "C07"), ("NURB conversion", "C07"),
       ("gradient of the surface", "C07"), ("joining NURB", "C07")]
if True:
    MAP += json.load(open("/verif/tools/fix_map.json"))
out = []
for l in open("/verif/known_findings.jsonl"):
    l = l.strip()
    if l:
        d = json.loads(l)
        if d["status"] == "known":
            out.append(d)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    hsh, subj = l.split(" ", 1)
    if subj.startswith("fix:"):
        hit = [(k, p) for k, p in MAP if k in subj]
        ps = [p for k, p in hit if not any(k != o and k in o for o, _ in hit)]
        if len(ps) != 1:
            sys.exit(f"unmapped or ambiguous: {subj} {ps}")
        out.append(dict(property=ps[0], status="fixed", commit=hsh[:12], what=f"fixed: property={ps[0]} {hsh[:12]} {subj[5:]}"))
open("/verif/known_findings.jsonl", "w").write("".join(json.dumps(d) + "\n" for d in out))
print(len(out))
