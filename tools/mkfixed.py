"""rewrites the "fixed" list of known_findings.json from the fix: commits of /repo and tools/fixed.json (subject -> property ids)"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(H, "tools", "fixed.json")))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    c, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in m:
        print("no property for:", s)
        continue
    for i in m[s].split():
        out.append(f"fixed: property={i} {c} {s}")
f = os.path.join(H, "known_findings.json")
k = json.load(open(f))
k["fixed"] = out
json.dump(k, open(f, "w"), indent=1)
