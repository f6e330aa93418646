"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(H, "tools", "na.json")))
NOTE = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=NOTE.get(i, {}).get("technique", "symbolic execution of the crate's MIR and of the package's polars expressions, decided by z3, counterexamples replayed on the built extension"),
                           level="model_checking",
                           level_note=NOTE.get(i, {}).get("note", "bounded: holds for every input within the stated sizes on every explored path; floats as exact reals; polars/faer/rapidfuzz/rayon modelled; evidence lists bounds, undecided obligations and library models")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the MIR of the unmodified crate and the unmodified python package are the inputs of every check.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
