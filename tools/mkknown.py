"""writes /verif/known_findings.json; the list below is edited by hand"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    {"property": "C25", "target": "tennis",
     "spec": {"t": "Game", "shape": [2, 3],
              "p": [0.25, 0.3, 0.4, 0.5, 0.6, 0.7], "q": None,
              "form": "array", "strict": True},
     "what": "tennis functions of arrays with two feature axes return the "
             "feature axes exchanged: Game of a (2, 3) array has shape "
             "(3, 2, 4) instead of (2, 3, 4) (swapaxes(0, -1) in "
             "maxlike/func/tennis.py; an existing test pins the layout)"},
    {"property": "C18", "target": "buckets",
     "spec": {"kind": "int", "nl": 1, "size": 3, "values": [0, 1, 2],
              "labels": [0, 1, 2], "name": None, "dtype": "int64",
              "strict": True},
     "what": "df_count(series, 3) of the values 0, 1, 2 marks the buckets 0, "
             "2, 1: the overflow bucket is inserted before the last column "
             "instead of after it (existing tests pin the order)"},
    {"property": "C15", "target": "fixed",
     "spec": {"obs": [[0, 1], [2, 1], [3, 1, 2]]},
     "what": "AIC and BIC count the fixed entries of the parameters among "
             "the degrees of freedom: fixing an entry leaves them unchanged "
             "(np.ma.count ignores the mask of a Param; the values pinned by "
             "tests.test_poisson1 include the fixed entries)"},
]
FIXED = [l.rstrip("\n") for l in open(os.path.join(ROOT, "tools",
                                                   "fixed.txt")) if l.strip()]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": FIXED}, f, indent=1)
    f.write("\n")
print(len(FINDINGS), len(FIXED))
