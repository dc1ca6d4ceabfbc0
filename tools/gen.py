#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/gen.py` after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BI, NA = "src/cxy/runtime/builtins.cxy", None
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, technique=None, note=None, na=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({"observe_at": observe} if observe else {}))),
              check, technique, note, na))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, check, technique, note, na in P:
    if check:
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/%s" % check,
                           thorough_cmd="python3 checks/%s --thorough" % check,
                           technique=technique, level="model_checking", level_note=note))
    else:
        nas.append(dict(property=p["id"], reason=na))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=nas,
         notes="No hooks in /repo: every check builds the compiler from /repo's working tree (cached by content hash under .build) "
               "and drives the real compiler, runtime and standard library. known-findings.txt lists recorded defects and fixes.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    f.write(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, *_ in P:
        jsonschema.validate(p, s)
    print("valid: %d properties, %d checks" % (len(P), len(checks)))
except ImportError:
    print("(not validated)")
