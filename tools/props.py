#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = {}


def prop(id, title, statement, over, text, why, files, mech, tech, observe=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
    TECH[id] = (tech, note)


exec(open(os.path.join(HERE, "tools", "props_text.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        tech, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
                           level_note=note or "Holds on every generated case of the run (counts in the evidence file); generated-input search, "
                                              "not a proof. Trusts the independent oracle in /verif/checks and the numerical tolerances stated there."))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Property-based testing (hypothesis) over generated inputs with independent oracles; C++ parts are compiled from /repo's "
               "current sources by each check into a scratch directory (address and undefined-behaviour sanitizers where torch is not involved). "
               "No hooks in /repo are needed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
