import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/vc')
import registry
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    P = registry.PROPS.get(i)
    if P is None: na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check has been built yet"))); continue
    lv = P.level
    tech = {'proof': "contract-based deductive verification of the compiled source (VCs from clang IR, z3)",
            'other': "contract-based deductive verification (VCs from clang IR, z3) with a bounded stand-in for the functions not under contract",
            'exploration': "bounded stand-in (differential search on the real code); not counted as proved"}[lv]
    if P.tech: tech = P.tech
    note = P.note or {'proof': "Every obligation generated from the current source is discharged for all inputs; trusts clang-18, vstd/string and the VC generator.",
            'other': "Functions under contract are proved for all inputs; bounded part: %s." % P.bounded, 'exploration': "No proof: %s. Seeded bounded search against an independent reference." % P.bounded}[lv]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=tech, level=lv, level_note=note))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo.")
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
