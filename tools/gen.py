"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
LV = {}


def prop(id, title, statement, over, text, tests, files, mech, note=None, na=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na: NA[id] = na
    else: LV[id] = (level, note)


exec(open(os.path.join(V, 'tools', 'table.py')).read())
TECH = 'contract-based deductive verification of the real functions (clang LLVM IR of /repo -> weakest-precondition style symbolic execution, inductive loop invariants, z3/cvc5); failing obligations replayed by a compiled driver'
P.sort(key=lambda p: p['id'])
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && clang++-18 --version >/dev/null && mkdir -p evidence/replay',
         checks=[dict(property=p['id'], quick_cmd='python3-vt llvc/run.py %s quick' % p['id'], thorough_cmd='python3-vt llvc/run.py %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=TECH, level=LV[p['id']][0], level_note=LV[p['id']][1]) for p in P if p['id'] in LV],
         not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in P if p['id'] in NA],
         notes='No hooks: the verifier reads LLVM IR of the unmodified sources. Checks compile /repo/src afresh in a scratch directory under /tmp on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
for f, s in (('MANIFEST.json', 'MANIFEST'), ): jsonschema.validate(m, json.load(open('/root/.vp/%s.schema.json' % s)))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p, sch)
print(len(P), 'properties,', len(m['checks']), 'claimed')
