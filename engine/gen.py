"""Write /verif/properties.jsonl and /verif/MANIFEST.json from propdefs.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdefs import D
import propdefs
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in D:
        f.write(json.dumps({k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
na = getattr(propdefs, 'NA', {})
checks = []
for d in D:
    if d['id'] in PROPS:
        p = PROPS[d['id']]
        checks.append(dict(property=d['id'], quick_cmd='python3-vt engine/check.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough python3-vt engine/check.py ' + d['id'],
                           technique=d['tech'], level=p.get('level', 'proof'),
                           level_note=(d['note'] + '; ' if d['note'] else '') + 'proof functions: %d, bounded stand-ins: %d; per-proof status, functions under contract and trusted base in evidence/%s.json' % (
                               sum(len(u['proofs']) for u in p['units']), sum(len(u['natives']) for u in p['units']), d['id'])))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=d['id'], reason=na[d['id']]) for d in D if d['id'] not in PROPS],
         notes='Checks compile drivers/*.cpp against the headers of /repo on every run; engine/ is the verification-condition generator. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
def table():
    r = []
    for d in D:
        r.append('### %s %s' % (d['id'], d['title']))
        if d['id'] not in PROPS:
            r.append('Not applicable: ' + na[d['id']]); r.append(''); continue
        p = PROPS[d['id']]
        r.append('Level: **%s**. Anchors: %s.' % (p.get('level', 'proof'), ', '.join('`%s`' % f for f in d['anchors']['files'])))
        for u in p['units']:
            if u['proofs']:
                r.append('- P `drivers/%s`: %s' % (u['driver'], ', '.join(x if isinstance(x, str) else x[0] for x in u['proofs'])))
            if u['natives']:
                r.append('- B `drivers/%s`: %s' % (u['driver'], ', '.join(x if isinstance(x, str) else x[0] for x in u['natives'])))
        t = propdefs.DESIGN.get(d['id'])
        if t:
            r.append(''); r.append(t.strip())
        r.append('')
    return '\n'.join(r)

def fixed():
    k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    return '\n'.join('- ' + (x['line'] if isinstance(x, dict) else x) for x in (k if isinstance(k, list) else k['findings']))

def seeded():
    r = ['| seed | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    sd = os.path.join(ROOT, 'seeded')
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        r.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], propdefs.CAUGHT.get(s, 'check ' + m['property'])))
    return '\n'.join(r)

src = open(os.path.join(ROOT, 'engine', 'DESIGN.in.md')).read()
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(src.replace('%TABLE%', table()).replace('%FIXED%', fixed()).replace('%SEEDED%', seeded()))
