"""DESIGN.md: the table per property between the markers, from the evidence
of the last runs, the properties and the seeds.  (Run bin/check first.)"""
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- table -->', '<!-- end of table -->'
notes = json.load(open(os.path.join(H, 'tools', 'design_notes.json')))
seeds = {}
for m in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append(
        os.path.basename(os.path.dirname(m)))
out = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    k = p['id']
    out.append('### %s %s\n' % (k, p['title']))
    out.append(notes.get(k, '') + '\n')
    f = os.path.join(H, 'evidence', k + '.json')
    if os.path.exists(f):
        e = json.load(open(f))
        c = e['coverage']
        fns = [x for x in c['functions_under_contract'] if '<' not in x]
        own = [x for x in fns if not x.startswith(('_abcoll', 'prelude'))]
        out.append('- Obligations: %d in %d tasks; functions: %s.' % (
            c['obligations'], len(c['tasks']), ', '.join(own)))
        ac = [x[len('assumed contract: '):] for x in c['trusted_base']
              if x.startswith('assumed contract')]
        if ac:
            out.append('- Called by contract: %s.' % ', '.join(ac))
        if e['assumptions']:
            out.append('- Assumed: %s.' % '; '.join(e['assumptions']))
    if k in seeds:
        out.append('- Seeds: %s.' % ', '.join(seeds[k]))
    out.append('')
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
a, b = s.index(A) + len(A), s.index(B)
open(f, 'w').write(s[:a] + '\n' + '\n'.join(out) + s[b:])
