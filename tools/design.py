"""fill the generated parts of DESIGN.md from DESIGN.in, props, evidence and seeded"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from design_props import D
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
out = []
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    if i not in D or not D[i][0]:
        continue
    d, a, b = D[i]
    c = json.load(open(V + '/tools/design_stats.json')).get(i, {})
    out.append('**%s %s.** %s%s%s' % (i, p['title'], d, ' Assumed: ' + a if a else '', ' Bounded: ' + b if b else '') + (' (%d functions and lemmas, %d obligations, %d s)' % (c['f'], c['o'], c['s']) if c else ''))
na = ['* **%s** %s' % (x.get('property_id') or x.get('property') or x.get('id'), x['reason']) for x in man.get('not_applicable', [])] or ['None of the listed properties.']
mx = json.load(open(V + '/tools/matrix.json')) if os.path.exists(V + '/tools/matrix.json') else {}
sd = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    x = mx.get(s)
    sd.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], x['open'] if x else '', ('yes' if x['input'] else 'no') if x else ''))
t = open(V + '/tools/DESIGN.in').read()
kf = [l.split() for l in open(V + '/KNOWN_FINDINGS.txt') if l.startswith('fixed:')][4:]
fx = ''.join(' %s %s (%s).' % (l[2], ' '.join(l[3:]), l[1][9:]) for l in kf)
t = t.replace('@@PROPS@@', '\n\n'.join(out)).replace('@@NA@@', '\n'.join(na)).replace('@@SEEDS@@', '| change | caught by | what it breaks | obligations | input |\n|---|---|---|---|---|\n' + '\n'.join(sd)).replace('@@FIX@@', fx)
open(V + '/DESIGN.md', 'w').write(t)
