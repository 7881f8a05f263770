"""run every planted bug against the check of its property; writes tools/matrix.json"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + '/tools/matrix.json'
d = json.load(open(f)) if os.path.exists(f) else {}
for s in sorted(os.listdir(V + '/seeded')):
    if s in d and s not in sys.argv[1:]:
        continue
    o = subprocess.run(['bash', V + '/tools/trybug.sh', s, '-v'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    m = re.search(r'(VIOLATED|held[^\n]*?) obligations (\d+)/(\d+)', o)
    v = re.search(r'VIOLATION property=\S+ replay=\S+( no-failing-input-found)?', o)
    d[s] = dict(open=int(m.group(3)) - int(m.group(2)) if m else None, input=bool(v) and not v.group(1), caught=bool(v))
    print(s, d[s], flush=True)
    json.dump(d, open(f, 'w'), indent=0, sort_keys=True)
