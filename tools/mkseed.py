#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <demo sources...>  -- build a seeded bug.
stdin: JSON {"edits": [[file, old, new], ...], "needs": ..., "breaks": ..., "demo": C++ source, "srcs": [...], "flags": [...]}
Creates /verif/seeded/<id>/ and confirms it in a scratch copy of /repo."""
import json, os, subprocess, sys, shutil, tempfile
def main(sid, prop, cfg):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(w, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        open(d + '/demo.cpp', 'w').write(cfg['demo'])
        core = cfg.get('core', True)
        if 'demo_core.h' in cfg['demo']: shutil.copy('/verif/tools/demo_core.h', d + '/demo_core.h')
        inc = '-I include -I src -I /usr/include/eigen3 -include list' if core else ''
        open(d + '/demo.sh', 'w').write(r'''#!/bin/bash
# run with cwd = the repository: builds a small program against its sources and runs it
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
set -e
FLAGS="-std=c++17 %s -w -DBUILD_FOR_LINUX -fno-access-control %s %s"
i=0; L=""
for f in "$D/demo.cpp" %s; do i=$((i+1)); echo "$f $T/$i.o"; L="$L $T/$i.o"; done > "$T/list"
xargs -P 8 -n 2 sh -c "g++ $FLAGS -c \$0 -o \$1" < "$T/list"
g++ $FLAGS $L -o "$T/demo" %s
cd "$T"
timeout 60 ./demo
''' % ('-O0' if len(cfg.get('srcs', [])) > 10 else '-O1', inc, ' '.join(cfg.get('flags', [])), ' '.join(cfg.get('srcs', [])), ' '.join(cfg.get('libs', []))))
        json.dump({'property': prop, 'needs': cfg['needs'], 'what_it_breaks': cfg['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        def demo():
            p = subprocess.run(['bash', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.returncode, p.stdout[-1500:]
        a = demo()
        for f, o, n in cfg['edits']:
            p = os.path.join(r, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            if t.count(o) != 1:
                print('EDIT does not match once:', f, t.count(o), repr(o)); return 1
            open(p, 'w', newline='').write(t.replace(o, n))
        pt = subprocess.run(['git', '-C', r, 'diff', '--binary'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(pt)
        b = demo()
        ok = a[0] == 0 and b[0] != 0
        print(sid, 'unchanged rc', a[0], 'patched rc', b[0], 'OK' if ok else 'BAD')
        if not ok: print(a[1], '\n----\n', b[1])
        elif 'error:' in b[1]: print('COMPILE ERROR in patched', b[1])
        return 0 if ok else 1
    finally:
        shutil.rmtree(w)
if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2], json.load(sys.stdin)))
