import json, subprocess, sys
CORE = ['src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/radiomap.cpp', 'src/point.cpp', 'src/vector3d.cpp']
def seed(sid, prop, edits, needs, breaks, demo, srcs=(), **kw):
    cfg = dict(edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=list(srcs), **kw)
    subprocess.run([sys.executable, '/verif/tools/mkseed.py', sid, prop], input=json.dumps(cfg), text=True)
