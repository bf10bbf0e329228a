"""development tool: writes a planted bug.  spec: python file defining ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ main), optional LINK"""
import os, subprocess, sys, json, tempfile, shutil
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=$PWD/_build/lib
g++ -std=c++17 -g -O0 -w -Iinclude -I/usr/lib/llvm-14/include -I/usr/include/libxml2 "$D/demo.cpp" -o "$T/demo" \\
  "$L/Solver/libVaRASolver.a" "$L/Sampling/libVaRASampling.a" "$L/Configuration/libVaRAConfiguration.a" "$L/Feature/libVaRAFeature.a" \\
  -L/usr/lib/llvm-14/lib -lLLVM-14 -lz3 -lxml2 || exit 3
cd "$T" && timeout 120 ./demo
'''
def make(ID, PROP, EDITS, NEEDS, BREAKS, DEMO):
    d = '/verif/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    out = ''
    files = []
    for f, o, n in EDITS:
        if f not in files:
            files.append(f)
            for s in 'ab':
                os.makedirs(os.path.dirname('%s/%s/%s' % (t, s, f)), exist_ok=True)
                shutil.copy('/repo/' + f, '%s/%s/%s' % (t, s, f))
        p = '%s/b/%s' % (t, f)
        s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    for f in files:
        r = subprocess.run(['git', 'diff', '--no-index', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True)
        out += r.stdout.replace('a/a/', 'a/').replace('b/b/', 'b/')
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write(DEMO)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], check=True)
    print('made', ID)
