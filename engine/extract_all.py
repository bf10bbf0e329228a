"""Runs the extractor on every translation unit of /repo (and the instantiation unit)."""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-std=c++17', '-I/usr/lib/llvm-14/include', '-I%s/include' % REPO, '-I/usr/include/libxml2',
         '-I%s/external/stats/include' % REPO, '-I%s/external/gcem/include' % REPO,
         '-I%s/external/csv-parser/include' % REPO, '-I%s/lib/Feature' % REPO,
         '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w']


# need csv.hpp / stats.hpp, which are not in this sandbox
SKIP = {'SampleSetParser.cpp', 'SamplingMethods.cpp'}


def ensure_extractor():
    src = os.path.join(HERE, 'extract', 'extract.cpp')
    exe = os.path.join(BUILD, 'extract')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = exe + '.sha'
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        subprocess.run(['bash', os.path.join(HERE, 'extract', 'build.sh'), BUILD], check=True)
        open(stamp, 'w').write(h)
    return exe


def units():
    us = [u for u in sorted(glob.glob(REPO + '/lib/*/*.cpp')) if os.path.basename(u) not in SKIP]
    us.append(os.path.join(VERIF, 'contracts', 'instantiate.cpp'))
    return us


def repo_hash():
    h = hashlib.sha256()
    for pat in ('include/**/*', 'lib/**/*', 'external/csv-parser/include/*', 'tools/config-generator/*'):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, 'rb').read())
    h.update(open(os.path.join(HERE, 'extract', 'extract.cpp'), 'rb').read())
    p = os.path.join(VERIF, 'contracts', 'instantiate.cpp')
    h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def extract(only=None):
    """-> (list of json paths, {unit: error})"""
    exe = ensure_extractor()
    h = repo_hash()
    out = os.path.join(BUILD, 'ast', h)
    os.makedirs(out, exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, 'ast', '*')):
        if d != out:
            subprocess.run(['rm', '-rf', d])
    errs = {}
    paths = []

    def one(u):
        name = u.replace('/', '_').strip('_') + '.json'
        p = os.path.join(out, name)
        if not os.path.exists(p):
            tmp = p + '.%d.tmp' % os.getpid()
            root = REPO.rstrip('/') + '/'
            r = subprocess.run([exe, root, tmp, u, '--'] + FLAGS, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                errs[u] = r.stderr[-2000:]
                return None
            os.rename(tmp, p)
        return p

    us = units()
    with ThreadPoolExecutor(8) as ex:
        for p in ex.map(one, us):
            if p:
                paths.append(p)
    return paths, errs


if __name__ == '__main__':
    p, e = extract()
    print('\n'.join(p))
    for u, m in e.items():
        print('ERROR', u, m)
