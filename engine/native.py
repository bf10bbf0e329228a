"""Compiles /repo's current sources (with sanitizers) and a harness, and runs it."""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from extract_all import REPO, VERIF, BUILD, SKIP

CXX = 'g++'
FLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-w',
         '-D_GLIBCXX_ASSERTIONS', '-I/usr/lib/llvm-14/include', '-I%s/include' % REPO, '-I/usr/include/libxml2',
         '-I%s/lib/Feature' % REPO]
LIBS = ['-L/usr/lib/llvm-14/lib', '-lLLVM-14', '-lz3', '-lxml2']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def header_hash():
    h = hashlib.sha256()
    for pat in ('include/**/*', 'lib/**/*.h'):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, 'rb').read())
    return h.hexdigest()


def compile_one(src, flags, key):
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + '.' + key + '.o')
    if not os.path.exists(o):
        for old in glob.glob(os.path.join(d, os.path.basename(src) + '.*.o')):
            os.unlink(old)
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stderr[-3000:]
        os.rename(tmp, o)
    return o, None


def lib_sources():
    return [f for f in sorted(glob.glob(REPO + '/lib/*/*.cpp')) if os.path.basename(f) not in SKIP]


def build(harness=None, flags=None):
    """-> (executable or None, error)"""
    flags = list(flags or FLAGS)
    hh = header_hash()
    srcs = lib_sources()
    jobs = []
    for s in sorted(srcs, key=lambda s: 'Parser' not in s):
        jobs.append((s, flags, sha(hh, open(s, 'rb').read(), ' '.join(flags))))
    if harness:
        hs = os.path.join(VERIF, 'harness', harness + '.cpp')
        common = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h'))))
        jobs.append((hs, flags + ['-I' + os.path.join(VERIF, 'harness')], sha(hh, open(hs, 'rb').read(), common, ' '.join(flags))))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: compile_one(*j), jobs))
    for (s, _, _), (o, e) in zip(jobs, rs):
        if o is None:
            return None, '%s: %s' % (s, e)
    if not harness:
        return None, None
    exe = os.path.join(BUILD, 'bin', harness + '.' + sha(*[o for o, _ in rs]))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, 'bin', harness + '.*')):
            os.unlink(old)
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + flags + [o for o, _ in rs] + ['-o', tmp] + LIBS, capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stderr[-3000:]
        os.rename(tmp, exe)
    return exe, None


def run(exe, seed, seconds, tier, extra=()):
    """-> dict(cases, distinct, samples, fails=[(key, text)], error)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096',
               UBSAN_OPTIONS='print_stacktrace=0')
    scratch = os.path.join(BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    env['TMPDIR'] = scratch
    out = dict(cases=0, distinct=0, samples=[], fails=[], error=None, notes=[])
    try:
        r = subprocess.run([exe, '--seed', str(seed), '--seconds', str(seconds), '--tier', tier] + list(extra), cwd=scratch,
                           capture_output=True, text=True, errors='replace', env=env, timeout=seconds * 3 + 120)
        txt, code, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        txt = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        code, err = -1, 'time limit'
    finally:
        subprocess.run(['rm', '-rf', scratch])
    done = False
    for ln in txt.splitlines():
        if ln.startswith('CASES '):
            p = ln.split()
            out['cases'] += int(p[1])
            out['distinct'] += int(p[2])
        elif ln.startswith('SAMPLE '):
            out['samples'].append(ln[7:][:300])
        elif ln.startswith('FAIL '):
            p = ln[5:].split(' ', 1)
            out['fails'].append((p[0], p[1] if len(p) > 1 else ''))
        elif ln.startswith('NOTE '):
            out['notes'].append(ln[5:])
        elif ln == 'DONE':
            done = True
    ub = [l for l in err.splitlines() if ': runtime error: ' in l and not l.startswith(VERIF + "/")]
    if not done and not out['fails'] and ub:
        out['fails'].append(('undefined-behaviour', ub[0][:600]))
    if not done and not out['fails']:
        out['error'] = 'harness ended early (exit %s): %s' % (code, err[-1500:])
    if not done and out['fails']:
        out['fails'][-1] = (out['fails'][-1][0], out['fails'][-1][1] + ' | ' + err[-1500:].replace('\n', ' | '))
    return out
