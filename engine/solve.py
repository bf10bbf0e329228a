"""Discharging obligations with z3, falling back to cvc5."""
import subprocess
import time
import tempfile
import os
import re
import z3

Z3_TIMEOUT = int(os.environ.get('VERIF_Z3_MS', '8000'))
CVC5_TIMEOUT = int(os.environ.get('VERIF_CVC5_MS', '8000'))
STATS = {'z3': 0, 'cvc5': 0, 'time': 0.0, 'feas': 0}


def _has_quant(fs):
    seen = set()
    stack = list(fs)
    while stack:
        f = stack.pop()
        i = f.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(f):
            return True
        stack.extend(f.children())
    return False


def _nested(f):
    stack, seen = [f], set()
    while stack:
        f = stack.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f) and _has_quant([f.body()]):
            return True
        stack.extend(f.children())
    return False


def feasible(pc, extra=None, ms=400):
    """False only if the solver shows the path condition unsatisfiable."""
    STATS['feas'] += 1
    s = z3.Solver()
    s.set('timeout', ms)
    for p in pc:
        if not z3.is_quantifier(p):
            s.add(p)
    if extra is not None:
        s.add(extra)
    return check(s) != z3.unsat


def check(s):
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def why(s):
    try:
        return s.reason_unknown()
    except z3.Z3Exception:
        return 'error'


def prove(pc, goal, axioms=(), ms=None, use_cvc5=True):
    """-> (verdict, backend, info, seconds); verdict in proved/refuted/unknown/timeout"""
    t0 = time.time()
    ms = ms or Z3_TIMEOUT
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplify', None, time.time() - t0
    fs = list(axioms) + list(pc) + [z3.Not(goal)]

    def done(v, be, info=None):
        dt = time.time() - t0
        STATS['time'] += dt
        if v == 'proved':
            STATS[be.split('(')[0]] += 1
        return v, be, info, dt

    quant = _has_quant(fs)
    if os.environ.get('DUMP'):
        sd = z3.Solver(); sd.add(*fs)
        open('/tmp/dump_%d_%d.smt2' % (os.getpid(), int(t0*1000)), 'w', encoding='utf-8').write(sd.to_smt2())
    s = z3.SimpleSolver() if quant else z3.Solver()
    reason = ''
    timed = False
    if quant:
        # e-matching only first: complete enough for proofs, and fails fast
        s.set('timeout', ms)
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.add(*fs)
        r = check(s)
        if r == z3.unsat:
            return done('proved', 'z3')
        if r == z3.sat:
            return done('refuted', 'z3', model_text(s.model()))
        reason = 'z3 (e-matching): ' + why(s)
        timed = 'timeout' in reason or 'canceled' in reason
        if timed:
            # fewer hypotheses may prove it too: leave out those with a quantifier below a quantifier
            few = [f for f in fs[:-1] if not _nested(f)]
            if len(few) < len(fs) - 1:
                s4 = z3.SimpleSolver()
                s4.set('timeout', ms)
                s4.set('auto_config', False)
                s4.set('mbqi', False)
                s4.add(*few, fs[-1])
                if check(s4) == z3.unsat:
                    return done('proved', 'z3')
        cand = None
        try:
            cand = model_text(s.model())
        except z3.Z3Exception:
            pass
        s2 = z3.Solver()
        s2.set('timeout', min(ms, 4000))
        s2.add(*fs)
        r = check(s2)
        if r == z3.unsat:
            return done('proved', 'z3')
        if r == z3.sat:
            return done('refuted', 'z3', model_text(s2.model()))
        reason += '; z3 (mbqi): ' + why(s2)
    else:
        s.set('timeout', ms)
        s.add(*fs)
        r = check(s)
        if r == z3.unsat:
            return done('proved', 'z3')
        if r == z3.sat:
            return done('refuted', 'z3', model_text(s.model()))
        reason = 'z3: ' + why(s)
        timed = 'timeout' in reason or 'canceled' in reason
        cand = None
    if use_cvc5:
        s3 = z3.Solver()
        s3.add(*fs)
        v = cvc5_check(s3)
        if v == 'unsat':
            return done('proved', 'cvc5')
        if v == 'sat' and not quant:
            return done('refuted', 'cvc5', cand)
        reason += '; cvc5: %s' % v
    return done('timeout' if timed else 'unknown', 'z3+cvc5', reason + '\n' + (cand or ''))


def model_text(m, limit=4000):
    try:
        lines = []
        for d in m.decls():
            lines.append('%s = %s' % (d.name(), str(m[d])[:160]))
        return '\n'.join(sorted(lines))[:limit]
    except Exception as ex:     # noqa
        return 'model not printable: %s' % ex


def cvc5_check(s):
    txt = s.to_smt2()
    if '(_ Char' in txt:
        txt = re.sub(r'\(seq\.unit \(_ Char (\d+)\)\)', lambda m: '(_ char #x%x)' % int(m.group(1)), txt)
        txt = re.sub(r'\(_ Char (\d+)\)', lambda m: '(_ char #x%x)' % int(m.group(1)), txt)
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % CVC5_TIMEOUT, '--strings-exp', p], capture_output=True, text=True,
                           timeout=CVC5_TIMEOUT / 1000 + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else ('error ' + r.stderr[:200])
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(p)
