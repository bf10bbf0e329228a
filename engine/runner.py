"""Runs the units (function x contract) of a property in parallel and collects obligations."""
import importlib
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.setrecursionlimit(100000)
import extract_all
from prog import Prog
from values import Types, Unsupported
import z3
import verify
import solve


class Group:
    """contracts that see each other, and the subset to verify (default: all that are not assumed)"""

    def __init__(self, name, contracts, units=None, setup=None, objects=(), types=None, lemmas=()):
        self.lemmas = list(lemmas)
        self.name, self.contracts, self.setup, self.objects = name, contracts, setup, list(objects)
        self.units = units if units is not None else [c for c in contracts if not c.assumed and c.verify]
        self.types = types


class Lemma:
    """a statement about specification functions; parts(P) -> [(label, hypotheses, goal)] (base case, induction step, ...)"""

    def __init__(self, name, parts):
        self.name, self.parts = name, parts


_P = {}


def load(only=None):
    paths, errs = extract_all.extract()
    P = Prog()
    for p in paths:
        P.load(p)
    return P, errs


def jobs_of(P, groups):
    js = []
    missing = []
    for gi, g in enumerate(groups):
        for li, l in enumerate(g.lemmas):
            js.append((gi, ('lemma', li), 'lemma ' + l.name, None, None))
        for ci, c in enumerate(g.units):
            ds = verify.unit_decls(P, c)
            if not ds:
                missing.append((c.name, 'no function %s in the current sources' % c.qn))
            for name, d, t in ds:
                js.append((gi, ci, name, d['usr'], t.name if t is not None else None))
    return js, missing


class UnitTimeout(Exception):
    pass


def _alarm(*a):
    raise UnitTimeout()


def run_job(job):
    gi, ci, name, usr, tn = job
    P, groups, limit = _P['prog'], _P['groups'], _P['limit']
    g = groups[gi]
    if isinstance(ci, tuple):
        return run_lemma(P, g.lemmas[ci[1]], name)
    c = g.units[ci]
    ty = Types(P)
    ty.objects |= set(g.objects)
    if g.types:
        g.types(ty)
    import ex
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = verify.verify_unit(P, ty, g.contracts, c, g.setup, P.functions[usr], P.types[tn] if tn else None, name)
        signal.alarm(0)
    except UnitTimeout:
        return dict(name=name, status='timeout', reason='unit time limit %ds' % limit, obls=[], secs=time.time() - t0, where=None,
                    models=[], inlined=[], assumed=[], called=[], paths=0, qn=c.qn)
    except BaseException as e:   # noqa
        signal.alarm(0)
        return dict(name=name, status='error', reason=traceback.format_exc()[-2000:], obls=[], secs=time.time() - t0, where=None,
                    models=[], inlined=[], assumed=[], called=[], paths=0, qn=c.qn)
    return dict(name=name, status=r.status, reason=r.reason, qn=c.qn,
                obls=[(o.label, o.verdict, o.backend, o.info, o.secs, o.line, list(o.trace)) for o in r.obls],
                secs=r.secs, where=r.where, models=sorted(r.models_used), inlined=sorted(r.inlined),
                assumed=sorted(r.assumed_used), called=sorted(r.called), paths=r.paths)


def run_lemma(P, l, name):
    t0 = time.time()
    out = dict(name=name, status='ok', reason=None, obls=[], secs=0, where='contracts', models=[], inlined=[], assumed=[], called=[], paths=1, qn=name)
    try:
        for label, hyps, goal in l.parts(P):
            if solve.prove(list(hyps), z3.BoolVal(False), [])[0] == 'proved':
                out.update(status='error', reason='vacuous: contradictory hypotheses in ' + label)
            verdict, be, info, secs = solve.prove(list(hyps), goal, [])
            out['obls'].append((label, verdict, be, info, secs, None, []))
    except Exception:   # noqa
        out.update(status='error', reason=traceback.format_exc()[-1500:])
    out['secs'] = time.time() - t0
    return out


def _child(job, conn):
    r = run_job(job)
    conn.send(r)
    conn.close()
    os._exit(0)


def schedule(js, limit, procs):
    """one process per unit; a unit that does not answer in time is killed and left undecided"""
    ctx = mp.get_context('fork')
    todo, running, out = list(js), [], []
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or running:
        while todo and len(running) < procs:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j, b), daemon=True)
            p.start()
            b.close()
            running.append((j, p, a, time.time()))
        mp.connection.wait([r[2] for r in running], timeout=1.0)
        still = []
        for j, p, a, t in running:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dead(j, 'error', 'the verifier process ended without an answer')
            elif time.time() - t > limit + 15:
                r = dead(j, 'timeout', 'killed after %ds' % (limit + 15))
            if r is None:
                still.append((j, p, a, t))
                continue
            out.append(r)
            a.close()
            if p.is_alive():
                p.kill() if r['status'] == 'timeout' else p.join(5)
            p.join(5)
            if p.is_alive():
                p.kill()
        running = still
    return out


def dead(job, status, why):
    return dict(name=job[2], status=status, reason=why, obls=[], secs=0, where=None, models=[], inlined=[], assumed=[], called=[], paths=0, qn=job[2])


def run_groups(P, groups, limit=240, filt=None, procs=8, only=None):
    js, missing = jobs_of(P, groups)
    if filt:
        js = [j for j in js if filt in j[2]]
    if only is not None:
        js = [j for j in js if j[2] in only]
        missing = []
    _P.update(prog=P, groups=groups, limit=limit)
    rs = schedule(js, limit, procs)
    for n, why in missing:
        if not filt or filt in n:
            rs.append(dict(name=n, status='missing', reason=why, obls=[], secs=0, where=None, models=[], inlined=[], assumed=[], called=[], paths=0, qn=n))
    rs.sort(key=lambda r: r['name'])
    return rs


def dev(modname, filt=None):
    m = importlib.import_module(modname)
    P, errs = load()
    for u, e in errs.items():
        print('EXTRACT ERROR', u, e[-300:])
    t0 = time.time()
    rs = run_groups(P, m.groups(P), limit=int(os.environ.get('LIMIT', '240')), filt=filt)
    tot = ok = 0
    for r in rs:
        n = len(r['obls'])
        p = sum(1 for o in r['obls'] if o[1] == 'proved')
        tot += n
        ok += p
        flag = 'ok ' if r['status'] == 'ok' and n == p and n > 0 else 'BAD'
        print('%s %-70s %3d/%3d paths=%d %.1fs %s %s' % (flag, r['name'][-70:], p, n, r['paths'], r['secs'], r['status'],
                                                        (r['reason'] or '')[-1500:]))
        for o in r['obls']:
            if o[1] != 'proved':
                print('      %s: %s (line %s, %s, %.1fs) path=%s' % (o[1], o[0], o[5], o[2], o[4], o[6][-6:]))
                if os.environ.get('INFO'):
                    print('        ' + (o[3] or '').replace('\n', '\n        ')[:int(os.environ['INFO'])])
    print('%d/%d obligations, %.1fs' % (ok, tot, time.time() - t0))
