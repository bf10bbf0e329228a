"""C23: a Result holds exactly one of a value and an error, tells which, and gives back what was put in."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa
from runner import Group

RES, OK, ERR = 'vara::Result', 'vara::Ok', 'vara::Error'


def of(cls, n=None):
    return cls.targs[n] if n is not None else cls.targs


def groups(P):
    def alt(c, v, i):
        """content of alternative i of the result value v, encoded"""
        w = c.sf(v, 'Variant')
        return enc(c, w.ts[i], w.vals[i])

    def enc(c, t, v):
        return c.ex.ty.enc(t, v)

    def which(v):
        return next(x for k, x in v.fields.items() if k.split('::')[-1] == 'Variant').idx

    def inner(c, v, i):
        """payload of alternative i (the V of Ok, the E of Error); None for Ok<void>"""
        w = c.sf(v, 'Variant').vals[i]
        if isinstance(w, Struct):
            if not w.fields:
                return None
            (k, x), = w.fields.items()
            return x
        return w

    def ctor(c):
        v = c.thisval(True)
        t = c.f['cls']
        pt = c.f['params'][0]['t'].deref()
        et, vt = t.targs[0], t.targs[1]
        a = c.arg(0)
        if pt.k == 'record' and pt.qn == OK:
            i = 0
            x = next(iter(a.fields.values())) if isinstance(a, Struct) and a.fields else None
        elif pt.k == 'record' and pt.qn == ERR:
            i, x = 1, (next(iter(a.fields.values())) if isinstance(a, Struct) else a)
        elif pt.name == et.name:
            i, x = 1, a
        else:
            i, x = 0, a
        out = [which(v) == I(i)]
        y = inner(c, v, i)
        if x is not None:
            ty = et if i else vt
            out.append(c.ex.ty.enc(ty, y) == c.ex.ty.enc(ty, x))
        return out
    own = lambda f: f.get('ctor') == 'other'
    mv = lambda f: f.get('ctor') in ('move', 'copy')

    def moved(c):
        t = c.f['cls']
        return [c.ex.ty.enc(t, c.thisval(True)) == c.ex.ty.enc(t, c.arg(0))]

    def value(c):
        return [c.ex.ty.enc(c.f['ret'], c.ret) == c.ex.ty.enc(c.f['ret'], inner(c, c.thisval(), 0))]

    def error(c):
        return [c.ex.ty.enc(c.f['ret'], c.ret) == c.ex.ty.enc(c.f['ret'], inner(c, c.thisval(), 1))]
    isok = lambda c: [which(c.thisval()) == I(0)]
    iser = lambda c: [which(c.thisval()) == I(1)]
    any_ = lambda c: [z3.Or(which(c.thisval()) == I(0), which(c.thisval()) == I(1))]
    cs = [
        Contract(RES + '::Result', pred=own, modifies_args=('this', 0), ensures=ctor),
        Contract(RES + '::Result', pred=mv, modifies_args=('this', 0), ensures=moved, name=RES + '::Result(move)'),
        Contract(RES + '::operator bool', ensures=lambda c: [c.ret == (which(c.thisval()) == I(0))]),
        Contract(RES + '::operator*', requires=isok, modifies_args=('this',), ensures=value),
        Contract(RES + '::extractValue', requires=isok, modifies_args=('this',), ensures=value),
        Contract(RES + '::getError', requires=iser, modifies_args=('this',), ensures=error),
        Contract(RES + '::extractError', requires=iser, modifies_args=('this',), ensures=error),
    ]

    def payload(c, v):
        return next(iter(v.fields.values()))

    def eqp(c, t, a, b):
        return c.ex.ty.enc(t, a) == c.ex.ty.enc(t, b)
    void = lambda f: not f['cls'].targs or f['cls'].targs[0].s == 'void'
    for cls, get, ex in ((OK, 'operator*', 'extractValue'), (ERR, 'operator*', 'extractError')):
        n = cls.split('::')[-1]
        cs += [Contract(cls + '::' + n, pred=lambda f: own(f) and not void(f) and len(f['params']) == 1, modifies_args=('this', 0),
                        ensures=lambda c: [eqp(c, c.f['cls'].targs[0], payload(c, c.thisval(True)), c.arg(0))]),
               Contract(cls + '::' + n, pred=lambda f: mv(f) and not void(f), modifies_args=('this', 0), ensures=moved, name=cls + '::%s(move)' % n),
               Contract(cls + '::' + get, modifies_args=('this',), ensures=lambda c: [eqp(c, c.f['ret'], c.ret, payload(c, c.thisval()))]),
               Contract(cls + '::' + ex, modifies_args=('this',), ensures=lambda c: [eqp(c, c.f['ret'], c.ret, payload(c, c.thisval()))]),
               Contract(cls + '::operator bool', ensures=lambda c, n=n: [c.ret == (TRUE if n == 'Ok' else FALSE)])]
    return [Group('result', cs)]


HARNESS = 'c23'
SECONDS = 6
ASSUMPTIONS = ['printing of results and errors (friend operator<<) is not under contract; the harness checks it']
