"""C22: source locations are totally ordered, source ranges compare by their parts, member offsets keep their text."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa
from runner import Group
import models

FSR = 'vara::feature::FeatureSourceRange'
LOC, MO, RR = FSR + '::FeatureSourceLocation', FSR + '::FeatureMemberOffset', FSR + '::FeatureRevisionRange'
S = z3.StringVal
SEP = S('::')
JOINED = models.JOINED


def pos(v):
    f = {k.split('::')[-1]: x for k, x in v.fields.items()}
    return f['Line'], f['Column']


def loc_text(v):
    l, c = pos(v)
    return z3.Concat(models.dec(l), S(':'), models.dec(c))


def parts(v):
    f = {k.split('::')[-1]: x for k, x in v.fields.items()}
    return f['Class'], f['Member']


def cls_text(v):
    return JOINED(v.arr, v.lo, v.hi, SEP)


def off_text(v):
    k, m = parts(v)
    return z3.Concat(cls_text(k), SEP, m)


def seq_eq(a, b):
    i = z3.Int('i!se')
    return z3.And(a.size() == b.size(), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.size()),
                                                               z3.Select(a.arr, a.lo + i) == z3.Select(b.arr, b.lo + i))))


def vec_ok(v):
    return z3.And(v.hi >= v.lo, v.hi - v.lo < (1 << 62))


def groups(P):
    lt = lambda a, b: z3.Or(pos(a)[0] < pos(b)[0], z3.And(pos(a)[0] == pos(b)[0], pos(a)[1] < pos(b)[1]))
    loc = [
        Contract(LOC + '::FeatureSourceLocation', pred=lambda f: f.get('ctor') == 'other', modifies_args=('this',),
                 ensures=lambda c: [pos(c.thisval(True))[0] == c.arg(0), pos(c.thisval(True))[1] == c.arg(1)]),
        Contract(LOC + '::operator==', ensures=lambda c: [c.ret == z3.And(pos(c.thisval())[0] == pos(c.arg(0))[0], pos(c.thisval())[1] == pos(c.arg(0))[1])]),
        Contract(LOC + '::operator<', ensures=lambda c: [c.ret == lt(c.thisval(), c.arg(0))]),
        Contract(LOC + '::operator>', ensures=lambda c: [c.ret == lt(c.arg(0), c.thisval())]),
        Contract(LOC + '::toString', ensures=lambda c: [c.ret == loc_text(c.thisval())]),
        Contract(LOC + '::getLineNumber', ensures=lambda c: [c.ret == pos(c.thisval())[0]]),
        Contract(LOC + '::getColumnOffset', ensures=lambda c: [c.ret == pos(c.thisval())[1]]),
        Contract(LOC + '::setLineNumber', modifies_args=('this',),
                 ensures=lambda c: [pos(c.thisval(True))[0] == c.arg(0), pos(c.thisval(True))[1] == pos(c.thisval())[1]]),
        Contract(LOC + '::setColumnOffset', modifies_args=('this',),
                 ensures=lambda c: [pos(c.thisval(True))[1] == c.arg(0), pos(c.thisval(True))[0] == pos(c.thisval())[0]]),
    ]
    ax = models.join_axioms()

    def after(c, s):
        """text after the last '::' ('' if there is none)"""
        i = models.LASTIDX(s, SEP)
        return z3.If(z3.Contains(s, SEP), z3.SubString(s, i + 2, z3.Length(s) - i - 2), S(''))

    def created(c):
        s = c.arg(0)
        ok = z3.Length(after(c, s)) > 0
        k, m = parts(c.ret.val)
        i = z3.Int('i!cr')
        facts = [m == after(c, s), off_text(c.ret.val) == s, vec_ok(k),
                 z3.ForAll([i], z3.Implies(z3.And(i >= k.lo, i < k.hi), z3.Not(z3.Contains(z3.Select(k.arr, i), SEP))), patterns=[z3.Select(k.arr, i)]),
                 z3.Not(z3.Contains(m, SEP))]
        return [c.ret.has == ok] + [z3.Implies(ok, g) for g in facts]

    cinv = lambda L: [L.vt(lambda t: t.k == 'builtin' and t.b == 'int') >= 1, L.vt(lambda t: t.k == 'builtin' and t.b == 'int') <= parts(L.thisval())[0].size(),
                      L.vt(lambda t: t.k == 'record' and 'stringstream' in t.qn) == JOINED(parts(L.thisval())[0].arr, parts(L.thisval())[0].lo,
                                              parts(L.thisval())[0].lo + L.vt(lambda t: t.k == 'builtin' and t.b == 'int'), SEP)]

    def classname(c):
        k, _ = parts(c.thisval())
        a = c.arg(0)
        return [z3.Implies(z3.Not(a.has), c.ret == cls_text(k)),
                z3.Implies(a.has, c.ret == z3.Select(k.arr, k.hi - 1 - a.val))]

    wf = lambda c: [vec_ok(parts(c.thisval())[0])]
    off = [
        Contract(MO + '::isMemberOffsetFormat', ensures=lambda c: [c.ret == (z3.Length(after(c, c.arg(0))) > 0)]),
        Contract(MO + '::createFeatureMemberOffset', axioms=ax, ensures=created),
        Contract(MO + '::className', axioms=ax, loops=[Loop(cinv)],
                 requires=lambda c: wf(c) + [z3.Implies(c.arg(0).has, z3.And(c.arg(0).val >= 0, c.arg(0).val < parts(c.thisval())[0].size()))],
                 ensures=classname),
        Contract(MO + '::nestingDepth', requires=wf, ensures=lambda c: [c.ret == parts(c.thisval())[0].size()]),
        Contract(MO + '::memberName', ensures=lambda c: [c.ret == parts(c.thisval())[1]]),
        Contract(MO + '::toString', requires=wf, ensures=lambda c: [c.ret == off_text(c.thisval())]),
    ]

    def oeq(c):
        (k0, m0), (k1, m1) = parts(c.thisval()), parts(c.arg(0))
        return z3.And(m0 == m1, seq_eq(k0, k1))
    owf = lambda c: wf(c) + [vec_ok(parts(c.arg(0))[0])]
    off += [Contract(MO + '::operator==', requires=owf, ensures=lambda c: [c.ret == oeq(c)]),
            Contract(MO + '::operator!=', requires=owf, ensures=lambda c: [c.ret == z3.Not(oeq(c))])]
    fld = lambda v, n: next(x for k, x in v.fields.items() if k.split('::')[-1] == n)
    rev = [
        Contract(RR + '::FeatureRevisionRange', pred=lambda f: f.get('ctor') == 'other', modifies_args=('this',),
                 ensures=lambda c: [fld(c.thisval(True), 'Introduced') == c.arg(0),
                                    fld(c.thisval(True), 'Removed').has == (TRUE if len(c.args_v) == 2 else FALSE)] +
                 ([fld(c.thisval(True), 'Removed').val == c.arg(1)] if len(c.args_v) == 2 else [])),
        Contract(RR + '::introducingCommit', ensures=lambda c: [c.ret == fld(c.thisval(), 'Introduced')]),
        Contract(RR + '::hasRemovingCommit', ensures=lambda c: [c.ret == fld(c.thisval(), 'Removed').has]),
        Contract(RR + '::removingCommit', ensures=lambda c: [c.ret == z3.If(fld(c.thisval(), 'Removed').has, fld(c.thisval(), 'Removed').val, S(''))]),
    ]
    names = ('Path', 'Start', 'End', 'CategoryKind', 'MemberOffset', 'RevisionRange')
    e = lambda c, n, v: c.ex.ty.enc(c.ex.field_type(FSR + '::' + n), v)

    def built(c):
        out = []
        for i, n in enumerate(names):
            a = c.arg(i)
            if n in ('Start', 'End') and not isinstance(a, Opt):
                a = Opt(None, TRUE, a)
                g = fld(c.thisval(True), n)
                out += [g.has == TRUE, pos(g.val)[0] == pos(a.val)[0], pos(g.val)[1] == pos(a.val)[1]]
            else:
                out.append(e(c, n, fld(c.thisval(True), n)) == e(c, n, a))
        return out

    def opteq(a, b, f):
        return z3.And(a.has == b.has, z3.Implies(a.has, f(a.val, b.val)))

    def req(c):
        a, b = c.thisval(), c.arg(0)
        peq = lambda x, y: z3.And(pos(x)[0] == pos(y)[0], pos(x)[1] == pos(y)[1])
        meq = lambda x, y: z3.And(parts(x)[1] == parts(y)[1], seq_eq(parts(x)[0], parts(y)[0]))
        return z3.And(fld(a, 'CategoryKind') == fld(b, 'CategoryKind'), fld(a, 'Path') == fld(b, 'Path'), opteq(fld(a, 'Start'), fld(b, 'Start'), peq),
                      opteq(fld(a, 'End'), fld(b, 'End'), peq), opteq(fld(a, 'MemberOffset'), fld(b, 'MemberOffset'), meq))

    def text(c):
        a = c.thisval()
        o = lambda n, pre, f: z3.If(fld(a, n).has, z3.Concat(S(pre), f(fld(a, n).val)), S(''))
        dash = z3.Concat(*[z3.StrFromCode(I(b)) for b in '–'.encode()]) if False else S('\u2013')
        return z3.Concat(fld(a, 'Path'), o('Start', ':', loc_text), z3.If(fld(a, 'End').has, z3.Concat(dash, loc_text(fld(a, 'End').val)), S('')),
                         o('MemberOffset', ' MemberOffset: ', off_text))
    rwf = lambda c: [z3.Implies(fld(c.thisval(), 'MemberOffset').has, vec_ok(parts(fld(c.thisval(), 'MemberOffset').val)[0]))]
    rwf2 = lambda c: rwf(c) + [z3.Implies(fld(c.arg(0), 'MemberOffset').has, vec_ok(parts(fld(c.arg(0), 'MemberOffset').val)[0]))]
    ran = [
        Contract(FSR + '::FeatureSourceRange', pred=lambda f: f.get('ctor') == 'other', modifies_args=('this',), ensures=built),
        Contract(FSR + '::operator==', requires=rwf2, ensures=lambda c: [c.ret == req(c)]),
        Contract(FSR + '::operator!=', requires=rwf2, ensures=lambda c: [c.ret == z3.Not(req(c))]),
        Contract(FSR + '::getCategory', ensures=lambda c: [c.ret == fld(c.thisval(), 'CategoryKind')]),
        Contract(FSR + '::getPath', ensures=lambda c: [c.ret == fld(c.thisval(), 'Path')]),
        Contract(FSR + '::hasStart', ensures=lambda c: [c.ret == fld(c.thisval(), 'Start').has]),
        Contract(FSR + '::hasEnd', ensures=lambda c: [c.ret == fld(c.thisval(), 'End').has]),
        Contract(FSR + '::hasMemberOffset', ensures=lambda c: [c.ret == fld(c.thisval(), 'MemberOffset').has]),
        Contract(FSR + '::hasRevisionRange', ensures=lambda c: [c.ret == fld(c.thisval(), 'RevisionRange').has]),
        Contract(FSR + '::toString', requires=rwf, ensures=lambda c: [c.ret == text(c)]),
    ]
    return [Group('location', loc), Group('offset', off), Group('revision', rev), Group('range', loc + off + ran, units=ran)]


HARNESS = 'c22'
SECONDS = 6
ASSUMPTIONS = ['paths compare equal exactly when their texts do (component-wise normalisation of repeated separators is not modelled)']
