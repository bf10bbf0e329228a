"""C19: what writing a feature model as XML hands to the XML library."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
from runner import Group, Lemma
import ct
import fm
from fm import *
from C12 import Iter
import models
import C22
import C24
import C12
import C07
import C25
import sol

W = NS + 'FeatureModelXmlWriter'
FSR = NS + 'FeatureSourceRange'
S_ = z3.StringSort()
S = z3.StringVal
# what a writer has been given so far
LogS = z3.DeclareSort('Log')
OPEN = z3.Function('open_element', LogS, S_, LogS)
CLOSE = z3.Function('close_element', LogS, LogS)
ATTR = z3.Function('attribute', LogS, S_, S_, LogS)
ELEM = z3.Function('element', LogS, S_, S_, LogS)
TEXT = z3.Function('text', LogS, S_, LogS)
BEGIN = z3.Function('begin_document', LogS, S_, S_, LogS)
DTD = z3.Function('doctype', LogS, S_, S_, LogS)
FIN = z3.Function('end_document', LogS, LogS)
LOG = 'xml log'
OBJECTS = ct.OBJECTS + [o for o in fm.OBJECTS if o not in ct.OBJECTS] + [NS + 'FeatureModel::FeatureModelConstraint', W]


def setup(ex):
    fm.ghosts(ex)
    ct.setup(ex)
    ex.ghost_sorts[LOG] = LogS
    models.OPAQUE_DEC[:] = [1]


def C25_setup(ex):
    setup(ex)
    C12.setup(ex)


def log0(c):
    return sel(c.g0(LOG), c.ref(0))


def log1(c):
    return sel(c.g(LOG), c.ref(0))


def only(c):
    return {LOG: (lambda r: r == c.ref(0))}


def api():
    def A(n, f):
        return Contract(n, ensures=lambda c: [z3.Implies(c.ret >= 0, log1(c) == f(c, log0(c)))], modifies=only, assumed=True)
    st = lambda c: []
    s = lambda c, i: text(c, i)
    return [A('xmlTextWriterSetIndent', lambda c, l: l), A('xmlTextWriterSetIndentString', lambda c, l: l),
            A('xmlTextWriterStartDocument', lambda c, l: BEGIN(l, s(c, 1), s(c, 2))), A('xmlTextWriterWriteDTD', lambda c, l: DTD(l, s(c, 1), s(c, 3))),
            A('xmlTextWriterStartElement', lambda c, l: OPEN(l, s(c, 1))), A('xmlTextWriterEndElement', lambda c, l: CLOSE(l)),
            A('xmlTextWriterWriteAttribute', lambda c, l: ATTR(l, s(c, 1), s(c, 2))), A('xmlTextWriterWriteElement', lambda c, l: ELEM(l, s(c, 1), s(c, 2))),
            A('xmlTextWriterWriteString', lambda c, l: TEXT(l, s(c, 1))), A('xmlTextWriterEndDocument', lambda c, l: FIN(l))]


def text(c, i):
    v = c.arg(i)
    if isinstance(v, z3.SeqRef):
        return v
    raise Unsupported('argument %d is %s, not text' % (i, type(v).__name__))


def const(n):
    return S(n)


def f_(v, n):
    return next(x for k, x in v.fields.items() if k.split('::')[-1] == n)


def category(ex, n):
    return I(dict(ex.prog.enums[FSR + '::Category'])[n])


def src(ex, l, v):
    """the location v written"""
    cat = f_(v, 'CategoryKind')
    l = OPEN(l, S('sourceRange'))
    l = ATTR(l, S('category'), z3.If(cat == category(ex, 'necessary'), S('necessary'), S('inessential')))
    r = f_(v, 'RevisionRange')
    m = ELEM(OPEN(l, S('revisionRange')), S('introduced'), f_(r.val, 'Introduced'))
    d = f_(r.val, 'Removed')
    l = z3.If(r.has, CLOSE(z3.If(d.has, ELEM(m, S('removed'), d.val), m)), l)
    l = ELEM(l, S('path'), f_(v, 'Path'))
    for n, e in (('Start', 'start'), ('End', 'end')):
        w = f_(v, n).val
        l = CLOSE(ELEM(ELEM(OPEN(l, S(e)), S('line'), models.dec(f_(w, 'Line'))), S('column'), models.dec(f_(w, 'Column'))))
    o = f_(v, 'MemberOffset')
    k, mem = C22.parts(o.val)
    l = z3.If(o.has, ELEM(l, S('memberOffset'), OFFTEXT(k.arr, k.lo, k.hi, mem)), l)
    return CLOSE(l)


# text of a member offset: classes and member
OFFTEXT = z3.Function('member_offset_text', z3.ArraySort(z3.IntSort(), S_), N_, N_, S_, S_)


def offset_text():
    def ens(c):
        k, m = C22.parts(c.thisval())
        return [c.ret == OFFTEXT(k.arr, k.lo, k.hi, m)]
    return Contract(C22.MO + '::toString', ensures=ens, assumed=True)


def writes(name, f, requires=lambda c: [], **kw):
    return Contract(W + '::' + name, requires=lambda c: [c.ref(0) > 0, c.ref(0) < c.st0.next] + requires(c), modifies=only,
                    ensures=lambda c: [ng('what is written', z3.Implies(c.ret >= 0, log1(c) == f(c, log0(c))))], **kw)


def range_writer():
    def req(c):
        v = c.arg(1)
        cat = f_(v, 'CategoryKind')
        return [f_(v, 'Start').has, f_(v, 'End').has, z3.Or(cat == category(c.ex, 'necessary'), cat == category(c.ex, 'inessential'))]
    return writes('writeSourceRange', lambda c, l: src(c.ex, l, c.arg(1)), req)


# ---------------------------------------------------------------- features
OFV = NS + 'deprecated::OrderedFeatureVector'
FIM, FEX, FLO, FOS, FOP, FVA, FKI = (NS + x for x in ('Feature::Implications', 'Feature::Excludes', 'Feature::Locations', 'Feature::OutputString', 'Feature::Opt', 'NumericFeature::Values', 'Feature::Kind'))
# features below f, in order; other members of the group of f, in order (values and number)
KIDA, KIDN = z3.Function('features_below', N_, Ar), z3.Function('number_below', N_, N_)
SIBA, SIBN = z3.Function('group_members', N_, Ar), z3.Function('number_group_members', N_, N_)
# an ordered vector after the insertion of a feature
INSERTED = z3.Function('inserted', Ar, N_, N_, Ar)
EMPTY = z3.Const('nothing inserted', Ar)


def OINS(a, n, g):
    return INSERTED(z3.If(n == 0, EMPTY, a), n, g)


# implied and excluded features of f after its first k constraints
IMA, IMN = z3.Function('implied', N_, N_, Ar), z3.Function('number_implied', N_, N_, N_)
EXA, EXN = z3.Function('excluded', N_, N_, Ar), z3.Function('number_excluded', N_, N_, N_)
# a log after an option element for each of the first k features of a vector
OPTS = z3.Function('options', LogS, Ar, N_, N_, LogS)
# a log after the first k locations of feature f; the first k values of f, each followed by ';'
LOCS = z3.Function('locations', LogS, N_, N_, LogS)
VALS = z3.Function('values', N_, N_, S_)
k_, x = z3.Ints('k!c19 x!c19')


def below(v, f, e):
    return z3.And(v.mem(e), v.isf(e), z3.Or(v.par(e) == f, z3.And(v.par(e) != 0, v.isr(v.par(e)), v.par(v.par(e)) == f)))


def beside(v, f, e):
    p = v.par(f)
    return z3.And(v.mem(e), v.isf(e), e != f, p != 0, v.isr(p), v.par(e) == p)


# the log with feature f added (its definition: feature_log); can feature f be written
FLOG = z3.Function('feature_written', LogS, N_, LogS)
WRITABLE = z3.Function('writable', N_, z3.BoolSort())


def ordered():
    """ordered vectors (C13): what is put in determines what is there"""
    fv = lambda c, post=False: f_(c.thisval(post), 'Features')

    def setarg(c, i):
        a = c.arg(i)
        if isinstance(a, PPtr):
            a = c.ex.load(c.st0, a.lv)
        if not isinstance(a, It):
            raise Unsupported('ordered vector from %s' % type(a).__name__)
        s = c.ex.load(c.st0, a.lv)
        if not isinstance(s, SetV):
            raise Unsupported('ordered vector from %s' % type(s).__name__)
        return named(c.ex, s.arr)

    def filled(c, w):
        v, f, s = C12.view(c), c.ex.unit_args[1].base, setarg(c, 0)
        same = lambda g: z3.ForAll([x], sel(s, x) == g(v, f, x), patterns=[z3.Select(s, x)])
        return [z3.Implies(same(below), z3.And(w.arr == KIDA(f), w.hi == KIDN(f))), z3.Implies(same(beside), z3.And(w.arr == SIBA(f), w.hi == SIBN(f))), w.lo == 0, w.hi >= 0,
                z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < w.hi), sel(s, sel(w.arr, x))), patterns=[z3.Select(w.arr, x)])]
    ctor = Contract(OFV + '::OrderedFeatureVector', name=OFV + ' from a range', pred=lambda f: len(f['pt']) == 2, modifies_args=('this',), ensures=lambda c: filled(c, fv(c, True)), assumed=True)
    rng = Contract(OFV + '::insert', name=OFV + '::insert of a range', pred=lambda f: len(f['pt']) == 2, requires=lambda c: [fv(c).hi == 0, fv(c).lo == 0], modifies_args=('this',), ensures=lambda c: filled(c, fv(c, True)), assumed=True)
    ref = lambda v: v.ref if hasattr(v, 'ref') else v

    def held(c, v, w, g):
        a, b = named(c.ex, v.arr), named(c.ex, w.arr)
        return [z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < w.hi), z3.Or(sel(b, x) == g, RMEM(a, I(0), v.hi, sel(b, x)))), patterns=[z3.Select(b, x)])]
    one = Contract(OFV + '::insert', name=OFV + '::insert of a feature', pred=lambda f: len(f['pt']) == 1 and f['pt'][0].k == 'ptr', modifies_args=('this',),
                   ensures=lambda c: [fv(c, True).arr == OINS(fv(c).arr, fv(c).hi, ref(c.arg(0))), fv(c, True).hi == fv(c).hi + 1, fv(c, True).lo == fv(c).lo] + held(c, fv(c), fv(c, True), ref(c.arg(0))), assumed=True)
    return [ctor, rng, one]


def vecf(ex, st, k, f):
    v = ex.ty.dec(ex.field_type(k), z3.simplify(sel(ex.harr(st, k), f)))
    return Vec(v.et, named(ex, v.arr), v.lo, v.hi)


def target(ex, st, con, f):
    """(does constraint con relate feature f to a feature, that feature)"""
    kk = ct.K(ex.prog)('CK_FEATURE')
    l, r = sel(ex.harr(st, ct.BL), con), sel(ex.harr(st, ct.BR), con)
    kd = ex.harr(st, ct.CK)
    fl, fr = (ct.feat_of(ex, sel(ex.harr(st, ct.FV), o))[1] for o in (l, r))
    nm = ex.harr(st, NM)
    return z3.And(sel(kd, l) == kk, sel(kd, r) == kk, fl != 0, sel(nm, fl) == sel(nm, f), fr != 0), fr


def steps(ex, st, f, k):
    """definition of the features implied and excluded after one more constraint"""
    im, exs = vecf(ex, st, FIM, f), vecf(ex, st, FEX, f)
    hit, g = target(ex, st, sel(im.arr, im.lo + k), f)
    a, n = IMA(f, k), IMN(f, k)
    out = [IMA(f, k + 1) == z3.If(hit, OINS(a, n, g), a), IMN(f, k + 1) == z3.If(hit, n + 1, n)]
    hit, g = target(ex, st, sel(exs.arr, exs.lo + k), f)
    a, n = EXA(f, k), EXN(f, k)
    hit = z3.And(hit, z3.Not(RMEM(a, I(0), n, g)))
    return out + [EXA(f, k + 1) == z3.If(hit, OINS(a, n, g), a), EXN(f, k + 1) == z3.If(hit, n + 1, n)]


def define(ex, gs):
    ex.axioms.extend(g for g in gs if not any(g.eq(h) for h in ex.axioms))


def listed(l, tag, a, n):
    return z3.If(n == 0, l, CLOSE(OPTS(OPEN(l, S(tag)), a, I(0), n)))


def numbers(ex, st, f):
    """the values of a numeric feature"""
    t = ex.field_type(FVA)
    return ex.ty.dec(t, z3.simplify(sel(ex.harr(st, FVA), f)))


def feature_log(ex, st, l, f, v):
    H = lambda k: sel(ex.harr(st, k), f)
    nm = lambda e: sel(ex.harr(st, NM), e)
    l = ELEM(OPEN(l, S('configurationOption')), S('name'), H(NM))
    l = z3.If(H(FOS) != S(''), ELEM(l, S('outputString'), H(FOS)), l)
    p = C24.PF(v.PA, v.K, f)
    l = z3.If(p != 0, ELEM(l, S('parent'), nm(p)), l)
    l = listed(l, 'children', KIDA(f), KIDN(f))
    im, exs = vecf(ex, st, FIM, f), vecf(ex, st, FEX, f)
    l = listed(l, 'impliedOptions', IMA(f, im.size()), IMN(f, im.size()))
    l = listed(l, 'excludedOptions', EXA(f, exs.size()), EXN(f, exs.size()))
    l = ELEM(l, S('optional'), z3.If(H(FOP), S('True'), S('False')))
    w = numbers(ex, st, f)
    lo, vs = w.vals
    mn, mx = lo.vals
    n = vs.size()
    last = models.dec(sel(vs.arr, vs.hi - 1))
    num = z3.If(w.idx == 0, ELEM(ELEM(l, S('minValue'), models.dec(mn)), S('maxValue'), models.dec(mx)), ELEM(l, S('values'), z3.Concat(VALS(f, n - 1), last)))
    l = z3.If(H(FKI) == sol.fkind(ex, 'FK_NUMERIC'), num, l)
    ls = vecf(ex, st, FLO, f)
    l = z3.If(ls.size() == 0, l, CLOSE(LOCS(OPEN(l, S('locations')), f, ls.size())))
    return CLOSE(l)


def folds(ex, st, f):
    l, a, n, t, o = z3.Const('l!c19', LogS), z3.Const('a!c19', Ar), z3.Int('n!c19'), z3.String('t!c19'), z3.String('o!c19')
    nm = named(ex, ex.harr(st, NM))
    step = lambda L, i: z3.ForAll([l, a, n, k_, o, t], z3.Implies(z3.And(o == S('options'), t == sel(nm, sel(a, n + k_)), k_ >= 0), L == OPTS(l, a, n, k_ + 1)), patterns=[L])
    return [z3.ForAll([l, a, n], OPTS(l, a, n, 0) == l, patterns=[OPTS(l, a, n, 0)]), step(ELEM(OPTS(l, a, n, k_), o, t), 1),
            IMN(f, 0) == 0, EXN(f, 0) == z3.If(z3.And(sel(ex.harr(st, PA), f) != 0, sel(ex.harr(st, NK), sel(ex.harr(st, PA), f)) == REL(ex)), SIBN(f), I(0)), EXA(f, 0) == z3.If(EXN(f, 0) == 0, EXA(f, 0), SIBA(f)), VALS(f, 0) == S(''),
            z3.ForAll([l], LOCS(l, f, 0) == l, patterns=[LOCS(l, f, 0)])]


def feature_writer():
    def req(c):
        ex, st, f = c.ex, c.st0, c.ref(1)
        v = C12.view(c)
        out = C12.wf(v) + [v.mem(f), v.isf(f), f > 0, f < st.next, WRITABLE(f)]
        if getattr(ex.unit_contract, 'name', None) != W + '::writeFeature':
            return out
        define(ex, folds(ex, st, f) + [WRITABLE(f) == z3.And(*writable(c, f))])
        return out

    def writable(c, f):
        ex, st = c.ex, c.st0
        out = []
        for k in (FIM, FEX):
            w = vecf(ex, st, k, f)
            e = sel(w.arr, k_)
            l, r = sel(ex.harr(st, ct.BL), e), sel(ex.harr(st, ct.BR), e)
            out += [w.lo == 0, w.hi >= 0, z3.ForAll([k_], z3.Implies(z3.And(k_ >= w.lo, k_ < w.hi), z3.And(e > 0, e < st.next, l > 0, r > 0, l < st.next, r < st.next)), patterns=[z3.Select(w.arr, k_)])]
        w = numbers(ex, st, f)
        ls = vecf(ex, st, FLO, f)
        d = lambda i: ex.ty.dec(ls.et, sel(ls.arr, i))
        cat = f_(d(k_), 'CategoryKind')
        out += [w.vals[1].lo == 0, w.vals[1].hi >= 1, ls.lo == 0, ls.hi >= 0, ng('locations have a start and an end', z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < ls.hi), z3.And(f_(d(k_), 'Start').has, f_(d(k_), 'End').has, z3.Or(cat == category(ex, 'necessary'), cat == category(ex, 'inessential')))), patterns=[z3.Select(ls.arr, k_)]))]
        return out

    def inv(L):
        ex, st = L.ex, L.st1
        f = L.ref(1)
        w = lambda q: sel(L.ex.garr(q, LOG), L.ref(0))
        l, l0 = w(st), w(L.st_entry)
        if getattr(L, 'kind', None) is None:
            b, e = (L.v(n) for n in [next(n for n in ex.varnames.values() if n.startswith(p) and any(ex.varnames.get(k) == n for k in L.st1.frame.env)) for p in ('__begin', '__end')])
            a = ex.load(st, b.lv)
            return [b.pos >= 0, b.pos <= a.size(), l == OPTS(l0, a.arr, a.lo, b.pos)]
        i = L.idx
        n = L.seq.size()
        if isinstance(ex.ty.dec(L.seq.et, sel(L.seq.arr, L.seq.lo)), z3.ArithRef):
            t = [(ex.load(st, lv), ex.load(L.st_entry, lv)) for lv in L.st_entry.frame.env.values() if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and isinstance(ex.load(st, lv), z3.SeqRef)]
            if len(t) != 1:
                raise Unsupported('values are collected in %d strings' % len(t))
            vs = numbers(ex, L.st0, f).vals[1]
            d = models.dec(sel(vs.arr, vs.lo + i))
            define(ex, [VALS(f, i + 1) == z3.Concat(VALS(f, i), d, S(';'))])
            return [t[0][0] == VALS(f, i)]
        if L.seq.et.k == 'ptr':
            ofv = [(f_(ex.load(st, lv), 'Features'), f_(ex.load(L.st_entry, lv), 'Features')) for lv in L.st_entry.frame.env.values() if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and lv.t.k == 'record' and lv.t.qn == OFV]
            o = ofv[-1][0]
            define(ex, steps(ex, L.st0, f, i))
            A, NN = {'ImpliesConstraint': (IMA, IMN), 'ExcludesConstraint': (EXA, EXN)}[(getattr(L.seq.et.to, 'qn', None) or L.seq.et.to.to.qn).split('::')[-1]]
            oa = named(ex, o.arr)
            return [z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < o.hi), sel(oa, x) > 0), patterns=[z3.Select(oa, x)]), z3.Implies(NN(f, i) > 0, o.arr == A(f, i)), o.hi == NN(f, i), o.lo == 0, NN(f, i) >= 0]
        ls = vecf(ex, L.st0, FLO, f)
        d = ex.ty.dec(ls.et, sel(ls.arr, ls.lo + i))
        define(ex, [LOCS(w(L.st_entry), f, i + 1) == src(ex, LOCS(w(L.st_entry), f, i), d)])
        return [l == LOCS(l0, f, i)]
    def log(c, l):
        f = c.ref(1)
        if getattr(c.ex.unit_contract, 'name', None) == W + '::writeFeature':
            define(c.ex, [FLOG(l, f) == feature_log(c.ex, c.st0, l, f, C12.view(c))])
        return FLOG(l, f)
    return writes('writeFeature', log, req, axioms=vec_axioms(), merge=True, loops=[Loop(inv, fn='*', match=lambda s: True)])


# ---------------------------------------------------------------- constraints
FMQ = NS + 'FeatureModel'
WFM = W + '::FM'
CTEXT = z3.Function('constraint_text', N_, S_)
LISTS = {C25.BC: 'booleanConstraints', C25.NC: 'nonBooleanConstraints', C25.MXC: 'mixedConstraints'}
# a log after the first k constraints of a list
CONS = {k: z3.Function('written_' + n, LogS, N_, LogS) for k, n in LISTS.items()}


def model_of(c):
    return sel(c.heap0(WFM), c.this)


def cvec(c, k):
    return vecf(c.ex, c.st0, k, model_of(c))


def constraint_log(c, k, l, i):
    """one more constraint of a list written"""
    ex, st = c.ex, c.st0
    H = lambda key, r: sel(ex.harr(st, key), r)
    w = cvec(c, k)
    e = sel(w.arr, w.lo + i)
    con = H(C25.FC, e)
    m = OPEN(l, S('constraint'))
    if k == C25.MXC:
        q = lambda t, n: I(dict(ex.prog.enums[FMQ + '::MixedConstraint::' + t])[n])
        m = ATTR(m, S('req'), z3.If(H(C25.MR, e) == q('Req', 'ALL'), S('all'), S('none')))
        m = ATTR(m, S('exprKind'), z3.If(H(C25.ME, e) == q('ExprKind', 'POS'), S('pos'), S('neg')))
    m = CLOSE(TEXT(m, CTEXT(con)))
    if k != C25.BC:
        return m
    kd = ct.K(ex.prog)
    a, b = H(ct.BL, con), H(ct.BR, con)
    f = lambda o: z3.And(o != 0, H(ct.CK, o) == kd('CK_FEATURE'))
    return z3.If(z3.And(z3.Or(H(ct.CK, con) == kd('CK_IMPLIES'), H(ct.CK, con) == kd('CK_EXCLUDES')), f(a), f(b)), l, m)


def list_log(c, k, l):
    return CLOSE(CONS[k](OPEN(l, S(LISTS[k])), cvec(c, k).size()))


def to_string():
    return Contract(ct.BASE + '::toString', requires=lambda c: [c.this > 0], ensures=lambda c: [c.ret == CTEXT(c.this)], assumed=True)


def lists_ok(c, k):
    ex, st = c.ex, c.st0
    w = cvec(c, k)
    e = sel(w.arr, k_)
    con = sel(ex.harr(st, C25.FC), e)
    kd = sel(ex.harr(st, ct.CK), con)
    a, b = (sel(ex.harr(st, key), con) for key in (ct.BL, ct.BR))
    more = []
    if k == C25.MXC:
        q = lambda t: [I(v) for _, v in ex.prog.enums[FMQ + '::MixedConstraint::' + t]]
        more = [z3.Or(*[sel(ex.harr(st, key), e) == v for v in q(t)]) for key, t in ((C25.MR, 'Req'), (C25.ME, 'ExprKind'))]
    return [w.lo == 0, w.hi >= 0, z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < w.hi), z3.And(e > 0, e < st.next, con > 0, con < st.next, a >= 0, b >= 0, *more)), patterns=[z3.Select(w.arr, k_)])]


def live(c):
    m = model_of(c)
    return [c.this > 0, m > 0, m < c.st0.next, m == C12.GM]


def list_writer(k):
    def inv(L):
        w = lambda q: sel(L.ex.garr(q, LOG), L.ref(0))
        l, l0 = w(L.st1), w(L.st_entry)
        if getattr(L, 'kind', None) != 'index':
            return [l == l0]
        i = L.idx
        define(L.ex, [CONS[k](l0, 0) == l0, CONS[k](l0, i + 1) == constraint_log(L, k, CONS[k](l0, i), i)])
        return [l == CONS[k](l0, i)]
    n = LISTS[k]
    return writes('write' + n[0].upper() + n[1:], lambda c, l: list_log(c, k, l), lambda c: live(c) + lists_ok(c, k), loops=[Loop(inv, fn='*', match=lambda s: True)])


# ---------------------------------------------------------------- the features of a model
SetS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
# a log after the features of a set have been visited, in the order of iteration (which is determined by how many there are)
FEATS = {k: z3.Function('written_' + k, LogS, SetS, LogS) for k in ('binaryOptions', 'numericOptions')}
ALL = z3.Const('the features of the model', SetS)


def feature_step(c, k, l, s, t):
    """(visited set, log) after feature t, from visited set s"""
    kd = sel(c.heap0(FKI), t)
    hit = kd == sol.fkind(c.ex, 'FK_NUMERIC') if k == 'numericOptions' else z3.Or(kd == sol.fkind(c.ex, 'FK_ROOT'), kd == sol.fkind(c.ex, 'FK_BINARY'))
    m = FEATS[k](l, s)
    return z3.Store(s, t, TRUE), z3.If(hit, FLOG(m, t), m)


def features_log(k, l):
    return CLOSE(FEATS[k](OPEN(l, S(k)), ALL))


def whole(c):
    v = View(c.ex, c.st0, model_of(c))
    return live(c) + C12.wf(v) + [ng('every feature can be written', z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isf(x)), WRITABLE(x)), patterns=[z3.Select(v.mem_a, x)]))]


def feature_lister(k, fea):
    def inv(L):
        ex = L.ex
        v = View(ex, L.st0, model_of(L))
        w = lambda q: sel(ex.garr(q, LOG), L.ref(0))
        l, l0 = w(L.st1), w(L.st_entry)
        b, e = (Iter(ex, L.v(n)) for n in [next(n for n in ex.varnames.values() if n.startswith(p) and any(ex.varnames.get(q) == n for q in L.st1.frame.env)) for p in ('__begin', '__end')])
        s, m = feature_step(L, k, l0, b.seen, b.top)
        none = z3.ForAll([x], z3.Not(sel(b.seen, x)), patterns=[z3.Select(b.seen, x)])
        define(ex, [z3.Implies(z3.Not(b.done), FEATS[k](l0, s) == m), z3.Implies(none, FEATS[k](l0, b.seen) == l0),
                    z3.ForAll([x], sel(ALL, x) == z3.And(v.mem(x), v.isf(x)), patterns=[z3.Select(ALL, x), z3.Select(v.mem_a, x)])])
        end = z3.Implies(b.done, z3.ForAll([x], sel(b.seen, x) == sel(ALL, x), patterns=[z3.Select(b.seen, x), z3.Select(ALL, x)]))
        return b.inv(v) + [C25.exhausted(v, b), end, e.done, ng('what is written of the visited features', l == FEATS[k](l0, b.seen)), ng('at the end everything has been written', z3.Implies(b.done, l == FEATS[k](l0, ALL)))]
    n = {'binaryOptions': 'writeBinaryFeatures', 'numericOptions': 'writeNumericFeatures'}[k]
    return writes(n, lambda c, l: features_log(k, l), whole, loops=[Loop(inv, fn='*', match=lambda s: True)], axioms=vec_axioms() + C24.pf_axioms(fea))


def vm_log(c, l):
    m = model_of(c)
    H = lambda n: sel(c.heap0(FMQ + '::' + n), m)
    l = ATTR(ATTR(OPEN(l, S('vm')), S('name'), H('Name')), S('root'), H('Path'))
    l = z3.If(H('Commit') != S(''), ATTR(l, S('commit'), H('Commit')), l)
    l = features_log('numericOptions', features_log('binaryOptions', l))
    for k in LISTS:
        l = z3.If(cvec(c, k).size() > 0, list_log(c, k, l), l)
    return FIN(l)


def vm_writer():
    return writes('writeVm', vm_log, lambda c: whole(c) + [g for k in LISTS for g in lists_ok(c, k)], merge=True)


def model_writer():
    return writes('writeFeatureModel', lambda c, l: vm_log(c, DTD(BEGIN(l, S('1.0'), S('UTF-8')), S('vm'), S('vm.dtd'))), lambda c: whole(c) + [g for k in LISTS for g in lists_ok(c, k)], pred=lambda f: len(f['pt']) == 1 and f['pt'][0].k == 'ptr')


def groups(P):
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    kids = [c for c in C07.children_contracts() if c.name.endswith('getChildren<Feature>')]
    gp = [c for c in C24.contracts(P) if c.qn.endswith('getParentFeature')]
    fw = feature_writer()
    sr = range_writer()
    cw = [list_writer(k) for k in LISTS]
    ls = [feature_lister(k, fea) for k in FEATS]
    first, post, b, e, fs = C12.others(fea)
    it = first + [C25.with_lemma(C12.contracts()[0]), fs]
    top = [vm_writer(), model_writer()]
    return [Group('lists of features', api() + it + [fw] + ls, units=ls, setup=C25_setup, objects=OBJECTS),
            Group('model', api() + ls + cw + top, units=top, setup=setup, objects=OBJECTS),
            Group('constraints', api() + [to_string()] + cw, units=cw, setup=setup, objects=OBJECTS),
            Group('locations', api() + [sr, offset_text()], units=[sr], setup=setup, objects=fm.OBJECTS),
            Group('features', api() + ordered() + kids + gp + [sr, fw], units=[fw], setup=setup, objects=OBJECTS)]


HARNESS = 'c19'
SECONDS = 10
ASSUMPTIONS = ['the libxml2 text writer appends to the document what each call is given, escapes it, and returns a negative number if it fails; its indentation adds white space only',
               'ordered vectors (C13) hold what has been inserted, in an order determined by what and when; only features that were put in are found in them',
               'iterating the features of a model visits each once, parents first, and is deterministic (C12); the text of a constraint is that of C02, of a member offset that of C22',
               'texts contain no NUL characters']
BOUNDED = 'documents written for random models of up to 8 features (strings and files), parsed with libxml2 and compared (not counted as proved)'
