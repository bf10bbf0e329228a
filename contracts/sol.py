"""Meaning of constraints, groups and features in terms of variables: the vocabulary of C14 to C17.

Everything is stated for one arbitrary assignment (VB, VI) of the variables."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, CLASS, class_id
from ex import named_goal as ng
import ct
import fm
from ct import CT
from z3m import VB, VI, E, IsB, Bv, Iv, IsV, Nm, AS, VER
import z3m

NS = 'vara::feature::'
SN = 'vara::solver::'
ZS, ZV = SN + 'Z3Solver', SN + 'Z3SolverConstraintVisitor'
OM, SO, CM = ZS + '::OptionToVariableMapping', ZS + '::Solver', ZS + '::CurrentModel'
ZE, VC, MX, VS = ZV + '::Z3ConstraintExpression', ZV + '::VariableConstraint', ZV + '::MixedConstraint', ZV + '::S'
FK = NS + 'Feature::Kind'
OBJECTS = ct.OBJECTS + [ZS, ZV, SN + 'Solver', NS + 'ConstraintVisitor']

B_, N_, S_ = z3.BoolSort(), z3.IntSort(), z3.StringSort()
NUMK = z3.Function('is_numeric', S_, B_)          # a name designates a numeric feature
SRT = z3.Function('sort_of', CT, B_, N_)          # 1 truth value, 2 number, 0 ill-formed; second argument: binary features count as numbers
SB = z3.Function('truth', CT, B_, B_)
SI = z3.Function('number', CT, B_, N_)
OFF = z3.Function('some_off', CT, B_)             # a binary feature of the expression is not selected


def setup(ex):
    ct.setup(ex)
    z3m.sorts(ex)
    ex.track_class = True
    ex.heap_sorts['*z3::expr'] = E


def sem(ex, t, m):
    """one unfolding of the meaning of t"""
    k = ct.K(ex.prog)
    kd, l, r = CT.bkind(t), CT.bl(t), CT.br(t)
    a, b = SB(l, m), SB(r, m)
    x, y = SI(l, m), SI(r, m)
    bb = z3.And(SRT(l, m) == 1, SRT(r, m) == 1)
    ii = z3.And(SRT(l, m) == 2, SRT(r, m) == 2)
    BOOL = {'CK_AND': z3.And(a, b), 'CK_OR': z3.Or(a, b), 'CK_XOR': a != b, 'CK_IMPLIES': z3.Implies(a, b), 'CK_EXCLUDES': z3.Not(z3.And(a, b)), 'CK_EQUIVALENCE': a == b}
    REL = {'CK_LESS': x < y, 'CK_LESS_EQUAL': x <= y, 'CK_GREATER': x > y, 'CK_GREATER_EQUAL': x >= y}
    EQ = {'CK_EQUAL': z3.If(ii, x == y, a == b), 'CK_NOT_EQUAL': z3.If(ii, x != y, a != b)}
    ARI = {'CK_ADDITION': x + y, 'CK_SUBTRACTION': x - y, 'CK_MULTIPLICATION': x * y, 'CK_DIVISION': x / y}
    srt, tb, ti = I(0), FALSE, I(0)
    for n, f in BOOL.items():
        srt, tb = z3.If(kd == k(n), z3.If(bb, I(1), I(0)), srt), z3.If(kd == k(n), f, tb)
    for n, f in REL.items():
        srt, tb = z3.If(kd == k(n), z3.If(ii, I(1), I(0)), srt), z3.If(kd == k(n), f, tb)
    for n, f in EQ.items():
        srt, tb = z3.If(kd == k(n), z3.If(z3.Or(bb, ii), I(1), I(0)), srt), z3.If(kd == k(n), f, tb)
    for n, f in ARI.items():
        srt, ti = z3.If(kd == k(n), z3.If(ii, I(2), I(0)), srt), z3.If(kd == k(n), f, ti)
    c, uk = CT.uc(t), CT.ukind(t)
    usrt = z3.If(z3.And(uk == k('CK_NOT'), SRT(c, m) == 1), I(1), z3.If(z3.And(uk == k('CK_NEG'), SRT(c, m) == 2), I(2), I(0)))
    nm = CT.fname(t)
    fs = z3.If(NUMK(nm), I(2), z3.If(m, I(2), I(1)))
    fi = z3.If(NUMK(nm), VI(nm), z3.If(VB(nm), I(1), I(0)))
    return [SRT(t, m) == z3.If(CT.is_bin(t), srt, z3.If(CT.is_un(t), usrt, z3.If(CT.is_int(t), I(2), fs))),
            SB(t, m) == z3.If(CT.is_bin(t), tb, z3.If(CT.is_un(t), z3.Not(SB(c, m)), VB(nm))),
            SI(t, m) == z3.If(CT.is_bin(t), ti, z3.If(CT.is_un(t), -SI(c, m), z3.If(CT.is_int(t), CT.ival(t), fi))),
            OFF(t) == z3.If(CT.is_bin(t), z3.Or(OFF(l), OFF(r)), z3.If(CT.is_un(t), OFF(c), z3.And(CT.is_feat(t), z3.Not(NUMK(nm)), z3.Not(VB(nm)))))]


def fkind(ex, n):
    for nm, v in ex.prog.enums[NS + 'Feature::FeatureKind']:
        if nm == n:
            return I(v)
    raise Unsupported('no feature kind ' + n)


def leafkinds(c):
    """names designate numeric features consistently"""
    ex = c.ex
    con = c.g0('con')
    r = z3.Int('r!lk')
    _, f = ct.feat_of(ex, sel(c.heap0(ct.FV), r))
    k = ct.K(ex.prog)
    return z3.ForAll([r], z3.Implies(z3.And(sel(con, r), sel(c.heap0(ct.CK), r) == k('CK_FEATURE')),
                                     NUMK(sel(c.heap0(ct.FN), f)) == (sel(c.heap0(FK), f) == fkind(ex, 'FK_NUMERIC'))),
                     patterns=[z3.MultiPattern(z3.Select(con, r), z3.Select(c.heap0(ct.CK), r))])


def means(e, t, m):
    """expression e is the translation of t"""
    return z3.And(IsB(e) == (SRT(t, m) == 1), z3.Implies(SRT(t, m) == 1, Bv(e) == SB(t, m)), z3.Implies(SRT(t, m) == 2, Iv(e) == SI(t, m)))


def visiting(c, vis, node, node_h):
    """the visitor turns the tree at node into the expression that means the same"""
    t = sel(c.g0('view'), node)
    m = sel(c.heap0(MX), vis)
    return t, m


def vis_contract(qn, vis, node, **kw):
    """vis, node: functions of the context giving visitor and constraint"""
    def req(c):
        v, n = vis(c), node(c)
        t, m = sel(c.g0('view'), n), sel(c.heap0(MX), v)
        for f in sem(c.ex, t, m):
            c.st0.assume(f)
        return [ct.wf(c), sel(c.g0('con'), n), leafkinds(c), v > 0, v < c.st0.next, z3.Or(SRT(t, m) == 1, SRT(t, m) == 2),
                IsB(sel(c.heap0(VC), v)), sel(c.heap0(VS), v) > 0]

    def ens(c):
        v, n = vis(c), node(c)
        t, m = sel(c.g0('view'), n), sel(c.heap0(MX), v)
        vc0, vc1 = sel(c.heap0(VC), v), sel(c.heap(VC), v)
        return [c.ret, ng('the expression means the constraint', means(sel(c.heap(ZE), v), t, m)),
                IsB(vc1), ng('which binary features are off', Bv(vc1) == z3.If(m, z3.Or(Bv(vc0), OFF(t)), Bv(vc0)))]
    return Contract(qn, requires=req, ensures=ens, modifies=lambda c: {ZE: (lambda r: r == vis(c)), VC: (lambda r: r == vis(c))}, **kw)


def by_param(n):
    return lambda f: any(n in (p.s if p is not None else '') for p in f['pt'])


NODES = {'BinaryConstraint': ct.BIN, 'UnaryConstraint': ct.UN, 'PrimaryFeatureConstraint': ['PrimaryFeatureConstraint'], 'PrimaryIntegerConstraint': ['PrimaryIntegerConstraint']}


def translation():
    """contracts of the constraint visitor of the solver"""
    size = lambda n, w: (lambda c: 2 * sel(c.g0('size'), n(c)) + w)
    acc = vis_contract(ct.BASE + '::accept', lambda c: c.ref(0), lambda c: c.this, virtual=True, this_inv=ct.class_kind, decreases=size(lambda c: c.this, 1))
    call, own = [], []
    for n, cls in NODES.items():
        def kinds(c, cls=cls):
            kd = sel(c.heap0(ct.CK), c.ref(0))
            return z3.Or(*[kd == ct.K(c.ex.prog)(ct.KINDS[x]) for x in cls])
        base = vis_contract(NS + 'ConstraintVisitor::visit', lambda c: c.this, lambda c: c.ref(0), pred=by_param(n), assumed=True, decreases=size(lambda c: c.ref(0), 0),
                            name=NS + 'ConstraintVisitor::visit(%s) dispatched to the solver' % n)
        mine = vis_contract(ZV + '::visit', lambda c: c.this, lambda c: c.ref(0), pred=by_param(n), decreases=size(lambda c: c.ref(0), 0), name=ZV + '::visit(%s)' % n)
        for k in (base, mine):
            k.requires = (lambda c, q=k.requires, kinds=kinds: q(c) + [kinds(c)])
        call.append(base)
        own.append(mine)
    return acc, call, own


def sref(c, solver, post=False):
    return sel((c.heap if post else c.heap0)(SO), solver)


def asserted(c, solver, f):
    """exactly f is added to what the solver asserts"""
    r = sref(c, solver)
    return [ng('asserts exactly what was meant', sel(c.g(AS), r) == z3.And(sel(c.g0(AS), r), f))]


def live(c, solver):
    return [solver > 0, solver < c.st0.next, sref(c, solver) > 0]


def meaning(c, t, m):
    for f in sem(c.ex, t, m):
        c.st0.assume(f)


def adding():
    """the solver's entry points for constraints"""
    def vreq(c):
        v, n = c.this, c.ref(0)
        t, m = sel(c.g0('view'), n), sel(c.heap0(MX), v)
        meaning(c, t, m)
        return [ct.wf(c), sel(c.g0('con'), n), leafkinds(c), v > 0, v < c.st0.next, SRT(t, m) == 1, IsB(sel(c.heap0(VC), v))] + live(c, sel(c.heap0(VS), v))

    def vens(c):
        v, n = c.this, c.ref(0)
        t, m = sel(c.g0('view'), n), sel(c.heap0(MX), v)
        off = z3.Or(Bv(sel(c.heap0(VC), v)), OFF(t))
        f = z3.If(c.arg(1), z3.Not(SB(t, m)), SB(t, m))
        return [c.ret] + asserted(c, sel(c.heap0(VS), v), z3.If(z3.And(m, c.arg(2)), z3.Or(off, f), f))
    slot = lambda c, s: {k: (lambda r: r == sref(c, s)) for k in (AS, VER)}
    vis = lambda c: {ZE: (lambda r: r == c.this), VC: (lambda r: r == c.this), **slot(c, sel(c.heap0(VS), c.this))}
    add = Contract(ZV + '::addConstraint', requires=vreq, ensures=vens, modifies=vis)

    def sreq(m):
        def req(c):
            t = sel(c.g0('view'), c.ref(0))
            meaning(c, t, m)
            return [ct.wf(c), sel(c.g0('con'), c.ref(0)), leafkinds(c), SRT(t, m) == 1] + live(c, c.this)
        return req
    new = lambda c: {ZE: (lambda r: FALSE), VC: (lambda r: FALSE), MX: (lambda r: FALSE), VS: (lambda r: FALSE), **slot(c, c.this)}
    okr = lambda c: [fm.resok(c)[0]]
    plain = Contract(ZS + '::addConstraint', requires=sreq(FALSE), modifies=new, ensures=lambda c: okr(c) + asserted(c, c.this, SB(sel(c.g0('view'), c.ref(0)), FALSE)))

    def mixed(c):
        t = sel(c.g0('view'), c.ref(0))
        e = dict(c.ex.prog.enums[NS + 'FeatureModel::MixedConstraint::ExprKind'])
        q = dict(c.ex.prog.enums[NS + 'FeatureModel::MixedConstraint::Req'])
        f = z3.If(c.arg(1) == I(e['NEG']), z3.Not(SB(t, TRUE)), SB(t, TRUE))
        return z3.If(c.arg(2) == I(q['ALL']), z3.Or(OFF(t), f), f)
    mix = Contract(ZS + '::addMixedConstraint', requires=sreq(TRUE), modifies=new, ensures=lambda c: okr(c) + asserted(c, c.this, mixed(c)))
    return add, plain, mix
