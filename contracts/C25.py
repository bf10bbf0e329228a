"""C25: the solver built for a feature model admits exactly the selections the model allows."""
from sol import *
from solf import *
from runner import Group
import C07
import C12
from C12 import Iter, exhausted, all_
from C15 import under
from fm import View, RMEM, IDX, vec_axioms

x, i = z3.Ints('x!c25 i!c25')
_s = z3.String('n!sf')
FMQ = NS + 'FeatureModel'
BC, NC, MXC = FMQ + '::BooleanConstraints', FMQ + '::NonBooleanConstraints', FMQ + '::MixedConstraints'
FC = FMQ + '::FeatureModelConstraint::C'
MR, ME = FMQ + '::MixedConstraint::R', FMQ + '::MixedConstraint::E'
As = z3.ArraySort(z3.IntSort(), z3.StringSort())
SMEM = z3.Function('in_names', As, z3.IntSort(), z3.IntSort(), z3.StringSort(), z3.BoolSort())
SIDX = z3.Function('idx_names', As, z3.IntSort(), z3.IntSort(), z3.StringSort(), z3.IntSort())
OBJECTS = OBJECTS + [FMQ + '::FeatureModelConstraint'] + [o for o in fm.OBJECTS if o not in OBJECTS]


def setup25(ex):
    setup(ex)
    C12.setup(ex)
    ex.heap_sorts['*z3::solver'] = ex.ty.sort(ex.prog.types['z3::solver'])


def name_axioms():
    a, l, h, s, k = z3.Const('a!c25', As), z3.Int('l!c25'), z3.Int('h!c25'), z3.String('s!c25'), z3.Int('k!c25')
    return [z3.ForAll([a, l, h, s, k], z3.Implies(z3.And(l <= k, k < h, sel(a, k) == s), SMEM(a, l, h, s)), patterns=[z3.MultiPattern(SMEM(a, l, h, s), z3.Select(a, k))]),
            z3.ForAll([a, l, h, s], z3.Implies(SMEM(a, l, h, s), z3.And(l <= SIDX(a, l, h, s), SIDX(a, l, h, s) < h, sel(a, SIDX(a, l, h, s)) == s)), patterns=[SMEM(a, l, h, s)])]


def mview(c):
    return View(c.ex, c.st0, c.ref(0))


def grouped(v, e):
    return z3.And(v.par(e) != 0, v.isr(v.par(e)))


def vec(c, k):
    v = c.ex.ty.dec(c.ex.field_type(k), z3.simplify(sel(c.heap0(k), c.ref(0))))
    return Vec(v.et, named(c.ex, v.arr), v.lo, v.hi)


def tree(c, e):
    """the expression of constraint e of the model"""
    return sel(c.g0('view'), sel(c.heap0(FC), e))


def mixed_means(c, e):
    t = tree(c, e)
    E_ = dict(c.ex.prog.enums[FMQ + '::MixedConstraint::ExprKind'])
    Q = dict(c.ex.prog.enums[FMQ + '::MixedConstraint::Req'])
    f = z3.If(sel(c.heap0(ME), e) == I(E_['NEG']), z3.Not(SB(t, TRUE)), SB(t, TRUE))
    return z3.If(sel(c.heap0(MR), e) == I(Q['ALL']), z3.Or(OFF(t), f), f)


def cons_means(c, k, e):
    return mixed_means(c, e) if k == MXC else SB(tree(c, e), FALSE)


def all_cons(c, k, upto=None):
    v = vec(c, k)
    return z3.ForAll([i], z3.Implies(z3.And(i >= v.lo, i < (v.hi if upto is None else v.lo + upto)), cons_means(c, k, sel(v.arr, i))), patterns=[z3.Select(v.arr, i)])


def all_groups(c, upto=None):
    v = mview(c)
    return z3.ForAll([i], z3.Implies(z3.And(i >= v.rv.lo, i < (v.rv.hi if upto is None else v.rv.lo + upto)), GROUP(sel(v.rv.arr, i))), patterns=[z3.Select(v.rv.arr, i)])


def all_features(c):
    v = mview(c)
    return z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isf(x)), FITS(x, grouped(v, x))), patterns=[z3.Select(v.mem_a, x)])


def modelled(c):
    """what the solver takes for granted about the whole model"""
    v = mview(c)
    fk = named(c.ex, c.heap0(FK))
    root = dict(c.ex.prog.enums[NS + 'Feature::FeatureKind'])['FK_ROOT']
    feat = z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isf(x)), z3.And(*plausible(c, x, C12.above(v, x)), sel(fk, x) != fkind(c.ex, 'FK_UNKNOWN'))), patterns=[z3.Select(v.mem_a, x)])
    alt = dict(c.ex.prog.enums[NS + 'Relationship::RelationshipKind'])['RK_ALTERNATIVE']
    rk = named(c.ex, c.heap0(RK))
    grp = z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isr(x)), z3.And(z3.Or(sel(rk, x) == I(alt), sel(rk, x) == I(1 - alt)), z3.Implies(sel(rk, x) == I(alt), z3.Exists([_c], v.edge(x, _c))))), patterns=[z3.Select(v.mem_a, x)])
    cons = []
    for k in (BC, NC, MXC):
        w = vec(c, k)
        e = sel(w.arr, i)
        n = sel(c.heap0(FC), e)
        cons += [w.lo <= w.hi, z3.ForAll([i], z3.Implies(z3.And(i >= w.lo, i < w.hi), z3.And(e > 0, e < c.st0.next, n > 0, sel(c.g0('con'), n), SRT(tree(c, e), TRUE if k == MXC else FALSE) == 1)), patterns=[z3.Select(w.arr, i)])]
    return [C12.GM == c.ref(0)] + C12.wf(v) + [ct.wf(c), leafkinds(c), ng('features are of a known kind, binary ones below ones that can be selected', feat), ng('alternative groups have members', grp)] + cons


_c = z3.Int('c!c25')


def slv(c):
    a = c.arg(1)
    return a.ref if hasattr(a, 'ref') else a


class At:
    """solver contracts look at `this`"""

    def __init__(self, c, s):
        self.__dict__['c'] = c
        self.__dict__['this'] = s

    def __getattr__(self, n):
        return getattr(self.c, n)


def based(k, name):
    """a contract of Z3Solver seen through the base class"""
    q = Contract(SN + 'Solver::' + name, requires=k.requires, ensures=k.ensures, modifies=k.modifies, pred=k.pred, axioms=k.axioms, assumed=True, name='%s::%s dispatched to Z3Solver' % (SN + 'Solver', k.name.split('::')[-1]))
    return q


def apply_model(fea):
    isv = lambda t: t.k == 'record' and t.qn == 'std::vector'

    def inv(L):
        ex = L.ex
        v = mview(L)
        s = slv(L)
        r = sref(L, s)
        now, ent = sel(L.g(AS), r), sel(ex.garr(L.st_entry, AS), r)
        names = L.vt(isv)
        nm = Vec(names.et, named(ex, names.arr), names.lo, names.hi)
        silent = ex.garr(L.st1, AS) is ex.garr(L.st_entry, AS) or z3.eq(ex.garr(L.st1, AS), ex.garr(L.st_entry, AS))
        has = lambda w, n: SMEM(w.arr, w.lo, w.hi, n)
        only = all_([i], z3.Implies(z3.And(i >= nm.lo, i < nm.hi), z3.And(sel(v.dom, sel(nm.arr, i)), grouped(v, sel(v.map, sel(nm.arr, i))))), z3.Select(nm.arr, i))
        kind = getattr(L, 'kind', None)
        if kind == 'set':
            done = named(ex, L.done)
            old = L.vt(isv, True)
            old = Vec(old.et, named(ex, old.arr), old.lo, old.hi)
            return [nm.lo <= nm.hi, only, z3.ForAll([_s], z3.Implies(has(old, _s), has(nm, _s)), patterns=[has(old, _s)]),
                    z3.ForAll([x], z3.Implies(sel(done, x), has(nm, sel(v.NM, x))), patterns=[z3.Select(done, x)])]
        k = z3.Int('k!c25')
        told = lambda n: z3.ForAll([k, x], z3.Implies(z3.And(k >= v.rv.lo, k < v.rv.lo + n, v.edge(sel(v.rv.arr, k), x)), has(nm, sel(v.NM, x))),
                                   patterns=[z3.MultiPattern(z3.Select(v.rv.arr, k), z3.Select(z3.Select(v.ED, sel(v.rv.arr, k)), x))])
        if kind == 'index' and silent:
            return [nm.lo <= nm.hi, only, told(L.idx)]
        if kind == 'index':
            for k in (BC, NC, MXC):
                if z3.eq(vec(L, k).arr, named(ex, L.seq.arr)):
                    return [now == z3.And(ent, all_cons(L, k, L.idx)), rep(ex, L.st1, s)]
            return [now == z3.And(ent, all_groups(L, L.idx)), rep(ex, L.st1, s)]
        b, e = (Iter(ex, L.v(n)) for n in [next(n for n in ex.varnames.values() if n.startswith(p) and any(ex.varnames.get(k) == n for k in L.st1.frame.env)) for p in ('__begin', '__end')])
        dom, _ = omap(ex, L.st1, s)
        fits_ = z3.ForAll([x], z3.Implies(b.visited(x), FITS(x, grouped(v, x))), patterns=[z3.Select(b.seen, x)])
        flag = [ng('only members of groups are listed', z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isf(x), has(nm, sel(v.NM, x))), grouped(v, x)), patterns=[z3.Select(v.mem_a, x)])),
                ng('members of groups are listed', z3.ForAll([x], z3.Implies(z3.And(v.mem(x), v.isf(x), grouped(v, x)), has(nm, sel(v.NM, x))), patterns=[z3.Select(v.mem_a, x)]))]
        end = z3.Implies(b.done, z3.ForAll([_s], z3.Implies(sel(v.dom, _s), b.visited(sel(v.map, _s))), patterns=[z3.Select(v.dom, _s)]))
        return [nm.lo <= nm.hi] + flag + b.inv(v) + [exhausted(v, b), end, e.done, ng('exactly visited features are known', z3.ForAll([_s], sel(dom, _s) == z3.And(sel(v.dom, _s), b.visited(sel(v.map, _s))), patterns=[z3.Select(dom, _s)])),
                           rep(ex, L.st1, s), ng('what visited features ask for is asserted', z3.Implies(now, z3.And(ent, fits_))), ng('nothing else is asserted', z3.Implies(z3.And(ent, fits_), now))]

    def req(c):
        s = slv(c)
        a = At(c, s)
        dom, _ = omap(c.ex, c.st0, s)
        return live(c, s) + [rep(c.ex, c.st0, s), z3.ForAll([_s], z3.Not(sel(dom, _s)), patterns=[z3.Select(dom, _s)])] + modelled(c)

    def ens(c):
        s = slv(c)
        v = mview(c)
        r = sref(c, s)
        dom, _ = omap(c.ex, c.st1, s)
        return [c.ret.ref == s, ng('exactly the features of the model are known', z3.ForAll([_s], sel(dom, _s) == sel(v.dom, _s), patterns=[z3.Select(dom, _s)])), rep(c.ex, c.st1, s),
                ng('exactly the selections the model allows are left', sel(c.g(AS), r) == z3.And(sel(c.g0(AS), r), all_features(c), all_groups(c), *[all_cons(c, k) for k in (BC, NC, MXC)]))]

    def mod(c):
        s = slv(c)
        m = {OM: (lambda r: r == s), AS: (lambda r: r == sref(c, s)), z3m.VER: (lambda r: r == sref(c, s)), BX: (lambda r: FALSE)}
        for k in (ZE, VC, MX, VS):
            m[k] = lambda r: FALSE
        return m
    return Contract(SN + 'SolverFactory::applyModelOnSolver', requires=req, ensures=ens, modifies=mod, loops=[Loop(inv, fn='*', match=lambda s: True)], axioms=vec_axioms() + name_axioms() + C24.pf_axioms(fea))


def empty(c, s):
    """solver s knows nothing and asserts nothing"""
    dom, _ = omap(c.ex, c.st1, s)
    return [s > 0, s >= c.st0.next, s < c.st1.next, sref(c, s, True) >= c.st0.next, sref(c, s, True) < c.st1.next, ng('no feature is known', z3.ForAll([_s], z3.Not(sel(dom, _s)), patterns=[z3.Select(dom, _s)])),
            ng('nothing is asserted', sel(c.g(AS), sref(c, s, True))), ng('no configuration has been asked for', z3.Not(c.ex.ty.dec(c.ex.field_type(CM), sel(c.heap(CM), s)).has))]


MADE = (OM, SO, CM, AS, z3m.VER, ZS + '::Context', '*z3::solver')


def creation(app):
    new = lambda c: {k: (lambda r: FALSE) for k in MADE}
    create = Contract(ZS + '::create', ensures=lambda c: empty(c, c.ret.ref), modifies=new)
    make = Contract(SN + 'SolverFactory::initializeZ3Solver', ensures=lambda c: empty(c, c.ret.ref), modifies=new)

    def ens(c):
        s = c.ret.ref
        v = mview(c)
        dom, _ = omap(c.ex, c.st1, s)
        return [s > 0, ng('exactly the features of the model are known', z3.ForAll([_s], sel(dom, _s) == sel(v.dom, _s), patterns=[z3.Select(dom, _s)])),
                ng('exactly the selections the model allows are left', sel(c.g(AS), sref(c, s, True)) == z3.And(all_features(c), all_groups(c), *[all_cons(c, k) for k in (BC, NC, MXC)]))]

    def mod(c):
        return {k: (lambda r: FALSE) for k in MADE + (BX, ZE, VC, MX, VS)}
    z3t = lambda c: dict(c.ex.prog.enums[SN + 'SolverType'])['Z3']
    init = Contract(SN + 'SolverFactory::initializeSolver', pred=lambda f: len(f['pt']) == 2, requires=lambda c: [c.arg(1) == I(z3t(c))] + modelled(c), ensures=ens, modifies=mod, axioms=app.axioms)
    return create, make, init


def with_lemma(inc):
    def ens(c):
        v = C12.view(c)
        return inc.ensures(c) + [exhausted(v, C12.it(c, True))]
    return Contract(inc.qn, name=inc.name + ' (with the lemma on its end)', pred=inc.pred, requires=inc.requires, ensures=ens, modifies_args=inc.modifies_args, axioms=inc.axioms, assumed=True)


def groups(P):
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    first, post, b, e, fs = C12.others(fea)
    inc = C12.contracts()[0]
    add, plain, mix = sol.adding()
    feature, rel = any_feature(), relationship()
    app = apply_model(fea)
    called = [based(feature, 'addFeature'), based(rel, 'addRelationship'), based(plain, 'addConstraint'), based(mix, 'addMixedConstraint')]
    create, make, init = creation(app)
    return [Group('model', [app] + called + first + [with_lemma(inc), fs], units=[app], setup=setup25, objects=OBJECTS),
            Group('creation', [create, make, init, app], units=[create, make, init], setup=setup25, objects=OBJECTS)]


HARNESS = 'c25'
ASSUMPTIONS = ['the Z3 C++ API acts as its contracts say; its configuration options do not change which selections are admitted',
               'calls through the base class Solver reach Z3Solver, whose functions are proved against the same contracts (C14, C16, C17)',
               'an iterator at its end has visited every feature (lemma proved in C12 from the invariant every step keeps)',
               'what holds for one arbitrary assignment of the variables (proved) holds for every one',
               'the number of steps of a numeric range is finite (they ascend up to the bound)']
BOUNDED = 'whole feature models against a brute-force enumeration, up to 8 features (not counted as proved)'
