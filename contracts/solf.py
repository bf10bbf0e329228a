"""Features and groups in the solver: the variables, what is asserted about them, and the errors (C16, C17)."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel
from ex import named_goal as ng
import fm
from fm import named
import sol
import z3m
from sol import NS, SN, ZS, OM, SO, CM, FK, OBJECTS, NUMK, VB, VI, E, IsB, Bv, Iv, IsV, Nm, AS, fkind, live, asserted, sref, setup
import C21

import C24

BX = '*z3::expr'
FN = fm.NM
OPT = NS + 'Feature::Opt'
RK = NS + 'Relationship::Kind'
NV = NS + 'NumericFeature::Values'
ST = NS + 'NumericFeature::Step'
OBJECTS = OBJECTS + [NS + 'StepFunction']
_s = z3.String('n!sf')


def omap(ex, st, s):
    """(domain, references) of the variables of solver s"""
    m = ex.ty.dec(ex.field_type(OM), z3.simplify(sel(ex.harr(st, OM), s)))
    return named(ex, m.dom), named(ex, m.arr)


def isvar(e, n):
    """e is the variable of the feature named n"""
    return z3.And(IsV(e), Nm(e) == n, IsB(e) == z3.Not(NUMK(n)), z3.Implies(IsB(e), Bv(e) == VB(n)), z3.Implies(z3.Not(IsB(e)), Iv(e) == VI(n)))


def rep(ex, st, s):
    """every known name is mapped to the variable of that name"""
    dom, arr = omap(ex, st, s)
    x = named(ex, ex.harr(st, BX))
    r = sel(arr, _s)
    return z3.ForAll([_s], z3.Implies(sel(dom, _s), z3.And(r > 0, r < st.next, isvar(sel(x, r), _s))), patterns=[z3.Select(dom, _s)])


def known(c, n, post=False):
    return sel(omap(c.ex, c.st1 if post else c.st0, c.this)[0], n)


def serr(c, n):
    for nm, v in c.ex.prog.enums[SN + 'SolverErrorCode']:
        if nm == n:
            return I(v)
    raise Unsupported('no error code ' + n)


def failed(c, n):
    ok, _, e = fm.resok(c)
    return z3.And(z3.Not(ok), e == serr(c, n))


def grown(c, n, when):
    """exactly the name n becomes known, if when"""
    ex = c.ex
    d0, a0 = omap(ex, c.st0, c.this)
    d1, a1 = omap(ex, c.st1, c.this)
    return [ng('exactly the given feature becomes known', z3.ForAll([_s], sel(d1, _s) == z3.Or(sel(d0, _s), z3.And(when, _s == n)), patterns=[z3.Select(d1, _s)])),
            ng('known names stand for their variables', rep(ex, c.st1, c.this))]


def base(c):
    return live(c, c.this) + [rep(c.ex, c.st0, c.this)]


def frames(*extra):
    def mod(c):
        m = {OM: (lambda r: r == c.this), BX: (lambda r: FALSE), AS: (lambda r: r == sref(c, c.this)), z3m.VER: (lambda r: r == sref(c, c.this))}
        for k in extra:
            m[k] = lambda r: FALSE
        return m
    return mod


def same(c):
    r = sref(c, c.this)
    return sel(c.g(AS), r) == sel(c.g0(AS), r)


def adds(c, f, when=TRUE):
    """what the solver asserts is extended by f (if when; else unchanged)"""
    r = sref(c, c.this)
    return ng('asserts exactly what was meant', sel(c.g(AS), r) == z3.And(sel(c.g0(AS), r), z3.Or(z3.Not(when), f)))


def values_of(v, lo=None):
    i = z3.Int('i!vo')
    return lambda x: z3.Exists([i], z3.And(i >= v.lo, i < v.hi, sel(v.arr, i) == x))


def named_features():
    """addFeature by name: a binary feature, or a number with its values"""
    plain = lambda f: len(f['pt']) == 1 and 'Feature' not in f['pt'][0].s
    listed = lambda f: len(f['pt']) == 2 and 'vector' in f['pt'][1].s
    k = lambda c: known(c, c.arg(0))
    b = Contract(ZS + '::addFeature', name=ZS + '::addFeature(name)', pred=plain, requires=lambda c: base(c) + [z3.Not(NUMK(c.arg(0)))], modifies=frames(),
                 ensures=lambda c: [z3.If(k(c), failed(c, 'ALREADY_PRESENT'), fm.resok(c)[0]), same(c)] + grown(c, c.arg(0), TRUE))

    def inv(L):
        v = L.arg(1)
        e = L.vt(lambda t: t.k == 'record' and t.qn == 'z3::expr' and not t.const)
        i = z3.Int('i!nl')
        return [IsB(e.term), Bv(e.term) == z3.Exists([i], z3.And(i >= v.lo, i < v.lo + L.idx, sel(v.arr, i) == VI(L.arg(0))))]
    n = Contract(ZS + '::addFeature', name=ZS + '::addFeature(name, values)', pred=listed,
                 requires=lambda c: base(c) + [NUMK(c.arg(0)), c.arg(1).lo <= c.arg(1).hi], modifies=frames(), loops=[Loop(inv)],
                 ensures=lambda c: [z3.If(k(c), failed(c, 'ALREADY_PRESENT'), fm.resok(c)[0]), adds(c, values_of(c.arg(1))(VI(c.arg(0))), z3.Not(k(c)))] + grown(c, c.arg(0), TRUE))
    return [b, n]


def fname(c, f, ):
    return sel(c.heap0(FN), f)


def fkd(c, f, n):
    return sel(c.heap0(FK), f) == fkind(c.ex, n)


def parent(c, f):
    """the nearest feature above f, 0 if there is none"""
    ex = c.ex
    return C24.PF(named(ex, ex.harr(c.st0, fm.PA)), named(ex, ex.harr(c.st0, fm.NK)), f)


def named_right(c, f):
    """numeric features are those with numeric variables"""
    return NUMK(fname(c, f)) == fkd(c, f, 'FK_NUMERIC')


def hangs(c, f, p):
    """a binary feature has a parent it can depend on"""
    return z3.And(p > 0, p < c.st0.next, z3.Not(NUMK(fname(c, p))))


def depends(c, f, p, grouped):
    """a selected feature needs its parent; a mandatory one comes with it"""
    x, y = VB(fname(c, f)), VB(fname(c, p))
    return z3.And(z3.Implies(x, y), z3.Or(grouped, sel(c.heap0(OPT), f), z3.Implies(y, x)))


def binary_constraints():
    f = lambda c: c.ref(0)
    p = lambda c: parent(c, c.ref(0))
    return Contract(ZS + '::setBinaryFeatureConstraints',
                    requires=lambda c: base(c) + [f(c) > 0, f(c) < c.st0.next, z3.Not(NUMK(fname(c, f(c)))), hangs(c, f(c), p(c)), known(c, fname(c, f(c))), known(c, fname(c, p(c)))],
                    modifies=frames(), ensures=lambda c: [fm.resok(c)[0], adds(c, depends(c, f(c), p(c), c.arg(1)))] + grown(c, z3.StringVal(''), FALSE))


# ------------------------------------------------------------------ any feature
SEQ = z3.Function('step_value', z3.IntSort(), z3.IntSort(), z3.IntSort())      # of a feature
N0 = z3.Function('number_of_steps', z3.IntSort(), z3.IntSort())
FITS = z3.Function('selection_fits', z3.IntSort(), z3.BoolSort(), z3.BoolSort())   # a feature, whether it is in a group


def nvalues(c, f):
    """how the values of numeric feature f are given"""
    return c.ex.ty.dec(c.ex.field_type(NV), sel(c.heap0(NV), f))


STEPF = z3.Function('step_of', z3.IntSort(), z3.IntSort(), z3.IntSort())   # what C21 proves StepFunction::next returns for a whole number


def next_value(sf, x):
    return z3.If(sf == 0, x + 1, STEPF(sf, x))


def one_operand(c, sf):
    class K:
        pass
    k = K()
    k.ex, k.this, k.heap0 = c.ex, sf, c.heap0
    return C21.one_operand(k)


def next_step():
    """StepFunction::next as its callers see it"""
    return Contract(C21.SF + '::next', name=C21.SF + '::next (step_of)', requires=lambda c: [one_operand(c, c.this)], ensures=lambda c: [c.ret == STEPF(c.this, c.arg(0))],
                    pred=lambda f: f['ret'].k == 'builtin' and f['ret'].b == 'int')


def range_of(v):
    p = v.vals[v_index(v, 'pair')]
    return p.vals[0], p.vals[1]


def v_index(v, what):
    i = [j for j, t in enumerate(v.ts) if what in t.qn]
    if len(i) != 1:
        raise Unsupported('no alternative ' + what)
    return i[0]


def steps_def(c, f):
    """step_value(0) is the lower bound, each later one the step after the one before; the values
    are those up to the last that is neither beyond the upper bound nor not above its predecessor"""
    ex = c.ex
    v = nvalues(c, f)
    lo, hi = range_of(v)
    sf = sel(c.heap0(ST), f)
    k = z3.Int('k!st')
    S, n = lambda j: SEQ(f, j), N0(f)
    nx = next_value(sf, S(k))
    on = lambda j: z3.And(S(j) <= hi, z3.Or(j == 0, S(j) > S(j - 1)))
    return [S(0) == lo, z3.ForAll([k], z3.Implies(k >= 0, S(k + 1) == nx), patterns=[S(k)]), n >= 0,
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), on(k)), patterns=[S(k)]), z3.Not(on(n))]


def fits(c, F, Pn, grouped):
    """a selection suits feature F below Pn"""
    n = fname(c, F)
    v = nvalues(c, F)
    j = z3.Int('j!an')
    return z3.If(fkd(c, F, 'FK_ROOT'), VB(n), z3.If(fkd(c, F, 'FK_BINARY'), depends(c, F, Pn, grouped),
                 z3.If(v.idx == v_index(v, 'pair'), z3.Exists([j], z3.And(j >= 0, j < N0(F), VI(n) == SEQ(F, j))), values_of(v.vals[v_index(v, 'vector')])(VI(n)))))


def plausible(c, F, Pn, heap=None):
    """what the solver takes for granted about a feature"""
    v = nvalues(c, F)
    sf = sel(c.heap0(ST), F)
    isnum = fkd(c, F, 'FK_NUMERIC')
    ranged = z3.And(isnum, v.idx == v_index(v, 'pair'))
    vec = v.vals[v_index(v, 'vector')]
    return [named_right(c, F), sel(c.heap0(FK), F) >= 0, z3.Implies(fkd(c, F, 'FK_BINARY'), hangs(c, F, Pn)),
            z3.Implies(z3.And(ranged, sf != 0), z3.And(sf > 0, sf < c.st0.next, one_operand(c, sf))), z3.Implies(isnum, vec.lo <= vec.hi),
            z3.Implies(ranged, range_of(v)[1] < (1 << 62))]


def any_feature():
    f = lambda c: c.ref(0)
    p = lambda c: parent(c, c.ref(0))
    isv = lambda t: t.k == 'record' and t.qn == 'std::vector'

    def req(c):
        F, Pn = f(c), p(c)
        v = nvalues(c, F)
        ranged = z3.And(fkd(c, F, 'FK_NUMERIC'), v.idx == v_index(v, 'pair'))
        for g in steps_def(c, F):
            c.st0.assume(z3.Implies(ranged, g))
        c.st0.assume(FITS(F, c.arg(1)) == fits(c, F, Pn, c.arg(1)))
        return base(c) + [F > 0, F < c.st0.next] + plausible(c, F, Pn)

    def left(L):
        d = range_of(nvalues(L, L.ref(0)))[1] - L.vt(lambda t: t.k == 'builtin' and t.b == 'int')
        return z3.If(d >= 0, d + 1, I(0))

    def inv(L):
        F = L.ref(0)
        v = nvalues(L, F)
        lo, hi = range_of(v)
        vals = L.vt(lambda t: isv(t))
        step = L.vt(lambda t: t.k == 'builtin' and t.b == 'int')
        i = z3.Int('i!an')
        k = vals.hi - vals.lo
        S = lambda j: SEQ(F, j)
        return [k >= 0, k <= N0(F), step == S(k), z3.ForAll([i], z3.Implies(z3.And(i >= vals.lo, i < vals.hi), sel(vals.arr, i) == S(vals.hi - 1 - i)), patterns=[sel(vals.arr, i)]),
                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), sel(vals.arr, vals.hi - 1 - i) == S(i)), patterns=[S(i)]),
                z3.Implies(k > 0, S(k) > S(k - 1))]

    def ens(c):
        F, Pn = f(c), p(c)
        n = fname(c, F)
        missing = z3.And(Pn != 0, z3.Not(known(c, fname(c, Pn))))
        dup = known(c, n)
        unk = fkd(c, F, 'FK_UNKNOWN')
        bad = z3.Or(missing, dup, unk)
        return [z3.If(missing, failed(c, 'PARENT_NOT_PRESENT'), z3.If(dup, failed(c, 'ALREADY_PRESENT'), z3.If(unk, failed(c, 'NOT_SUPPORTED'), fm.resok(c)[0]))),
                adds(c, FITS(F, c.arg(1)), z3.Not(bad))] + grown(c, n, z3.Not(bad))
    return Contract(ZS + '::addFeature', name=ZS + '::addFeature(feature)', pred=lambda g: 'feature::Feature' in g['pt'][0].s, requires=req, ensures=ens, modifies=frames(),
                    loops=[Loop(inv, decreases=left)])


# ------------------------------------------------------------------ groups
def kids(c, r):
    return named(c.ex, sel(c.heap0(fm.ED), r))


_c, _d = z3.Ints('c!sg d!sg')


def some(names, s):
    return z3.Exists([_c], z3.And(sel(s, _c), VB(sel(names, _c))))


def two(names, s):
    return z3.Exists([_c, _d], z3.And(sel(s, _c), sel(s, _d), _c != _d, VB(sel(names, _c)), VB(sel(names, _d))))


GROUP = z3.Function('selection_suits_group', z3.IntSort(), z3.BoolSort())


def suits(c, r):
    """a selected feature with a group has one of its members, of an alternative group not two"""
    alt = dict(c.ex.prog.enums[NS + 'Relationship::RelationshipKind'])['RK_ALTERNATIVE']
    n, k = named(c.ex, c.heap0(FN)), kids(c, r)
    return z3.Implies(VB(fname(c, sel(c.heap0(fm.PA), r))), z3.And(some(n, k), z3.Implies(sel(c.heap0(RK), r) == I(alt), z3.Not(two(n, k)))))


def relationship():
    isv = lambda t: t.k == 'record' and t.qn == 'z3::ast_vector_tpl'

    def inv(L):
        v = L.vt(isv)
        i, j = z3.Ints('i!gr j!gr')
        n = named(L.ex, L.heap0(FN))
        inr = lambda k: z3.And(k >= v.lo, k < v.hi)
        b = lambda k: Bv(sel(v.arr, k))
        done = named(L.ex, L.done)
        return [v.lo <= v.hi, z3.ForAll([i], z3.Implies(inr(i), IsB(sel(v.arr, i)))), (v.hi > v.lo) == z3.Exists([_c], sel(done, _c)),
                z3.Exists([i], z3.And(inr(i), b(i))) == some(n, done),
                z3.Exists([i, j], z3.And(inr(i), inr(j), i != j, b(i), b(j))) == two(n, done)]

    def req(c):
        r = c.ref(0)
        alt = dict(c.ex.prog.enums[NS + 'Relationship::RelationshipKind'])['RK_ALTERNATIVE']
        p = sel(c.heap0(fm.PA), r)
        k = kids(c, r)
        c.st0.assume(GROUP(r) == suits(c, r))
        return live(c, c.this) + [r > 0, r < c.st0.next, p > 0, p < c.st0.next, sel(c.heap0(fm.NK), p) == fm.FEA(c.ex), z3.Or(sel(c.heap0(RK), r) == I(alt), sel(c.heap0(RK), r) == I(1 - alt)),
                                  z3.ForAll([_c], z3.Implies(sel(k, _c), z3.And(_c > 0, _c < c.st0.next, sel(c.heap0(fm.NK), _c) == fm.FEA(c.ex))), patterns=[z3.Select(k, _c)]),
                                  z3.Implies(sel(c.heap0(RK), r) == I(alt), z3.Exists([_c], sel(k, _c)))]

    ens = lambda c: [fm.resok(c)[0], adds(c, GROUP(c.ref(0)))]
    return Contract(ZS + '::addRelationship', requires=req, ensures=ens, loops=[Loop(inv)], modifies=lambda c: {AS: (lambda r: r == sref(c, c.this)), z3m.VER: (lambda r: r == sref(c, c.this)), BX: (lambda r: FALSE)})
