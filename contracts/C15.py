"""C15: the solver enumerates exactly the solutions of what it was given, each once."""
from solf import *
from runner import Group
import C18
from z3m import MB, MI, MD, SATV, SOLVES, VER, itoa

_s = z3.String('n!c15')


def under(cond, gs):
    import ex
    return [ng(ex._names[g.get_id()][0], z3.Implies(cond, g)) if g.get_id() in ex._names else z3.Implies(cond, g) for g in gs]


def model(c, post=False):
    """(is there a current model, the model)"""
    o = c.ex.ty.dec(c.ex.field_type(CM), sel((c.heap if post else c.heap0)(CM), c.this))
    return o.has, o.val.term


def ver(c, post=False):
    return sel((c.g if post else c.g0)(VER), sref(c, c.this))


def differs(ex, st, s, m):
    """the assignment and the model m disagree on a known name"""
    dom, _ = omap(ex, st, s)
    return z3.Exists([_s], z3.And(sel(dom, _s), z3.If(NUMK(_s), VI(_s) != MI(m, _s), VB(_s) != MB(m, _s))), patterns=[z3.Select(dom, _s)])


def diff_done(L, done, m):
    return z3.Exists([_s], z3.And(sel(done, _s), z3.If(NUMK(_s), VI(_s) != MI(m, _s), VB(_s) != MB(m, _s))), patterns=[z3.Select(done, _s)])


def text(m, n):
    return z3.If(NUMK(n), itoa(MI(m, n)), z3.If(MB(m, n), z3.StringVal('true'), z3.StringVal('false')))


def config(c, ref, dom, m):
    """configuration ref says exactly what m says about the names in dom"""
    ex = c.ex
    d = ex.ty.sort(ex.field_type(C18.MAPF))
    x = sel(named(ex, c.heap(C18.MAPF)), ref)
    o = sel(d.accessor(0, 1)(x), _s)
    return [ng('exactly the known names are options', z3.ForAll([_s], sel(d.accessor(0, 0)(x), _s) == sel(dom, _s), patterns=[z3.Select(dom, _s)])),
            ng('every option has its value', z3.ForAll([_s], z3.Implies(sel(dom, _s), z3.And(o > 0, o < c.st1.next, sel(c.heap(C18.NAME), o) == _s,
               sel(c.heap(C18.VALUE), o) == C18.spec_value(ex, text(m, _s)))), patterns=[z3.Select(dom, _s)]))]


def enumeration():
    cm = lambda c: {CM: (lambda r: r == c.this)}
    st = lambda c: {k: (lambda r: r == sref(c, c.this)) for k in (AS, VER)}
    cf = lambda c: {k: (lambda r: FALSE) for k in (C18.MAPF, C18.NAME, C18.VALUE)}

    def excl(L):
        e = L.vt(lambda t: t.k == 'record' and t.qn == 'z3::expr' and not t.const)
        has, m = model(L)
        return [IsB(e.term), Bv(e.term) == diff_done(L, named(L.ex, L.done), m)]
    exclude = Contract(ZS + '::excludeCurrentConfiguration', requires=base, modifies=st, loops=[Loop(excl)],
                       ensures=lambda c: [adds(c, differs(c.ex, c.st0, c.this, model(c)[1]), model(c)[0]), z3.Implies(z3.Not(model(c)[0]), ver(c, True) == ver(c))])

    def cur(L):
        has, m = model(L)
        p = L.vt(lambda t: t.k == 'record' and t.qn == 'std::unique_ptr')
        return [p.ref >= L.st0.next, p.ref < L.st1.next] + config(L, p.ref, named(L.ex, L.done), m)

    def nxt(c):
        ok, v, e = fm.resok(c)
        has, m = model(c, True)
        dom = omap(c.ex, c.st0, c.this)[0]
        r = sref(c, c.this)
        return [ng('there is an answer exactly if there is a solution', ok == SATV(ver(c))), z3.Implies(z3.Not(ok), z3.And(e == serr(c, 'UNSAT'), z3.Not(sel(c.g0(AS), r)), same(c), ver(c, True) == ver(c), sel(c.heap(CM), c.this) == sel(c.heap0(CM), c.this))),
                z3.Implies(ok, z3.And(has, SOLVES(m, ver(c)))), adds(c, differs(c.ex, c.st0, c.this, m), ok)] + under(ok, config(c, v.ref, dom, m))
    both = lambda c: {**cm(c), **st(c), **cf(c)}
    nextc = Contract(ZS + '::getNextConfiguration', requires=base, modifies=both, ensures=nxt, decreases=lambda c: I(1))

    def now(c):
        ok, v, e = fm.resok(c)
        has, m = model(c)
        dom = omap(c.ex, c.st0, c.this)[0]
        keep = z3.And(same(c), ver(c, True) == ver(c), sel(c.heap(CM), c.this) == sel(c.heap0(CM), c.this))
        first = nxt(c)
        return under(has, [ok, ng('nothing changes', keep)] + config(c, v.ref, dom, m)) + under(z3.Not(has), first)
    current = Contract(ZS + '::getCurrentConfiguration', requires=base, modifies=both, ensures=now, loops=[Loop(cur)], decreases=lambda c: z3.If(model(c)[0], I(0), I(2)))
    okb = lambda c: fm.resok(c)

    def hv(c):
        ok, v, e = fm.resok(c)
        has, _ = model(c)
        return [z3.If(has, z3.And(z3.Not(ok), e == serr(c, 'ILLEGAL_STATE')), z3.And(ok, v == SATV(ver(c)))), z3.Implies(z3.And(ok, z3.Not(v)), z3.Not(sel(c.g0(AS), sref(c, c.this))))]
    has = Contract(ZS + '::hasValidConfigurations', requires=base, ensures=hv)
    return exclude, current, nextc, has


# ------------------------------------------------------------------ configurations of a model
# A solver as its callers see it: its state stands for a set of solutions; what is proved above for
# one arbitrary assignment holds for every one.
N_ = z3.IntSort()
SV, SH, SC, CM_ = 'sol!state', 'sol!started', 'sol!current', 'cfg!says'
SOL = z3.Function('is_solution', N_, MD, z3.BoolSort())          # solution of the state
DIFF = z3.Function('differ', MD, MD, z3.BoolSort())              # disagree on an option
WIT = z3.Function('a_solution', N_, MD)
_m, _k = z3.Consts('m!c15 k!c15', MD)
SOLVER = SN + 'Solver'
MODELV = z3.Function('state_of_model', N_, N_)                   # what a feature model means
COUNT = z3.Function('number_of_solutions', N_, N_)


def ghosts2(ex):
    setup(ex)
    ex.ghost_sorts.update({SV: N_, SH: z3.BoolSort(), SC: MD, CM_: MD})


def anysol(v):
    return SOL(v, WIT(v))


def fax():
    v = z3.Int('v!c15')
    return [z3.ForAll([_m], z3.Not(DIFF(_m, _m)), patterns=[DIFF(_m, _m)]), z3.ForAll([_m, _k], DIFF(_m, _k) == DIFF(_k, _m), patterns=[DIFF(_m, _k)]),
            z3.ForAll([v, _m], z3.Implies(SOL(v, _m), anysol(v)), patterns=[SOL(v, _m)])]


def step(c, s):
    """the answer of a solver that is asked for another configuration"""
    ok, v, e = fm.resok(c)
    g0, g1 = lambda k: sel(c.g0(k), s), lambda k: sel(c.g(k), s)
    m = g1(SC)
    return [ok == anysol(g0(SV)), z3.Implies(z3.Not(ok), z3.And(e == serr(c, 'UNSAT'), g1(SV) == g0(SV), g1(SH) == g0(SH), g1(SC) == g0(SC))),
            z3.Implies(ok, z3.And(g1(SH), SOL(g0(SV), m), v.ref > 0, sel(c.g(CM_), v.ref) == m,
                                  z3.ForAll([_m], SOL(g1(SV), _m) == z3.And(SOL(g0(SV), _m), DIFF(_m, m)), patterns=[SOL(g1(SV), _m), SOL(g0(SV), _m)])))]


def keeps(c, s):
    return [sel(c.g(k), s) == sel(c.g0(k), s) for k in (SV, SH, SC)]


def asking():
    mod = lambda c: {SV: (lambda r: r == c.this), SH: (lambda r: r == c.this), SC: (lambda r: r == c.this), CM_: (lambda r: r >= c.st0.next)}
    live_ = lambda c: [c.this > 0]

    def cur(c):
        ok, v, e = fm.resok(c)
        h = sel(c.g0(SH), c.this)
        return under(h, [ok, v.ref > 0, sel(c.g(CM_), v.ref) == sel(c.g0(SC), c.this)] + keeps(c, c.this)) + under(z3.Not(h), step(c, c.this))

    def hv(c):
        ok, v, e = fm.resok(c)
        h = sel(c.g0(SH), c.this)
        return [ok == z3.Not(h), z3.Implies(ok, v == anysol(sel(c.g0(SV), c.this)))]
    every = lambda n, **k: Contract(SOLVER + '::' + n, name=SOLVER + '::' + n + ' (every assignment)', requires=live_, axioms=fax(), assumed=True, **k)
    return [every('getNextConfiguration', modifies=mod, ensures=lambda c: step(c, c.this)), every('getCurrentConfiguration', modifies=mod, ensures=cur), every('hasValidConfigurations', ensures=hv),
            Contract(SN + 'SolverFactory::initializeSolver', name=SN + 'SolverFactory::initializeSolver (solutions of the model)', assumed=True, pred=lambda f: len(f['pt']) == 2, axioms=fax(),
                     modifies=lambda c: {k: (lambda r: r >= c.st0.next) for k in (SV, SH, SC)},
                     ensures=lambda c: [c.ret.ref > 0, c.ret.ref >= c.st0.next, c.ret.ref < c.st1.next, sel(c.g(SV), c.ret.ref) == MODELV(c.ref(0)), z3.Not(sel(c.g(SH), c.ret.ref))])]


def factory():
    fac = SN + 'ConfigurationFactory::'
    isv = lambda t: t.k == 'record' and t.qn == 'std::vector'
    new = lambda c: {k: (lambda r: r >= c.st0.next) for k in (SV, SH, SC, CM_)}
    i, j = z3.Ints('i!cf j!cf')
    inr = lambda v, k: z3.And(k >= v.lo, k < v.hi)

    def others(v, cm, a):
        return z3.ForAll([i], z3.Implies(inr(v, i), DIFF(a, sel(cm, sel(v.arr, i)))), patterns=[sel(v.arr, i)])

    def collected(v, cm, v0, nxt):
        x = lambda k: sel(cm, sel(v.arr, k))
        return [v.lo <= v.hi, ng('every one is a solution', z3.ForAll([i], z3.Implies(inr(v, i), z3.And(sel(v.arr, i) > 0, sel(v.arr, i) < nxt, SOL(v0, x(i)))), patterns=[sel(v.arr, i)])),
                ng('no two agree on every option', z3.ForAll([i, j], z3.Implies(z3.And(inr(v, i), inr(v, j), i != j), DIFF(x(i), x(j))), patterns=[z3.MultiPattern(sel(v.arr, i), sel(v.arr, j))]))]

    def complete(v, cm, v0):
        return ng('none is missing', z3.ForAll([_m], z3.Implies(SOL(v0, _m), z3.Not(others(v, cm, _m))), patterns=[SOL(v0, _m)]))

    def vec(ex, v):
        return Vec(v.et, named(ex, v.arr), v.lo, v.hi)

    def loop(more, none):
        def inv(L):
            ex = L.ex
            v = vec(ex, L.vt(isv))
            names = [next(n for n in ex.varnames.values() if n.startswith(p) and any(ex.varnames.get(k) == n for k in L.st1.frame.env)) for p in ('__begin', '__end')]
            b, e = (next(iter(L.v(n).fields.values())).ref for n in names)
            cm = named(ex, L.g(CM_))
            v0 = MODELV(L.ref(0))
            g = lambda k: sel(L.g(k), b)
            fresh = [b >= L.st0.next, b < L.st1.next]
            right = z3.And(SOL(v0, _m), others(v, cm, _m), z3.Implies(g(SH), DIFF(_m, g(SC))))
            left = [ng('what is left is new', z3.ForAll([_m], z3.Implies(SOL(g(SV), _m), right), patterns=[SOL(g(SV), _m)])),
                    ng('what is new is left', z3.ForAll([_m], z3.Implies(right, SOL(g(SV), _m)), patterns=[SOL(v0, _m), SOL(g(SV), _m)]))]
            return collected(v, cm, v0, L.st1.next) + [e == 0] + more(L, v) \
                + under(b != 0, fresh + left + [z3.Implies(g(SH), z3.And(SOL(v0, g(SC)), others(v, cm, g(SC)))), z3.Implies(z3.Not(g(SH)), v.hi == v.lo)]) \
                + under(b == 0, [complete(v, cm, v0), none(v, v0)])
        return Loop(inv)

    def count(c, v, cm, v0):
        """COUNT names the length of a list of all solutions without repetition: every such list has the same"""
        c.st1.assume(z3.Implies(z3.And(*collected(v, cm, v0, c.st1.next), complete(v, cm, v0)), COUNT(v0) == v.hi - v.lo))

    def all_(c):
        ok, v, e = fm.resok(c)
        v = vec(c.ex, v)
        cm = named(c.ex, c.g(CM_))
        v0 = MODELV(c.ref(0))
        count(c, v, cm, v0)
        return [ng('an answer exactly if there is a solution', ok == anysol(v0)), z3.Implies(z3.Not(ok), e == serr(c, 'UNSAT'))] \
            + under(ok, collected(v, cm, v0, c.st1.next) + [complete(v, cm, v0), ng('as many as there are', v.hi - v.lo == COUNT(v0))])

    def some(c):
        ok, v, e = fm.resok(c)
        v = vec(c.ex, v)
        cm = named(c.ex, c.g(CM_))
        v0 = MODELV(c.ref(0))
        n = c.arg(1)
        return [ok] + collected(v, cm, v0, c.st1.next) + [ng('no more than asked for', v.hi - v.lo <= n), z3.Implies(v.hi - v.lo < n, complete(v, cm, v0))]

    def num(c):
        ok, v, e = fm.resok(c)
        v0 = MODELV(c.ref(0))
        return [ng('an answer exactly if there is a solution', ok == anysol(v0)), z3.Implies(z3.Not(ok), e == serr(c, 'UNSAT')), ng('as many as there are', z3.Implies(ok, v == COUNT(v0)))]
    req = lambda c: [c.ref(0) > 0]
    return [Contract(fac + 'getAllConfigs', requires=req, modifies=new, ensures=all_, loops=[loop(lambda L, v: [], lambda v, v0: anysol(v0))], axioms=fax()),
            Contract(fac + 'getNConfigs', requires=req, modifies=new, ensures=some, loops=[loop(lambda L, v: [v.hi - v.lo < L.arg(1)], lambda v, v0: TRUE)], axioms=fax()),
            Contract(fac + 'getNumConfigs', requires=req, modifies=new, ensures=num, axioms=fax()),
            Contract(fac + 'isValid', requires=req, modifies=new, ensures=lambda c: [c.ret == anysol(MODELV(c.ref(0)))], axioms=fax())]


def groups(P):
    exclude, current, nextc, has = enumeration()
    c18 = C18.groups(P)
    put = [c for g in c18 for c in g.contracts if 'setConfigurationOption' in c.qn][:1]
    gs = factory()
    return [Group('configurations', gs + asking(), units=gs, setup=ghosts2, objects=OBJECTS), Group('enumeration', [exclude, current, nextc, has] + put, units=[exclude, current, nextc, has], setup=setup, objects=OBJECTS + [C18.CO, C18.CF])]


HARNESS = 'c15'
ASSUMPTIONS = ['the Z3 C++ API acts as its contracts say; check() answers sat or unsat, never unknown',
               'what asking does for one arbitrary assignment (proved) it does for every assignment; asking through the base class Solver reaches Z3Solver',
               'SolverFactory::initializeSolver yields a solver standing for the solutions of the model (assumed here; C14, C16 and C17 prove its parts)',
               'a model has finitely many solutions (otherwise collecting them does not end)',
               'any two lists of all solutions without repetition have the same length (mathematical fact behind getNumConfigs)']
BOUNDED = 'whole feature models against a brute-force enumeration, up to 7 features (not counted as proved)'
