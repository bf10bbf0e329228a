"""C24: the consistency rules accept exactly the consistent feature models, and the checker is their conjunction."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel
from runner import Group
import fm
from fm import *
from C07 import all_, resok, err

FK = NS + 'Feature::Kind'
# the nearest feature above a node, 0 if there is none
PF = z3.Function('parent_feature', Ar, Ar, N_, N_)
x, y = z3.Ints('x!c24 y!c24')


def pf_axioms(ex_fea):
    a, k = z3.Const('a!pf', Ar), z3.Const('k!pf', Ar)
    n = z3.Int('n!pf')
    p = sel(a, n)
    return [z3.ForAll([a, k, n], PF(a, k, n) == z3.If(p == 0, I(0), z3.If(sel(k, p) == ex_fea, p, PF(a, k, p))),
                      patterns=[z3.MultiPattern(PF(a, k, n), z3.Select(a, n))])]


def predicates(c, P):
    return _build(P)[1](c)


def contracts(P):
    """for callers"""
    return list(_build(P)[0])


def _build(P):
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    fkr = I(dict(P.enums[NS + 'Feature::FeatureKind'])['FK_ROOT'])
    ax = pf_axioms(fea)

    def arr(c, k, post=False):
        return named(c.ex, c.ex.harr(c.st1 if post else c.st0, k))

    def pfof(c, n):
        return PF(arr(c, PA), arr(c, NK), n)

    def inv(L):
        pa, k = named(L.ex, L.ex.harr(L.ex.unit_st0, PA)), named(L.ex, L.ex.harr(L.ex.unit_st0, NK))
        p = L.vt(lambda t: t.k == 'ptr').ref
        return [PF(pa, k, L.this) == z3.If(p == 0, I(0), z3.If(sel(k, p) == fea, p, PF(pa, k, p)))]
    gp = Contract(NS + 'Feature::getParentFeature', result=lambda c: Ptr(pfof(c, c.this), c.f['ret'].to), allocates=False, axioms=ax, loops=[Loop(inv)],
                  ensures=lambda c: [c.ret.ref == pfof(c, c.this)])

    class V:
        def __init__(self, c):
            v = View(c.ex, c.st0, c.ref(0))
            self.v, self.dom, self.map, self.root = v, v.dom, v.map, v.root
            self.fk = arr(c, FK)
            self.c = c
            s = z3.String('s!c24')
            self.s = s
            self.f = sel(self.map, s)

        def rootk(self, f):
            return sel(self.fk, f) == fkr

        def req(self):
            return [all_([self.s], z3.Implies(sel(self.dom, self.s), z3.And(self.f > 0, self.f < self.c.st0.next, self.v.isf(self.f))), z3.Select(self.dom, self.s)),
                    z3.Implies(self.root != 0, self.v.isf(self.root))]

        def every(self, body):
            return all_([self.s], z3.Implies(sel(self.dom, self.s), body(self.f)), z3.Select(self.dom, self.s))

        def one_root(self):
            t = z3.String('t!c24')
            hit = lambda k: z3.And(sel(self.dom, k), self.rootk(sel(self.map, k)))
            return z3.And(self.root != 0, self.rootk(self.root), z3.Exists([self.s], z3.And(hit(self.s), z3.ForAll([t], z3.Implies(hit(t), t == self.s), patterns=[z3.Select(self.dom, t)])),
                                                                          patterns=[z3.Select(self.dom, self.s)]))

        def parents(self):
            return self.every(lambda f: z3.Or(self.rootk(f), pfof(self.c, f) != 0))

        def edges(self):
            return self.every(lambda f: z3.Or(self.rootk(f), self.v.edge(self.v.par(f), f)))

        def above(self):
            return self.every(lambda f: z3.Or(self.rootk(f), self.v.par(f) != 0))
    rule = lambda n, e, r=lambda v: []: Contract(NS + n + '::check', requires=lambda c: V(c).req() + r(V(c)), axioms=ax,
                                                  ensures=lambda c: [c.ret == e(V(c))])
    one = rule('ExactlyOneRootNode', lambda v: v.one_root())
    par = rule('EveryFeatureRequiresParent', lambda v: v.parents())
    edg = rule('CheckFeatureParentChildRelationShip', lambda v: v.edges(), lambda v: [v.above()])

    def valid(c):
        v = V(c)
        ok, val, er = resok(c)
        n = len(c.f['cls'].targs) if c.f.get('cls') else 0
        return [ok == z3.And(v.one_root(), v.parents(), v.edges()), z3.Implies(z3.Not(ok), er == err(c, 'INCONSISTENT'))]
    chk = Contract(NS + 'FeatureModelConsistencyChecker::isFeatureModelValid', requires=lambda c: V(c).req(), axioms=ax, ensures=valid)
    return (gp, one, par, edg, chk), V


def groups(P):
    gp, one, par, edg, chk = _build(P)[0]
    g = lambda n, cs, units: Group(n, cs, units=units, setup=fm.ghosts, objects=fm.OBJECTS)
    import iters
    return [iters.map_group(), g('parent feature', [gp], [gp]), g('rules', [gp, one, par, edg], [one, par, edg]), g('checker', [one, par, edg, chk], [chk])]


HARNESS = 'c24'
ASSUMPTIONS = ['termination of the loop in Feature::getParentFeature (no cycle of nodes without a feature) is assumed']
