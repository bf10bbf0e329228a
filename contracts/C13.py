"""C13: features are ordered depth first, siblings by name; ordered vectors keep that order."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
from runner import Group, Lemma
import fm
from fm import *
import C24
import models
from C07 import all_
from C24 import PF

OFV = NS + 'deprecated::OrderedFeatureVector'
FV = OFV + '::Features'
As = z3.ArraySort(z3.IntSort(), z3.StringSort())
RANK, LOWER = models.RANK, models.LOWER
x, y, z, i, j, k, d = z3.Ints('x!c13 y!c13 z!c13 i!c13 j!c13 k!c13 d!c13')
# the j-th feature above x (x itself for 0, 0 above the root); the number of features above x
UP = z3.Function('up', Ar, Ar, N_, N_, N_)
DEP = z3.Function('depth', Ar, Ar, N_, N_)
# the feature at some depth on the path from the root to x
ANC = z3.Function('ancestor', Ar, Ar, N_, N_, N_)
# how many features the paths from the root to x and y share
CP = z3.Function('common', Ar, Ar, N_, N_, N_)
# x comes before y
LT = z3.Function('before', Ar, Ar, As, N_, N_, B_)


def setup(ex):
    fm.ghosts(ex)
    ex.ranked_strings = True


class Order:
    """the order in a forest given by parents, kinds and names"""

    def __init__(self, pa, kd, nm):
        self.pa, self.kd, self.nm = pa, kd, nm

    def up(self, a, n):
        return UP(self.pa, self.kd, a, n)

    def dep(self, a):
        return DEP(self.pa, self.kd, a)

    def anc(self, a, n):
        """the feature at depth n on the path from the root to a"""
        return ANC(self.pa, self.kd, a, n)

    def cp(self, a, b):
        return CP(self.pa, self.kd, a, b)

    def pf(self, a):
        return PF(self.pa, self.kd, a)

    def rank(self, a):
        return RANK(LOWER(sel(self.nm, a)))

    def lt(self, a, b):
        return LT(self.pa, self.kd, self.nm, a, b)

    # definitions
    def up_def(self, a, n):
        return z3.And(self.up(a, 0) == a, z3.Implies(n > 0, self.up(a, n) == z3.If(self.up(a, n - 1) == 0, I(0), self.pf(self.up(a, n - 1)))))

    def anc_def(self, a, n):
        return self.anc(a, n) == self.up(a, self.dep(a) - n)

    def dep_def(self, a):
        """the path to the root ends (no cycles)"""
        return z3.Implies(a > 0, z3.And(self.dep(a) >= 0, self.up(a, self.dep(a) + 1) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= self.dep(a)), self.up(a, j) > 0), patterns=[self.up(a, j)])))

    def cp_def(self, a, b):
        c = self.cp(a, b)
        return z3.And(c >= 0, c <= self.dep(a) + 1, c <= self.dep(b) + 1, z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < c), self.anc(a, d) == self.anc(b, d)), patterns=[self.anc(a, d), self.anc(b, d)]),
                      z3.Implies(z3.And(c <= self.dep(a), c <= self.dep(b)), self.anc(a, c) != self.anc(b, c)))

    def lt_def(self, a, b):
        c = self.cp(a, b)
        r = lambda f, g: self.rank(f) < self.rank(g)
        return self.lt(a, b) == z3.If(c == 0, r(a, b), z3.If(c > self.dep(a), c <= self.dep(b), z3.And(c <= self.dep(b), r(self.anc(a, c), self.anc(b, c)))))


def definitions(fea):
    o = Order(z3.Const('a!c13', Ar), z3.Const('kd!c13', Ar), z3.Const('n!c13', As))
    a, b = z3.Ints('a!e13 b!e13')
    n = z3.Int('m!e13')
    q = lambda vs, body, pat: z3.ForAll([v for v in (o.pa, o.kd, o.nm) if v in pat[1]] + vs, body, patterns=[pat[0]])
    two, three = (o.pa, o.kd), (o.pa, o.kd, o.nm)
    return C24.pf_axioms(fea) + [z3.ForAll(list(two) + [a, n], z3.Implies(n > 0, o.up_def(a, n)), patterns=[o.up(a, n)]), z3.ForAll(list(two) + [a], o.up(a, 0) == a, patterns=[o.up(a, 0)]),
                                 z3.ForAll(list(two) + [a, n], o.anc_def(a, n), patterns=[o.anc(a, n)]), z3.ForAll(list(two) + [a], o.dep_def(a), patterns=[o.dep(a)]), z3.ForAll(list(two) + [a, b], o.cp_def(a, b), patterns=[o.cp(a, b)]),
                                 z3.ForAll(list(three) + [a, b], o.lt_def(a, b), patterns=[o.lt(a, b)])]


def order(c):
    return Order(*(named(c.ex, c.ex.harr(c.st0, h)) for h in (PA, NK, NM)))


def entry(L):
    return Order(*(named(L.ex, L.ex.harr(L.ex.unit_st0, h)) for h in (PA, NK, NM)))


def comparing(fea):
    ref = lambda v: v.ref if hasattr(v, 'ref') else v

    def locals_(L, pred):
        """(value now, value at loop entry) of the local variables of some type, in order of declaration"""
        cs = [lv for lv in L.st_entry.frame.env.values() if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and pred(lv.t)]
        return [(L.ex.load(L.st1, lv), L.ex.load(L.st_entry, lv)) for lv in cs]

    def holds(o, s, f, n):
        """stack s holds the lowest n features on the path from f to the root, f first"""
        return [s.lo == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(sel(s.arr, i) == o.up(f, i), sel(s.arr, i) == o.anc(f, o.dep(f) - i))), patterns=[z3.Select(s.arr, i)])]

    def inv(L):
        o = entry(L)
        a, b = L.this, ref(L.arg(0))
        two = locals_(L, lambda t: t.k == 'record' and t.qn == 'std::stack')
        if len(two) != 2:
            raise Unsupported('paths are not held by two stacks')
        A, B = (Vec(v.et, named(L.ex, v.arr), v.lo, v.hi) for v, _ in two)
        ea, eb = (z3.is_int_value(z3.simplify(e.hi)) for _, e in two)
        full = lambda s, f: holds(o, s, f, o.dep(f) + 1) + [s.hi == o.dep(f) + 1]
        if ea or eb:
            h = locals_(L, lambda t: t.k == 'ptr')[-1][0].ref
            first = lambda s, f: holds(o, s, f, s.hi) + [s.hi >= 0, h == o.up(f, s.hi), s.hi <= o.dep(f) + 1, h >= 0]
            return first(A, a) + [B.lo == 0, B.hi == 0] if ea and eb else full(A, a) + first(B, b)
        n = o.dep(a) + 1 - A.hi
        return holds(o, A, a, A.hi) + holds(o, B, b, B.hi) + [n >= 0, A.hi >= 0, B.hi >= 0, B.hi == o.dep(b) + 1 - n,
                z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n), o.anc(a, d) == o.anc(b, d)), patterns=[o.anc(a, d), o.anc(b, d)])]
    live = lambda c: [c.this > 0, ref(c.arg(0)) > 0]
    ax = definitions(fea)
    C = lambda op, t: Contract(NS + 'Feature::operator' + op, requires=live, axioms=ax, result=t, allocates=False, ensures=lambda c: [c.ret == t(c)], loops=[Loop(inv, fn='*', match=lambda s: True)])
    nm = lambda c, f: LOWER(sel(named(c.ex, c.heap0(NM)), f))
    lt = C('<', lambda c: order(c).lt(c.this, ref(c.arg(0))))
    gt = C('>', lambda c: order(c).lt(ref(c.arg(0)), c.this))
    eq = C('==', lambda c: nm(c, c.this) == nm(c, ref(c.arg(0))))
    ne = C('!=', lambda c: nm(c, c.this) != nm(c, ref(c.arg(0))))
    return lt, gt, eq, ne


def together(o, fs):
    """features of one tree, siblings having different names"""
    r = z3.Int('r!c13')
    return z3.And(*[f > 0 for f in fs], *[o.anc(f, 0) == o.anc(fs[0], 0) for f in fs[1:]])


def apart(o):
    """different features below the same feature have different names (ignoring case)"""
    return z3.ForAll([x, y], z3.Implies(z3.And(x > 0, y > 0, x != y, o.pf(x) == o.pf(y), o.pf(x) != 0), o.rank(x) != o.rank(y)), patterns=[z3.MultiPattern(o.pf(x), o.pf(y))])


def lemmas():
    def mk(name, n, body):
        def parts(P):
            fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
            o = Order(z3.Const('par!L', Ar), z3.Const('kind!L', Ar), z3.Const('name!L', As))
            fs = z3.Ints('a!L b!L c!L')[:n]
            hyp = [together(o, fs)] + definitions(fea)[1:]
            for a in fs:
                for b in fs:
                    hyp += [o.lt_def(a, b), o.cp_def(a, b)]
            return [(l, hyp + h, g) for l, h, g in body(o, *fs)]
        return Lemma(name, parts)
    irr = mk('no feature comes before itself', 1, lambda o, a: [('', [], z3.Not(o.lt(a, a)))])
    asy = mk('of two features at most one comes first', 2, lambda o, a, b: [('', [], z3.Not(z3.And(o.lt(a, b), o.lt(b, a))))])
    tra = mk('the order is transitive', 3, lambda o, a, b, c: [('', [o.lt(a, b), o.lt(b, c)], o.lt(a, c))])

    def total(o, a, b):
        c = o.cp(a, b)
        s, t = o.anc(a, c), o.anc(b, c)
        ups = [g for f in (a, b) for n in (c - 1, c, o.dep(f)) for g in (o.anc_def(f, n), o.up_def(f, o.dep(f) - n), o.up_def(f, o.dep(f) - n + 1), o.up(f, o.dep(f) - n) == o.up(f, o.dep(f) - n))]
        return [('', ups + [apart(o), a != b, z3.Implies(z3.And(s > 0, t > 0, s != t), z3.Or(o.pf(s) != o.pf(t), o.pf(s) == 0, o.rank(s) != o.rank(t)))], z3.Or(o.lt(a, b), o.lt(b, a)))]
    tot = mk('of two different features one comes first', 2, total)
    anc = mk('what is above comes first', 2, lambda o, a, b: [('', [j > 0, j <= o.dep(b), a == o.up(b, j), o.dep(a) == o.dep(b) - j,
                                                                   z3.ForAll([i], z3.Implies(i >= 0, o.up(a, i) == o.up(b, i + j)), patterns=[o.up(a, i)])], o.lt(a, b))])
    return [irr, asy, tra, tot, anc]


def laws(o):
    """the lemmas, for features of one tree whose siblings have different names"""
    a, b, c = z3.Ints('a!law b!law c!law')
    t3, t2 = together(o, [a, b, c]), together(o, [a, b])
    return [z3.ForAll([a, b, c], z3.Implies(z3.And(t3, o.lt(a, b), o.lt(b, c)), o.lt(a, c)), patterns=[z3.MultiPattern(o.lt(a, b), o.lt(b, c))]),
            z3.ForAll([a, b], z3.Implies(t2, z3.And(z3.Not(z3.And(o.lt(a, b), o.lt(b, a))), z3.Or(a == b, o.lt(a, b), o.lt(b, a)))), patterns=[o.lt(a, b)])]


def vector(fea):
    def vec(c, post=False):
        v = c.ex.ty.dec(c.ex.field_type(FV), z3.simplify(sel(c.heap(FV) if post else c.heap0(FV), c.this)))
        return Vec(v.et, named(c.ex, v.arr), v.lo, v.hi)
    ref = lambda v: v.ref if hasattr(v, 'ref') else v
    inr = lambda v, n: z3.And(n >= v.lo, n < v.hi)

    def sorted_(o, v):
        e = lambda n: sel(v.arr, n)
        return all_([i, j], z3.Implies(z3.And(inr(v, i), inr(v, j), i < j), z3.Not(o.lt(e(j), e(i)))), (z3.Select(v.arr, i), z3.Select(v.arr, j)))

    def req(c):
        o, v, f = order(c), vec(c), ref(c.arg(0))
        return [c.this > 0, f > 0, f < c.st0.next, v.lo == 0, v.hi >= 0, v.hi < (1 << 62), all_([i], z3.Implies(inr(v, i), z3.And(sel(v.arr, i) > 0, sel(v.arr, i) < c.st0.next, o.anc(sel(v.arr, i), 0) == o.anc(f, 0))), z3.Select(v.arr, i)),
                sorted_(o, v), apart(o)] + laws(o)

    def ens(c):
        o, v, w, f = order(c), vec(c), vec(c, True), ref(c.arg(0))
        p = z3.Int('p!c13')
        return [w.lo == 0, w.hi == v.hi + 1, ng('the vector is in order', sorted_(o, w)),
                ng('what was there keeps its order', z3.Exists([p], z3.And(p >= 0, p <= v.hi, sel(w.arr, p) == f, all_([i], z3.Implies(inr(w, i), sel(w.arr, i) == z3.If(i < p, sel(v.arr, i), z3.If(i == p, f, sel(v.arr, i - 1)))), z3.Select(w.arr, i)))))]
    ins = Contract(OFV + '::insert', name=OFV + '::insert/F', pred=lambda f: len(f['pt']) == 1 and f['pt'][0].k == 'ptr', requires=req, ensures=ens, modifies=lambda c: {FV: (lambda r: r == c.this)}, axioms=definitions(fea))
    return ins



def groups(P):
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    gp = [c for c in C24.contracts(P) if c.qn.endswith('getParentFeature')]
    lt, gt, eq, ne = comparing(fea)
    return [Group('comparing', [lt, gt, eq, ne] + gp, units=[lt, gt, eq, ne], setup=setup, objects=fm.OBJECTS), Group('parent feature', gp, gp, setup=fm.ghosts, objects=fm.OBJECTS), Group('order', [], lemmas=lemmas()), Group('ordered vector', [vector(fea), lt] + gp, units=[vector(fea)], setup=setup, objects=fm.OBJECTS + [OFV])]


HARNESS = 'c13'
ASSUMPTIONS = ['the parents of a feature form no cycle (well-formedness, kept by every modification: C07)',
               'the lexicographic order of strings is an order of rational numbers (strings over a finite alphabet are countable)']
