"""Abstract view of a feature model: its nodes, the tree they form, and when that tree is well formed."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
import models

NS = 'vara::feature::'
D = NS + 'detail::'
NK = NS + 'FeatureTreeNode::Kind'
PA = NS + 'FeatureTreeNode::Parent'
ED = 'llvm::DGNode::Edges'
NM = NS + 'Feature::Name'
LO = NS + 'Feature::Locations'
FS = NS + 'FeatureModel::Features'
RL = NS + 'FeatureModel::Relationships'
RT = NS + 'FeatureModel::Root'
MN, MC, MP = NS + 'FeatureModel::Name', NS + 'FeatureModel::Commit', NS + 'FeatureModel::Path'
OBJECTS = [NS + 'Constraint', NS + 'Feature', NS + 'FeatureTreeNode', NS + 'Relationship', NS + 'FeatureModel']
TREE = [NK, PA, ED, NM, FS, RL, RT]

Ar = z3.ArraySort(z3.IntSort(), z3.IntSort())
Ab = z3.ArraySort(z3.IntSort(), z3.BoolSort())
N_, B_ = z3.IntSort(), z3.BoolSort()
# membership of an element in a vector, and one of its positions
RMEM = z3.Function('in_vec', Ar, N_, N_, N_, B_)
IDX = z3.Function('idx_vec', Ar, N_, N_, N_, N_)
# x lies in the subtree of c (least fixpoint over the parent array)
SUBT = z3.Function('subtree', Ar, N_, N_, B_)
# the feature below f (directly or in a group of f) through which x is reached
TOP = z3.Function('top', Ar, Ar, N_, N_, N_)

_a = z3.Const('a!fm', Ar)
_k = z3.Const('k!fm', Ar)
_l, _h, _x, _i, _c = z3.Ints('l!fm h!fm x!fm i!fm c!fm')


def ghosts(ex):
    ex.ghost_sorts.update({'hgt': N_})


def kind(ex, n):
    for nm, v in ex.prog.enums[NS + 'FeatureTreeNode::NodeKind']:
        if nm == n:
            return I(v)
    raise Unsupported('no node kind ' + n)


FEA = lambda ex: kind(ex, 'NK_FEATURE')
REL = lambda ex: kind(ex, 'NK_RELATIONSHIP')


def vec_axioms():
    return [z3.ForAll([_a, _l, _h, _x, _i], z3.Implies(z3.And(_l <= _i, _i < _h, sel(_a, _i) == _x), RMEM(_a, _l, _h, _x)),
                      patterns=[z3.MultiPattern(RMEM(_a, _l, _h, _x), z3.Select(_a, _i))]),
            z3.ForAll([_a, _l, _h, _x], z3.Implies(RMEM(_a, _l, _h, _x), z3.And(_l <= IDX(_a, _l, _h, _x), IDX(_a, _l, _h, _x) < _h,
                                                                            sel(_a, IDX(_a, _l, _h, _x)) == _x)), patterns=[RMEM(_a, _l, _h, _x)])]


def subt_def(par, c, x):
    return SUBT(par, c, x) == z3.Or(x == c, z3.And(sel(par, x) != 0, SUBT(par, c, sel(par, x))))


def subt_axioms():
    # one unfolding per mention of subtree(par, c, x) together with par[x]
    return [z3.ForAll([_a, _c, _x], z3.And(z3.Implies(_x == _c, SUBT(_a, _c, _x)),
                                           z3.Implies(_x != _c, SUBT(_a, _c, _x) == z3.And(sel(_a, _x) != 0, SUBT(_a, _c, sel(_a, _x))))),
                      patterns=[z3.MultiPattern(SUBT(_a, _c, _x), z3.Select(_a, _x))])]


def named(ex, a):
    """a constant equal to an array term (quantifier patterns need plain terms)"""
    if a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0:
        return a
    hit = ex.gcache.get(('named', a.get_id()))
    if hit is None:
        k = z3.Const(fresh_name('arr'), a.sort())
        ex.axioms.append(k == a)
        ex.gcache[('named', a.get_id())] = hit = (k, a)
    return hit[0]


class View:
    """a model m in a state"""

    def __init__(self, ex, st, m, hgt=None):
        self.ex, self.st, self.m = ex, st, m
        self.K, self.PA, self.ED, self.NM = (named(ex, ex.harr(st, k)) for k in (NK, PA, ED, NM))
        ft = ex.field_type(FS)
        self.fmap = ex.ty.dec(ft, z3.simplify(sel(ex.harr(st, FS), m)))
        self.dom, self.map = named(ex, self.fmap.dom), named(ex, self.fmap.arr)
        self.rv = ex.ty.dec(ex.field_type(RL), z3.simplify(sel(ex.harr(st, RL), m)))
        self.rv = Vec(self.rv.et, named(ex, self.rv.arr), self.rv.lo, self.rv.hi)
        self.root = sel(ex.harr(st, RT), m)
        self.hgt = hgt if hgt is not None else named(ex, ex.garr(st, 'hgt'))
        self.mem_a = self._mem()

    def _mem(self):
        """the set of nodes of the model, as a constant defined by its members"""
        ex = self.ex
        key = ('mem', self.K.get_id(), self.NM.get_id(), self.dom.get_id(), self.map.get_id(), self.rv.arr.get_id(), z3.simplify(self.rv.hi).get_id())
        hit = ex.gcache.get(key)
        if hit is not None:
            return hit[0]
        a = z3.Const(fresh_name('mem'), Ab)
        x = z3.Int('x!mem')
        ex.axioms.append(z3.ForAll([x], sel(a, x) == self.mem_def(x), patterns=[z3.Select(a, x)]))
        ex.gcache[key] = (a, self.K, self.NM, self.dom, self.map, self.rv.arr, self.rv.hi)
        return a

    def mem_def(self, x):
        ex = self.ex
        return z3.And(x > 0, z3.Or(z3.And(sel(self.K, x) == FEA(ex), sel(self.dom, sel(self.NM, x)), sel(self.map, sel(self.NM, x)) == x),
                                   z3.And(sel(self.K, x) == REL(ex), RMEM(self.rv.arr, self.rv.lo, self.rv.hi, x))))

    def mem(self, x):
        return sel(self.mem_a, x)

    def par(self, x):
        return sel(self.PA, x)

    def kind(self, x):
        return sel(self.K, x)

    def edge(self, r, c):
        return sel(sel(self.ED, r), c)

    def isf(self, x):
        return self.kind(x) == FEA(self.ex)

    def isr(self, x):
        return self.kind(x) == REL(self.ex)

    def get(self, name):
        """feature of that name, 0 if there is none"""
        return z3.If(sel(self.dom, name), sel(self.map, name), I(0))

    def low(self):
        """size bounds: the tree is less than 2^30 levels high, fewer than 2^62 relationships"""
        c = z3.Int('c!low')
        return z3.And(self.rv.hi - self.rv.lo < (1 << 62),
                      z3.ForAll([c], z3.Implies(self.mem(c), sel(self.hgt, c) < (1 << 30)), patterns=[z3.Select(self.mem_a, c)]))

    # ------------------------------------------------------------ well-formedness
    def wf(self, below=None):
        """below: the edges to nodes that are not below that height may be missing"""
        ex, st = self.ex, self.st
        s = z3.String('n!wf')
        i, r, c = z3.Ints('i!wf r!wf c!wf')
        rv = self.rv
        f = sel(self.map, s)
        p = self.par(c)
        e = sel(rv.arr, i)
        # features are stored under their own names
        w1 = z3.ForAll([s], z3.Implies(sel(self.dom, s), z3.And(f > 0, f < st.next, self.isf(f), sel(self.NM, f) == s)), patterns=[z3.Select(self.dom, s)])
        # relationships are stored once
        w2 = z3.ForAll([i], z3.Implies(z3.And(i >= rv.lo, i < rv.hi), z3.And(e > 0, e < st.next, self.isr(e), RMEM(rv.arr, rv.lo, rv.hi, e), IDX(rv.arr, rv.lo, rv.hi, e) == i)),
                       patterns=[z3.Select(rv.arr, i)])
        # an edge leads to a node of the model that knows its parent
        w3 = z3.ForAll([r, c], z3.Implies(z3.And(self.mem(r), self.edge(r, c)), z3.And(self.mem(c), p == r, r != 0)),
                       patterns=[z3.Select(z3.Select(self.ED, r), c)])
        # a parent is a node of the model with an edge to the child; no cycles; groups hang below features
        w4 = z3.ForAll([c], z3.Implies(z3.And(self.mem(c), p != 0), z3.And(self.mem(p), self.edge(p, c) if below is None else z3.Implies(sel(self.hgt, c) < below, self.edge(p, c)), sel(self.hgt, c) < sel(self.hgt, p),
                                                                       z3.Or(self.isf(c), self.isf(p)))), patterns=[z3.Select(self.mem_a, c), z3.Select(self.PA, c)])
        w5 = z3.ForAll([c], z3.Implies(self.mem(c), z3.And(c > 0, c < st.next, sel(self.hgt, c) >= 0, z3.Implies(self.isr(c), p != 0))),
                       patterns=[z3.Select(self.mem_a, c)])
        # the root is the one node without parent
        w6 = z3.Implies(self.root != 0, z3.And(self.mem(self.root), self.isf(self.root), self.par(self.root) == 0))
        w7 = z3.ForAll([c], z3.Implies(z3.And(self.root != 0, self.mem(c), p == 0), c == self.root), patterns=[z3.Select(self.mem_a, c)])
        names = ['features are stored under their names', 'relationships are stored once', 'edges lead to members that know their parent',
                 'parents are members with an edge to the child, above it, and features above groups', 'members are live nodes, groups have parents',
                 'the root is a member feature without parent', 'no other member lacks a parent']
        return [rv.lo <= rv.hi] + [ng(n, w) for n, w in zip(names, [w1, w2, w3, w4, w5, w6, w7])]


def pre(c, i=0):
    return View(c.ex, c.st0, c.ref(i))


def post(c, i=0):
    return View(c.ex, c.st1, c.ref(i))


def at(L, i=0):
    """model at a loop head"""
    return View(L.ex, L.st1, L.ref(i))


def member_fields(ex, cls):
    return [k for k, _, _ in ex.prog.all_fields(ex.prog.types[cls])]


def fld(v, n):
    return next(x for k, x in v.fields.items() if k.split('::')[-1] == n)


def by_type(v, pred):
    """the only field of a value whose type satisfies pred"""
    raise Unsupported('unused')


def varref(c, v, var):
    """what a (name | node) variant designates in model view v: 0 if nothing"""
    return z3.If(var.idx == 0, v.get(var.vals[0]), var.vals[1].ref)


def resok(c):
    """(is it a value, the value, the error) of a returned Result"""
    if getattr(c, 'noresult', False):
        return None, None, None
    w = fld(c.ret, 'Variant')

    def inner(x):
        if isinstance(x, Struct):
            return next(iter(x.fields.values())) if x.fields else None
        return x
    return w.idx == 0, inner(w.vals[0]), inner(w.vals[1])


def err(c, n):
    for nm, v in c.ex.prog.enums[NS + 'FTErrorCode']:
        if nm == n:
            return I(v)
    raise Unsupported('no error code ' + n)


# ------------------------------------------------------------------ lemmas about subtrees
class Shape:
    """arbitrary parent, kind, membership and height arrays of a forest"""

    def __init__(self, P, par=None, k=None, mem=None, hgt=None, fea=None, rel=None):
        self.par = par if par is not None else z3.Const('par!L', Ar)
        self.k = k if k is not None else z3.Const('kind!L', Ar)
        self.m = mem if mem is not None else z3.Const('mem!L', Ab)
        self.h = hgt if hgt is not None else z3.Const('hgt!L', Ar)
        e = dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])
        self.fea, self.rel = I(e['NK_FEATURE']), I(e['NK_RELATIONSHIP'])

    def p(self, x):
        return sel(self.par, x)

    def ok(self, *xs):
        """what well-formedness says about nodes xs"""
        return [z3.Implies(sel(self.m, c), z3.And(c > 0, z3.Or(sel(self.k, c) == self.fea, sel(self.k, c) == self.rel),
                                                  z3.Implies(self.p(c) != 0, z3.And(sel(self.m, self.p(c)), sel(self.h, c) < sel(self.h, self.p(c)),
                                                                                    z3.Or(sel(self.k, c) == self.fea, sel(self.k, self.p(c)) == self.fea)))))
                for c in xs]

    def childf(self, f, e):
        p = self.p(e)
        return z3.And(sel(self.m, e), sel(self.k, e) == self.fea, p != 0, z3.Or(p == f, z3.And(sel(self.k, p) == self.rel, self.p(p) == f)))

    def top(self, f, x):
        return TOP(self.par, self.k, f, x)

    def topdef(self, f, x):
        p = self.p(x)
        return self.top(f, x) == z3.If(z3.Or(p == f, z3.And(p != 0, sel(self.k, p) == self.rel, self.p(p) == f)), x, self.top(f, p))

    # statements
    def up(self, c, x):
        return z3.Implies(sel(self.m, x), z3.And(sel(self.m, c), sel(self.h, x) <= sel(self.h, c)))

    def split(self, f, x):
        t = self.top(f, x)
        return z3.Implies(z3.And(f > 0, sel(self.m, x)), z3.Or(x == f, z3.And(sel(self.k, x) == self.rel, self.p(x) == f, t == x),
                                                              z3.And(self.childf(f, t), SUBT(self.par, t, x))))

    def via(self, f, c, x):
        return z3.Implies(z3.And(f > 0, sel(self.m, x), self.childf(f, c)), self.top(f, x) == c)

    def below(self, f, c, x):
        return z3.Implies(z3.And(f > 0, self.childf(f, c)), SUBT(self.par, f, x))

    def instances(self, f=None):
        """the lemmas, for these arrays (which must come from a well-formed model)"""
        c, x = z3.Ints('c!in x!in')
        out = [z3.ForAll([c, x], z3.Implies(SUBT(self.par, c, x), self.up(c, x)), patterns=[z3.MultiPattern(SUBT(self.par, c, x), z3.Select(self.m, x))]),
               z3.ForAll([c, x], subt_def(self.par, c, x), patterns=[z3.MultiPattern(SUBT(self.par, c, x), z3.Select(self.par, x))])]
        if f is not None:
            out += [z3.ForAll([x], z3.Implies(SUBT(self.par, f, x), self.split(f, x)), patterns=[z3.MultiPattern(SUBT(self.par, f, x), z3.Select(self.m, x))]),
                    z3.ForAll([c, x], z3.Implies(SUBT(self.par, c, x), z3.And(self.via(f, c, x), self.below(f, c, x))), patterns=[SUBT(self.par, c, x)])]
        return out


def shape_of(v):
    return Shape(v.ex.prog, v.PA, v.K, v.mem_a, v.hgt)


def subtree_lemmas():
    """induction over the least fixpoint defining subtree(c, x)"""
    from runner import Lemma
    f, c, x = z3.Ints('f!L c!L x!L')

    def rule(stmt, extra):
        def parts(P):
            s = Shape(P)
            y = s.p(x)
            q = stmt(s)
            hy = lambda e: [subt_def(s.par, a, b) for a, b in e] 
            base = extra(s) + s.ok(x, c, f, s.p(c), s.p(f), s.p(s.p(c))) + [x == c]
            step = extra(s) + s.ok(x, y, c, f, s.p(c), s.p(f), s.p(s.p(c))) + [x != c, y != 0, SUBT(s.par, c, y), q(y), subt_def(s.par, c, x), SUBT(s.par, c, x)]
            return [('base case', base, q(x)), ('induction step', step, q(x))]
        return parts
    up = rule(lambda s: (lambda e: s.up(c, e)), lambda s: [])
    below = rule(lambda s: (lambda e: s.below(f, c, e)),
                 lambda s: [subt_def(s.par, f, c), subt_def(s.par, f, f), subt_def(s.par, f, x), subt_def(s.par, f, s.p(c))])
    split = rule(lambda s: (lambda e: z3.Implies(c == f, s.split(f, e))),
                 lambda s: [s.topdef(f, x), subt_def(s.par, s.top(f, s.p(x)), x), subt_def(s.par, x, x)])
    # uses lemma 'up' for c above its own parent
    via = rule(lambda s: (lambda e: s.via(f, c, e)),
               lambda s: [s.topdef(f, x), subt_def(s.par, c, s.p(x)), subt_def(s.par, c, f), subt_def(s.par, c, s.p(s.p(x)))] +
               [z3.Implies(SUBT(s.par, c, e), s.up(c, e)) for e in (f, x, s.p(x), s.p(s.p(x)))])
    return [Lemma('subtree: ancestors are members and higher', up), Lemma('subtree: a subtree lies in the subtree of what is above', below),
            Lemma('subtree: what is below f is below one of its features', split), Lemma('subtree: that feature is unique', via)]
