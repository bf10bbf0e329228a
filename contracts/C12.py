"""C12: iterating over a model visits every feature once, parents first, siblings by name."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
from runner import Group, Lemma
import fm
from fm import *
import C07
from C07 import all_, childf
import models

IT = NS + 'FeatureModel::DFSIterator'
x, y, i, j = z3.Ints('x!c12 y!c12 i!c12 j!c12')
GM = z3.Int('model!ghost')
RANK = models.RANK


def setup(ex):
    fm.ghosts(ex)
    ex.ranked_strings = True


def rank(v, f):
    """place of the lower-case name of f"""
    return RANK(models.LOWER(sel(v.NM, f)))


def above(v, f):
    """the feature above a feature"""
    p = v.par(f)
    return z3.If(z3.And(p != 0, v.isr(p)), v.par(p), p)


class Iter:
    """an iterator: what is to be visited next and later (bottom to top), and what has been visited"""

    def __init__(self, ex, val):
        fs = list(val.fields.values())
        v = next(f for f in fs if isinstance(f, Vec))
        self.s = Vec(v.et, named(ex, v.arr), v.lo, v.hi)
        self.seen = named(ex, next(f for f in fs if isinstance(f, SetV)).arr)

    def at(self, k):
        return sel(self.s.arr, k)

    def inr(self, k):
        return z3.And(k >= self.s.lo, k < self.s.hi)

    @property
    def done(self):
        return self.s.lo >= self.s.hi

    @property
    def top(self):
        return sel(self.s.arr, self.s.hi - 1)

    def pending(self, e):
        return RMEM(self.s.arr, self.s.lo, self.s.hi, e)

    def visited(self, e):
        return sel(self.seen, e)

    def inv(self, v):
        a = self.s.arr
        return [self.s.lo <= self.s.hi,
                ng('what comes are features of the model, once each, not visited before', all_([i], z3.Implies(self.inr(i), z3.And(v.mem(self.at(i)), v.isf(self.at(i)), z3.Not(self.visited(self.at(i))),
                   z3.Or(self.at(i) == v.root, self.visited(above(v, self.at(i)))))), z3.Select(a, i))),
                ng('nothing comes twice', all_([i, j], z3.Implies(z3.And(self.inr(i), self.inr(j), i != j), self.at(i) != self.at(j)), (z3.Select(a, i), z3.Select(a, j)))),
                ng('visited features have been visited after the feature above', all_([x], z3.Implies(self.visited(x), z3.And(v.mem(x), v.isf(x), z3.Or(x == v.root, self.visited(above(v, x))))), z3.Select(self.seen, x))),
                ng('features below visited ones are visited or come', all_([x], z3.Implies(z3.And(v.mem(x), v.isf(x), z3.Or(x == v.root, self.visited(above(v, x)))), z3.Or(self.visited(x), self.pending(x))), z3.Select(v.mem_a, x)))]


def view(c, post=False):
    return View(c.ex, c.st0, GM)


def it(c, post=False):
    return Iter(c.ex, c.thisval(post))


def wf(v):
    return v.wf() + [v.low(), v.root != 0]


def step(v, a, b):
    """b is a after one step"""
    n = a.s.hi - 1
    new = lambda k: z3.And(k >= n, k < b.s.hi)
    below = lambda e: z3.And(v.mem(e), v.isf(e), above(v, e) == a.top, e != a.top)
    return [ng('the feature left is visited, nothing else', all_([x], b.visited(x) == z3.Or(a.visited(x), x == a.top), z3.Select(b.seen, x), z3.Select(a.seen, x))),
            z3.And(b.s.lo == a.s.lo, b.s.hi >= n),
            ng('what came later still comes, after the features below', all_([i], z3.Implies(z3.And(i >= a.s.lo, i < n), b.at(i) == a.at(i)), z3.Select(b.s.arr, i), z3.Select(a.s.arr, i))),
            ng('the features below come next', all_([i], z3.Implies(new(i), below(b.at(i))), z3.Select(b.s.arr, i))),
            ng('siblings come by name', all_([i, j], z3.Implies(z3.And(new(i), new(j), i < j), rank(v, b.at(i)) >= rank(v, b.at(j))), (z3.Select(b.s.arr, i), z3.Select(b.s.arr, j))))]


def isptrset(t):
    return t.k == 'record' and t.qn in SETS


def contracts():
    def requires(c):
        v = view(c)
        return wf(v) + it(c).inv(v)

    def inv(L):
        ex = L.ex
        v = view(L)
        a = Iter(ex, L.thisval())
        if L.kind == 'set':
            c = L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::SmallVector')
            arr = named(ex, c.arr)
            inr = lambda k: z3.And(k >= c.lo, k < c.hi)
            done = named(ex, L.done)
            e = lambda k: sel(arr, k)
            return [c.lo <= c.hi, all_([i], z3.Implies(inr(i), sel(done, e(i))), z3.Select(arr, i)),
                    all_([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.And(e(i) != e(j), rank(v, e(i)) >= rank(v, e(j)))), (z3.Select(arr, i), z3.Select(arr, j))),
                    all_([x], z3.Implies(sel(done, x), RMEM(arr, c.lo, c.hi, x)), z3.Select(done, x))]
        b = Iter(ex, L.thisval(True))
        c = L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::SmallVector')
        arr = named(ex, c.arr)
        n = a.s.hi - 1
        k = L.idx
        return [b.s.lo == a.s.lo, b.s.hi == n + k, all_([i], z3.Implies(z3.And(i >= a.s.lo, i < n), b.at(i) == a.at(i)), z3.Select(b.s.arr, i), z3.Select(a.s.arr, i)),
                all_([i], z3.Implies(z3.And(i >= n, i < b.s.hi), b.at(i) == sel(arr, c.lo + i - n)), z3.Select(b.s.arr, i)),
                all_([i], z3.Implies(z3.And(i >= c.lo, i < c.lo + k), b.at(n + i - c.lo) == sel(arr, i)), z3.Select(arr, i)),
                all_([x], b.visited(x) == z3.Or(a.visited(x), x == a.top), z3.Select(b.seen, x))]

    def ens(c):
        v = view(c)
        a, b = it(c), it(c, True)
        return under(a.done, [b.s.hi == b.s.lo, all_([x], b.visited(x) == a.visited(x), z3.Select(b.seen, x))]) + under(z3.Not(a.done), step(v, a, b)) + b.inv(v)
    inc = Contract(IT + '::operator++', name=IT + '::operator++/0', pred=lambda f: len(f['pt']) == 0, requires=requires, ensures=ens, modifies_args=('this',), axioms=vec_axioms(), loops=[Loop(inv, fn='*', match=lambda s: True)])
    return [inc]


from C15 import under


def others(fea):
    import C24
    ax = vec_axioms() + C24.pf_axioms(fea)
    start = lambda c, b, v: [b.s.lo <= b.s.hi, z3.If(v.root == 0, b.done, z3.And(b.s.hi == b.s.lo + 1, b.top == v.root)), all_([x], z3.Not(b.visited(x)), z3.Select(b.seen, x))]
    pv = lambda c, post=False: View(c.ex, c.st0, c.this)
    ok = lambda c: [z3.Implies(z3.Not(it(c).done), z3.And(it(c).top > 0, it(c).top < c.st0.next))]
    ref = lambda v: v.ref if hasattr(v, 'ref') else v
    C = lambda op, n, **k: Contract(IT + '::operator' + op, name='%s::operator%s/%d' % (IT, op, n), pred=lambda f: len(f['pt']) == n, **k)
    top = lambda c: [ref(c.ret) == z3.If(it(c).done, I(0), it(c).top)]

    def arg(c, i=0, post=False):
        a = c.args_v[i]
        st = c.st1 if post else c.st0
        return Iter(c.ex, c.ex.load(st, a.lv if isinstance(a, PPtr) else a) if isinstance(a, (LV, PPtr)) else a)

    def ctor(c):
        b = Iter(c.ex, c.thisval(True))
        f = c.ref(0)
        return [z3.If(f == 0, b.done, z3.And(b.s.hi == b.s.lo + 1, b.top == f)), b.s.lo <= b.s.hi, all_([x], z3.Not(b.visited(x)), z3.Select(b.seen, x))]

    def same(c):
        a, b = it(c), arg(c)
        nm = named(c.ex, c.heap0(NM))
        low = lambda f: models.LOWER(sel(nm, f))
        return z3.If(z3.Or(a.done, b.done), z3.And(a.done, b.done), low(a.top) == low(b.top))
    tops = lambda c: ok(c) + [z3.Implies(z3.Not(arg(c).done), z3.And(arg(c).top > 0, arg(c).top < c.st0.next))]
    live = lambda c: [c.this > 0]
    root = lambda c: View(c.ex, c.st0, c.this).root
    post_inc = lambda c: (lambda v, a, b, o: [o.s.lo == a.s.lo, o.s.hi == a.s.hi, o.s.arr == a.s.arr, o.seen == a.seen] + under(a.done, [b.done]) + under(z3.Not(a.done), step(v, a, b)) + b.inv(v))(view(c), it(c), it(c, True), Iter(c.ex, c.ret))
    first = [C('*', 0, requires=ok, ensures=top), C('==', 1, requires=tops, ensures=lambda c: [c.ret == same(c)]), C('!=', 1, requires=tops, ensures=lambda c: [c.ret == z3.Not(same(c))])]
    post = C('++', 1, requires=lambda c: wf(view(c)) + it(c).inv(view(c)), modifies_args=('this',), axioms=vec_axioms(), ensures=post_inc)

    def full(c):
        v = View(c.ex, c.st0, c.this)
        return wf(v)
    b = Contract(NS + 'FeatureModel::begin', requires=live, ensures=lambda c: start(c, Iter(c.ex, c.ret), View(c.ex, c.st0, c.this)), axioms=vec_axioms())
    e = Contract(NS + 'FeatureModel::end', requires=full, ensures=lambda c: [Iter(c.ex, c.ret).s.lo <= Iter(c.ex, c.ret).s.hi, Iter(c.ex, c.ret).done], axioms=ax)
    fs = Contract(NS + 'FeatureModel::features', requires=full, axioms=ax,
                  ensures=lambda c: start(c, Iter(c.ex, c.ret.val.a), View(c.ex, c.st0, c.this)) + [Iter(c.ex, c.ret.val.b).done] + Iter(c.ex, c.ret.val.a).inv(View(c.ex, c.st0, c.this)))
    return first, post, b, e, fs


class Tree:
    """arbitrary nodes of a well-formed model (for lemmas)"""

    def __init__(self, P):
        s = fm.Shape(P)
        self.P, self.sh, self.mem_a, self.root = P, s, s.m, z3.Int('root!L')
        self.mem = lambda e: sel(s.m, e)
        self.par = s.p
        self.isf = lambda e: sel(s.k, e) == s.fea
        self.isr = lambda e: sel(s.k, e) == s.rel
        self.hgt = s.h


def exhausted(v, b):
    """an iterator at its end has visited every feature of the model"""
    return z3.Implies(z3.And(b.done, v.root != 0), all_([x], z3.Implies(z3.And(v.mem(x), v.isf(x)), b.visited(x)), z3.Select(v.mem_a, x)))


def end_lemma():
    def parts(P):
        t = Tree(P)
        m, q = z3.Ints('m!L q!L')
        b = Iter.__new__(Iter)
        b.s, b.seen = Vec(None, z3.Const('frontier!L', Ar), z3.Int('lo!L'), z3.Int('hi!L')), z3.Const('visited!L', Ab)
        hyp = t.sh.ok(m, t.par(m)) + [z3.Implies(z3.And(t.mem(m), t.isr(m)), t.par(m) != 0), z3.Implies(z3.And(t.mem(t.par(m)), t.isr(t.par(m))), t.par(t.par(m)) != 0),
                                      z3.Implies(z3.And(t.mem(m), t.par(m) == 0), m == t.root)]
        ih = z3.ForAll([q], z3.Implies(z3.And(t.mem(q), t.isf(q), sel(t.hgt, q) > sel(t.hgt, m)), b.visited(q)), patterns=[z3.Select(t.mem_a, q)])
        return [('features of greater height are visited, so this one is', [b.inv(t)[-1]] + hyp + [b.done, t.root != 0, ih, t.mem(m), t.isf(m)] + vec_axioms(), b.visited(m))]
    return Lemma('an iterator at its end has visited every feature', parts)


def groups(P):
    cs = contracts()
    first, post, b, e, fs = others(I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE']))
    import C24
    ch = [c for c in C07.children_contracts() if c.name.endswith('<Feature>')]
    kids = [c for c in ch if c.name.endswith('getChildren<Feature>')]
    gp = [c for c in C24.contracts(P) if c.qn.endswith('getParentFeature')]
    return [Group('children', ch, units=ch, setup=fm.ghosts, objects=OBJECTS), Group('parent', gp, units=gp, setup=fm.ghosts, objects=OBJECTS), Group('iterator', cs + kids, units=cs, setup=setup, objects=OBJECTS), Group('reading', first, units=first, setup=setup, objects=OBJECTS),
            Group('post-increment', cs + [post], units=[post], setup=setup, objects=OBJECTS),
            Group('range', [b, e, fs] + gp, units=[b, e, fs], setup=setup, objects=OBJECTS), Group('lemma', [], lemmas=[end_lemma()])]


HARNESS = 'c12'
ASSUMPTIONS = ['the lexicographic order of strings is an order of rational numbers (strings over a finite alphabet are countable)',
               'trees are less than 2^30 levels high, with fewer than 2^62 groups',
               'that an iteration ends is the finiteness of the model: every step visits one more feature (proved)']
