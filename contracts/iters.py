"""The iterators of /repo that wrap a container iterator: each operator does what the wrapped one does, seen through the owning pointer."""
import z3
from values import *
from ex import Contract, I, TRUE, FALSE, sel
from runner import Group

NS = 'vara::feature::'


def ptr_of(v):
    return v.ref if hasattr(v, 'ref') else v


def vec_setup(elem):
    """two iterators into the same vector of owning pointers"""
    def wrap(ex, st, cls, pos):
        (k, ft, _), = ex.prog.all_fields(cls)
        return Struct(cls, {k: It('vec', cont(ex, st, cls), pos, None, None, elem(ex, cls))})

    def cont(ex, st, cls):
        hit = ex.gcache.get('iters')
        if hit is None:
            et = elem(ex, cls)
            v = Vec(et, z3.Const('container', z3.ArraySort(z3.IntSort(), ex.ty.sort(et))), I(0), z3.Int('size'))
            st.assume(v.hi >= 0, v.hi < (1 << 62))
            hit = ex.gcache['iters'] = ex.newcell(st, None, v)
        return hit
    return wrap


def map_setup(ft):
    def wrap(ex, st, cls, pos):
        (k, _, _), = ex.prog.all_fields(cls)
        hit = ex.gcache.get('iters')
        if hit is None:
            hit = ex.gcache['iters'] = ex.newcell(st, None, ex.ty.fresh(ft(ex), 'container'))
        p = z3.String(pos)
        e = z3.Bool(pos + '_end')
        st.assume(z3.Implies(z3.Not(e), sel(ex.load(st, hit).dom, p)))
        return Struct(cls, {k: It('map', hit, p, e, None, None)})
    return wrap


def contracts(cls, wrap, pos, deref, same, succ, pred=None):
    this = lambda ex, st, t: wrap(ex, st, t, pos('p'))
    arg = lambda ex, st, i, t: ex.newcell(st, t.to, wrap(ex, st, t.to, pos('q'))) if t.k in ('ref', 'rref') and t.to.qn == cls else None
    it = lambda v: next(iter(v.fields.values()))
    C = lambda op, n, **k: Contract(cls + '::operator' + op, pred=lambda f: len(f['params']) == n, setup_this=this, setup=arg, name='%s::operator%s/%d' % (cls, op, n), **k)
    valid = lambda c: [z3.Not(deref(c, it(c.thisval()))[0])]
    val_ = lambda c: [ptr_of(c.ret) == deref(c, it(c.thisval()))[1]]
    return [C('*', 0, requires=valid, ensures=val_), C('->', 0, requires=valid, ensures=val_),
            C('==', 1, ensures=lambda c: [c.ret == same(it(c.thisval()), it(c.arg(0)))]),
            C('!=', 1, ensures=lambda c: [c.ret == z3.Not(same(it(c.thisval()), it(c.arg(0))))]),
            C('++', 0, requires=valid, modifies_args=('this',),
              ensures=lambda c: [same(it(c.thisval(True)), succ(c, it(c.thisval()))), same(it(c.ret), succ(c, it(c.thisval())))]),
            C('++', 1, requires=valid, modifies_args=('this',),
              ensures=lambda c: [same(it(c.thisval(True)), succ(c, it(c.thisval()))), same(it(c.ret), it(c.thisval()))])]


def unique_iterator():
    def elem(ex, cls):
        return cls.targs[0].deref().targs[0] if cls.targs[0].k in ('ref',) else cls.targs[0].targs[0]

    def deref(c, i):
        v = c.ex.load(c.st0, i.lv)
        x = c.ex.ty.dec(v.et, sel(v.arr, i.pos))
        return z3.Or(i.pos < 0, i.pos >= v.hi), ptr_of(x)
    return contracts('vara::UniqueIterator', vec_setup(elem), z3.Int, deref, lambda a, b: a.pos == b.pos,
                     lambda c, i: It('vec', i.lv, i.pos + 1, None, None, i.et))


def feature_map_iterator():
    def deref(c, i):
        v = c.ex.load(c.st0, i.lv)
        return i.end, ptr_of(c.ex.ty.dec(v.vt, sel(v.arr, i.pos)))

    def succ(c, i):
        v = c.ex.load(c.st0, i.lv)
        k = i.pos.sort()
        return It('map', i.lv, z3.Function('map_next', v.dom.sort(), k, k)(v.dom, i.pos),
                  z3.Function('map_next_end', v.dom.sort(), k, z3.BoolSort())(v.dom, i.pos), None, None)
    same = lambda a, b: z3.And(a.end == b.end, z3.Or(a.end, a.pos == b.pos))
    return contracts(NS + 'FeatureModel::FeatureMapIterator', map_setup(lambda ex: ex.field_type(NS + 'FeatureModel::Features')), lambda s: s, deref, same, succ)


def map_group():
    import fm
    cs = feature_map_iterator()
    return Group('feature map iterator', [], units=cs, setup=fm.ghosts, objects=fm.OBJECTS)


def unique_group():
    import fm
    return Group('unique iterator', [], units=unique_iterator(), setup=fm.ghosts, objects=fm.OBJECTS)
