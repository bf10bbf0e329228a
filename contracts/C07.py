"""C07: every modification of a feature model keeps its tree well formed and changes exactly what it is meant to change."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel
from runner import Group
import fm
from fm import *
from ex import named_goal as ng

FTN = NS + 'FeatureTreeNode'


def targ(f):
    """class a function template is instantiated with"""
    for x in f.get('targs', []):
        if x is not None and not isinstance(x, dict):
            return x.qn.split('::')[-1]
    return ''


def gm(c):
    """the model a node-level function is reasoned about (ghost parameter)"""
    u = c.ex.unit_contract
    if u is not None and getattr(u, 'has_model', False):
        a = c.ex.unit_args[0] if hasattr(c.ex, 'unit_args') else c.args_v[0]
        return a.base
    own = getattr(u, 'model_of', None)
    if own is not None:
        return own(c.ex)
    return z3.Int('model!ghost')


def gv(c):
    """that model, with the heights the caller can show (ghost parameter)"""
    u = c.ex.unit_contract
    h = getattr(u, 'heights', None)
    return View(c.ex, c.st0, gm(c), h(c.ex) if h else None)


def mk(*a, heights=None, **k):
    c = Contract(*a, **k)
    c.has_model = True
    c.heights = heights
    return c


def same(c, keys, cond):
    """nothing changes when cond holds"""
    out = []
    x = z3.Int('x!same')
    for k in keys:
        a0, a1 = c.heap0(k), c.heap(k)
        if not a0.eq(a1):
            a1 = named(c.ex, a1)
            out.append(z3.Implies(cond, z3.ForAll([x], z3.Implies(z3.And(x > 0, x < c.st0.next), sel(a1, x) == sel(a0, x)), patterns=[z3.Select(a1, x)])))
    return out


def all_(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats])


def both(cls, **k):
    """the modification itself and exec(), through which transactions run it"""
    e = {a: b for a, b in k.items() if a not in ('loops', 'decreases')}
    return [mk(D + cls + '::operator()', **k), mk(D + cls + '::exec', **e)]


x, y, r = z3.Ints('x!c7 y!c7 r!c7')


# ------------------------------------------------------------------ children
def childf(v, n, e):
    """e is a feature directly below n or in a group of n"""
    return z3.And(v.mem(e), v.isf(e), z3.Or(v.par(e) == n, z3.And(v.par(e) != 0, v.isr(v.par(e)), v.par(v.par(e)) == n)))


def kids(c, T, n, depth, s0, s1):
    v = gv(c)
    s0, s1 = named(c.ex, s0), named(c.ex, s1)
    if T == 'Feature':
        return [all_([x], sel(s1, x) == z3.Or(sel(s0, x), z3.And(v.mem(x), v.isf(x), z3.Or(
            z3.And(depth != 0, v.par(x) == n),
            z3.And(depth != 0, depth != 1, v.par(x) != 0, v.isr(v.par(x)), v.par(v.par(x)) == n)))), z3.Select(s1, x), z3.Select(v.mem_a, x))]
    if T == 'Relationship':
        direct = lambda e: z3.And(v.mem(e), v.isr(e), v.par(e) == n)
        nofea = z3.Not(z3.Exists([y], z3.And(v.mem(y), v.isf(y), v.par(y) == n)))
        return [all_([x], z3.Implies(sel(s0, x), sel(s1, x)), z3.Select(s1, x)),
                z3.Implies(depth != 0, all_([x], z3.Implies(direct(x), sel(s1, x)), z3.Select(s1, x), z3.Select(v.mem_a, x))),
                all_([x], z3.Implies(sel(s1, x), z3.Or(sel(s0, x), z3.And(v.mem(x), v.isr(x), depth != 0))), z3.Select(s1, x)),
                z3.Implies(z3.Or(depth == 1, depth == 0, nofea), all_([x], z3.Implies(sel(s1, x), z3.Or(sel(s0, x), z3.And(direct(x), depth != 0))), z3.Select(s1, x)))]
    return [all_([x], sel(s1, x) == z3.Or(sel(s0, x), z3.And(depth != 0, v.mem(x), v.par(x) == n)), z3.Select(s1, x), z3.Select(v.mem_a, x))]


def node_req(c, n, depth):
    v = gv(c)
    return v.wf(below=sel(v.hgt, n)) + [v.mem(n), depth - sel(v.hgt, n) > -(1 << 31)]


def children_contracts():
    out = []

    def setp(ex, st, i, t):
        if i != 1:
            return None
        v = ex.ty.fresh(t.to, 'FS')
        return PPtr(ex.newcell(st, t.to, v))

    def cellset(c, i, pst):
        a = c.args_v[i]
        lv = a.lv if isinstance(a, PPtr) else a
        v = c.ex.load(c.st1 if pst else c.st0, lv)
        if isinstance(v, PPtr):
            v = c.ex.load(c.st1 if pst else c.st0, v.lv)
        return v.arr
    for T in ('Feature', 'Relationship', 'FeatureTreeNode'):
        def inv(L, T=T):
            v = View(L.ex, L.ex.unit_st0, gm(L))
            a = L.args_v[1]
            s0 = L.ex.load(L.ex.unit_st0, a.lv).arr
            n, d = L.ref(0), L.arg(2)
            s0, s1, done = named(L.ex, s0), named(L.ex, L.ex.load(L.st1, a.lv).arr), named(L.ex, L.done)
            if T == 'Feature':
                return [all_([x], sel(s1, x) == z3.Or(sel(s0, x), z3.And(v.mem(x), v.isf(x), z3.Or(
                    z3.And(v.par(x) == n, sel(done, x)),
                    z3.And(d != 1, v.par(x) != 0, sel(done, v.par(x)), v.isr(v.par(x)))))), z3.Select(s1, x), z3.Select(v.mem_a, x))]
            if T == 'Relationship':
                direct = lambda e: z3.And(v.mem(e), v.isr(e), v.par(e) == n)
                nofea = z3.Not(z3.Exists([y], z3.And(v.mem(y), v.isf(y), v.par(y) == n)))
                return [all_([x], z3.Implies(sel(s0, x), sel(s1, x)), z3.Select(s1, x)),
                        all_([x], z3.Implies(z3.And(direct(x), sel(done, x)), sel(s1, x)), z3.Select(s1, x), z3.Select(v.mem_a, x)),
                        all_([x], z3.Implies(sel(s1, x), z3.Or(sel(s0, x), z3.And(v.mem(x), v.isr(x)))), z3.Select(s1, x)),
                        z3.Implies(z3.Or(d == 1, nofea), all_([x], z3.Implies(sel(s1, x), z3.Or(sel(s0, x), direct(x))), z3.Select(s1, x)))]
            return [all_([x], sel(s1, x) == z3.Or(sel(s0, x), sel(done, x)), z3.Select(s1, x), z3.Select(v.mem_a, x))]
        out.append(Contract(FTN + '::getChildrenImpl', pred=lambda f, T=T: targ(f) == T, name=FTN + '::getChildrenImpl<%s>' % T, setup=setp,
                            requires=lambda c: node_req(c, c.ref(0), c.arg(2)), modifies_args=(1,), loops=[Loop(inv)],
                            decreases=lambda c: sel(c.g0('hgt'), c.ref(0)), axioms=vec_axioms(),
                            ensures=lambda c, T=T: kids(c, T, c.ref(0), c.arg(2), cellset(c, 1, False), cellset(c, 1, True))))
        out.append(Contract(FTN + '::getChildren', pred=lambda f, T=T: targ(f) == T, name=FTN + '::getChildren<%s>' % T,
                            requires=lambda c: node_req(c, c.this, c.arg(0)), axioms=vec_axioms(),
                            ensures=lambda c, T=T: kids(c, T, c.this, c.arg(0), z3.K(z3.IntSort(), FALSE), c.ret.arr)))
    return out


# ------------------------------------------------------------------ modifications
def fresh_node(c, v, p):
    return [p > 0, z3.Not(v.mem(p)), v.isf(p), v.par(p) == 0, z3.Not(z3.Exists([x], v.edge(p, x)))]


def ptr_ok(v, var, feature=True):
    p = var.vals[1].ref
    return z3.Implies(var.idx == 1, z3.Or(p == 0, z3.And(v.mem(p), v.isf(p)) if feature else v.mem(p)))


def outcome(c, cases):
    """[(condition, error name or None)] in order of precedence"""
    ok, val, er = resok(c)
    out = []
    if ok is None:
        return out
    prev = FALSE
    for cond, e in cases:
        here = z3.And(z3.Not(prev), cond)
        out.append(z3.Implies(here, ok if e is None else z3.And(z3.Not(ok), er == err(c, e))))
        prev = z3.Or(prev, cond)
    return out


KEEP = [PA, ED, FS, RL, RT]


def add_feature():
    def parts(c):
        v = pre(c)
        t = c.thisval()
        p, q = fld(t, 'NewFeature').ref, fld(t, 'Parent').ref
        tgt = named(c.ex, z3.If(q != 0, q, v.root))
        p = named(c.ex, p)
        return v, p, q, tgt, sel(v.dom, sel(v.NM, p))

    def req(c):
        v, p, q, tgt, dup = parts(c)
        return v.wf() + [v.low()] + fresh_node(c, v, p) + [z3.Or(q == 0, z3.And(v.mem(q), v.isf(q)))]

    def ens(c):
        v, p, q, tgt, dup = parts(c)
        w = post(c)
        ok, val, er = resok(c)
        return w.wf() + outcome(c, [(dup, 'ALREADY_PRESENT'), (TRUE, None)]) + same(c, KEEP, dup) + [
            z3.Implies(ok, z3.And(TRUE if val is None else val.ref == p, w.par(p) == tgt)),
            z3.Implies(ok, all_([x], w.mem(x) == z3.Or(v.mem(x), x == p), z3.Select(w.mem_a, x))),
            z3.Implies(z3.And(ok, tgt != 0), all_([x], w.edge(tgt, x) == z3.Or(v.edge(tgt, x), x == p), z3.Select(z3.Select(w.ED, tgt), x)))]

    def gh(c):
        v, p, q, tgt, dup = parts(c)
        return [('hgt', None, lambda e: z3.If(dup, sel(v.hgt, e), z3.If(e == p, I(0), z3.If(v.mem(e), sel(v.hgt, e) + 1, sel(v.hgt, e)))))]

    def mod(c):
        v, p, q, tgt, dup = parts(c)
        m = c.ref(0)
        return {PA: lambda e: e == p, ED: lambda e: e == tgt, FS: lambda e: e == m, 'hgt': lambda e: z3.Or(v.mem(e), e == p)}
    return both('AddFeatureToModel', requires=req, ensures=ens, ghost=gh, modifies=mod, modifies_args=('this',), axioms=vec_axioms())


def add_relationship():
    def parts(c):
        v = pre(c)
        t = c.thisval()
        return v, named(c.ex, varref(c, v, fld(t, 'Parent'))), fld(t, 'Kind')

    def req(c):
        v, p, k = parts(c)
        return v.wf() + [v.low(), ptr_ok(v, fld(c.thisval(), 'Parent'))]

    def moved(v, p, e):
        return z3.And(v.mem(e), v.isf(e), v.par(e) == p)

    def ens(c):
        v, p, k = parts(c)
        w = post(c)
        ok, val, er = resok(c)
        facts = lambda n: [z3.And(n >= c.st0.next, w.mem(n), w.isr(n), w.par(n) == p, sel(c.heap(NS + 'Relationship::Kind'), n) == k),
                           all_([x], z3.Implies(x != n, w.mem(x) == v.mem(x)), z3.Select(w.mem_a, x)),
                           all_([x], z3.Implies(v.mem(x), w.par(x) == z3.If(moved(v, p, x), n, v.par(x))), z3.Select(w.PA, x))]
        out = w.wf() + outcome(c, [(p == 0, 'MISSING_PARENT'), (TRUE, None)]) + same(c, KEEP, p == 0)
        if val is not None:
            return out + [z3.Implies(ok, e) for e in facts(val.ref)]
        return out + [z3.Implies(ok, z3.Exists([y], z3.And(*facts(y)), patterns=[z3.Select(w.mem_a, y)]))]

    def inv(L):
        v = View(L.ex, L.ex.unit_st0, L.ref(0))
        w, e = at(L), View(L.ex, L.st_entry, L.ref(0))
        p = named(L.ex, varref(L, v, fld(L.thisval(), 'Parent')))
        n = named(L.ex, L.vt(lambda t: t.k == 'ptr' and t.to.qn == NS + 'Relationship').ref)
        L.done = named(L.ex, L.done)
        return [all_([x], w.par(x) == z3.If(sel(L.done, x), n, e.par(x)), z3.Select(w.PA, x)),
                all_([x], w.edge(n, x) == sel(L.done, x), z3.Select(z3.Select(w.ED, n), x)),
                all_([x], w.edge(p, x) == z3.Or(x == n, z3.And(v.edge(p, x), z3.Not(sel(L.done, x)))), z3.Select(z3.Select(w.ED, p), x)),
                all_([x], z3.Implies(z3.And(x != n, x != p), sel(w.ED, x) == sel(e.ED, x)), z3.Select(w.ED, x))]

    def heights(ex):
        """the new group moves in between its parent and what was below it"""
        hit = ex.gcache.get('heights')
        if hit is None:
            from ex import Ctx
            c = Ctx(ex, ex.unit_st0, ex.unit_st0, ex.unit_this, ex.unit_args)
            v, p, k = parts(c)
            hit = z3.Const(fresh_name('hgt'), v.hgt.sort())
            ex.axioms.append(all_([x], sel(hit, x) == z3.If(x >= c.st0.next, sel(v.hgt, p), z3.If(z3.And(v.mem(x), sel(v.hgt, x) >= sel(v.hgt, p)), sel(v.hgt, x) + 1, sel(v.hgt, x))),
                                  z3.Select(hit, x)))
            ex.gcache['heights'] = hit
        return hit

    def gh(c):
        v, p, k = parts(c)
        h = heights(c.ex)
        return [('hgt', None, lambda e: z3.If(p == 0, sel(v.hgt, e), sel(h, e)))]

    def mod(c):
        v, p, k = parts(c)
        m = c.ref(0)
        d = {key: (lambda e: FALSE) for key in member_fields(c.ex, NS + 'Relationship')}
        d.update({PA: lambda e: moved(v, p, e), ED: lambda e: e == p, RL: lambda e: e == m, 'hgt': lambda e: v.mem(e)})
        return d
    return both('AddRelationshipToModel', requires=req, ensures=ens, ghost=gh, modifies=mod, modifies_args=('this',), axioms=vec_axioms(),
              loops=[Loop(inv)], heights=heights)


def remove_feature():
    def parts(c):
        v = pre(c)
        t = c.thisval()
        f = named(c.ex, varref(c, v, fld(t, 'GroupRoot')))
        return v, f, fld(t, 'Recursive')

    def sub(v, f, e):
        return SUBT(v.PA, f, e)

    def req(c):
        v, f, rec = parts(c)
        ls = shape_of(v).instances(f)      # proved below, for any well-formed model
        for l in ls:
            c.st0.assume(l)
        return v.wf() + [v.low(), ptr_ok(v, fld(c.thisval(), 'GroupRoot'))]

    def hasf(v, f):
        return z3.Exists([y], childf(v, f, y))

    def ens(c):
        v, f, rec = parts(c)
        w = post(c)
        ok, val, er = resok(c)
        stay = z3.Or(f == 0, z3.And(z3.Not(rec), hasf(v, f)))
        return outcome(c, [(f == 0, 'MISSING_FEATURE'), (z3.And(z3.Not(rec), hasf(v, f)), 'NON_LEAF_NODE'), (TRUE, None)]) + same(c, KEEP, stay) + [
            z3.Implies(z3.Not(stay), all_([x], w.mem(x) == z3.And(v.mem(x), z3.Not(sub(v, f, x))), z3.Select(w.mem_a, x), z3.Select(v.mem_a, x))),
            z3.Implies(z3.Not(stay), w.root == z3.If(v.root == f, I(0), v.root)), w.rv.hi - w.rv.lo <= v.rv.hi - v.rv.lo] + w.wf()

    def entry(L):
        from ex import Ctx
        return parts(Ctx(L.ex, L.ex.unit_st0, L.ex.unit_st0, L.ex.unit_this, L.ex.unit_args))

    def inv1(L):
        v, f, rec = entry(L)
        w = at(L)
        done = named(L.ex, L.done)
        t = TOP(v.PA, v.K, f, x)
        return [w.root == v.root, w.rv.hi - w.rv.lo <= v.rv.hi - v.rv.lo,
                ng('the subtrees of the visited children are gone', all_([x], w.mem(x) == z3.And(v.mem(x), z3.Not(z3.And(sub(v, f, x), x != f, sel(done, t)))),
                                                                         z3.Select(w.mem_a, x), z3.Select(v.mem_a, x)))] + w.wf()

    def inv2(L):
        v, f, rec = entry(L)
        w, e = at(L), View(L.ex, L.st_entry, L.ref(0))
        done = named(L.ex, L.done)
        return [w.root == v.root, w.rv.hi - w.rv.lo <= v.rv.hi - v.rv.lo, all_([x], w.mem(x) == z3.And(e.mem(x), z3.Not(sel(done, x))), z3.Select(w.mem_a, x), z3.Select(e.mem_a, x))]+ w.wf()

    def mod(c):
        v, f, rec = parts(c)
        m = c.ref(0)
        one = lambda e: e == m
        return {ED: lambda e: z3.And(f != 0, z3.Or(e == v.par(f), sub(v, f, e))), FS: one, RL: one, RT: one}
    return both('RemoveFeatureFromModel', requires=req, ensures=ens, modifies=mod, modifies_args=('this',), axioms=vec_axioms(),
              loops=[Loop(inv1, match=0), Loop(inv2, match=1), Loop(inv2, match=2)], decreases=lambda c: sel(c.g0('hgt'), parts(c)[1]))


def remove_relationship():
    def parts(c):
        v = pre(c)
        return v, named(c.ex, varref(c, v, fld(c.thisval(), 'Parent')))

    def direct(v, p, e):
        return z3.And(v.mem(e), v.isr(e), v.par(e) == p)

    def req(c):
        v, p = parts(c)
        return v.wf() + [v.low(), ptr_ok(v, fld(c.thisval(), 'Parent'))]

    def ens(c):
        v, p = parts(c)
        w = post(c)
        none = z3.Not(z3.Exists([y], direct(v, p, y)))
        stay = z3.Or(p == 0, none)
        gone = lambda n: z3.And(direct(v, p, n), all_([x], w.mem(x) == z3.And(v.mem(x), x != n), z3.Select(w.mem_a, x), z3.Select(v.mem_a, x)),
                                all_([x], z3.Implies(w.mem(x), w.par(x) == z3.If(v.par(x) == n, p, v.par(x))), z3.Select(w.PA, x)))
        return outcome(c, [(p == 0, 'MISSING_PARENT'), (none, 'MISSING_CHILD'), (TRUE, None)]) + same(c, KEEP, stay) + [
            ng('one group of the parent is gone, its members belong to the parent', z3.Implies(z3.Not(stay), z3.Exists([y], gone(y), patterns=[z3.Select(v.mem_a, y)]))),
            w.root == v.root] + w.wf()

    def inv(L):
        v = View(L.ex, L.ex.unit_st0, L.ref(0))
        w = at(L)
        p = named(L.ex, varref(L, v, fld(L.thisval(), 'Parent')))
        n = named(L.ex, L.vt(lambda t: t.k == 'ptr' and t.to.qn == NS + 'Relationship').ref)
        done = named(L.ex, L.done)
        return [all_([x], w.par(x) == z3.If(sel(done, x), p, v.par(x)), z3.Select(w.PA, x)),
                all_([x], w.edge(n, x) == z3.And(v.edge(n, x), z3.Not(sel(done, x))), z3.Select(z3.Select(w.ED, n), x)),
                all_([x], w.edge(p, x) == z3.Or(sel(done, x), z3.And(v.edge(p, x), x != n)), z3.Select(z3.Select(w.ED, p), x)),
                all_([x], z3.Implies(z3.And(x != n, x != p), sel(w.ED, x) == sel(v.ED, x)), z3.Select(w.ED, x))]

    def mod(c):
        v, p = parts(c)
        m = c.ref(0)
        return {PA: lambda e: z3.And(v.mem(e), v.par(e) != 0, direct(v, p, v.par(e))), ED: lambda e: z3.And(p != 0, z3.Or(e == p, direct(v, p, e))), RL: lambda e: e == m}
    return both('RemoveRelationshipFromModel', requires=req, ensures=ens, modifies=mod, modifies_args=('this',), axioms=vec_axioms(), loops=[Loop(inv)])


def add_child():
    def parts(c):
        v = pre(c)
        t = c.thisval()
        return v, named(c.ex, varref(c, v, fld(t, 'Child'))), named(c.ex, varref(c, v, fld(t, 'Parent')))

    def req(c):
        v, n, p = parts(c)
        for l in shape_of(v).instances():
            c.st0.assume(l)
        return v.wf() + [v.low(), ptr_ok(v, fld(c.thisval(), 'Child'), False), ptr_ok(v, fld(c.thisval(), 'Parent'), False),
                         z3.Implies(z3.And(n != 0, p != 0), z3.Or(v.isf(n), v.isf(p)))]      # groups hang below features

    def ens(c):
        v, n, p = parts(c)
        w = post(c)
        cyc = SUBT(v.PA, n, p)
        stay = z3.Or(n == 0, p == 0, cyc)
        return outcome(c, [(n == 0, 'MISSING_CHILD'), (p == 0, 'MISSING_PARENT'), (cyc, 'RECURSIVE_EDGE'), (TRUE, None)]) + same(c, KEEP, stay) + [
            w.root == v.root,
            ng('only the parent of the child changes', z3.Implies(z3.Not(stay), all_([x], w.par(x) == z3.If(x == n, p, v.par(x)), z3.Select(w.PA, x)))),
            ng('no node is added or removed', all_([x], w.mem(x) == v.mem(x), z3.Select(w.mem_a, x)))] + w.wf()

    def inv(L):
        from ex import Ctx
        v, n, p = parts(Ctx(L.ex, L.ex.unit_st0, L.ex.unit_st0, L.ex.unit_this, L.ex.unit_args))
        k = L.v('N').ref
        return [z3.Or(k == 0, v.mem(k)), SUBT(v.PA, n, p) == z3.And(k != 0, SUBT(v.PA, n, k)), z3.Implies(z3.And(k == 0, v.root != 0), n != v.root)]

    def gh(c):
        v, n, p = parts(c)
        stay = z3.Or(n == 0, p == 0, SUBT(v.PA, n, p))
        return [('hgt', None, lambda e: z3.If(z3.Or(stay, z3.Not(v.mem(e)), SUBT(v.PA, n, e)), sel(v.hgt, e), sel(v.hgt, e) + sel(v.hgt, n) + 1))]

    def mod(c):
        v, n, p = parts(c)
        return {PA: lambda e: z3.And(n != 0, e == n), ED: lambda e: z3.And(n != 0, p != 0, z3.Or(e == p, e == v.par(n))), 'hgt': lambda e: v.mem(e)}
    return both('AddChild', requires=req, ensures=ens, ghost=gh, modifies=mod, modifies_args=('this',), axioms=vec_axioms(), loops=[Loop(inv)])


def set_root():
    def parts(c):
        v = pre(c)
        p = named(c.ex, fld(c.thisval(), 'Root').ref)
        nm = sel(v.NM, p)
        same_name = z3.And(v.root != 0, sel(v.NM, v.root) == nm)
        return v, p, same_name, z3.And(z3.Not(same_name), sel(v.dom, nm))

    def req(c):
        v, p, sm, dup = parts(c)
        fk = dict(c.ex.prog.enums[NS + 'Feature::FeatureKind'])
        kd = lambda e: sel(c.heap0(NS + 'Feature::Kind'), e) == fk['FK_ROOT']
        return v.wf() + [v.low()] + fresh_node(c, v, p) + [kd(p), z3.Implies(v.root != 0, kd(v.root)),
            z3.Implies(v.root == 0, all_([x], z3.Implies(v.mem(x), v.par(x) != 0), z3.Select(v.mem_a, x)))]

    def ens(c):
        v, p, sm, dup = parts(c)
        w = post(c)
        ok, val, er = resok(c)
        stay = z3.Or(sm, dup)
        return outcome(c, [(dup, 'ALREADY_PRESENT'), (TRUE, None)]) + same(c, KEEP, stay) + [
            z3.Implies(ok, z3.And(TRUE if val is None else val.ref == w.root, w.root == z3.If(sm, v.root, p))),
            z3.Implies(z3.Not(stay), all_([x], w.mem(x) == z3.Or(x == p, z3.And(v.mem(x), x != v.root)), z3.Select(w.mem_a, x), z3.Select(v.mem_a, x))),
            z3.Implies(z3.Not(stay), all_([x], z3.Implies(w.mem(x), w.par(x) == z3.If(x == p, I(0), z3.If(v.par(x) == v.root, p, v.par(x)))), z3.Select(w.PA, x)))] + w.wf()

    def entry(L):
        from ex import Ctx
        return parts(Ctx(L.ex, L.ex.unit_st0, L.ex.unit_st0, L.ex.unit_this, L.ex.unit_args))

    def quiet(L):
        v = entry(L)[0]
        w = at(L)
        return [all_([x], w.par(x) == v.par(x), z3.Select(w.PA, x)), all_([x], sel(w.ED, x) == sel(v.ED, x), z3.Select(w.ED, x))]

    def inv1(L):
        v, p, sm, dup = entry(L)
        w = at(L)
        done = named(L.ex, L.done)
        return [all_([x], w.par(x) == z3.If(sel(done, x), p, v.par(x)), z3.Select(w.PA, x)),
                all_([x], w.edge(p, x) == sel(done, x), z3.Select(z3.Select(w.ED, p), x)),
                all_([x], z3.Implies(x != p, sel(w.ED, x) == sel(v.ED, x)), z3.Select(w.ED, x))]

    def inv2(L):
        v, p, sm, dup = entry(L)
        w, e = at(L), View(L.ex, L.st_entry, L.ref(0))
        done = named(L.ex, L.done)
        return [all_([x], w.par(x) == e.par(x), z3.Select(w.PA, x)),
                all_([x], w.edge(v.root, x) == z3.And(e.edge(v.root, x), z3.Not(sel(done, x))), z3.Select(z3.Select(w.ED, v.root), x)),
                all_([x], z3.Implies(x != v.root, sel(w.ED, x) == sel(e.ED, x)), z3.Select(w.ED, x))]

    def gh(c):
        v, p, sm, dup = parts(c)
        return [('hgt', None, lambda e: z3.If(z3.And(z3.Not(sm), z3.Not(dup), e == p), z3.If(v.root == 0, I(0), sel(v.hgt, v.root)), sel(v.hgt, e)))]

    def mod(c):
        v, p, sm, dup = parts(c)
        m = c.ref(0)
        return {PA: lambda e: z3.Or(e == p, z3.And(v.root != 0, v.mem(e), v.par(e) == v.root)), ED: lambda e: z3.Or(e == p, z3.And(e != 0, e == v.root)),
                FS: lambda e: e == m, RT: lambda e: e == m, 'hgt': lambda e: e == p}
    return both('SetRoot', requires=req, ensures=ens, ghost=gh, modifies=mod, modifies_args=('this',), axioms=vec_axioms(),
              loops=[Loop(quiet, match=0), Loop(quiet, match=1), Loop(inv1, match=2), Loop(inv2, match=3)])


def setter(cls, key, arg):
    """a metadata modification replaces one string"""
    def ens(c):
        ok, val, er = resok(c)
        return ([] if ok is None else [ok]) + [sel(c.heap(key), c.ref(0)) == fld(c.thisval(), arg)]
    return both(cls, ensures=ens, modifies=lambda c: {key: lambda e: e == c.ref(0)}, modifies_args=('this',))


# ------------------------------------------------------------------ locations
FSR = NS + 'FeatureSourceRange'
SVEQ = z3.Function('same_strings', z3.ArraySort(z3.IntSort(), z3.StringSort()), z3.IntSort(), z3.IntSort(),
                   z3.ArraySort(z3.IntSort(), z3.StringSort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())


def loc_axioms():
    a, b = z3.Const('a!sv', SVEQ.domain(0)), z3.Const('b!sv', SVEQ.domain(0))
    i, l, h, m, k = z3.Ints('i!sv l!sv h!sv m!sv k!sv')
    return [z3.ForAll([a, l, h, b, m, k], SVEQ(a, l, h, b, m, k) == z3.And(h - l == k - m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < h - l), sel(a, l + i) == sel(b, m + i)))),
                      patterns=[SVEQ(a, l, h, b, m, k)])]


def opt_eq(a, b, eq):
    return z3.And(a.has == b.has, z3.Implies(a.has, eq(a.val, b.val)))


def line_col_eq(a, b):
    return z3.And(*[x == y for x, y in zip(a.fields.values(), b.fields.values())])


def member_eq(a, b):
    p, q = fld(a, 'Class'), fld(b, 'Class')
    return z3.And(fld(a, 'Member') == fld(b, 'Member'), SVEQ(p.arr, p.lo, p.hi, q.arr, q.lo, q.hi))


def loc_eq(a, b):
    """same category, path, start, end and member offset"""
    return z3.And(fld(a, 'CategoryKind') == fld(b, 'CategoryKind'), fld(a, 'Path') == fld(b, 'Path'),
                  opt_eq(fld(a, 'Start'), fld(b, 'Start'), line_col_eq), opt_eq(fld(a, 'End'), fld(b, 'End'), line_col_eq),
                  opt_eq(fld(a, 'MemberOffset'), fld(b, 'MemberOffset'), member_eq))


def loc_equalities():
    def eq(qn, f):
        return Contract(qn + '::operator==', ensures=lambda c: [c.ret == f(c.thisval(), c.arg(0))], result=lambda c: f(c.thisval(), c.arg(0)),
                        allocates=False, axioms=loc_axioms())
    return [eq(FSR + '::FeatureMemberOffset', member_eq), eq(FSR + '::FeatureSourceLocation', line_col_eq), eq(FSR, loc_eq)]


def locations(v, st, e):
    return v.ex.ty.dec(v.ex.field_type(LO), z3.simplify(sel(v.ex.harr(st, LO), e)))


def location(cls, add):
    def parts(c):
        v = pre(c)
        t = c.thisval()
        return v, named(c.ex, varref(c, v, fld(t, 'F'))), fld(t, 'FSR')

    def req(c):
        v, f, loc = parts(c)
        a = locations(v, c.st0, f)
        return v.wf() + [ptr_ok(v, fld(c.thisval(), 'F')), a.hi - a.lo < (1 << 62)]

    def ens(c):
        v, f, loc = parts(c)
        a, b = locations(v, c.st0, f), locations(v, c.st1, f)
        la, lb = named(c.ex, a.arr), named(c.ex, b.arr)
        out = outcome(c, [(f == 0, 'MISSING_FEATURE'), (TRUE, None)])
        n = a.hi - a.lo
        if add:
            return out + [z3.Implies(f != 0, z3.And(b.hi - b.lo == n + 1, sel(lb, b.hi - 1) == v.ex.ty.enc(a.et, loc))),
                          z3.Implies(f != 0, all_([x], z3.Implies(z3.And(x >= b.lo, x < b.hi - 1), sel(lb, x) == sel(la, x - b.lo + a.lo)), z3.Select(lb, x)))]
        hit = lambda i: loc_eq(v.ex.ty.dec(a.et, sel(la, i)), loc)
        inr = lambda i: z3.And(i >= a.lo, i < a.hi)
        first = lambda i: z3.And(inr(i), hit(i), all_([y], z3.Implies(z3.And(y >= a.lo, y < i), z3.Not(hit(y))), z3.Select(la, y)))
        none = all_([x], z3.Implies(inr(x), z3.Not(hit(x))), z3.Select(la, x))
        kept = all_([x], z3.Implies(z3.And(x >= b.lo, x < b.hi), sel(lb, x) == sel(la, x - b.lo + a.lo)), z3.Select(lb, x))
        return out + [z3.Implies(z3.And(f != 0, none), z3.And(b.hi - b.lo == n, kept)),
                      z3.Implies(f != 0, all_([r], z3.Implies(first(r), z3.And(b.hi - b.lo == n - 1, all_([x], z3.Implies(z3.And(x >= b.lo, x < b.hi), sel(lb, x) == sel(
                          la, z3.If(x - b.lo + a.lo < r, x - b.lo + a.lo, x - b.lo + a.lo + 1))), z3.Select(lb, x)))), z3.Select(la, r)))]

    def mod(c):
        v, f, loc = parts(c)
        return {LO: lambda e: z3.And(f != 0, e == f)}
    return both(cls, requires=req, ensures=ens, modifies=mod, modifies_args=('this',), axioms=vec_axioms() + loc_axioms())


def groups(P):
    g = lambda n, cs, units=None: Group(n, cs, units=units, setup=fm.ghosts, objects=fm.OBJECTS)
    ch = children_contracts()
    mods = sum([f() for f in (add_feature, add_relationship, remove_feature, remove_relationship, add_child, set_root)], [])
    meta = setter('SetName', fm.MN, 'Name') + setter('SetCommit', fm.MC, 'Commit') + setter('SetPath', fm.MP, 'Path')
    locs = location('AddLocationToFeature', True) + location('RemoveLocationFromFeature', False)
    leq = loc_equalities()
    return [Group('lemmas', [], lemmas=subtree_lemmas()), g('children', ch), g('modifications', ch + mods, units=mods),
            g('metadata', meta), g('location equality', leq), g('locations', leq + locs, units=locs)]


HARNESS = 'c07'
ASSUMPTIONS = ['memory release is not modelled: a removed node is no longer a member, but reading it is not an error for the verifier (the harness runs under ASan)',
               'trees are less than 2^30 levels high, with fewer than 2^62 groups and locations per feature',
               'termination of the ancestor loop of AddChild is not proved']
