"""C08: transactions queue or apply exactly the modifications they are asked for, and committing reports what happened."""
import z3
from values import *
import ex as EX
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
from runner import Group
import fm
from fm import *
import C07
from C07 import all_, resok, err, D
import C24

FMM = D + 'FeatureModelModification'
TX = NS + 'FeatureModelTransaction'
i, j = z3.Ints('i!c8 j!c8')


def mode(m):
    return lambda f: f.get('cls') is not None and f['cls'].targs and f['cls'].targs[0].qn.endswith(m + 'TransactionMode')


MOD = mode('Modify')
COPY = mode('Copy')
# modification class -> fields
FIELDS = {'AddFeatureToModel': ['NewFeature', 'Parent'], 'RemoveFeatureFromModel': ['GroupRoot', 'Recursive'], 'AddRelationshipToModel': ['Kind', 'Parent'],
          'RemoveRelationshipFromModel': ['Parent'], 'AddLocationToFeature': ['F', 'FSR'], 'RemoveLocationFromFeature': ['F', 'FSR'],
          'SetName': ['Name'], 'SetCommit': ['Commit'], 'SetPath': ['Path'], 'SetRoot': ['Root'], 'AddChild': ['Child', 'Parent'], 'AddConstraintToModel': ['NewConstraint']}


def setup(ex):
    fm.ghosts(ex)
    ex.ghost_sorts.update({'log': N_, 'logok': B_, 'logerr': N_, 'logn': N_})
    for k in keys(ex.prog):
        ex.ghost_sorts['at:' + k] = ex.heap_sort(k)
    ex.track_class = True


def setup_copy(ex):
    fm.ghosts(ex)
    ex.ghost_sorts.update({'ac': N_, 'cloned': N_})


def keys(P):
    out = []
    for c, fs in FIELDS.items():
        if c == 'AddConstraintToModel':
            continue
        have = [k for k, _, _ in P.all_fields(P.types[D + c])]
        for f in fs:
            if D + c + '::' + f not in have:
                raise Unsupported('modification %s has no field %s' % (c, f))
        out += [k for k in have]
    return out


def model_keys(ex):
    ks = []
    for c in (NS + 'FeatureModel', NS + 'Feature', NS + 'Relationship', NS + 'NumericFeature'):
        ks += member_fields(ex, c)
    return list(dict.fromkeys(ks + ['hgt']))


class Fake:
    def __init__(self, **fields):
        self.fields = fields


class CopyCtx:
    """a call on a copy transaction, seen as a call of a modification on the transaction's own model"""

    def __init__(self, c, fields):
        self.c, self.noresult = c, c.f is not None and c.f['ret'].s == 'void'
        self.fields = fields

    def __getattr__(self, n):
        return getattr(self.c, n)

    def ref(self, i):
        assert i == 0
        return fld(self.c.thisval(), 'FM').ref

    def thisval(self, post=False):
        return Fake(**self.fields(self.c))


def copy_contracts(P):
    def own(c):
        return View(c.ex, c.st0, fld(c.thisval(), 'FM').ref)

    def byname(c, p):
        v = own(c)
        return named(c.ex, z3.If(p == 0, I(0), v.get(sel(v.NM, p))))

    def tf(c, var):
        """the own feature a name or a feature of another model stands for"""
        v = own(c)
        return named(c.ex, z3.If(var.idx == 0, v.get(var.vals[0]), z3.If(var.vals[1].ref == 0, I(0), v.get(sel(v.NM, var.vals[1].ref)))))

    def tvar(c, var):
        return Variant(var.ts, I(1), [var.vals[0], Ptr(tf(c, var), None)])
    A = lambda n: (lambda c: c.arg(n))
    T = lambda n: (lambda c: tvar(c, c.arg(n)))

    def apply(name, cls, base, fields, also=lambda c: []):
        f = lambda c: {k: a(c) for k, a in fields.items()}
        W = lambda c: CopyCtx(c, f)
        isop = lambda v: z3.And(fld(v, 'Continue'), fld(v, 'FM').ref != 0)

        def req(c):
            w = W(c)
            return [isop(c.thisval())] + list(base.requires(w)) + also(c)

        def ens(c):
            v0, v1 = c.thisval(), c.thisval(True)
            return [fld(v1, 'FM').ref == fld(v0, 'FM').ref, fld(v1, 'Continue') == fld(v0, 'Continue')] + list(base.ensures(W(c)))
        k = Contract(TX + '::' + name, pred=COPY, name=TX + '<Copy>::' + name, requires=req, ensures=ens, modifies=lambda c: base.modifies(W(c)),
                     modifies_args=('this',), axioms=base.axioms)
        k.has_model = False
        return k
    add, rel, rem, rmr, chd, root = [f() for f in (C07.add_feature, C07.add_relationship, C07.remove_feature, C07.remove_relationship, C07.add_child, C07.set_root)]
    al, rl = C07.location('AddLocationToFeature', True), C07.location('RemoveLocationFromFeature', False)
    sn, sc, sp = C07.setter('SetName', fm.MN, 'Name'), C07.setter('SetCommit', fm.MC, 'Commit'), C07.setter('SetPath', fm.MP, 'Path')
    live = lambda n: (lambda c: [z3.Implies(c.arg(n).idx == 1, z3.Or(c.arg(n).vals[1].ref == 0, sel(c.heap0(NK), c.arg(n).vals[1].ref) == FEA(c.ex)))])
    units = [apply('addFeature', 'AddFeatureToModel', add[0], {'NewFeature': A(0), 'Parent': lambda c: Ptr(byname(c, c.ref(1)), None)}),
             apply('removeFeature', 'RemoveFeatureFromModel', rem[0], {'GroupRoot': T(0), 'Recursive': A(1)}, live(0)),
             apply('addRelationship', 'AddRelationshipToModel', rel[0], {'Kind': A(0), 'Parent': T(1)}, live(1)),
             apply('removeRelationship', 'RemoveRelationshipFromModel', rmr[0], {'Parent': T(0)}, live(0)),
             apply('addLocation', 'AddLocationToFeature', al[0], {'F': T(0), 'FSR': A(1)}, live(0)),
             apply('removeLocation', 'RemoveLocationFromFeature', rl[0], {'F': T(0), 'FSR': A(1)}, live(0)),
             apply('setName', 'SetName', sn[0], {'Name': A(0)}), apply('setCommit', 'SetCommit', sc[0], {'Commit': A(0)}), apply('setPath', 'SetPath', sp[0], {'Path': A(0)}),
             apply('setRoot', 'SetRoot', root[0], {'Root': A(0)})]
    # moving a child: which own nodes the passed ones stand for is observed where the modification runs
    RK = NS + 'Relationship::Kind'

    def stands_for(c, var, r):
        v = own(c)
        n = var.vals[1].ref
        p0 = v.par(n)
        p = named(c.ex, v.get(sel(v.NM, p0)))
        y = z3.Int('y!sf')
        rk = named(c.ex, c.heap0(RK))
        grp = lambda e: z3.And(v.mem(e), v.isr(e), v.par(e) == p, sel(rk, e) == sel(rk, n))
        isg = z3.If(z3.Or(p0 == 0, z3.Not(v.isf(p0)), p == 0), r == 0, z3.If(v.edge(p, n), r == n, z3.Or(grp(r), z3.And(r == 0, all_([y], z3.Not(grp(y)), z3.Select(v.mem_a, y))))))
        return z3.If(var.idx == 0, r == v.get(var.vals[0]), z3.If(n == 0, r == 0, z3.If(v.isf(n), r == v.get(sel(v.NM, n)), isg)))
    import copy
    obs = copy.copy(chd[0])
    obs.ensures = lambda c: list(chd[0].ensures(c)) + [sel(c.g('ac'), k) == varref(c, View(c.ex, c.st0, c.ref(0)), fld(c.thisval(), f)) for k, f in ((0, 'Child'), (1, 'Parent'))] + [
        sel(c.g('ac'), 2) == sel(c.g0('ac'), 2) + 1]
    obs.modifies = lambda c: {**chd[0].modifies(c), 'ac': True}
    isop = lambda v: z3.And(fld(v, 'Continue'), fld(v, 'FM').ref != 0)

    def ch_req(c):
        v = own(c)
        n, p = c.arg(1), c.arg(0)
        ok = lambda a: z3.Implies(a.idx == 1, z3.Or(a.vals[1].ref == 0, v.isf(a.vals[1].ref), v.isr(a.vals[1].ref)))
        isg = lambda a: z3.And(a.idx == 1, v.isr(a.vals[1].ref))
        for l in C07.shape_of(v).instances():
            c.st0.assume(l)
        return [isop(c.thisval())] + v.wf() + [v.low(), ok(n), ok(p), z3.Not(z3.And(isg(n), isg(p)))]

    def ch_ens(c):
        ac = named(c.ex, c.g('ac'))
        v0, v1 = c.thisval(), c.thisval(True)
        var = lambda k: Variant(c.arg(0).ts, I(1), [c.arg(0).vals[0], Ptr(named(c.ex, sel(ac, k)), None)])
        w = CopyCtx(c, lambda c: {'Child': var(0), 'Parent': var(1)})
        return [ng('one child is moved', sel(ac, 2) == sel(c.g0('ac'), 2) + 1), ng('it is the one that was passed', stands_for(c, c.arg(1), sel(ac, 0))),
                ng('below the one that was passed', stands_for(c, c.arg(0), sel(ac, 1))),
                fld(v1, 'FM').ref == fld(v0, 'FM').ref, fld(v1, 'Continue') == fld(v0, 'Continue')] + list(chd[0].ensures(w))

    def ch_mod(c):
        v = own(c)
        return {PA: lambda e: v.mem(e), ED: lambda e: v.mem(e), 'hgt': lambda e: v.mem(e), 'ac': True}

    def ch_inv(L):
        # no group seen so far is of the kind that is looked for
        v = View(L.ex, L.ex.unit_st0, own_model(L.ex))
        RKh = named(L.ex, L.ex.harr(L.ex.unit_st0, RK))
        dn = named(L.ex, L.done)
        kd = L.vt(lambda t: t.k == 'enum' and t.qn == NS + 'Relationship::RelationshipKind')
        x = z3.Int('x!chi')
        return [all_([x], z3.Implies(sel(dn, x), sel(RKh, x) != kd), z3.Select(dn, x))]

    def own_model(ex):
        return fld(EX.Ctx(ex, ex.unit_st0, ex.unit_st0, ex.unit_this, ex.unit_args).thisval(), 'FM').ref
    addc = Contract(TX + '::addChild', pred=COPY, name=TX + '<Copy>::addChild', requires=ch_req, ensures=ch_ens, modifies=ch_mod, modifies_args=('this',), axioms=vec_axioms(),
                    loops=[Loop(ch_inv, match=lambda s: True, fn='*')])
    addc.model_of = own_model
    units.append(addc)
    return units, [x[0] for x in (add, rel, rem, rmr, root, al, rl, sn, sc, sp)] + [obs]


def groups(P):
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    ax = C24.pf_axioms(fea)
    KS = keys(P)

    def mods(v):
        return fld(v, 'Modifications')

    def isopen(v):
        return z3.And(fld(v, 'Continue'), fld(v, 'FM').ref != 0)

    def sorted_(c, st, m):
        a = named(c.ex, m.arr)
        return [m.hi >= m.lo,
                all_([i], z3.Implies(z3.And(i >= m.lo, i < m.hi), z3.And(sel(a, i) > 0, sel(a, i) < st.next)), z3.Select(a, i)),
                all_([i, j], z3.Implies(z3.And(i >= m.lo, i < j, j < m.hi), sel(a, i) < sel(a, j)), (z3.Select(a, i), z3.Select(a, j)))]

    def model_req(c, m, st):
        """the feature map holds features (what the consistency checker relies on)"""
        v = View(c.ex, st, m)
        s = z3.String('s!c8')
        f = sel(v.map, s)
        return z3.And(all_([s], z3.Implies(sel(v.dom, s), z3.And(f > 0, f < st.next, v.isf(f))), z3.Select(v.dom, s)), z3.Implies(v.root != 0, v.isf(v.root)))

    def consistent(c, m, st=None):
        cc = EX.Ctx(c.ex, st or c.st1, st or c.st1, None, [LV('heap', m, c.ex.prog.types[NS + 'FeatureModel'], (), c.ex.prog.types[NS + 'FeatureModel'])])
        v = C24.predicates(cc, P)
        return z3.And(v.one_root(), v.parents(), v.edges())

    # ---------------------------------------------------------------- executing one modification (proved for every class in C07)
    def exec_ens(c):
        ok, val, er = resok(c)
        n = sel(c.g0('logn'), 0)
        out = [sel(c.g('logn'), 0) == n + 1, sel(c.g('log'), n) == c.this, sel(c.g('logok'), n) == ok, sel(c.g('logerr'), n) == er]
        for k in KS:
            out.append(sel(c.g('at:' + k), n) == sel(c.heap0(k), c.this))
        for k in ['log', 'logok', 'logerr'] + ['at:' + k for k in KS]:
            a0, a1 = named(c.ex, c.g0(k)), named(c.ex, c.g(k))
            out.append(all_([i], z3.Implies(i < n, sel(a1, i) == sel(a0, i)), z3.Select(a1, i)))
        return out + [model_req(c, c.ref(0), c.st1)]

    def exec_mod(c):
        d = {k: True for k in model_keys(c.ex) + ['log', 'logok', 'logerr', 'logn'] + ['at:' + k for k in KS]}
        this = c.this
        d.update({k: (lambda r: r == this) for k in KS})
        return d
    execc = Contract(FMM + '::exec', virtual=True, verify=False, assumed=True, requires=lambda c: [sel(c.g0('logn'), 0) >= 0, model_req(c, c.ref(0), c.st0)], modifies=exec_mod, ensures=exec_ens)

    # ---------------------------------------------------------------- queueing
    def queue(name, cls, fields, opened=False, pred=MOD, nth=None):
        def ens(c):
            v0, v1 = c.thisval(), c.thisval(True)
            m0, m1 = mods(v0), mods(v1)
            a0, a1 = named(c.ex, m0.arr), named(c.ex, m1.arr)
            new = sel(a1, m1.hi - 1)
            t = [x for x in c.ex.prog.types.values() if x.k == 'record' and x.qn == D + cls and c.ex.prog.record(x)]
            out = [m1.hi - m1.lo == m0.hi - m0.lo + 1,
                   ng('what was queued stays queued, in order', all_([i], z3.Implies(z3.And(i >= m1.lo, i < m1.hi - 1), sel(a1, i) == sel(a0, i - m1.lo + m0.lo)), z3.Select(a1, i))),
                   ng('the new entry is a ' + cls, z3.And(new >= c.st0.next, new < c.st1.next, z3.Or(*[EX.CLASS(new) == EX.class_id(x) for x in t]))),
                   fld(v1, 'FM').ref == fld(v0, 'FM').ref, fld(v1, 'Continue') == fld(v0, 'Continue')]
            for f, a in fields.items():
                k = next(k for x in t for k, _, _ in c.ex.prog.all_fields(x) if k.split('::')[-1] == f)
                out.append(ng('%s is what was passed' % f, sel(c.heap(k), new) == c.ex.ty.enc(c.ex.field_type(k), a(c))))
            return out + sorted_(c, c.st1, m1)
        return Contract(TX + '::' + name, pred=pred if nth is None else (lambda f: pred(f)), name=TX + '<Modify>::' + name,
                        requires=lambda c: sorted_(c, c.st0, mods(c.thisval())) + ([isopen(c.thisval())] if opened else []),
                        modifies_args=('this',), modifies=lambda c: {k: (lambda r: FALSE) for k in KS + ckeys()}, ensures=ens)

    def ckeys():
        out = []
        for t in P.types.values():
            if t.k == 'record' and t.qn == D + 'AddConstraintToModel' and P.record(t):
                out += [k for k, _, _ in P.all_fields(t)]
        return list(dict.fromkeys(out))
    A = lambda n: (lambda c: c.arg(n))
    Q = [queue('addFeature', 'AddFeatureToModel', {'NewFeature': A(0), 'Parent': A(1)}, True),
         queue('removeFeature', 'RemoveFeatureFromModel', {'GroupRoot': A(0), 'Recursive': A(1)}),
         queue('addRelationship', 'AddRelationshipToModel', {'Kind': A(0), 'Parent': A(1)}),
         queue('removeRelationship', 'RemoveRelationshipFromModel', {'Parent': A(0)}),
         queue('addLocation', 'AddLocationToFeature', {'F': A(0), 'FSR': A(1)}),
         queue('removeLocation', 'RemoveLocationFromFeature', {'F': A(0), 'FSR': A(1)}),
         queue('setName', 'SetName', {'Name': A(0)}, True), queue('setCommit', 'SetCommit', {'Commit': A(0)}, True), queue('setPath', 'SetPath', {'Path': A(0)}, True),
         queue('setRoot', 'SetRoot', {'Root': A(0)}, True), queue('addChild', 'AddChild', {'Child': A(1), 'Parent': A(0)}, True),
         queue('addConstraint', 'AddConstraintToModel', {'NewConstraint': A(0)})]

    # ---------------------------------------------------------------- commit and abort
    def commit_ens(c):
        ok, val, er = resok(c)
        v0, v1 = c.thisval(), c.thisval(True)
        m = mods(v0)
        a = named(c.ex, m.arr)
        n0, n1 = sel(c.g0('logn'), 0), sel(c.g('logn'), 0)
        n, d = m.hi - m.lo, n1 - n0
        opn = isopen(v0)
        log, lok, ler = (named(c.ex, c.g(k)) for k in ('log', 'logok', 'logerr'))
        con = consistent(c, fld(v0, 'FM').ref)
        first = all_([i], z3.Implies(z3.And(i >= n0, i < n1), sel(log, i) == sel(a, i - n0 + m.lo)), z3.Select(log, i))
        succ = lambda hi: all_([i], z3.Implies(z3.And(i >= n0, i < hi), sel(lok, i)), z3.Select(lok, i))
        out = [ng('a closed transaction reports ABORTED and executes nothing', z3.Implies(z3.Not(opn), z3.And(z3.Not(ok), er == err(c, 'ABORTED'), d == 0))),
               ng('the transaction is closed afterwards', z3.Not(isopen(v1))),
               ng('queued modifications are executed in order, once each', z3.Implies(opn, z3.And(d >= 0, d <= n, first))),
               ng('execution stops at the first error', z3.Implies(opn, succ(n1 - 1))),
               ng('success means everything was executed and the model is consistent', z3.Implies(z3.And(opn, ok), z3.And(d == n, succ(n1), con))),
               ng('failure is that of the last executed modification, or inconsistency', z3.Implies(z3.And(opn, z3.Not(ok)), z3.Or(
                   z3.And(d >= 1, z3.Not(sel(lok, n1 - 1)), er == sel(ler, n1 - 1)), z3.And(d == n, succ(n1), z3.Not(con), er == err(c, 'INCONSISTENT')))))]
        for k in KS:
            at = named(c.ex, c.g('at:' + k))
            out.append(ng('each is executed with what it was queued with', z3.Implies(opn, all_([i], z3.Implies(z3.And(i >= n0, i < n1), sel(at, i) == sel(c.heap0(k), sel(a, i - n0 + m.lo))), z3.Select(at, i)))))
        out += log_kept(c)
        x = z3.Int('x!c8')
        for k in model_keys(c.ex):
            a0, a1 = named(c.ex, c.ex.garr(c.st0, k) if k in c.ex.ghost_sorts else c.heap0(k)), named(c.ex, c.ex.garr(c.st1, k) if k in c.ex.ghost_sorts else c.heap(k))
            if not a0.eq(a1):
                out.append(ng('a closed transaction changes nothing', z3.Implies(z3.Not(opn), all_([x], sel(a1, x) == sel(a0, x), z3.Select(a1, x)))))
        return out

    def log_kept(c):
        n0 = sel(c.g0('logn'), 0)
        out = []
        for k in ['log', 'logok', 'logerr'] + ['at:' + k for k in KS]:
            a0, a1 = named(c.ex, c.g0(k)), named(c.ex, c.g(k))
            if not a0.eq(a1):
                out.append(ng('earlier executions stay as they were', all_([i], z3.Implies(i < n0, sel(a1, i) == sel(a0, i)), z3.Select(a1, i))))
        return out

    def commit_req(c):
        v = c.thisval()
        return sorted_(c, c.st0, mods(v)) + [sel(c.g0('logn'), 0) >= 0, z3.Implies(fld(v, 'FM').ref != 0, model_req(c, fld(v, 'FM').ref, c.st0))]

    def commit_inv(L):
        v0 = EX.Ctx(L.ex, L.ex.unit_st0, L.ex.unit_st0, L.ex.unit_this, L.ex.unit_args).thisval()
        m = mods(v0)
        a = named(L.ex, m.arr)
        n0, n = sel(L.ex.garr(L.ex.unit_st0, 'logn'), 0), sel(L.g('logn'), 0)
        log, lok = named(L.ex, L.g('log')), named(L.ex, L.g('logok'))
        out = [n == n0 + L.idx, all_([i], z3.Implies(z3.And(i >= n0, i < n), sel(log, i) == sel(a, i - n0 + m.lo)), z3.Select(log, i)),
               all_([i], z3.Implies(z3.And(i >= n0, i < n), sel(lok, i)), z3.Select(lok, i)), model_req(L, fld(v0, 'FM').ref, L.st1)]
        for k in KS:
            at = named(L.ex, L.g('at:' + k))
            h0, h = L.ex.harr(L.ex.unit_st0, k), named(L.ex, L.ex.harr(L.st1, k))
            out.append(all_([i], z3.Implies(z3.And(i >= n0, i < n), sel(at, i) == sel(h0, sel(a, i - n0 + m.lo))), z3.Select(at, i)))
            out.append(all_([i], z3.Implies(z3.And(i >= m.lo + L.idx, i < m.hi), sel(h, sel(a, i)) == sel(h0, sel(a, i))), z3.Select(a, i)))
        for k in ['log', 'logok', 'logerr'] + ['at:' + k for k in KS]:
            a0, a1 = named(L.ex, L.ex.garr(L.ex.unit_st0, k)), named(L.ex, L.g(k))
            if not a0.eq(a1):
                out.append(all_([i], z3.Implies(i < n0, sel(a1, i) == sel(a0, i)), z3.Select(a1, i)))
        return out

    def commit_mod(c):
        d = {k: True for k in model_keys(c.ex) + ['log', 'logok', 'logerr', 'logn'] + ['at:' + k for k in KS] + KS}
        return d
    commit = Contract(TX + '::commit', pred=MOD, name=TX + '<Modify>::commit', requires=commit_req, modifies=commit_mod, modifies_args=('this',), ensures=commit_ens,
                      loops=[Loop(commit_inv, match=lambda s: True, fn='*')], axioms=ax)
    def dtor_ens(c):
        v0 = c.thisval()
        m = mods(v0)
        a = named(c.ex, m.arr)
        n0, n1 = sel(c.g0('logn'), 0), sel(c.g('logn'), 0)
        log, lok = (named(c.ex, c.g(k)) for k in ('log', 'logok'))
        opn = isopen(v0)
        return [ng('a closed transaction executes nothing', z3.Implies(z3.Not(opn), n1 == n0)),
                ng('an open one is committed', z3.Implies(opn, z3.And(n1 - n0 >= 0, n1 - n0 <= m.hi - m.lo, all_([i], z3.Implies(z3.And(i >= n0, i < n1), sel(log, i) == sel(a, i - n0 + m.lo)), z3.Select(log, i)),
                                                                     z3.Implies(n1 - n0 < m.hi - m.lo, z3.And(n1 > n0, z3.Not(sel(lok, n1 - 1)))))))]
    dtor = Contract(TX + '::~FeatureModelTransaction', pred=MOD, name=TX + '<Modify>::destructor', requires=commit_req, modifies=commit_mod, modifies_args=('this',), ensures=dtor_ens,
                    axioms=ax)
    abort = Contract(TX + '::abort', pred=MOD, name=TX + '<Modify>::abort', modifies_args=('this',),
                     ensures=lambda c: [ng('the transaction is closed afterwards', z3.Not(isopen(c.thisval(True))))])
    openc = Contract(TX + '::openTransaction', pred=MOD, name=TX + '<Modify>::openTransaction', requires=lambda c: [c.ref(0) > 0, model_req(c, c.ref(0), c.st0), consistent(c, c.ref(0), c.st0)], axioms=ax,
                     ensures=lambda c: [isopen(c.ret), fld(c.ret, 'FM').ref == c.ref(0), mods(c.ret).hi == mods(c.ret).lo])

    def once(name, cls, fields):
        """a free function is one transaction of one modification"""
        def ens(c):
            n0 = sel(c.g0('logn'), 0)
            t = [x for x in c.ex.prog.types.values() if x.k == 'record' and x.qn == D + cls and c.ex.prog.record(x)]
            out = [ng('exactly one modification is executed', sel(c.g('logn'), 0) == n0 + 1),
                   ng('it is a ' + cls, z3.Or(*[EX.CLASS(sel(c.g('log'), n0)) == EX.class_id(x) for x in t]))]
            for f, a in fields.items():
                k = D + cls + '::' + f
                out.append(ng('with the %s that was passed' % f, sel(c.g('at:' + k), n0) == c.ex.ty.enc(c.ex.field_type(k), a(c))))
            return out + log_kept(c)
        return Contract(NS + name, requires=lambda c: [c.ref(0) > 0, model_req(c, c.ref(0), c.st0), consistent(c, c.ref(0), c.st0), sel(c.g0('logn'), 0) >= 0], axioms=ax, ensures=ens,
                        modifies=lambda c: {**{k: (lambda r: FALSE) for k in ckeys()}, **commit_mod(c)},
                        modifies_args=tuple(range(1, 4)))
    FREE = [once('addFeature', 'AddFeatureToModel', {'NewFeature': A(1), 'Parent': A(2)}),
            once('removeFeature', 'RemoveFeatureFromModel', {'GroupRoot': A(1), 'Recursive': A(2)}),
            once('addRelationship', 'AddRelationshipToModel', {'Kind': A(2), 'Parent': A(1)}),
            once('removeRelationship', 'RemoveRelationshipFromModel', {'Parent': A(1)}),
            once('setCommit', 'SetCommit', {'Commit': A(1)})]
    KN, KP = D + 'AddFeatureToModel::NewFeature', D + 'AddFeatureToModel::Parent'

    def pair(ex, v, i):
        x = ex.ty.dec(v.et, sel(v.arr, i))
        a, b = x.vals if hasattr(x, 'vals') else x.fields.values()
        return a.ref, b.ref

    def many_ens(c):
        v = c.arg(1)
        n0, n1 = sel(c.g0('logn'), 0), sel(c.g('logn'), 0)
        lok, at = named(c.ex, c.g('logok')), named(c.ex, c.g('at:' + KN))
        p = pair(c.ex, v, i - n0 + v.lo)
        t = c.ex.prog.types[D + 'AddFeatureToModel']
        return [ng('no more modifications than features', z3.And(n1 - n0 >= 0, n1 - n0 <= v.hi - v.lo)),
                ng('each feature is added below its parent, in order', all_([i], z3.Implies(z3.And(i >= n0, i < n1), z3.And(
                    EX.CLASS(sel(c.g('log'), i)) == EX.class_id(t), sel(at, i) == p[0], sel(c.g('at:' + KP), i) == p[1])), z3.Select(at, i))),
                ng('it stops early only at an error', z3.Implies(n1 - n0 < v.hi - v.lo, z3.And(n1 > n0, z3.Not(sel(lok, n1 - 1))))),
                ng('and at the first', all_([i], z3.Implies(z3.And(i >= n0, i < n1 - 1), sel(lok, i)), z3.Select(lok, i)))] + log_kept(c)

    def many_inv(L):
        v = L.ex.load(L.ex.unit_st0, L.args_v[1]) if isinstance(L.args_v[1], LV) else L.args_v[1]
        w = L.v(L.ex.unit_decl['params'][1]['n'])
        tx = L.vt(lambda t: t.k == 'record' and t.qn == TX)
        m = mods(tx)
        a = named(L.ex, m.arr)
        t = L.ex.prog.types[D + 'AddFeatureToModel']
        h0, h1 = named(L.ex, L.ex.harr(L.st1, KN)), named(L.ex, L.ex.harr(L.st1, KP))
        p = pair(L.ex, v, i - m.lo + v.lo)
        wa, va = named(L.ex, w.arr), named(L.ex, v.arr)
        return [isopen(tx), fld(tx, 'FM').ref == L.ref(0), m.hi - m.lo == L.idx, w.lo == v.lo, w.hi == v.hi,
                all_([i], z3.Implies(z3.And(i >= m.lo, i < m.hi), z3.And(EX.CLASS(sel(a, i)) == EX.class_id(t), sel(h0, sel(a, i)) == p[0], sel(h1, sel(a, i)) == p[1])), z3.Select(a, i)),
                all_([i], z3.Implies(z3.And(i >= v.lo + L.idx, i < v.hi), sel(wa, i) == sel(va, i)), z3.Select(wa, i))] + sorted_(L, L.st1, m)
    FREE += [Contract(NS + 'addFeatures', requires=lambda c: [c.ref(0) > 0, model_req(c, c.ref(0), c.st0), consistent(c, c.ref(0), c.st0), sel(c.g0('logn'), 0) >= 0,
                                                               c.arg(1).hi - c.arg(1).lo < (1 << 62)],
                      axioms=ax, ensures=many_ens, loops=[Loop(many_inv)], modifies_args=(1,), modifies=lambda c: {**{k: (lambda r: FALSE) for k in ckeys()}, **commit_mod(c)})]
    C24g = C24.contracts(P)
    # copy mode: opening clones the model, committing hands the clone out
    clone = Contract(NS + 'FeatureModel::clone', verify=False, assumed=True, requires=lambda c: [c.this > 0],
                     ensures=lambda c: [c.ret.ref >= c.st0.next, c.ret.ref < c.st1.next, sel(c.g('cloned'), c.ret.ref) == c.this,
                                        sel(c.g('ac'), 0) == sel(c.g0('ac'), 0) + 1] + [model_req(c, c.ret.ref, c.st1)],
                     modifies=lambda c: {**{k: (lambda r: FALSE) for k in model_keys(c.ex)}, 'cloned': lambda r: FALSE, 'ac': True})

    def cc_ens(c):
        ok, val, er = resok(c)
        v0, v1 = c.thisval(), c.thisval(True)
        m = fld(v0, 'FM').ref
        con = consistent(c, m, c.st0)
        good = z3.And(isopen(v0), con)
        return [ng('an open transaction on a consistent model hands out that model', z3.Implies(good, z3.And(ok, val.ref == m))),
                ng('anything else is ABORTED', z3.Implies(z3.Not(good), z3.And(z3.Not(ok), er == err(c, 'ABORTED')))),
                ng('the transaction is closed afterwards', z3.Not(isopen(v1))),
                ng('and does not keep the model', fld(v1, 'FM').ref == 0)]
    ccommit = Contract(TX + '::commit', pred=COPY, name=TX + '<Copy>::commit', modifies_args=('this',), ensures=cc_ens, axioms=ax,
                       requires=lambda c: [z3.Implies(fld(c.thisval(), 'FM').ref != 0, model_req(c, fld(c.thisval(), 'FM').ref, c.st0))])
    cabort = Contract(TX + '::abort', pred=COPY, name=TX + '<Copy>::abort', modifies_args=('this',),
                      ensures=lambda c: [ng('the transaction is closed afterwards', z3.Not(isopen(c.thisval(True)))), fld(c.thisval(True), 'FM').ref == 0])
    copen = Contract(TX + '::openTransaction', pred=COPY, name=TX + '<Copy>::openTransaction', requires=lambda c: [c.ref(0) > 0, model_req(c, c.ref(0), c.st0), consistent(c, c.ref(0), c.st0)], axioms=ax,
                     modifies=lambda c: {**{k: (lambda r: FALSE) for k in model_keys(c.ex)}, 'cloned': lambda r: FALSE, 'ac': True},
                     ensures=lambda c: [isopen(c.ret), ng('it works on a clone made for it', z3.And(fld(c.ret, 'FM').ref >= c.st0.next, sel(c.g('cloned'), fld(c.ret, 'FM').ref) == c.ref(0)))])
    g = lambda n, cs, units: Group(n, cs, units=units, setup=setup, objects=fm.OBJECTS + [FMM])
    CU, CM = copy_contracts(P)
    gc = lambda n, cs, units: Group(n, cs, units=units, setup=setup_copy, objects=fm.OBJECTS)
    return [gc('copy', C07.children_contracts() + CM + C07.loc_equalities(), CU), gc('copy ends', C24g + [clone, ccommit, cabort, copen], [ccommit, cabort, copen]), g('queue', Q, Q), g('commit', C24g + [execc, commit, abort], [commit, abort]), g('destruction', C24g + [commit, dtor], [dtor]), g('helpers', C24g + Q + [openc, commit], [openc] + FREE)]


HARNESS = 'c08'
ASSUMPTIONS = ['executing a queued modification is taken as one opaque step that may change the model in any way and reports a result (what each modification does is property C07, under its preconditions); the model it leaves is assumed to hold features in its feature map',
               'copy transactions: every call is proved against the C07 contract of its modification, applied to the own model of the transaction; those contracts are assumed here and proved in C07',
               'FeatureModel::clone is assumed to return a newly created model (what it contains is property C10)',
               'addConstraint of copy transactions and removeFeatures of several features are not under contract here',
               'memory release is not modelled']
