"""Verification of one contract: every obligation of one function."""
import time
import traceback
import z3
from values import *
from ex import Exec, Contract, Loop, Ctx, I, TRUE, FALSE, sel, lex_lt, Obligation
import solve
from models import M
import z3m  # noqa: registers models


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = 'ok'        # ok | unsupported | missing | error
        self.reason = None
        self.paths = 0
        self.vacuous = False
        self.models_used = set()
        self.inlined = set()
        self.assumed_used = set()
        self.called = set()
        self.secs = 0.0
        self.where = None

    @property
    def failed(self):
        return [o for o in self.obls if o.verdict in ('refuted', 'unknown')]

    @property
    def timeouts(self):
        return [o for o in self.obls if o.verdict == 'timeout']

    @property
    def proved(self):
        return [o for o in self.obls if o.verdict == 'proved']


def unit_decls(prog, contract):
    """[(name, decl, dynamic class or None)] the functions a contract covers"""
    if not contract.virtual:
        ds = [d for d in prog.fn(contract.qn, contract.pred) if d.get('mine')]
        return [(contract.name, d, None) for d in ds]
    cls, meth = contract.qn.rsplit('::', 1)
    out = []
    for t in prog.subclasses(cls):
        r = prog.record(t)
        for m in _virtuals(prog, t):
            if m['n'] != meth:
                continue
            if contract.pred is not None and not contract.pred(prog.functions.get(m['usr']) or m):
                continue
            d = prog.functions.get(m['usr'])
            if d is None or not d.get('body'):
                continue      # abstract here
            if r.get('abstract'):
                continue
            out.append(('%s [%s]' % (contract.name, t.qn), d, t))
    return out


def _virtuals(prog, t):
    """final overriders visible in class t, by name+signature"""
    seen, out = set(), []
    for b in [t] + prog.bases(t):
        r = prog.record(b)
        for m in (r or {}).get('virtuals', []):
            key = (m['n'], m.get('sig'))
            if key in seen:
                continue
            seen.add(key)
            out.append(m)
    return out


def verify_unit(prog, types, contracts, contract, spec_setup=None, decl=None, this_t=None, name=None):
    """-> UnitResult"""
    t0 = time.time()
    name = name or contract.name
    res = UnitResult(name)
    d = decl
    res.where = '%s:%s' % (d.get('file'), d.get('line'))
    ex = Exec(prog, types, contracts, M)
    if spec_setup:
        spec_setup(ex)
    try:
        run_unit(ex, contract, d, res, this_t)
    except Unsupported as u:
        res.status = 'unsupported'
        res.reason = str(u)
    except RecursionError:
        res.status = 'unsupported'
        res.reason = 'recursion limit in the verifier'
    except z3.Z3Exception as e:
        res.status = 'error'
        res.reason = 'z3: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except Exception as e:    # noqa
        res.status = 'error'
        res.reason = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])
    res.obls = ex.obls
    res.models_used = ex.models_used
    res.inlined = ex.inlined
    res.assumed_used = ex.assumed_used
    res.called = ex.called_contracts
    res.secs = time.time() - t0
    return res


def run_unit(ex, c, d, res, this_t=None):
    ex.fn_under = res.name
    ex.unit_contract = c
    ex.unit_decl = d
    ex.loopspecs = c.loops
    ex.safety = c.safety
    ex.axioms = list(ex.axioms) + list(c.axioms)
    st = State()
    st.next = z3.Int('next0')
    st.assume(st.next >= 1)
    fr = Frame({}, None, d)
    st.frames.append(fr)
    cls = d.get('cls')
    isctor = bool(d.get('ctor'))
    this = None
    if cls is not None and not d.get('static'):
        if ex.ty.is_object(cls):
            if isctor:
                r = st.next
                st.next = z3.simplify(r + 1)
                this = Ptr(r, cls)
                st.ghost[('dyn', z3.simplify(r).get_id())] = (cls, r)
            else:
                r = z3.Int('this')
                st.assume(r > 0, r < st.next)
                this = Ptr(r, this_t or cls)
                if this_t is not None:
                    st.ghost[('dyn', r.get_id())] = (this_t, r)
        else:
            if isctor:
                v = Struct(cls, {k: None for k, _, _ in ex.prog.all_fields(cls)})
            elif c.setup_this is not None:
                v = c.setup_this(ex, st, cls)
            else:
                v = ex.ty.fresh(cls, 'this')
                st.assume(*ex.ty.facts(cls, v, st.next))
            this = PPtr(ex.newcell(st, cls, v))
    fr.this = this
    args = []
    for i, p in enumerate(d['params']):
        t = p['t']
        ex.varnames[p['id']] = p['n']
        a = None
        if c.setup is not None:
            a = c.setup(ex, st, i, t)
        if a is not None:
            fr.env[p['id']] = a if isinstance(a, LV) else ex.var_lv(st, t.deref(), a)
            args.append(a)
            continue
        if t.k in ('ref', 'rref') and ex.ty.is_object(t.to):
            r = z3.Int('a%d' % i)
            st.assume(r > 0, r < st.next)
            lv = LV('heap', r, t.to, (), t.to)
            fr.env[p['id']] = lv
            args.append(lv)
            continue
        if t.k in ('ref', 'rref'):
            v = ex.ty.fresh(t.to, p['n'] or 'a%d' % i)
            st.assume(*ex.ty.facts(t.to, v, st.next))
            lv = ex.newcell(st, t.to, v)
            fr.env[p['id']] = lv
            args.append(lv)
        else:
            v = ex.ty.fresh(t, p['n'] or 'a%d' % i)
            st.assume(*ex.ty.facts(t, v, st.next))
            if isinstance(v, ObjRef):
                fr.env[p['id']] = LV('heap', v.ref, t, (), t)
            else:
                fr.env[p['id']] = ex.newcell(st, t, v)
            args.append(v)
    st0 = st.copy()
    ex.unit_st0, ex.unit_this, ex.unit_args = st0, this, args
    cx = Ctx(ex, st0, st0, this, args, None, d)
    reqs = list(c.requires(cx))
    if this_t is not None and c.this_inv is not None:
        reqs += list(c.this_inv(cx, this_t))
    for g in reqs:
        st.assume(g)
        st0.assume(g)
    for f in st0.pc:
        st.assume(f)
    # reachability of the precondition
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*[p for p in st.pc])
    r = solve.check(s)
    if r == z3.unsat:
        res.vacuous = True
        res.status = 'error'
        res.reason = 'vacuous: the precondition is unsatisfiable'
        return
    if isctor:
        st.frames.pop()
        ends = [(q, ('ret', VOID)) for q, _ in _run_ctor(ex, st, d, cls, this, args)]
    else:
        ends = ex.run(st, d['body'])
    nlive = 0
    for q, ctl in ends:
        if not solve.feasible(q.pc, None, 1000):
            continue
        nlive += 1
        rv = VOID
        if ctl and ctl[0] == 'ret':
            rv = ctl[1]
        if isinstance(rv, LV) and d['ret'].k not in ('ref', 'rref'):
            rv = ex.load(q, rv)
        cx = Ctx(ex, st0, q, this, args, rv, d)
        if c.ghost:
            for key, ref, v in c.ghost(cx):
                if ref is None:
                    # whole-array ghost assignment: v maps an index to its new value
                    old = ex.garr(q, key)
                    new = z3.Const(fresh_name('G!' + key), old.sort())
                    x = z3.Const('x!ga', old.sort().domain())
                    q.assume(z3.ForAll([x], z3.Select(new, x) == v(x), patterns=[z3.Select(new, x)]))
                    q.ghost[key] = new
                    continue
                q.ghost[key] = z3.Store(ex.garr(q, key), ref, v)
        q0 = q.copy()
        post = list(c.ensures(cx))
        for i, g in enumerate(post):
            ex.check(q, g, 'postcondition %d' % i, d.get('endline'))
        # frame
        mod = c.modifies(Ctx(ex, st0, st0, this, args, None, d))
        for key in set(list(q.heap) + [k for k in q.ghost if isinstance(k, str)]):
            isg = key in ex.ghost_sorts
            a0 = ex.garr(st0, key) if isg else ex.harr(st0, key)
            a1 = ex.garr(q, key) if isg else ex.harr(q, key)
            if a0.eq(a1):
                continue
            cond = mod.get(key)
            if cond is True:
                continue
            r = z3.Int(fresh_name('fr'))
            lim = st0.next
            if cond is None:
                # not in the modifies clause: callers assume the whole array is unchanged
                ex.check(q, sel(a1, r) == sel(a0, r), 'frame: %s does not change' % key, d.get('endline'))
                continue
            ex.check(q, z3.Implies(z3.And(r > 0, r < lim, z3.Not(cond(r))), sel(a1, r) == sel(a0, r)),
                     'frame: only the specified objects change in %s' % key, d.get('endline'))
        for i, a in enumerate(args):
            if isinstance(a, PPtr):
                a = a.lv
            if isinstance(a, LV) and a.kind == 'cell' and i not in c.modifies_args:
                v0, v1 = st0.cells.get(a.base), q.cells.get(a.base)
                if v0 is not None and v0 is not v1 and not ex.val_eq(v0, v1):
                    pt = d['params'][i]['t']
                    if pt.k == 'rref':
                        continue
                    ex.check(q, ex.ty.enc(a.t, v0) == ex.ty.enc(a.t, v1), 'frame: argument %d is unchanged' % i, d.get('endline'))
        if isinstance(this, PPtr) and not isctor and 'this' not in c.modifies_args:
            v0, v1 = st0.cells[this.lv.base], q.cells[this.lv.base]
            if v0 is not v1 and not ex.val_eq(v0, v1):
                ex.check(q, ex.ty.enc(cls, v0) == ex.ty.enc(cls, v1), 'frame: the receiver is unchanged', d.get('endline'))
    res.paths += nlive
    if nlive == 0:
        res.vacuous = True
        res.status = 'error'
        res.reason = 'vacuous: no path reaches the end of the function'


def _run_ctor(ex, st, d, cls, this, args):
    return ex.run_ctor_body(st, d, cls, this, args)
