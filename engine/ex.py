"""Symbolic execution of the extracted functions against contracts."""
import itertools
import z3
from values import *
import values as V
import solve

I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_cid = itertools.count(1)


_names = {}


def named_goal(name, f):
    """attach a readable name to a clause of a specification"""
    _names[f.get_id()] = (name, f)
    return f


class Obligation:
    def __init__(self, fn, label, verdict, backend, info, secs, line, trace):
        self.fn, self.label, self.verdict = fn, label, verdict
        self.backend, self.info, self.secs, self.line, self.trace = backend, info, secs, line, trace


class Contract:
    """A specification attached to a function of /repo, by qualified name."""

    def __init__(self, qn, requires=None, ensures=None, modifies=None, modifies_args=(), pred=None, ghost=None,
                 loops=(), pure=False, result=None, verify=True, allocates=True, decreases=None, name=None,
                 assumed=False, setup=None, dispatch=None, safety=True, result_facts=True, this_t=None,
                 axioms=(), maxpaths=4000, virtual=False, kinds=None, this_inv=None, setup_this=None, merge=False):
        self.qn = qn
        self.merge = merge          # join the paths after an if statement
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: {})   # heap key -> predicate on ref (or True)
        self.modifies_args = modifies_args
        self.pred = pred
        self.ghost = ghost
        self.loops = list(loops)
        self.pure = pure
        self.result = result
        self.verify = verify
        self.allocates = allocates
        self.decreases = decreases
        self.name = name or qn
        self.assumed = assumed
        self.setup = setup
        self.setup_this = setup_this
        self.dispatch = dispatch
        self.safety = safety
        self.axioms = axioms
        self.this_t = this_t
        self.maxpaths = maxpaths
        self.virtual = virtual      # verify every override of every concrete subclass against this contract
        self.kinds = kinds
        self.this_inv = this_inv    # extra facts about a receiver of dynamic class K


# class of the object with some identity (identities are never reused)
CLASS = z3.Function('class_of', z3.IntSort(), z3.IntSort())
_class_ids = {}


def class_id(t):
    return I(_class_ids.setdefault(t.qn + '/' + t.s, len(_class_ids) + 1))


class Loop:
    """Invariant for a loop.  match: ordinal in its function, or predicate on the AST node."""

    def __init__(self, inv, match=0, fn=None, decreases=None, modifies_heap=None, name=''):
        self.inv, self.match, self.fn, self.decreases = inv, match, fn, decreases
        self.modifies_heap = modifies_heap
        self.name = name


class Ctx:
    """What a contract clause sees: pre-state, post-state, arguments, result."""

    def __init__(self, ex, st0, st1, this, args, ret=None, fdecl=None):
        self.ex, self.st0, self.st1, self.this_v, self.args_v, self.ret_v, self.f = ex, st0, st1, this, args, ret, fdecl

    @property
    def this(self):
        """identity of the receiver (heap objects)"""
        v = self.this_v
        if isinstance(v, Ptr):
            return v.ref
        if isinstance(v, PPtr):
            if v.lv.kind == 'heap' and not v.lv.path:
                return v.lv.base
            raise Unsupported('receiver is a local')
        raise Unsupported('no receiver')

    def thisval(self, post=False):
        """value of the receiver (value classes)"""
        st = self.st1 if post else self.st0
        if isinstance(self.this_v, PPtr):
            return self.ex.load(st, self.this_v.lv)
        t = self.this_v.t
        return self.ex.load(st, LV('heap', self.this_v.ref, t, (), t))

    def tf(self, name, post=False):
        """field of the receiver by unqualified name"""
        v = self.thisval(post)
        return self.sf(v, name)

    def sf(self, v, name):
        """field of a struct value by unqualified name"""
        for k in v.fields:
            if k.split('::')[-1] == name:
                return v.fields[k]
        raise Unsupported('no field %s in %s' % (name, v.t.s))

    def arg(self, i, post=False):
        a = self.args_v[i]
        if isinstance(a, LV):
            return self.ex.load(self.st1 if post else self.st0, a)
        return a

    def ref(self, i):
        """identity of an object argument"""
        a = self.args_v[i]
        if isinstance(a, LV):
            if a.kind == 'heap' and not a.path and self.ex.ty.is_object(a.t):
                return a.base
            a = self.ex.load(self.st0, a)
        if isinstance(a, (Ptr, ObjRef)):
            return a.ref
        raise Unsupported('argument %d is not an object' % i)

    @property
    def ret(self):
        r = self.ret_v
        if isinstance(r, LV):
            return self.ex.load(self.st1, r)
        return r

    @property
    def retref(self):
        r = self.ret_v
        if isinstance(r, LV):
            if r.kind == 'heap' and not r.path:
                return r.base
            r = self.ex.load(self.st1, r)
        if isinstance(r, (Ptr, ObjRef)):
            return r.ref
        raise Unsupported('result is not an object')

    def heap0(self, key):
        return self.ex.harr(self.st0, key)

    def heap(self, key):
        return self.ex.harr(self.st1, key)

    def g0(self, key):
        return self.ex.garr(self.st0, key)

    def g(self, key):
        return self.ex.garr(self.st1, key)


class LoopCtx(Ctx):
    def __init__(self, ex, st_entry, st, fr0, it=None):
        # st0: state at function entry, st_entry: at loop entry, st1: now
        super().__init__(ex, ex.unit_st0, st, ex.unit_this, ex.unit_args)
        self.st_entry = st_entry
        self.it = it

    def _lv(self, st, name):
        fr = st.frame
        best = None
        for k, lv in fr.env.items():
            if k in self.ex.varnames and self.ex.varnames[k] == name:
                best = lv
        if best is None:
            raise Unsupported('loop invariant: no variable ' + name)
        return best

    def v(self, name, entry=False):
        st = self.st_entry if entry else self.st1
        lv = self._lv(self.st1, name)
        return self.ex.load(st, lv) if isinstance(lv, LV) else lv

    def vt(self, pred, entry=False):
        """the unique local variable whose type satisfies pred (robust to renaming)"""
        st = self.st_entry if entry else self.st1
        c = [lv for lv in self.st_entry.frame.env.values()
             if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and pred(lv.t)]
        if len(c) != 1:
            raise Unsupported('loop invariant: %d candidate variables' % len(c))
        v = self.ex.load(st, c[0])
        return self.ex.load(st, v.lv) if isinstance(v, Stream) else v


class Exec:
    def __init__(self, prog, types, contracts, models, spec=None):
        self.prog, self.ty = prog, types
        self.contracts = {}
        for c in contracts:
            self.contracts.setdefault(c.qn, []).append(c)
        self.models = models
        self.spec = spec
        self.obls = []
        self.assumed_used = set()
        self.models_used = set()
        self.inlined = set()
        self.called_contracts = set()
        self.fn_under = None
        self.varnames = {}
        self.depth = 0
        self.heap_sorts = {}
        self.ghost_sorts = {}
        self.cover = {}
        self.npaths = 0
        self.inlinestack = []
        self.hooks = {}
        self.axioms = []
        self.gcache = {}
        self.quiet = 0
        self.loopspecs = []
        self.safety = True

    # ---- state access ----------------------------------------------------
    def harr(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = z3.Const('H!' + key, z3.ArraySort(z3.IntSort(), self.heap_sort(key)))
            st.heap[key] = a
        return a

    def heap_sort(self, key):
        s = self.heap_sorts.get(key)
        if s is None:
            s = self._key_sort(key)
            self.heap_sorts[key] = s
        return s

    def _key_sort(self, key):
        if not hasattr(self, '_fieldtypes'):
            self._fieldtypes = {}
            for r in self.prog.records.values():
                for f in r.get('fields', []):
                    self._fieldtypes.setdefault(f['qn'], f['t'])
        t = self._fieldtypes.get(key)
        if t is None:
            raise Unsupported('no field ' + key)
        return self.ty.sort(t)

    def garr(self, st, key):
        a = st.ghost.get(key)
        if a is None:
            a = z3.Const('G!' + key, z3.ArraySort(z3.IntSort(), self.ghost_sorts[key]))
            st.ghost[key] = a
        return a

    def newcell(self, st, t, v):
        i = next(_cid)
        st.cells[i] = v
        return LV('cell', i, t, (), t)

    def alloc(self, st, t):
        r = st.next
        st.assume(r >= 1)
        st.next = z3.simplify(r + 1)
        st.ghost[('dyn', z3.simplify(r).get_id())] = (t, r)
        if getattr(self, 'track_class', False):
            st.assume(CLASS(r) == class_id(t))
        return r

    def var_lv(self, st, t, v):
        """lvalue for a variable holding value v"""
        if isinstance(v, ObjRef):
            return LV('heap', v.ref, v.t, (), v.t)
        return self.newcell(st, t, v)

    def load(self, st, lv):
        if not isinstance(lv, LV):
            return lv
        v, path = self._root(st, lv)
        for s in path:
            v = self.project(st, v, s)
        return v

    def _root(self, st, lv):
        if lv.kind == 'cell':
            return st.cells[lv.base], lv.path
        t0 = lv.t0
        if not lv.path and self.ty.is_object(t0):
            return ObjRef(lv.base, t0), ()
        if self.ty.is_mine(t0) or self.ty.is_object(t0):
            if not lv.path:
                return Struct(t0, {k: self._hload(st, k, ft, lv.base) for k, ft, _ in self.prog.all_fields(t0)}), ()
            step = lv.path[0]
            assert step[0] == 'f', step
            return self._hload(st, step[1], self.field_type(step[1]), lv.base), lv.path[1:]
        key = '*' + t0.name
        if key not in self.heap_sorts:
            self.heap_sorts[key] = self.ty.sort(t0)
        return self._hload(st, key, t0, lv.base), lv.path

    def _hload(self, st, key, t, ref):
        if key not in self.heap_sorts:
            self.heap_sorts[key] = self.ty.sort(t)
        x = sel(self.harr(st, key), ref)
        if t.k in ('ref', 'rref'):
            return Ptr(x, t.to)
        v = self.ty.dec(t, x)
        st.assume(*self.ty.facts(t, v, st.next))
        return v

    def field_type(self, key):
        if not hasattr(self, '_fieldtypes'):
            try:
                self._key_sort(key)
            except Unsupported:
                pass
        return self._fieldtypes[key]

    def project(self, st, v, s):
        k = s[0]
        if k == 'f':
            if isinstance(v, Struct):
                return v.fields[s[1]]
            if isinstance(v, ObjRef):
                return self._hload(st, s[1], self.field_type(s[1]), v.ref)
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'opt':
            return v.val
        if k == 'alt':
            return v.vals[s[1]]
        if k == 'tup':
            return v.vals[s[1]]
        if k == 'idx':
            if isinstance(v, z3.SeqRef):
                return schar(z3.StrToCode(z3.SubString(v, s[1], 1)))
            return self.ty.dec(v.et, sel(v.arr, z3.simplify(v.lo + s[1])))
        if k == 'mapv':
            return self.ty.dec(v.vt, sel(v.arr, s[1]))
        raise Unsupported('projection ' + k)

    def inject(self, st, v, path, new):
        if not path:
            return new
        s = path[0]
        k = s[0]
        if k == 'f':
            if isinstance(v, Struct):
                f = dict(v.fields)
                f[s[1]] = self.inject(st, f[s[1]], path[1:], new)
                return Struct(v.t, f)
            raise Unsupported('store to field of %s' % type(v).__name__)
        if k == 'opt':
            return Opt(v.et, v.has, self.inject(st, v.val, path[1:], new))
        if k == 'alt':
            vals = list(v.vals)
            vals[s[1]] = self.inject(st, vals[s[1]], path[1:], new)
            return Variant(v.ts, v.idx, vals)
        if k == 'tup':
            vals = list(v.vals)
            vals[s[1]] = self.inject(st, vals[s[1]], path[1:], new)
            return Tup(v.ts, vals)
        if k == 'idx':
            i = z3.simplify(v.lo + s[1])
            if isinstance(v, z3.SeqRef):
                raise Unsupported('store into a string element')
            old = self.ty.dec(v.et, sel(v.arr, i))
            n = self.inject(st, old, path[1:], new)
            return Vec(v.et, z3.Store(v.arr, i, self.ty.enc(v.et, n)), v.lo, v.hi)
        if k == 'mapv':
            old = self.ty.dec(v.vt, sel(v.arr, s[1]))
            n = self.inject(st, old, path[1:], new)
            return MapV(v.kt, v.vt, v.dom, z3.Store(v.arr, s[1], self.ty.enc(v.vt, n)))
        raise Unsupported('injection ' + k)

    def store(self, st, lv, val):
        if isinstance(val, LV):
            val = self.load(st, val)
        if lv.kind == 'cell':
            st.cells[lv.base] = self.inject(st, st.cells[lv.base], lv.path, val)
            return
        t0 = lv.t0
        if self.ty.is_mine(t0) or self.ty.is_object(t0):
            if not lv.path:
                if isinstance(val, ObjRef):
                    # whole-object assignment: copy all fields
                    for k, ft, _ in self.prog.all_fields(t0):
                        h = self.harr(st, k)
                        st.heap[k] = z3.Store(h, lv.base, sel(h, val.ref))
                    return
                for k, ft, _ in self.prog.all_fields(t0):
                    if k not in self.heap_sorts:
                        self.heap_sorts[k] = self.ty.sort(ft)
                    st.heap[k] = z3.Store(self.harr(st, k), lv.base, self.ty.enc(ft, val.fields[k]))
                return
            key = lv.path[0][1]
            ft = self.field_type(key)
            path = lv.path[1:]
        else:
            key = '*' + t0.name
            ft = t0
            path = lv.path
        if key not in self.heap_sorts:
            self.heap_sorts[key] = self.ty.sort(ft)
        h = self.harr(st, key)
        if path:
            old = self.ty.dec(ft, sel(h, lv.base))
            if isinstance(old, ObjRef):
                return self.store(st, LV('heap', old.ref, old.t, path, lv.t), val)
            val = self.inject(st, old, path, val)
        st.heap[key] = z3.Store(h, lv.base, self.ty.enc(ft, val))

    def undef(self, st, t):
        v = self.ty.fresh(t, 'undef')
        return v

    def default_value(self, st, t):
        """value-initialisation"""
        if t.k in ('builtin', 'enum'):
            if t.b == 'bool':
                return FALSE
            if t.b == 'float':
                return z3.RealVal(0)
            return I(0)
        if t.k == 'ptr':
            if t.to.k == 'builtin' and t.to.b == 'char':
                return z3.StringVal('')
            return Ptr(I(0), t.to)
        if t.k == 'record':
            if t.qn in self.ty.custom:
                return self.ty.fresh(t)
            if t.qn in STRINGS:
                return z3.StringVal('')
            if t.qn in UPTRS:
                return Ptr(I(0), t.targs[0])
            if t.qn == 'std::optional':
                return Opt(t.targs[0], FALSE, self.ty.fresh(t.targs[0], 'none'))
            if t.qn in VECS:
                et = t.targs[0]
                import models
                return Vec(et, z3.Const('no elements ' + et.name if models.SAME_EMPTY else fresh_name('vec'), z3.ArraySort(z3.IntSort(), self.ty.sort(et))), I(0), I(0))
            if t.qn in SETS:
                return SetV(t.targs[0], z3.K(self.ty.sort(t.targs[0]), FALSE))
            if t.qn in MAPS:
                kt, vt = self.ty.map_targs(t)
                ks = z3.StringSort() if kt is None else self.ty.sort(kt)
                return MapV(kt, vt, z3.K(ks, FALSE), z3.Const(fresh_name('map'), z3.ArraySort(ks, self.ty.sort(vt))))
            if t.qn in ('std::pair', 'std::tuple'):
                return Tup(t.targs, [self.default_value(st, x) for x in t.targs])
            if t.qn == 'std::variant':
                return Variant(t.targs, I(0), [self.default_value(st, t.targs[0])] + [self.ty.fresh(x) for x in t.targs[1:]])
            if self.ty.is_mine(t) and not self.ty.is_object(t):
                return Struct(t, {k: self.default_value(st, ft) for k, ft, _ in self.prog.all_fields(t)})
            return self.ty.fresh(t)
        return self.ty.fresh(t)

    # ---- obligations -----------------------------------------------------
    def check(self, st, goal, label, line=None):
        if self.quiet:
            st.assume(goal)
            return True
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        nm = _names.get(goal.get_id())
        if nm is not None:
            label = '%s [%s]' % (label, nm[0])
        if z3.is_true(z3.simplify(goal)):
            # syntactically true: counted, no solver needed
            self.obls.append(Obligation(self.fn_under, label, 'proved', 'simplify', None, 0.0, line, ()))
            return True
        verdict, be, info, secs = solve.prove(st.pc, goal, self.axioms)
        self.obls.append(Obligation(self.fn_under, label, verdict, be, info, secs, line, st.trace))
        st.assume(goal)
        return verdict == 'proved'

    def safe(self, st, goal, label, line=None):
        """a memory-safety obligation"""
        if not self.safety:
            st.assume(goal)
            return True
        return self.check(st, goal, 'safety: ' + label, line)

    def note(self, st, msg):
        st.trace = st.trace + (msg,)

    # ---- branching -------------------------------------------------------
    def branch(self, st, cond, note=None):
        """-> [(state, bool)] feasible sides"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        if solve.feasible(st.pc, cond):
            s1 = st.copy()
            s1.assume(cond)
            out.append((s1, True))
        if solve.feasible(st.pc, z3.Not(cond)):
            st.assume(z3.Not(cond))
            out.append((st, False))
        if note and len(out) == 2:
            for s, b in out:
                self.note(s, '%s=%s' % (note, b))
        return out

    # ---- truth / pointers ------------------------------------------------
    def truth(self, v):
        if isinstance(v, Ptr):
            return v.ref != 0
        if isinstance(v, PPtr):
            return TRUE
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
            if isinstance(v, z3.SeqRef):
                # const char *: modelled as its text, never null (or the text NULLTEXT, which no C string is)
                import models
                return v != models.NULLTEXT if models.NULLABLE_TEXT else TRUE
        raise Unsupported('truth of %s' % type(v).__name__)

    def deref(self, st, v, t, line=None):
        """pointer value -> lvalue of the pointee"""
        if isinstance(v, LV):
            v = self.load(st, v)
        if isinstance(v, PPtr):
            return v.lv.cast(t) if (not v.lv.path and v.lv.kind == 'heap') else v.lv
        if isinstance(v, Ptr):
            self.safe(st, v.ref != 0, 'pointer is not null', line)
            return LV('heap', v.ref, t, (), t)
        if isinstance(v, It):
            return self.models.deref_it(self, st, v, line)
        if type(v).__name__ == 'MapEntry':
            return v
        raise Unsupported('dereference of %s' % type(v).__name__)

    # ---- expressions -----------------------------------------------------
    def evs(self, st, es):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def evr(self, st, e):
        """evaluate and load"""
        return [(s, self.load(s, v) if isinstance(v, LV) else v) for s, v in self.ev(st, e)]

    def ev(self, st, e):
        if e is None:
            return [(st, VOID)]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression kind %s (%s) line %s' % (e['k'], e.get('what'), e.get('ln')))
        return m(st, e)

    def e_int(self, st, e):
        return [(st, I(int(e['v'])))]

    def e_bool(self, st, e):
        return [(st, z3.BoolVal(e['v']))]

    def e_srcloc(self, st, e):
        return [(st, z3.StringVal('') if e['t'].k == 'ptr' else I(0))]

    def e_float(self, st, e):
        return [(st, z3.RealVal(e['v']))]

    def e_null(self, st, e):
        return [(st, Ptr(I(0), None))]

    def e_str(self, st, e):
        if 'v' not in e:
            raise Unsupported('string literal with bytes')
        return [(st, z3.StringVal(e['v']))]

    def e_this(self, st, e):
        return [(st, st.frame.this)]

    def e_mat(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            if isinstance(v, LV):
                out.append((s, v))
            else:
                out.append((s, self.var_lv(s, e['t'], v)))
        return out

    def e_ref(self, st, e):
        d = e['d']
        if d == 'enumconst':
            return [(st, I(e['v']))]
        if d == 'var':
            lv = st.frame.env.get(e['id'])
            if lv is None:
                raise Unsupported('variable %s not in scope' % e['n'])
            return [(st, lv)]
        if d == 'fn':
            return [(st, FnVal(e['f']))]
        if d == 'binding':
            return self.ev(st, e['e'])
        if d == 'global':
            return self.global_var(st, e)
        raise Unsupported('reference to ' + e.get('n', '?'))

    def global_var(self, st, e):
        qn = e['qn']
        m = self.models.globals.get(qn)
        if m is not None:
            return [(st, m(self, st))]
        key = ('global', qn)
        if key in st.ghost:
            return [(st, st.ghost[key])]
        g = self.prog.globals.get(qn)
        if g and g.get('init') is not None:
            fr = Frame({}, None, None)
            st.frames.append(fr)
            r = self.ev(st, g['init'])
            if len(r) != 1:
                raise Unsupported('global initialiser forks: ' + qn)
            s, v = r[0]
            s.frames.pop()
            if isinstance(v, LV):
                v = self.load(s, v)
            lv = self.var_lv(s, g['t'], v)
            s.ghost[key] = lv
            return [(s, lv)]
        raise Unsupported('global variable ' + qn)

    def e_icast(self, st, e):
        return self.cast(st, e)

    def e_cast(self, st, e):
        return self.cast(st, e)

    def cast(self, st, e):
        ck = e['ck']
        t = e['t']
        out = []
        for s, v in self.ev(st, e['e']):
            if ck == 'LValueToRValue':
                out.append((s, self.load(s, v)))
            elif ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                        'BuiltinFnToFnPtr', 'Dependent'):
                out.append((s, v))
            elif ck == 'ArrayToPointerDecay':
                out.append((s, v))
            elif ck == 'NullToPointer':
                out.append((s, Ptr(I(0), t.to if t.k == 'ptr' else None)))
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                if isinstance(v, LV):
                    if v.path or v.kind == 'cell':
                        out.append((s, LV(v.kind, v.base, v.t0, v.path, v.t)))
                    else:
                        out.append((s, v.cast(t.deref())))
                elif isinstance(v, Ptr):
                    out.append((s, Ptr(v.ref, t.to)))
                else:
                    out.append((s, v))
            elif ck == 'Dynamic':
                out.append((s, self.models.dyn_cast_to(self, s, v, t.to)))
            elif ck == 'IntegralCast':
                v = self.load(s, v) if isinstance(v, LV) else v
                out.append((s, self.int_cast(v, e['e'].get('t'), t)))
            elif ck == 'IntegralToBoolean':
                out.append((s, self.truth(v)))
            elif ck == 'PointerToBoolean':
                out.append((s, self.truth(v)))
            elif ck == 'IntegralToFloating':
                out.append((s, z3.ToReal(v)))
            elif ck == 'FloatingCast':
                out.append((s, v))
            elif ck == 'FloatingToIntegral':
                out.append((s, z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))
            elif ck == 'ToVoid':
                out.append((s, VOID))
            elif ck == 'BitCast':
                if isinstance(v, Ptr):
                    out.append((s, Ptr(v.ref, t.to)))
                else:
                    out.append((s, v))
            else:
                raise Unsupported('cast ' + ck)
        return out

    def int_cast(self, v, ft, t):
        if z3.is_bool(v):
            return z3.If(v, I(1), I(0)) if not (t.k == 'builtin' and t.b == 'bool') else v
        if t.k == 'builtin' and t.b == 'bool':
            return v != 0
        if t.k == 'enum':
            return v
        if t.k != 'builtin' or t.w is None:
            return v
        lo, hi = int_range(t)
        if z3.is_int_value(v):
            x = v.as_long()
            n = 1 << t.w
            x = (x - lo) % n + lo
            return I(x)
        if ft is not None and ft.k == 'builtin' and ft.w is not None and ft.b in ('int', 'char'):
            flo, fhi = int_range(ft)
            if flo >= lo and fhi <= hi:
                return v
        if ft is not None and (ft.k == 'enum' or ft.b == 'bool'):
            return v
        n = 1 << t.w
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % n + lo)

    def e_member(self, st, e):
        out = []
        for s, b in self.ev(st, e['e']):
            if e['arrow']:
                bt = e['e']['t']
                pt = bt.to if bt.k == 'ptr' else e['rec']
                b = self.deref(s, b, pt, e.get('ln'))
            if 'field' not in e:
                raise Unsupported('member ' + str(e.get('method', {}).get('qn')))
            key = e['qn']
            out.append((s, self.member_of(s, b, key, e['t'])))
        return out

    def member_of(self, s, b, key, t):
        if isinstance(b, LV) and b.kind == 'cell' and not b.path and type(s.cells.get(b.base)).__name__ == 'MapEntry':
            b = s.cells[b.base]
        if type(b).__name__ == 'MapEntry':
            n = key.split('::')[-1]
            if n == 'first':
                return b.key
            if n == 'second':
                v = self.load(s, b.lv) if b.lv is not None else b.v
                if b.lv is not None:
                    return b.lv.sub(('mapv', b.key), v.vt)
                return self.ty.dec(v.vt, sel(v.arr, b.key))
        n = key.split('::')[-1]
        if n in ('first', 'second') and key.startswith('std::'):
            cur = self.load(s, b) if isinstance(b, LV) else b
            if isinstance(cur, Tup):
                i = 0 if n == 'first' else 1
                return b.sub(('tup', i), cur.ts[i]) if isinstance(b, LV) else cur.vals[i]
        if isinstance(b, LV):
            if b.path and b.kind in ('cell', 'heap') or (b.kind == 'cell' and self.ty.is_object(b.t0)):
                cur = None
                if self.ty.is_object(b.t) if b.t is not None else False:
                    cur = self.load(s, b)
                if isinstance(cur, ObjRef):
                    b = LV('heap', cur.ref, cur.t, (), cur.t)
            ft = self._ft(key, t)
            lv = b.sub(('f', key), ft)
            if ft.k in ('ref', 'rref'):
                x = self.load(s, lv)
                if isinstance(x, LV):
                    return x
                return self.deref(s, x, ft.to)
            if self.ty.is_object(ft):
                cur = self.load(s, lv)
                return LV('heap', cur.ref, ft, (), ft)
            return lv
        if isinstance(b, Struct):
            x = b.fields[key]
            return x
        if isinstance(b, Tup) or isinstance(b, LV):
            pass
        raise Unsupported('member of %s' % type(b).__name__)

    def _ft(self, key, t):
        try:
            return self.field_type(key)
        except KeyError:
            # pair::first / second
            return t

    def e_un(self, st, e):
        op = e['op']
        out = []
        for s, v in self.ev(st, e['e']):
            if op == '!':
                x = self.load(s, v) if isinstance(v, LV) else v
                out.append((s, z3.Not(self.truth(x))))
            elif op == '&':
                if isinstance(v, FnVal):
                    out.append((s, v))
                    continue
                if v.kind == 'heap' and not v.path:
                    out.append((s, Ptr(v.base, v.t)))
                else:
                    cur = None
                    if v.t is not None and self.ty.is_object(v.t):
                        cur = self.load(s, v)
                    if isinstance(cur, ObjRef):
                        out.append((s, Ptr(cur.ref, cur.t)))
                    else:
                        out.append((s, PPtr(v)))
            elif op == '*':
                out.append((s, self.deref(s, v, e['e']['t'].to, e.get('ln'))))
            elif op == '-':
                x = self.load(s, v) if isinstance(v, LV) else v
                r = z3.simplify(-x)
                if z3.is_int(r) and e['t'].sgn:
                    self.overflow(s, r, e['t'], e)
                out.append((s, r))
            elif op in ('+', '__extension__'):
                out.append((s, v))
            elif op in ('++', '--'):
                x = self.load(s, v)
                if isinstance(x, It):
                    y = self.models.it_step(self, s, x, 1 if op == '++' else -1)
                elif isinstance(x, z3.ArithRef):
                    y = z3.simplify(x + 1 if op == '++' else x - 1)
                    y = self.wrap(s, y, v.t, e)
                else:
                    raise Unsupported('increment of %s' % type(x).__name__)
                self.store(s, v, y)
                out.append((s, x if e['post'] else v))
            elif op == '~':
                raise Unsupported('bitwise not')
            else:
                raise Unsupported('unary ' + op)
        return out

    def wrap(self, st, v, t, e):
        """result of an arithmetic operation in type t"""
        if t is None or t.k != 'builtin' or t.b not in ('int', 'char'):
            return v
        if t.sgn:
            self.overflow(st, v, t, e)
            return v
        lo, hi = int_range(t)
        if z3.is_int_value(v) and lo <= v.as_long() <= hi:
            return v
        if self.provable(st, z3.And(v >= lo, v <= hi)):
            return v
        return v % (1 << t.w)

    def provable(self, st, g):
        s = z3.Solver()
        s.set('timeout', 300)
        for p in st.pc:
            if not z3.is_quantifier(p):
                s.add(p)
        s.add(z3.Not(g))
        return solve.check(s) == z3.unsat

    def overflow(self, st, v, t, e):
        lo, hi = int_range(t)
        if z3.is_int_value(v) and lo <= v.as_long() <= hi:
            return
        if getattr(self, 'check_overflow', True):
            self.safe(st, z3.And(v >= lo, v <= hi), 'signed arithmetic stays in range', e.get('ln'))

    def e_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, l in self.evr(st, e['l']):
                lt = self.truth(l)
                out += self.shortcircuit(s, lt, op, e['r'])
            return out
        if op == '=':
            out = []
            for s, rv in self.ev(st, e['r']):
                if isinstance(rv, LV) and not e['r'].get('lv'):
                    rv = self.load(s, rv)
                for s2, lv in self.ev(s, e['l']):
                    self.store(s2, lv, self.load(s2, rv))
                    out.append((s2, lv))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, e['l']):
                out += self.ev(s, e['r'])
            return out
        out = []
        for s, (l, r) in self.evs(st, [e['l'], e['r']]):
            l = self.load(s, l) if isinstance(l, LV) else l
            r = self.load(s, r) if isinstance(r, LV) else r
            out.append((s, self.binop(s, op, l, r, e['t'], e)))
        return out

    def shortcircuit(self, s, lt, op, re):
        c = z3.simplify(lt)
        if z3.is_true(c):
            return [(s, TRUE)] if op == '||' else [(q, self.truth(v)) for q, v in self.evr(s, re)]
        if z3.is_false(c):
            return [(s, FALSE)] if op == '&&' else [(q, self.truth(v)) for q, v in self.evr(s, re)]
        guard = lt if op == '&&' else z3.Not(lt)
        if not solve.feasible(s.pc, guard):
            s.assume(z3.Not(guard))
            return [(s, z3.BoolVal(op == '||'))]
        sub = s.copy()
        sub.assume(guard)
        n = len(sub.pc)
        res = [(q, self.truth(v)) for q, v in self.evr(sub, re)]
        merged = self.try_merge(s, n, res, guard)
        if merged is not None:
            val = merged
            return [(s, z3.And(lt, val) if op == '&&' else z3.Or(lt, val))]
        out = list(res)
        if solve.feasible(s.pc, z3.Not(guard)):
            s.assume(z3.Not(guard))
            out.append((s, z3.BoolVal(op == '||')))
        return out

    def same_store(self, a, b):
        for k, v in a.cells.items():
            if b.cells.get(k) is not v:
                return False
        if a.next is not b.next and not a.next.eq(b.next):
            return False
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                a.heap[k] = self.harr(a, k)
                w = a.heap[k]
            if w is not v and not w.eq(v):
                return False
        for k, v in b.ghost.items():
            w = a.ghost.get(k)
            if w is None:
                if isinstance(k, str):
                    w = self.garr(a, k)
                else:
                    if isinstance(k, tuple) and k[0] in ('dyn', 'global'):
                        a.ghost[k] = v
                        if k[0] == 'global':
                            a.cells[v.base] = b.cells[v.base]
                        continue
                    return False
            if w is not v and isinstance(v, z3.ExprRef) and not w.eq(v):
                return False
        return True

    def try_merge(self, s, n, res, guard):
        """merge results of side-effect-free evaluations back into s (scalars only)"""
        if not res:
            s.assume(z3.Not(guard) if guard is not None else FALSE)
            return None
        v0 = res[0][1]
        for q, v in res:
            if not self.same_store(s, q):
                return None
            if isinstance(v, z3.ExprRef) and isinstance(v0, z3.ExprRef) and v.sort() == v0.sort():
                continue
            if isinstance(v, Ptr) and isinstance(v0, Ptr):
                continue
            return None
        conds = []
        for q, v in res:
            extra = q.pc[n:]
            conds.append(z3.And(*extra) if extra else TRUE)
        if len(res) == 1:
            fact = conds[0]
            val = v0
        else:
            fact = z3.Or(*conds)
            if isinstance(v0, Ptr):
                x = res[-1][1].ref
                for (q, v), c in list(zip(res, conds))[-2::-1]:
                    x = z3.If(c, v.ref, x)
                val = Ptr(x, v0.t)
            else:
                x = res[-1][1]
                for (q, v), c in list(zip(res, conds))[-2::-1]:
                    x = z3.If(c, v, x)
                val = x
        s.assume(fact if guard is None else z3.Implies(guard, fact))
        return val

    def e_cond(self, st, e):
        out = []
        for s, c in self.evr(st, e['c']):
            for s2, b in self.branch(s, self.truth(c)):
                out += self.ev(s2, e['l'] if b else e['r'])
        return out

    def binop(self, s, op, l, r, t, e):
        if isinstance(l, It) or isinstance(r, It):
            return self.models.it_binop(self, s, op, l, r)
        if isinstance(l, (Ptr, PPtr)) or isinstance(r, (Ptr, PPtr)):
            if op in ('==', '!='):
                x = self.ptr_eq(s, l, r)
                return x if op == '==' else z3.Not(x)
            raise Unsupported('pointer arithmetic')
        if z3.is_bool(l) and not z3.is_bool(r):
            l = z3.If(l, I(1), I(0))
        if z3.is_bool(r) and not z3.is_bool(l):
            r = z3.If(r, I(1), I(0))
        if op == '==':
            return l == r
        if op == '!=':
            return l != r
        if z3.is_bool(l):
            if op == '^':
                return z3.Xor(l, r)
            if op == '&':
                return z3.And(l, r)
            if op == '|':
                return z3.Or(l, r)
            l = z3.If(l, I(1), I(0))
            r = z3.If(r, I(1), I(0))
        if op == '<':
            return l < r
        if op == '<=':
            return l <= r
        if op == '>':
            return l > r
        if op == '>=':
            return l >= r
        if op in ('+', '-', '*'):
            v = l + r if op == '+' else l - r if op == '-' else l * r
            return self.wrap(s, z3.simplify(v), t, e)
        if op == '/':
            if z3.is_real(l):
                return l / r
            self.safe(s, r != 0, 'divisor is not zero', e.get('ln'))
            q = z3.If(l >= 0, z3.If(r > 0, l / r, -(l / -r)), z3.If(r > 0, -(-l / r), -l / -r))
            return self.wrap(s, q, t, e)
        if op == '%':
            self.safe(s, r != 0, 'divisor is not zero', e.get('ln'))
            q = z3.If(l >= 0, z3.If(r > 0, l / r, -(l / -r)), z3.If(r > 0, -(-l / r), -l / -r))
            return l - r * q
        if op in ('&', '|', '^', '<<', '>>'):
            if z3.is_int_value(l) and z3.is_int_value(r):
                a, b = l.as_long(), r.as_long()
                return I({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            if op == '<<' and z3.is_int_value(r):
                return self.wrap(s, l * (1 << r.as_long()), t, e)
            raise Unsupported('bit operation ' + op)
        raise Unsupported('operator ' + op)

    def ptr_eq(self, s, l, r):
        if isinstance(l, FnVal) or isinstance(r, FnVal):
            raise Unsupported('function pointer comparison')
        if isinstance(l, PPtr) and isinstance(r, PPtr):
            return z3.BoolVal(l.lv.kind == r.lv.kind and l.lv.base is r.lv.base and l.lv.path == r.lv.path
                              or (l.lv.kind == 'cell' == r.lv.kind and l.lv.base == r.lv.base and l.lv.path == r.lv.path))
        if isinstance(l, PPtr) or isinstance(r, PPtr):
            p = l if isinstance(l, PPtr) else r
            q = r if isinstance(l, PPtr) else l
            if p.lv.kind == 'heap' and not p.lv.path:
                return p.lv.base == q.ref
            return FALSE
        return l.ref == r.ref

    def e_cassign(self, st, e):
        op = e['op'][:-1]
        out = []
        for s, r in self.evr(st, e['r']):
            for s2, lv in self.ev(s, e['l']):
                x = self.load(s2, lv)
                if isinstance(x, It):
                    y = self.models.it_binop(self, s2, op, x, r)
                else:
                    ct = e.get('ct') or lv.t
                    y = self.binop(s2, op, x, r, ct, e)
                    if ct is not lv.t and lv.t is not None and lv.t.k == 'builtin' and isinstance(y, z3.ArithRef) and z3.is_int(y):
                        y = self.int_cast(y, ct, lv.t)
                self.store(s2, lv, y)
                out.append((s2, lv))
        return out

    def e_index(self, st, e):
        out = []
        for s, (b, i) in self.evs(st, [e['e'], e['i']]):
            i = self.load(s, i) if isinstance(i, LV) else i
            if isinstance(b, LV):
                bv = self.load(s, b)
                if isinstance(bv, Vec):
                    self.safe(s, z3.And(i >= 0, i < bv.size()), 'index in bounds', e.get('ln'))
                    out.append((s, b.sub(('idx', i), bv.et)))
                    continue
                b = bv
            if isinstance(b, z3.SeqRef):
                out.append((s, self.models.char_at(self, s, b, i, e.get('ln'))))
                continue
            raise Unsupported('subscript of %s' % type(b).__name__)
        return out

    def e_lambda(self, st, e):
        env = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('initcap'):
                r = self.ev(st, c['init'])
                if len(r) != 1:
                    raise Unsupported('forking init capture')
                st, v = r[0]
                if isinstance(v, LV) and not c['byref']:
                    v = self.load(st, v)
                env[c['id']] = v if isinstance(v, LV) else self.var_lv(st, c['t'], v)
                continue
            lv = st.frame.env.get(c['id'])
            if lv is None:
                raise Unsupported('capture of unknown variable ' + c['n'])
            if c['byref']:
                env[c['id']] = lv
            else:
                v = self.load(st, lv)
                env[c['id']] = self.var_lv(st, lv.t, v)
        return [(st, Closure(e, env, st.frame.this))]

    def call_closure(self, st, c, args):
        """args: LVs or values"""
        e = c.e
        if e.get('generic'):
            body = None
            for b in e['insts']:
                if len(b['params']) == len(args) and all(self.arg_fits(p['t'], a) for p, a in zip(b['params'], args)):
                    body = b
                    break
            if body is None:
                raise Unsupported('no instantiation of generic lambda')
        else:
            body = e['body']
        st.frames.append(Frame(dict(c.env), c.this, None))
        self.bind_params(st, body['params'], args)
        out = []
        n = len(st.pc)
        base = st
        for s, ctl in self.run(st, body['body']):
            rv = VOID
            if ctl and ctl[0] == 'ret':
                rv = ctl[1]
            if isinstance(rv, LV) and body['ret'].k not in ('ref', 'rref'):
                rv = self.load(s, rv)
            s.frames.pop()
            out.append((s, rv))
        return out

    def arg_fits(self, pt, a):
        p = pt.deref()
        t = None
        if isinstance(a, LV):
            t = a.t
        elif isinstance(a, Struct):
            t = a.t
        elif isinstance(a, Ptr):
            return p.k == 'ptr' or (p.k == 'record' and p.qn in UPTRS)
        if t is None:
            return True
        return p.name.replace('const ', '') == t.name.replace('const ', '') or (t.k == 'record' and p.k == 'record' and t.qn == p.qn)

    def bind_params(self, st, params, args):
        if len(params) > len(args):
            raise Unsupported('missing arguments')
        for p, a in zip(params, args):
            self.varnames[p['id']] = p['n']
            t = p['t']
            if t.k in ('ref', 'rref'):
                if not isinstance(a, LV):
                    if isinstance(a, Closure):
                        lv = self.newcell(st, t.to, a)
                    else:
                        lv = self.var_lv(st, t.to, a)
                else:
                    lv = a
                    if lv.kind == 'heap' and not lv.path:
                        lv = lv.cast(t.to)
                st.frame.env[p['id']] = lv
            else:
                v = self.load(st, a) if isinstance(a, LV) else a
                st.frame.env[p['id']] = self.var_lv(st, t, v)

    # ---- construction ----------------------------------------------------
    def e_ctor(self, st, e):
        return self.construct(st, e['t'], e['f'], e['args'], e)

    def construct(self, st, t, f, arges, e, into=None):
        """-> [(st, value)] ; into: lvalue of storage being constructed (bases/fields)"""
        qn = f['qn']
        tq = t.qn
        m = self.models.find_ctor(t, f)
        if m is not None:
            out = []
            self.models_used.add('ctor ' + tq)
            for s, args in self.evs(st, arges):
                out += m(self, s, Call(f, None, args, e, t, arges))
            return out
        out = []
        for s, args in self.evs(st, arges):
            out += self.construct_v(s, t, f, args, e)
        return out

    def construct_v(self, s, t, f, args, e):
        if f.get('ctor') in ('copy', 'move') and len(args) == 1 and not self.user_body(f) and not self.ty.is_object(t):
            a = args[0]
            v = self.load(s, a) if isinstance(a, LV) else a
            if f['ctor'] == 'move' and isinstance(a, LV):
                self.store(s, a, self.moved_from(s, v))
            return [(s, v)]
        if not self.ty.is_mine(t):
            raise Unsupported('constructor of %s' % t.s)
        if self.ty.is_object(t):
            r = self.alloc(s, t)
            return [(q, ObjRef(r, t)) for q, _ in self.call_ctor(s, t, f, args, Ptr(r, t), e)]
        fields = {k: None for k, ft, _ in self.prog.all_fields(t)}
        val = Struct(t, fields)
        lv = self.newcell(s, t, val)
        out = []
        for q, _ in self.call_ctor(s, t, f, args, PPtr(lv), e):
            out.append((q, q.cells[lv.base]))
        return out

    def user_body(self, f):
        d = self.prog.functions.get(f['usr'])
        if f.get('defaulted') or f.get('trivial'):
            return False
        return d is not None

    def moved_from(self, st, v):
        if isinstance(v, Ptr):
            return Ptr(I(0), v.t)
        if isinstance(v, Struct):
            return Struct(v.t, {k: self.moved_from(st, x) for k, x in v.fields.items()})
        if isinstance(v, z3.SeqRef):
            return z3.Const(fresh_name('moved'), v.sort())
        if isinstance(v, Opt):
            return Opt(v.et, v.has, self.moved_from(st, v.val))
        if isinstance(v, Vec):
            return Vec(v.et, v.arr, I(0), I(0))
        if isinstance(v, Variant):
            return Variant(v.ts, v.idx, [self.moved_from(st, x) if x is not None else None for x in v.vals])
        return v

    def call_ctor(self, st, t, f, args, this, e):
        c = self.contract_for(f)
        if c is not None and not (self.inlinestack and self.inlinestack[-1] == f['usr'] and False):
            return self.apply_contract(st, c, f, this, args, e)
        d = self.prog.functions.get(f['usr'])
        if d is None:
            if f.get('defaulted') or f.get('trivial') or not args:
                d = None
                self.default_fields(st, t, this)
                return [(st, VOID)]
            raise Unsupported('constructor without body ' + f['qn'])
        return self.run_ctor_body(st, d, t, this, args)

    def default_fields(self, st, t, this):
        for k, ft, fd in self.prog.all_fields(t):
            lv = self.member_lv(st, this, k, ft)
            if fd.get('init') is not None:
                r = self.ev(st, fd['init'])
                if len(r) != 1:
                    raise Unsupported('forking default initialiser')
                self.store(st, lv, r[0][1])
            else:
                self.store(st, lv, self.default_value(st, ft) if ft.k == 'record' else self.undef(st, ft))

    def member_lv(self, st, this, k, ft):
        if isinstance(this, PPtr):
            return this.lv.sub(('f', k), ft)
        return LV('heap', this.ref, this.t, (('f', k),), ft)

    def run_ctor_body(self, st, d, t, this, args):
        if self.depth > 60:
            raise Unsupported('inlining too deep')
        self.depth += 1
        self.inlined.add(d['qn'])
        try:
            st.frames.append(Frame({}, this, d))
            self.bind_params(st, d['params'], args)
            states = [st]
            for i in d.get('inits', []):
                nxt = []
                for s in states:
                    if 'base' in i:
                        ie = i['e']
                        bt = i['base']
                        if ie['k'] == 'ctor' or ie['k'] == 'inhctor':
                            bthis = this if isinstance(this, PPtr) else Ptr(this.ref, bt)
                            if not self.ty.is_mine(bt):
                                nxt.append(s)
                                continue
                            if ie['f'].get('ctor') in ('copy', 'move') and not self.user_body(ie['f']):
                                for s2, a in self.evs(s, ie['args']):
                                    for k, ft, _ in self.prog.all_fields(bt):
                                        src = self.load(s2, self.member_of(s2, a[0], k, ft))
                                        self.store(s2, self.member_lv(s2, this, k, ft), src)
                                    nxt.append(s2)
                                continue
                            if ie['k'] == 'inhctor':
                                pas = [st.frame.env[p['id']] for p in d['params']]
                                for s3, _ in self.call_ctor(s, bt, ie['f'], pas, bthis, ie):
                                    nxt.append(s3)
                                continue
                            for s2, a in self.evs(s, ie['args']):
                                for s3, _ in self.call_ctor(s2, bt, ie['f'], a, bthis, ie):
                                    nxt.append(s3)
                        else:
                            raise Unsupported('base initialiser ' + ie['k'])
                    elif i.get('deleg'):
                        ie = i['e']
                        for s2, a in self.evs(s, ie['args']):
                            for s3, _ in self.call_ctor(s2, t, ie['f'], a, this, ie):
                                nxt.append(s3)
                    else:
                        ft = i['ft']
                        lv = self.member_lv(s, this, i['qn'], ft)
                        for s2, v in self.ev(s, i['e']):
                            if ft.k in ('ref', 'rref'):
                                if isinstance(v, LV):
                                    if v.kind == 'heap' and not v.path:
                                        v = Ptr(v.base, ft.to)
                                    elif isinstance(this, PPtr):
                                        pass
                                    else:
                                        raise Unsupported('reference member to a local')
                                if isinstance(v, LV):
                                    s2.cells[lv.base] = self.inject(s2, s2.cells[lv.base], lv.path, v)
                                else:
                                    self.store(s2, lv, v)
                            else:
                                self.store(s2, lv, self.load(s2, v) if isinstance(v, LV) else v)
                            nxt.append(s2)
                states = nxt
            out = []
            for s in states:
                for s2, ctl in self.run(s, d['body']):
                    s2.frames.pop()
                    out.append((s2, VOID))
            return out
        finally:
            self.depth -= 1

    def e_valueinit(self, st, e):
        return [(st, self.default_value(st, e['t']))]

    def e_initlist(self, st, e):
        t = e['t']
        out = []
        for s, vs in self.evs(st, e['inits']):
            vs = [self.load(s, v) if isinstance(v, LV) else v for v in vs]
            if t.k == 'array' or (t.k == 'record' and t.qn in VECS):
                et = t.to if t.k == 'array' else t.targs[0]
                arr = z3.Const(fresh_name('il'), z3.ArraySort(z3.IntSort(), self.ty.sort(et)))
                for i, v in enumerate(vs):
                    arr = z3.Store(arr, I(i), self.ty.enc(et, v))
                out.append((s, Vec(et, arr, I(0), I(len(vs)))))
            elif t.k == 'record' and self.ty.is_mine(t):
                fs = self.prog.all_fields(t)
                r = self.prog.record(t)
                nb = len([b for b in r.get('bases', [])])
                fields = {}
                if nb and len(vs) != len(fs):
                    # bases come first as sub-initialisers
                    own = [(f['qn'], f['t']) for f in r['fields']]
                    for b, v in zip(r['bases'], vs[:nb]):
                        if isinstance(v, Struct):
                            fields.update(v.fields)
                    for (k, ft), v in zip(own, vs[nb:]):
                        fields[k] = v
                    val = Struct(t, fields)
                    if not own:
                        # e.g. overload sets: keep the bases' values
                        val = Struct(t, {**fields, '#bases': vs[:nb]})
                    out.append((s, val))
                else:
                    for (k, ft, _), v in zip(fs, vs):
                        fields[k] = v
                    out.append((s, Struct(t, fields)))
            elif not vs:
                out.append((s, self.default_value(s, t)))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            else:
                raise Unsupported('initialiser list for ' + t.s)
        return out

    def e_initlist_std(self, st, e):
        return [(s, self.load(s, v) if isinstance(v, LV) else v) for s, v in self.ev(st, e['e'])]

    def e_new(self, st, e):
        t = e['at']
        ini = e.get('init')
        if ini is None or ini['k'] != 'ctor':
            raise Unsupported('new ' + t.s)
        out = []
        for s, args in self.evs(st, ini['args']):
            r = self.alloc(s, t)
            for q, _ in self.call_ctor(s, t, ini['f'], args, Ptr(r, t), ini):
                out.append((q, Ptr(r, t)))
        return out

    def e_delete(self, st, e):
        return [(s, VOID) for s, v in self.ev(st, e['e'])]

    # ---- calls -----------------------------------------------------------
    def e_mcall(self, st, e):
        out = []
        f = e['f']
        for s, o in self.ev(st, e['obj']):
            if e['arrow']:
                # pointer receiver
                this = self.load(s, o) if isinstance(o, LV) else o
                ot = e['obj']['t']
                otp = ot.to if ot.k == 'ptr' else None
                if isinstance(this, Ptr) and self.is_user(f):
                    self.safe(s, this.ref != 0, 'receiver of %s is not null' % f['n'], e.get('ln'))
                    this = Ptr(this.ref, otp)
                objlv = self.deref(s, this, otp) if not self.is_user(f) else None
            else:
                objlv = o
                this = None
            for s2, args in self.evs(s, e['args']):
                out += self.call(s2, f, this, objlv, args, e, qual=e.get('qual'))
        return out

    def is_user(self, f):
        return f.get('mine') or self.contract_for(f) is not None

    def e_opcall(self, st, e):
        f = e.get('f')
        out = []
        for s, args in self.evs(st, e['args']):
            if f is None:
                raise Unsupported('indirect operator call')
            if e.get('method') and not f.get('static'):
                out += self.call(s, f, None, args[0], args[1:], e)
            else:
                out += self.call(s, f, None, None, args, e)
        return out

    def e_call(self, st, e):
        out = []
        f = e.get('f')
        if f is None:
            for s, c in self.evr(st, e['callee']):
                for s2, args in self.evs(s, e['args']):
                    out += self.call_value(s2, c, args, e)
            return out
        lazy = self.models.lazy.get(f['qn'])
        if lazy is not None:
            return lazy(self, st, e)
        for s, args in self.evs(st, e['args']):
            out += self.call(s, f, None, None, args, e)
        return out

    def call_value(self, s, c, args, e):
        if isinstance(c, LV):
            c = self.load(s, c)
        if isinstance(c, Closure):
            return self.call_closure(s, c, args)
        if isinstance(c, FnVal):
            return self.call(s, c.f, None, None, args, e)
        if isinstance(c, Struct):
            raise Unsupported('call of struct value')
        raise Unsupported('call of %s' % type(c).__name__)

    def contract_for(self, f):
        for c in self.contracts.get(f['qn'], []):
            if c.pred is None or c.pred(f):
                return c
        return None

    def call(self, st, f, this, objlv, args, e, qual=False):
        """objlv: receiver lvalue (dot calls); this: receiver pointer (arrow calls)"""
        key = f['qn']
        # closures: operator() on a lambda object
        if objlv is not None and f['n'] == 'operator()':
            v = self.load(st, objlv) if isinstance(objlv, LV) else objlv
            if isinstance(v, Closure):
                return self.call_closure(st, v, args)
            if isinstance(v, FnVal):
                return self.call(st, v.f, None, None, args, e)
        if this is None and objlv is not None and self.is_user(f):
            if isinstance(objlv, LV):
                v = objlv
                if v.kind == 'heap' and not v.path:
                    this = Ptr(v.base, v.t)
                else:
                    cur = None
                    if v.t is not None and self.ty.is_object(v.t):
                        cur = self.load(st, v)
                    this = Ptr(cur.ref, cur.t) if isinstance(cur, ObjRef) else PPtr(v)
            else:
                lv = self.var_lv(st, f['cls'], objlv)
                this = PPtr(lv) if lv.kind == 'cell' else Ptr(lv.base, lv.t)
        c = self.contract_for(f)
        if c is not None:
            return self.apply_contract(st, c, f, this, args, e)
        m = self.models.find(f)
        if m is not None:
            self.models_used.add(key)
            return m(self, st, Call(f, objlv, args, e, e.get('t'), e.get('args'), this=this))
        if f.get('virt') and not qual:
            f2 = self.resolve_virtual(st, f, this)
            if f2 is not None and f2['usr'] != f['usr']:
                return self.call(st, f2, this, None, args, e, qual=True)
        if f.get('assign') and not self.user_body(f):
            a = args[0]
            v = self.load(st, a) if isinstance(a, LV) else a
            tgt = objlv if objlv is not None else self.deref(st, this, f['cls'])
            if f['assign'] == 'move' and isinstance(a, LV):
                self.store(st, a, self.moved_from(st, v))
            self.store(st, tgt, v)
            return [(st, tgt)]
        d = self.prog.functions.get(f['usr'])
        if d is None or not f.get('mine'):
            raise Unsupported('no contract, model or body for %s (line %s)' % (f['qn'], e.get('ln')))
        return self.inline(st, d, this, args)

    def resolve_virtual(self, st, f, this):
        t = None
        if isinstance(this, PPtr) and this.lv.kind == 'cell':
            v = self.load(st, this.lv)
            if isinstance(v, Struct):
                t = v.t
        elif isinstance(this, Ptr):
            d = st.ghost.get(('dyn', z3.simplify(this.ref).get_id()))
            if d is not None:
                t = d[0]
            elif this.t is not None:
                subs = self.prog.subclasses(this.t.qn)
                if len(subs) == 1:
                    t = this.t
        if t is None:
            raise Unsupported('virtual call %s on unknown dynamic type' % f['qn'])
        m = self.prog.find_override(t, f['usr'])
        if m is None:
            raise Unsupported('no override of %s in %s' % (f['qn'], t.s))
        d = self.prog.functions.get(m['usr'])
        if d is None:
            raise Unsupported('no body for override of ' + f['qn'])
        return d

    def inline(self, st, d, this, args):
        if self.inlinestack.count(d['usr']) >= 1 and self.inlinestack.count(d['usr']) > getattr(self, 'maxrec', 0):
            raise Unsupported('recursive function without a contract: ' + d['qn'])
        if len(self.inlinestack) > 80:
            raise Unsupported('inlining too deep')
        self.inlined.add(d['qn'])
        self.inlinestack.append(d['usr'])
        try:
            base = st.copy()
            n = len(base.pc)
            st.frames.append(Frame({}, this, d))
            self.bind_params(st, d['params'], args)
            out = []
            for s, ctl in self.run(st, d['body']):
                rv = VOID
                if ctl and ctl[0] == 'ret':
                    rv = ctl[1]
                if isinstance(rv, LV) and d['ret'].k not in ('ref', 'rref'):
                    rv = self.load(s, rv)
                s.frames.pop()
                out.append((s, rv))
            if len(out) > 1 and all(isinstance(v, (z3.ExprRef, Ptr)) for _, v in out):
                b2 = base.copy()
                m = self.try_merge(b2, n, out, None)
                if m is not None:
                    return [(b2, m)]
            return out
        finally:
            self.inlinestack.pop()

    # ---- contracts at call sites ------------------------------------------
    def apply_contract(self, st, c, f, this, args, e):
        self.called_contracts.add(c.name)
        if c.assumed:
            self.assumed_used.add(c.name)
        # by-value parameters: freeze values
        d = self.prog.functions.get(f['usr'])
        pts = f['pt']
        av = []
        for t, a in zip(pts, args):
            if t.k in ('ref', 'rref'):
                av.append(a if isinstance(a, LV) else self.var_lv(st, t.to, a) if not isinstance(a, Closure) else a)
            else:
                av.append(self.load(st, a) if isinstance(a, LV) else a)
        pre = st.copy()
        cx = Ctx(self, pre, pre, this, av, None, f)
        for gi, g in enumerate(c.requires(cx)):
            self.check(st, g, 'precondition %d of %s' % (gi, c.name), e.get('ln'))
            pre.assume(g)
        if c.decreases is not None and self.unit_contract is not None and self.unit_contract.decreases is not None \
                and (c.qn == self.unit_contract.qn or c.qn in getattr(self.unit_contract, 'mutual', ())):
            m0 = self.unit_contract.decreases(Ctx(self, self.unit_st0, self.unit_st0, self.unit_this, self.unit_args))
            m1 = c.decreases(cx)
            self.check(st, lex_lt(m1, m0), 'termination measure decreases at recursive call', e.get('ln'))
        if c.allocates:
            nn = z3.Int(fresh_name('next'))
            st.assume(nn >= st.next)
            st.next = nn
        cxm = Ctx(self, pre, pre, this, av, None, f)
        for key, cond in c.modifies(cxm).items():
            ghost = key in self.ghost_sorts
            old = self.garr(st, key) if ghost else self.harr(st, key)
            new = z3.Const(fresh_name('H!' + key), old.sort())
            if cond is not True:
                r = z3.Int(fresh_name('r'))
                body = z3.Implies(z3.And(r < pre.next, z3.Not(cond(r))), sel(new, r) == sel(old, r))
                st.assume(z3.ForAll([r], body, patterns=[z3.Select(new, r)]))
            if ghost:
                st.ghost[key] = new
            else:
                st.heap[key] = new
        for i in c.modifies_args:
            if i == 'this':
                lv = this.lv if isinstance(this, PPtr) else LV('heap', this.ref, this.t, (), this.t)
                t = lv.t if lv.t is not None else f['cls']
                if self.ty.is_object(t):
                    continue
                v = self.ty.fresh(f['cls'] if t is None else t, 'this')
                st.assume(*self.ty.facts(t, v, st.next))
                self.store(st, lv, v)
            else:
                a = av[i]
                if isinstance(a, PPtr):
                    a = a.lv
                if isinstance(a, LV):
                    v = self.ty.fresh(a.t, 'arg')
                    st.assume(*self.ty.facts(a.t, v, st.next))
                    self.store(st, a, v)
        rt = f['ret']
        cx = Ctx(self, pre, st, this, av, None, f)
        if c.result is not None:
            rv = c.result(cx)
        elif rt.k == 'builtin' and rt.b == 'void' or f.get('ctor'):
            rv = VOID
        elif rt.k in ('ref', 'rref'):
            if self.ty.is_object(rt.to):
                r = z3.Int(fresh_name('ret'))
                st.assume(r > 0, r < st.next)
                rv = LV('heap', r, rt.to, (), rt.to)
            else:
                v = self.ty.fresh(rt.to, 'ret')
                st.assume(*self.ty.facts(rt.to, v, st.next))
                rv = self.var_lv(st, rt.to, v)
        else:
            rv = self.ty.fresh(rt, 'ret')
            st.assume(*self.ty.facts(rt, rv, st.next))
        cx.ret_v = rv
        for g in c.ensures(cx):
            st.assume(g)
        return [(st, rv)]

    # ---- statements ------------------------------------------------------
    def run(self, st, s):
        if s is None:
            return [(st, None)]
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement kind %s (%s)' % (s['k'], s.get('what')))
        return m(st, s)

    def s_null(self, st, s):
        return [(st, None)]

    def s_expr(self, st, s):
        return [(q, None) for q, _ in self.ev(st, s['e'])]

    def s_block(self, st, s):
        return self.run_list(st, s['b'])

    def run_list(self, st, body):
        live = [st]
        done = []
        for x in body:
            nxt = []
            for q in live:
                for q2, ctl in self.run(q, x):
                    if ctl is None:
                        nxt.append(q2)
                    else:
                        done.append((q2, ctl))
            live = nxt
            if len(live) + len(done) > 3000:
                raise Unsupported('too many paths')
            if not live:
                break
        return done + [(q, None) for q in live]

    def s_decl(self, st, s):
        states = [st]
        for v in s['vars']:
            nxt = []
            for q in states:
                nxt += self.declare(q, v)
            states = nxt
        return [(q, None) for q in states]

    def declare(self, st, v):
        t = v['t']
        self.varnames[v['id']] = v['n']
        if v.get('static'):
            out = []
            key = ('global', v['qn'])
            if key in st.ghost:
                st.frame.env[v['id']] = st.ghost[key]
                return [st]
            for q, x in self.ev(st, v['init']):
                lv = self.var_lv(q, t, x)
                q.ghost[key] = lv
                q.frame.env[v['id']] = lv
                out.append(q)
            return out
        if 'init' not in v or v['init'] is None:
            st.frame.env[v['id']] = self.var_lv(st, t, self.undef(st, t))
            return [st]
        out = []
        for q, x in self.ev(st, v['init']):
            if t.k in ('ref', 'rref'):
                if not isinstance(x, LV):
                    x = self.newcell(q, t.to, x) if isinstance(x, (Closure, It, Range)) else self.var_lv(q, t.to, x)
                q.frame.env[v['id']] = x
            else:
                if isinstance(x, LV):
                    x = self.load(q, x)
                q.frame.env[v['id']] = self.var_lv(q, t, x)
            if v.get('bindings'):
                for b in v['bindings']:
                    if b.get('hold'):
                        for q2 in self.declare(q, b['hold']):
                            pass
            out.append(q)
        return out

    def s_return(self, st, s):
        out = []
        if s['e'] is None:
            return [(st, ('ret', VOID))]
        for q, v in self.ev(st, s['e']):
            out.append((q, ('ret', v)))
        return out

    def s_break(self, st, s):
        return [(st, ('break',))]

    def s_continue(self, st, s):
        return [(st, ('continue',))]

    def cond_states(self, st, s):
        """evaluate init / condition variable / condition -> [(st, cond)]"""
        states = [st]
        if s.get('init'):
            states = [q for q, _ in self.run(st, s['init'])]
        out = []
        for q in states:
            qs = [q]
            if s.get('cv'):
                qs = self.declare(q, s['cv'])
            for q2 in qs:
                for q3, v in self.evr(q2, s['c']):
                    out.append((q3, v))
        return out

    def s_if(self, st, s):
        if s.get('constexpr') and 'cval' in s:
            x = s['then'] if s['cval'] else s['else']
            return self.run(st, x)
        merge = getattr(getattr(self, 'unit_contract', None), 'merge', False)
        base = st.copy() if merge else None
        out = []
        for q, v in self.cond_states(st, s):
            for q2, b in self.branch(q, self.truth(v), 'line %s' % s.get('ln')):
                out += self.run(q2, s['then'] if b else s['else'])
        return self.joined(base, out, s) if merge else out

    def joined(self, base, out, s):
        """one state for all paths that reach the end of an if statement"""
        fall = [q for q, ctl in out if ctl is None]
        if len(fall) < 2:
            return out
        try:
            m = self.join(base, fall)
        except Unsupported:
            return out
        m.trace = base.trace + ('joined after line %s' % s.get('ln'),)
        return [(m, None)] + [(q, ctl) for q, ctl in out if ctl is not None]

    def join(self, base, qs):
        n = len(base.pc)
        for q in qs:
            if len(q.pc) < n or any(a is not b and not a.eq(b) for a, b in zip(base.pc, q.pc)) or len(q.frames) != len(base.frames):
                raise Unsupported('join')
        m = base.copy()
        extra = [q.pc[n:] for q in qs]
        common = set(f.get_id() for f in extra[0])
        for e in extra[1:]:
            common &= set(f.get_id() for f in e)
        bs = [z3.Bool(fresh_name('path')) for _ in qs]
        m.assume(*[f for f in extra[0] if f.get_id() in common])
        m.assume(z3.Or(*bs))
        for b, e in zip(bs, extra):
            m.assume(*[z3.Implies(b, f) for f in e if f.get_id() not in common])

        def both(vs):
            v = vs[0]
            if all(w is v for w in vs):
                return v
            if any(type(w) is not type(v) for w in vs) and not all(isinstance(w, z3.ExprRef) for w in vs):
                raise Unsupported('join')
            if isinstance(v, z3.ExprRef):
                if any(w.sort() != v.sort() for w in vs):
                    raise Unsupported('join')
                if all(w.eq(v) for w in vs):
                    return v
                r = vs[-1]
                for b, w in list(zip(bs, vs))[-2::-1]:
                    r = z3.If(b, w, r)
                if z3.is_array(r) or r.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                    c = z3.Const(fresh_name('joined'), r.sort())
                    m.assume(*[z3.Implies(b, c == w) for b, w in zip(bs, vs)])
                    return c
                return r
            if isinstance(v, (tuple, list)):
                if any(len(w) != len(v) for w in vs):
                    raise Unsupported('join')
                return type(v)(both(list(x)) for x in zip(*vs))
            if isinstance(v, dict):
                if any(list(w) != list(v) for w in vs):
                    raise Unsupported('join')
                return {k: both([w[k] for w in vs]) for k in v}
            if isinstance(v, LV):
                if any((w.kind, w.path) != (v.kind, v.path) or (w.base is not v.base and w.base != v.base) for w in vs):
                    raise Unsupported('join')
                return v
            if type(v).__name__ in ('Ptr', 'ObjRef', 'Struct', 'Opt', 'Variant', 'Tup', 'Vec', 'SetV', 'MapV', 'It', 'PPtr'):
                r = object.__new__(type(v))
                for a in type(v).__slots__:
                    xs = [getattr(w, a) for w in vs]
                    if a in ('t', 'et', 'ts', 'kt', 'vt', 'kind'):
                        if a == 'kind' and any(x != xs[0] for x in xs):
                            raise Unsupported('join')
                        setattr(r, a, xs[0])
                    else:
                        setattr(r, a, both(xs))
                return r
            if all(w == v for w in vs):
                return v
            raise Unsupported('join')
        m.next = both([q.next for q in qs])
        known = set()
        for fr in base.frames:
            known |= set(lv.base for lv in fr.env.values() if isinstance(lv, LV) and lv.kind == 'cell')
        for k in set(k for q in qs for k in q.cells):
            vs = [q.cells[k] for q in qs if k in q.cells]
            if len(vs) == len(qs):
                try:
                    m.cells[k] = both(vs)
                except Unsupported:
                    if k in known:
                        raise
                    m.cells.pop(k, None)
            else:
                m.cells[k] = vs[0]
        for k in set(k for q in qs for k in q.heap):
            m.heap[k] = both([self.harr(q, k) for q in qs])
        for k in set(k for q in qs for k in q.ghost):
            if k in self.ghost_sorts:
                m.ghost[k] = both([self.garr(q, k) for q in qs])
            else:
                vs = [q.ghost.get(k) for q in qs]
                if all(v is vs[0] or v == vs[0] for v in vs[1:]):
                    m.ghost[k] = vs[0]
                else:
                    m.ghost.pop(k, None)
        return m

    def s_switch(self, st, s):
        body = s['body']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten case labels
        flat = []
        for x in items:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x.get('v') if x['k'] == 'case' else 'default')
                x = x['s']
            flat.append((labels, x))
        allv = [l for ls, _ in flat for l in ls if l != 'default']
        out = []
        for q, v in self.cond_states(st, s):
            if not isinstance(v, z3.ExprRef):
                raise Unsupported('switch on %s' % type(v).__name__)
            if z3.is_bool(v):
                v = z3.If(v, I(1), I(0))
            remaining = q
            ended = False
            for idx, (labels, _) in enumerate(flat):
                for l in labels:
                    if l == 'default':
                        continue
                    br = self.branch(remaining, v == l, 'case %s' % l)
                    taken = [b for b in br if b[1]]
                    rest = [b for b in br if not b[1]]
                    for q2, _ in taken:
                        out += self.switch_from(q2, flat, idx)
                    if not rest:
                        ended = True
                        break
                    remaining = rest[0][0]
                if ended:
                    break
            if not ended:
                d = [i for i, (ls, _) in enumerate(flat) if 'default' in ls]
                if d:
                    out += self.switch_from(remaining, flat, d[0])
                else:
                    out.append((remaining, None))
        return out

    def switch_from(self, st, flat, idx):
        res = self.run_list(st, [x for _, x in flat[idx:] if x is not None])
        return [(q, None if ctl == ('break',) else ctl) for q, ctl in res]

    # ---- loops -----------------------------------------------------------
    def find_loopspec(self, st, s):
        fr = st.frame
        fq = fr.fn['qn'] if fr.fn else None
        n = fr.loopn.setdefault(id(s), len(fr.loopn))
        for L in self.loopspecs:
            if L.fn is not None and L.fn != '*' and fq is not None and not (fq == L.fn or fq.endswith('::' + L.fn)):
                continue
            if L.fn is None and fq is not None and self.unit_contract is not None and fr.fn is not self.unit_decl and fr.fn is not None:
                continue
            if callable(L.match):
                if L.match(s):
                    return L
            elif L.match == n:
                return L
        return None

    def s_while(self, st, s):
        return self.loop(st, s, lambda q: self.cond_states(q, {'cv': s.get('cv'), 'c': s['c']}), s['body'], None)

    def s_for(self, st, s):
        states = [st]
        if s.get('init'):
            states = [q for q, _ in self.run(st, s['init'])]
        out = []
        for q in states:
            out += self.loop(q, s, lambda z: (self.cond_states(z, {'cv': s.get('cv'), 'c': s['c']}) if s.get('c')
                                              else [(z, TRUE)]), s['body'], s.get('inc'))
        return out

    def s_do(self, st, s):
        # do B while(C)  ==  B; while(C) B
        out = []
        for q, ctl in self.run(st, s['body']):
            if ctl == ('break',):
                out.append((q, None))
            elif ctl is None or ctl == ('continue',):
                out += self.loop(q, s, lambda z: self.evr(z, s['c']), s['body'], None)
            else:
                out.append((q, ctl))
        return out

    def changed(self, a, b):
        cells = set()
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w is not v and not self.val_eq(v, w):
                cells.add(k)
        heap = set()
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                w = z3.Const('H!' + k, v.sort())
            if w is not v and not w.eq(v):
                heap.add(k)
        ghost = set()
        for k, v in b.ghost.items():
            if not isinstance(k, str):
                continue
            w = a.ghost.get(k)
            if w is None:
                w = z3.Const('G!' + k, v.sort())
            if w is not v and not w.eq(v):
                ghost.add(k)
        return cells, heap, ghost, not a.next.eq(b.next)

    def val_eq(self, v, w):
        if type(v) is not type(w):
            return False
        if isinstance(v, z3.ExprRef):
            return v.eq(w)
        if isinstance(v, (Ptr, ObjRef)):
            return v.ref.eq(w.ref)
        if isinstance(v, Struct):
            return set(v.fields) == set(w.fields) and all(self.val_eq(v.fields[k], w.fields[k]) for k in v.fields)
        if isinstance(v, Opt):
            return v.has.eq(w.has) and self.val_eq(v.val, w.val)
        if isinstance(v, Vec):
            return v.arr.eq(w.arr) and v.lo.eq(w.lo) and v.hi.eq(w.hi)
        if isinstance(v, SetV):
            return v.arr.eq(w.arr)
        if isinstance(v, MapV):
            return v.arr.eq(w.arr) and v.dom.eq(w.dom)
        if isinstance(v, Tup):
            return all(self.val_eq(a, b) for a, b in zip(v.vals, w.vals))
        if isinstance(v, Variant):
            return v.idx.eq(w.idx) and all(a is b or (a is not None and b is not None and self.val_eq(a, b))
                                           for a, b in zip(v.vals, w.vals))
        if isinstance(v, It):
            return v.kind == w.kind and self.pos_eq(v.pos, w.pos)
        if isinstance(v, PPtr):
            return v.lv.kind == w.lv.kind and v.lv.base == w.lv.base and v.lv.path == w.lv.path
        return v is w

    def pos_eq(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return a is b

    def fresh_like(self, st, v, t):
        """havoc a value, keeping its shape"""
        if isinstance(v, z3.ExprRef):
            x = z3.Const(fresh_name('lv'), v.sort())
            if t is not None and t.k in ('builtin', 'enum'):
                st.assume(*self.ty.facts(t, x, st.next))
            return x
        if isinstance(v, Ptr):
            x = z3.Int(fresh_name('lp'))
            st.assume(x >= 0, x < st.next)
            return Ptr(x, v.t)
        if isinstance(v, Struct):
            return Struct(v.t, {k: self.fresh_like(st, v.fields[k], ft) for k, ft, _ in self.prog.all_fields(v.t)})
        if isinstance(v, Opt):
            return Opt(v.et, z3.Bool(fresh_name('has')), self.fresh_like(st, v.val, v.et))
        if isinstance(v, Vec):
            lo = z3.Int(fresh_name('lo')) if not z3.is_int_value(v.lo) else v.lo
            hi = z3.Int(fresh_name('hi'))
            st.assume(lo <= hi)
            return Vec(v.et, z3.Const(fresh_name('arr'), v.arr.sort()), lo, hi)
        if isinstance(v, SetV):
            return SetV(v.et, z3.Const(fresh_name('set'), v.arr.sort()))
        if isinstance(v, MapV):
            return MapV(v.kt, v.vt, z3.Const(fresh_name('dom'), v.dom.sort()), z3.Const(fresh_name('map'), v.arr.sort()))
        if isinstance(v, Tup):
            return Tup(v.ts, [self.fresh_like(st, a, b) for a, b in zip(v.vals, v.ts)])
        if isinstance(v, Variant):
            i = z3.Int(fresh_name('alt'))
            st.assume(i >= 0, i < len(v.ts))
            return Variant(v.ts, i, [self.ty.fresh(t2) for t2 in v.ts])
        if isinstance(v, It):
            return self.models.it_havoc(self, st, v)
        if isinstance(v, Opaque):
            return Opaque(v.t, z3.Const(fresh_name('opq'), v.term.sort()))
        if t is not None and t.k == 'record' and t.qn in self.ty.custom:
            return self.ty.fresh(t)
        raise Unsupported('cannot havoc %s' % type(v).__name__)

    def celltypes(self, st):
        m = {}
        for fr in st.frames:
            for lv in fr.env.values():
                if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path:
                    m[lv.base] = lv.t
        return m

    def havoc(self, st, mods):
        cells, heap, ghost, nx = mods
        if nx:
            nn = z3.Int(fresh_name('next'))
            st.assume(nn >= st.next)
            st.next = nn
        ct = self.celltypes(st)
        for k in cells:
            if k in st.cells:
                st.cells[k] = self.fresh_like(st, st.cells[k], ct.get(k))
        for k in heap:
            st.heap[k] = z3.Const(fresh_name('H!' + k), self.harr(st, k).sort())
        for k in ghost:
            st.ghost[k] = z3.Const(fresh_name('G!' + k), self.garr(st, k).sort())

    def loop(self, st, s, condf, body, inc, it=None):
        """while-style loop cut at its head with an invariant"""
        spec = self.find_loopspec(st, s)
        entry = st.copy()
        line = s.get('ln')
        name = 'loop@%s' % line

        def one_iteration(q):
            """from a loop-head state: -> (exits[(st,ctl)], backedges[st])"""
            exits, backs = [], []
            for q1, c in condf(q):
                for q2, b in self.branch(q1, self.truth(c), name):
                    if not b:
                        exits.append((q2, None))
                        continue
                    for q3, ctl in self.run(q2, body):
                        if ctl == ('break',):
                            exits.append((q3, None))
                        elif ctl is None or ctl == ('continue',):
                            if inc is not None:
                                for q4, _ in self.ev(q3, inc):
                                    backs.append(q4)
                            else:
                                backs.append(q3)
                        else:
                            exits.append((q3, ctl))
            return exits, backs

        # which locations can the loop modify?  (iterate a dry run to a fixpoint)
        mods = (set(), set(), set(), False)
        self.quiet += 1
        try:
            while True:
                q = entry.copy()
                self.havoc(q, mods)
                q0 = q.copy()
                _, backs = one_iteration(q)
                new = (set(mods[0]), set(mods[1]), set(mods[2]), mods[3])
                for b in backs:
                    c, h, g, nx = self.changed(q0, b)
                    new[0].update(k for k in c if k in entry.cells)
                    new[1].update(h)
                    new[2].update(g)
                    if nx:
                        new = (new[0], new[1], new[2], True)
                if new == mods:
                    break
                mods = new
        finally:
            self.quiet -= 1
        uinv = spec.inv if spec is not None else (lambda L: [])
        fmods = self.unit_contract.modifies(Ctx(self, self.unit_st0, self.unit_st0, self.unit_this, self.unit_args)) \
            if self.unit_contract is not None and (mods[1] or mods[2]) else {}

        def invf(L):
            # the frame of the unit's contract holds at every loop head
            gs = []
            for key in sorted(mods[1]):
                cond = fmods.get(key)
                if cond is True:
                    continue
                a0, a1 = self.harr(self.unit_st0, key), self.harr(L.st1, key)
                if a0.eq(a1):
                    continue
                if cond is None:
                    gs.append(a1 == a0)
                    continue
                r = z3.Int('r!lf')
                gs.append(fa([r], z3.Implies(z3.And(r > 0, r < self.unit_st0.next, z3.Not(cond(r))), sel(a1, r) == sel(a0, r)), z3.Select(a1, r)))
            for key in sorted(k for k in mods[2] if isinstance(k, str)):
                cond = fmods.get(key)
                if cond is None or cond is True or self.unit_contract.ghost:
                    continue
                a0, a1 = self.garr(self.unit_st0, key), self.garr(L.st1, key)
                if a0.eq(a1):
                    continue
                r = z3.Int('r!lf')
                gs.append(fa([r], z3.Implies(z3.And(r > 0, r < self.unit_st0.next, z3.Not(cond(r))), sel(a1, r) == sel(a0, r)), z3.Select(a1, r)))
            return gs + list(uinv(L))
        # establishment
        L = LoopCtx(self, entry, st, None)
        for i, g in enumerate(invf(L)):
            self.check(st, g, 'loop invariant %d holds on entry (%s)' % (i, name_of(s)), line)
        # arbitrary iteration
        self.havoc(st, mods)
        L = LoopCtx(self, entry, st, None)
        for g in invf(L):
            st.assume(g)
        dec0 = spec.decreases(L) if spec is not None and spec.decreases else None
        exits, backs = one_iteration(st)
        for b in backs:
            Lb = LoopCtx(self, entry, b, None)
            for i, g in enumerate(invf(Lb)):
                self.check(b, g, 'loop invariant %d is preserved (%s)' % (i, name_of(s)), line)
            if dec0 is not None:
                self.check(b, lex_lt(spec.decreases(Lb), dec0), 'loop terminates: measure decreases (%s)' % name_of(s), line)
        return exits

    def s_forrange(self, st, s):
        states = [st]
        if s.get('init'):
            states = [q for q, _ in self.run(st, s['init'])]
        out = []
        for q in states:
            for q2, rv in self.ev(q, s['range']):
                out += self.for_each(q2, s, rv)
        return out

    def for_each(self, st, s, rv):
        lv = rv if isinstance(rv, LV) else None
        v = self.load(st, rv) if isinstance(rv, LV) else rv
        if isinstance(v, (Struct, ObjRef)):
            m = self.models.range_of(self, st, rv, v)
            if m is None:
                return self.desugared_range(st, s, rv)
            v, lv = m
        if isinstance(v, Range) and isinstance(v.val, IterPair):
            return self.desugared_range(st, s, rv)
        if isinstance(v, Range):
            lv = v.lv
            v = v.val
        if isinstance(v, z3.SeqRef):
            v2 = v
            return self.iterate_indexed(st, s, z3.Length(v2), lambda q, i: self.models.char_at(self, q, v2, i), None)
        if isinstance(v, Vec):
            if lv is not None and z3.is_int_value(v.size()) and v.size().as_long() <= 4 and not self.find_loopspec(st, s):
                return self.unroll_vec(st, s, v, lv)
            n = v.size()
            if z3.is_int_value(n) and n.as_long() <= 8:
                return self.unroll_vec(st, s, v, lv)

            def elem(q, i):
                if lv is not None:
                    return lv.sub(('idx', i), v.et)
                return self.var_lv(q, v.et, self.ty.dec(v.et, sel(v.arr, v.lo + i)))
            return self.iterate_indexed(st, s, n, elem, v)
        if isinstance(v, SetV):
            return self.iterate_set(st, s, v, lv)
        if isinstance(v, MapV):
            return self.iterate_map(st, s, v, lv)
        if type(v).__name__ == 'MapVals':
            return self.iterate_map(st, s, v.m, lv, values=v.et)
        raise Unsupported('range-for over %s' % type(v).__name__)

    def desugared_range(self, st, s, rv):
        """range-for over a type of /repo with its own begin()/end()"""
        if 'begin' not in s:
            raise Unsupported('range-for without begin/end')
        # __range variable
        rng = s['rangevar']['vars'][0]
        st.frame.env[rng['id']] = rv if isinstance(rv, LV) else self.var_lv(st, rng['t'].deref(), rv)
        self.varnames[rng['id']] = '__range'
        out = []
        states = [q for q, _ in self.run(st, s['begin'])]
        states = [q2 for q in states for q2, _ in self.run(q, s['end'])]
        body = {'k': 'block', 'b': [{'k': 'decl', 'vars': [s['var']]}, s['body']], 'ln': s.get('ln')}
        for q in states:
            out += self.loop(q, s, lambda z: self.evr(z, s['cond']), body, s['incr'])
        return out

    def bind_loopvar(self, st, s, x):
        var = s['var']
        self.varnames[var['id']] = var['n']
        t = var['t']
        v0 = x
        # conversion performed by the declaration's initialiser (copy ctor, casts) -- evaluate
        # it with the dereferenced iterator replaced by x
        if t.k in ('ref', 'rref'):
            if not isinstance(x, LV):
                x = self.var_lv(st, t.to, x)
            st.frame.env[var['id']] = x
        else:
            v = self.load(st, x) if isinstance(x, LV) else x
            st.frame.env[var['id']] = self.var_lv(st, t, v)
        if var.get('bindings'):
            for b in var['bindings']:
                if b.get('hold'):
                    self.declare(st, b['hold'])

    def unroll_vec(self, st, s, v, lv):
        n = v.size().as_long()
        live, out = [st], []
        for i in range(n):
            nxt = []
            for q in live:
                x = self.var_lv(q, v.et, self.ty.dec(v.et, sel(v.arr, z3.simplify(v.lo + i)))) if lv is None else lv.sub(('idx', I(i)), v.et)
                self.bind_loopvar(q, s, x)
                for q2, ctl in self.run(q, s['body']):
                    if ctl == ('break',):
                        out.append((q2, None))
                    elif ctl is None or ctl == ('continue',):
                        nxt.append(q2)
                    else:
                        out.append((q2, ctl))
            live = nxt
        return out + [(q, None) for q in live]

    def iterate_indexed(self, st, s, n, elem, vec):
        icell = self.newcell(st, None, I(0))
        def condf(q):
            i = q.cells[icell.base]
            return [(q, i < n)]
        pos = {'k': 'raw'}
        def stepbody(q):
            pass
        body = {'k': 'rawiter', 'f': lambda q: self._iter_body(q, s, icell, elem), 'ln': s.get('ln')}
        return self.loop_it(st, s, condf, body, icell, n, vec, 'index')

    def s_rawiter(self, st, s):
        return s['f'](st)

    def _iter_body(self, q, s, icell, elem):
        i = q.cells[icell.base]
        x = elem(q, i)
        self.bind_loopvar(q, s, x)
        out = []
        for q2, ctl in self.run(q, s['body']):
            if ctl is None or ctl == ('continue',):
                q2.cells[icell.base] = z3.simplify(i + 1)
            out.append((q2, ctl))
        return out

    def iter_stable(self, st, s, lv, v):
        """range-for keeps iterators into the container: its body must not add or remove elements"""
        if lv is None:
            return
        try:
            w = self.load(st, lv)
        except KeyError:
            return
        if w is v:
            return
        if isinstance(v, SetV) and isinstance(w, SetV):
            if not w.arr.eq(v.arr):
                x = z3.Const(fresh_name('x'), v.arr.sort().domain())
                self.safe(st, sel(w.arr, x) == sel(v.arr, x), 'the container does not change while it is iterated', s.get('ln'))
        elif isinstance(v, Vec) and isinstance(w, Vec):
            if not (w.lo.eq(v.lo) and w.hi.eq(v.hi)):
                self.safe(st, w.hi - w.lo == v.hi - v.lo, 'the container does not change while it is iterated', s.get('ln'))
        elif isinstance(v, MapV) and isinstance(w, MapV):
            if not w.dom.eq(v.dom):
                x = z3.Const(fresh_name('x'), v.dom.sort().domain())
                self.safe(st, sel(w.dom, x) == sel(v.dom, x), 'the container does not change while it is iterated', s.get('ln'))

    def iterate_set(self, st, s, v, lv=None):
        es = self.ty.sort(v.et)
        dcell = self.newcell(st, None, SetV(v.et, z3.K(es, FALSE)))

        def condf(q):
            done = q.cells[dcell.base].arr
            more = z3.Const(fresh_name('more'), z3.BoolSort())
            # more <=> some element has not been visited
            x = z3.Const(fresh_name('x'), es)
            w = z3.Const(fresh_name('next'), es)
            q.assume(z3.Implies(more, z3.And(sel(v.arr, w), z3.Not(sel(done, w)))))
            q.assume(z3.Implies(z3.Not(more), done == v.arr))
            q.ghost[('cur', dcell.base)] = w
            return [(q, more)]

        def bodyf(q):
            w = q.ghost[('cur', dcell.base)]
            val = self.ty.dec(v.et, w)
            q.assume(*self.ty.facts(v.et, val, q.next))
            self.bind_loopvar(q, s, self.var_lv(q, v.et, val))
            out = []
            done = q.cells[dcell.base].arr
            for q2, ctl in self.run(q, s['body']):
                if ctl is None or ctl == ('continue',):
                    self.iter_stable(q2, s, lv, v)
                    q2.cells[dcell.base] = SetV(v.et, z3.Store(done, w, TRUE))
                out.append((q2, ctl))
            return out
        body = {'k': 'rawiter', 'f': bodyf, 'ln': s.get('ln')}
        return self.loop_it(st, s, condf, body, dcell, None, v, 'set')

    def iterate_map(self, st, s, v, lv, values=None):
        ks = z3.StringSort() if v.kt is None else self.ty.sort(v.kt)
        dcell = self.newcell(st, None, SetV(v.kt, z3.K(ks, FALSE)))

        def condf(q):
            done = q.cells[dcell.base].arr
            more = z3.Const(fresh_name('more'), z3.BoolSort())
            w = z3.Const(fresh_name('key'), ks)
            q.assume(z3.Implies(more, z3.And(sel(v.dom, w), z3.Not(sel(done, w)))))
            q.assume(z3.Implies(z3.Not(more), done == v.dom))
            q.ghost[('cur', dcell.base)] = w
            return [(q, more)]

        def bodyf(q):
            w = q.ghost[('cur', dcell.base)]
            self.bind_loopvar(q, s, self.models.map_entry(self, q, v, lv, w) if values is None else self.ty.dec(values, sel(v.arr, w)))
            out = []
            done = q.cells[dcell.base].arr
            for q2, ctl in self.run(q, s['body']):
                if ctl is None or ctl == ('continue',):
                    self.iter_stable(q2, s, lv, v)
                    q2.cells[dcell.base] = SetV(v.kt, z3.Store(done, w, TRUE))
                out.append((q2, ctl))
            return out
        body = {'k': 'rawiter', 'f': bodyf, 'ln': s.get('ln')}
        return self.loop_it(st, s, condf, body, dcell, None, v, 'map')

    def loop_it(self, st, s, condf, body, cell, n, vec, kind):
        """loop with an iteration cell (index or visited set) exposed to the invariant"""
        spec = self.find_loopspec(st, s)
        auto = []

        def inv(L):
            L.it = L.st1.cells[cell.base]
            L.n = n
            L.seq = vec
            L.kind = kind
            gs = []
            if kind == 'index':
                L.idx = L.it
                gs += [L.it >= 0, z3.Or(L.it <= n, L.it == 0)]
            else:
                L.done = L.it.arr
                whole = vec.arr if kind == 'set' else vec.dom
                e = z3.Const(fresh_name('e'), whole.sort().domain())
                ia = L.it.arr
                if ia.decl().kind() != z3.Z3_OP_UNINTERPRETED or ia.num_args():
                    ia = z3.Const(fresh_name('visited'), whole.sort())
                    self.axioms.append(ia == L.it.arr)
                gs.append(z3.ForAll([e], z3.Implies(sel(ia, e), sel(whole, e)), patterns=[z3.Select(ia, e)]))
            if spec is not None:
                gs += list(spec.inv(L))
            return gs
        sp = Loop(inv, decreases=spec.decreases if spec else None)
        save = self.find_loopspec
        self.find_loopspec = lambda a, b: sp if b is s else save(a, b)
        # hide from nested lookups
        try:
            return self.loop(st, s, condf, body, None)
        finally:
            self.find_loopspec = save


class Call:
    __slots__ = ('f', 'obj', 'args', 'e', 't', 'ae', 'this')

    def __init__(self, f, obj, args, e, t, ae, this=None):
        self.f, self.obj, self.args, self.e, self.t, self.ae, self.this = f, obj, args, e, t, ae, this


def name_of(s):
    return {'forrange': 'range-for', 'for': 'for', 'while': 'while', 'do': 'do'}.get(s['k'], s['k'])


def fa(vs, body, *pats):
    """universal quantifier with the given patterns where the solver accepts them"""
    try:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def sel(a, i):
    """select with read-over-write simplification on syntactically equal indices"""
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        if a.arg(1).eq(i):
            return a.arg(2)
        j = a.arg(1)
        d = z3.simplify(j - i) if z3.is_int(j) else None
        if d is not None and z3.is_int_value(d) and d.as_long() != 0:
            a = a.arg(0)
            continue
        if z3.is_string_value(j) and z3.is_string_value(i) and j.as_string() != i.as_string():
            a = a.arg(0)
            continue
        break
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
        return a.arg(0)
    return z3.Select(a, i)


def schar(code):
    """value of a (signed) char given its byte"""
    if z3.is_int_value(code):
        n = code.as_long()
        return I(n - 256 if n > 127 else n)
    return z3.If(code > 127, code - 256, code)


def lex_lt(a, b):
    """lexicographic < on tuples of naturals"""
    if not isinstance(a, (list, tuple)):
        a, b = [a], [b]
    r = FALSE
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(z3.And(x < y, y >= 0, x >= 0), z3.And(x == y, r))
    return r
