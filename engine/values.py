"""Symbolic values, SMT sorts of C++ types, and the symbolic state."""
import itertools
import z3

_ctr = itertools.count(1)


class Unsupported(Exception):
    """The verifier cannot handle a construct: the unit is undecided."""


def fresh_name(base):
    return '%s!%d' % (base, next(_ctr))


# --------------------------------------------------------------------------
# values
class Ptr:
    __slots__ = ('ref', 't')

    def __init__(self, ref, t=None):
        self.ref = ref
        self.t = t


class PPtr:
    """pointer to a local (never null)"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class ObjRef:
    """value of an object-class variable: identity of the heap object"""
    __slots__ = ('ref', 't')

    def __init__(self, ref, t):
        self.ref = ref
        self.t = t


class Struct:
    __slots__ = ('t', 'fields')

    def __init__(self, t, fields):
        self.t = t
        self.fields = fields


class Opt:
    __slots__ = ('et', 'has', 'val')

    def __init__(self, et, has, val):
        self.et, self.has, self.val = et, has, val


class Variant:
    __slots__ = ('ts', 'idx', 'vals')

    def __init__(self, ts, idx, vals):
        self.ts, self.idx, self.vals = ts, idx, vals


class Tup:
    __slots__ = ('ts', 'vals')

    def __init__(self, ts, vals):
        self.ts, self.vals = ts, vals


class Vec:
    __slots__ = ('et', 'arr', 'lo', 'hi')

    def __init__(self, et, arr, lo, hi):
        self.et, self.arr, self.lo, self.hi = et, arr, lo, hi

    def size(self):
        return z3.simplify(self.hi - self.lo)


class SetV:
    __slots__ = ('et', 'arr')

    def __init__(self, et, arr):
        self.et, self.arr = et, arr


class MapV:
    __slots__ = ('kt', 'vt', 'dom', 'arr')

    def __init__(self, kt, vt, dom, arr):
        self.kt, self.vt, self.dom, self.arr = kt, vt, dom, arr


class Stream:
    """an output stream: text written so far lives in `lv` (a string lvalue)"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Opaque:
    __slots__ = ('t', 'term')

    def __init__(self, t, term):
        self.t, self.term = t, term


class Closure:
    __slots__ = ('e', 'env', 'this', 'frame_cls')

    def __init__(self, e, env, this):
        self.e, self.env, self.this = e, env, this


class FnVal:
    __slots__ = ('f', 'decl')

    def __init__(self, f):
        self.f = f


class It:
    """iterator: kind in vec/set/map; container lvalue; position"""
    __slots__ = ('kind', 'lv', 'pos', 'end', 'snap', 'et')

    def __init__(self, kind, lv, pos, end, snap=None, et=None):
        self.kind, self.lv, self.pos, self.end, self.snap, self.et = kind, lv, pos, end, snap, et


class MapVals:
    """the values of a map, in some order"""
    __slots__ = ('m', 'et')

    def __init__(self, m, et):
        self.m, self.et = m, et


class Range:
    """iterator range over a container value"""
    __slots__ = ('val', 'lv', 'et', 'reverse', 'filt')

    def __init__(self, val, lv=None, et=None, reverse=False, filt=None):
        self.val, self.lv, self.et, self.reverse, self.filt = val, lv, et, reverse, filt


class IterPair:
    """two iterators of a class of /repo"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class Void:
    pass


VOID = Void()


class LV:
    """an lvalue.  kind 'cell': base is a cell id.  kind 'heap': base is a ref term
    and t0 the type of the root object."""
    __slots__ = ('kind', 'base', 't0', 'path', 't')

    def __init__(self, kind, base, t0, path, t):
        self.kind, self.base, self.t0, self.path, self.t = kind, base, t0, tuple(path), t

    def sub(self, step, t):
        return LV(self.kind, self.base, self.t0, self.path + (step,), t)

    def cast(self, t):
        t0 = t if not self.path else self.t0
        return LV(self.kind, self.base, t0, self.path, t)


# --------------------------------------------------------------------------
STRINGS = {'std::basic_string', 'llvm::StringRef', 'std::basic_string_view', 'llvm::Twine', 'llvm::SmallString',
           'std::filesystem::path', 'llvm::formatv_object', 'std::filesystem::__cxx11::path', 'llvm::StringLiteral',
           'std::__cxx11::basic_string'}


def is_text(t):
    return t.k == 'builtin' and t.b == 'char'


UPTRS = {'std::unique_ptr', 'std::shared_ptr', 'llvm::IntrusiveRefCntPtr'}
VECS = {'z3::ast_vector_tpl', 'std::vector', 'llvm::SmallVector', 'llvm::SmallVectorImpl', 'std::deque', 'std::stack', 'llvm::ArrayRef',
        'std::initializer_list', 'std::array', 'std::queue'}
SETS = {'llvm::SmallSet', 'std::set', 'std::unordered_set', 'llvm::SmallPtrSet', 'llvm::SmallPtrSetImpl',
        'llvm::DenseSet', 'llvm::SetVector'}
MAPS = {'llvm::StringMap', 'std::map', 'std::unordered_map', 'llvm::DenseMap'}


def clean(n):
    """names both back ends can parse"""
    import re
    return re.sub(r'[^A-Za-z0-9_]', lambda m: {'<': '_L', '>': '_R', ',': '_', ':': '', ' ': '', '!': '_'}.get(m.group(0), '_'), n)


class Types:
    """SMT sorts and encodings for the types of one program."""

    def __init__(self, prog):
        self.prog = prog
        self.custom = {}          # qn -> (sort, enc, dec, facts)
        self.objects = set()      # qualified names with identity semantics
        self._sorts = {}
        self._dt = {}

    # classification
    def is_object(self, t):
        if t.k != 'record':
            return False
        if t.qn in self.objects:
            return True
        return any(b.qn in self.objects for b in self.prog.bases(t))

    def is_mine(self, t):
        r = self.prog.record(t)
        return bool(r and r.get('mine'))

    def sort(self, t):
        key = t.name
        if t.islambda:
            raise Unsupported('sort of lambda')
        s = self._sorts.get(key)
        if s is None:
            s = self._sort(t)
            self._sorts[key] = s
        return s

    def _sort(self, t):
        if t.k == 'builtin':
            if t.b == 'bool':
                return z3.BoolSort()
            if t.b in ('int', 'char', 'nullptr'):
                return z3.IntSort()
            if t.b == 'float':
                return z3.RealSort()
            raise Unsupported('sort of ' + t.s)
        if t.k == 'enum':
            return z3.IntSort()
        if t.k in ('ref', 'rref'):
            return self.sort(t.to)
        if t.k == 'ptr':
            if t.to.k == 'builtin' and t.to.b == 'char':
                return z3.StringSort()
            return z3.IntSort()
        if t.k == 'record':
            if t.qn in self.custom:
                return self.custom[t.qn][0]
            if t.qn in STRINGS:
                return z3.StringSort()
            if t.qn in UPTRS:
                return z3.StringSort() if is_text(t.targs[0]) else z3.IntSort()
            if t.qn == 'std::optional':
                return self.opt_dt(t.targs[0])
            if t.qn in ('std::pair', 'std::tuple'):
                return self.tup_dt(t.targs)
            if t.qn == 'std::variant':
                return self.var_dt(t.targs)
            if t.qn in VECS:
                return self.vec_dt(t.targs[0])
            if t.qn in SETS:
                return z3.ArraySort(self.sort(t.targs[0]), z3.BoolSort())
            if t.qn in MAPS:
                kt, vt = self.map_targs(t)
                return self.map_dt(kt, vt)
            if self.is_object(t):
                return z3.IntSort()
            if self.is_mine(t):
                return self.struct_dt(t)
            return z3.DeclareSort(clean('Opq_' + t.name))
        raise Unsupported('sort of ' + t.s)

    def map_targs(self, t):
        if t.qn == 'llvm::StringMap':
            return None, t.targs[0]
        return t.targs[0], t.targs[1]

    def _mk(self, name, *ctors):
        name = clean(name)
        ctors = [(clean(c[0]), [(clean(n), s) for n, s in c[1]]) for c in ctors]
        d = self._dt.get(name)
        if d is None:
            dt = z3.Datatype(name)
            for c in ctors:
                dt.declare(c[0], *c[1])
            d = dt.create()
            self._dt[name] = d
        return d

    def opt_dt(self, et):
        s = self.sort(et)
        n = 'Opt<%s>' % s
        return self._mk(n, ('none!' + n, []), ('some!' + n, [('val!' + n, s)]))

    def tup_dt(self, ts):
        ss = [self.sort(x) for x in ts]
        n = 'Tup<%s>' % ','.join(map(str, ss))
        return self._mk(n, ('mk!' + n, [('f%d!%s' % (i, n), s) for i, s in enumerate(ss)]))

    def var_dt(self, ts):
        ss = [self.sort(x) for x in ts]
        n = 'Var<%s>' % ','.join(map(str, ss))
        return self._mk(n, *[('alt%d!%s' % (i, n), [('v%d!%s' % (i, n), s)]) for i, s in enumerate(ss)])

    def vec_dt(self, et):
        s = self.sort(et)
        n = 'Vec<%s>' % s
        return self._mk(n, ('mk!' + n, [('arr!' + n, z3.ArraySort(z3.IntSort(), s)), ('lo!' + n, z3.IntSort()),
                                        ('hi!' + n, z3.IntSort())]))

    def map_dt(self, kt, vt):
        ks = z3.StringSort() if kt is None else self.sort(kt)
        vs = self.sort(vt)
        n = 'Map<%s,%s>' % (ks, vs)
        return self._mk(n, ('mk!' + n, [('dom!' + n, z3.ArraySort(ks, z3.BoolSort())),
                                        ('arr!' + n, z3.ArraySort(ks, vs))]))

    def struct_dt(self, t):
        n = 'S<%s>' % t.name
        fs = self.prog.all_fields(t)
        return self._mk(n, ('mk!' + n, [(k + '!' + n, self.sort(ft)) for k, ft, _ in fs]))

    # encode / decode
    def enc(self, t, v):
        if t.k in ('ref', 'rref'):
            t = t.to
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Ptr):
            return v.ref
        if isinstance(v, ObjRef):
            return v.ref
        if isinstance(v, Opaque):
            return v.term
        if t.k == 'record' and t.qn in self.custom:
            return self.custom[t.qn][1](v)
        if isinstance(v, PPtr):
            raise Unsupported('address of a local stored in a data structure')
        if isinstance(v, Opt):
            d = self.opt_dt(v.et)
            if z3.is_false(v.has):
                return d.constructor(0)()
            some = d.constructor(1)(self.enc(v.et, v.val))
            return some if z3.is_true(v.has) else z3.If(v.has, some, d.constructor(0)())
        if isinstance(v, Tup):
            d = self.tup_dt(v.ts)
            return d.constructor(0)(*[self.enc(a, b) for a, b in zip(v.ts, v.vals)])
        if isinstance(v, Variant):
            d = self.var_dt(v.ts)
            res = None
            for i in range(len(v.ts)):
                if v.vals[i] is None:
                    continue
                if z3.is_int_value(v.idx) and v.idx.as_long() != i:
                    continue
                x = d.constructor(i)(self.enc(v.ts[i], v.vals[i]))
                res = x if res is None else z3.If(v.idx == i, x, res)
            return res
        if isinstance(v, Vec):
            d = self.vec_dt(v.et)
            return d.constructor(0)(v.arr, v.lo, v.hi)
        if isinstance(v, SetV):
            return v.arr
        if isinstance(v, MapV):
            d = self.map_dt(v.kt, v.vt)
            return d.constructor(0)(v.dom, v.arr)
        if isinstance(v, Struct):
            d = self.struct_dt(v.t)
            return d.constructor(0)(*[self.enc(ft, v.fields[k]) for k, ft, _ in self.prog.all_fields(v.t)])
        raise Unsupported('encode %s as %s' % (type(v).__name__, t.s))

    def dec(self, t, x):
        if t.k in ('ref', 'rref'):
            t = t.to
        if t.k == 'builtin' or t.k == 'enum':
            return x
        if t.k == 'ptr':
            if t.to.k == 'builtin' and t.to.b == 'char':
                return x
            return Ptr(x, t.to)
        if t.k == 'record':
            if t.qn in self.custom:
                return self.custom[t.qn][2](x)
            if t.qn in STRINGS:
                return x
            if t.qn in UPTRS:
                return x if is_text(t.targs[0]) else Ptr(x, t.targs[0])
            if t.qn == 'std::optional':
                d = self.opt_dt(t.targs[0])
                if x.decl().eq(d.constructor(0)):
                    return Opt(t.targs[0], z3.BoolVal(False), self.dec(t.targs[0], d.accessor(1, 0)(x)))
                if x.decl().eq(d.constructor(1)):
                    return Opt(t.targs[0], z3.BoolVal(True), self.dec(t.targs[0], x.arg(0)))
                return Opt(t.targs[0], d.recognizer(1)(x), self.dec(t.targs[0], d.accessor(1, 0)(x)))
            if t.qn in ('std::pair', 'std::tuple'):
                d = self.tup_dt(t.targs)
                direct = x.decl().eq(d.constructor(0))
                return Tup(t.targs, [self.dec(a, x.arg(i) if direct else d.accessor(0, i)(x))
                                     for i, a in enumerate(t.targs)])
            if t.qn == 'std::variant':
                d = self.var_dt(t.targs)
                n = len(t.targs)
                idx = z3.IntVal(n - 1)
                for i in reversed(range(n - 1)):
                    idx = z3.If(d.recognizer(i)(x), z3.IntVal(i), idx)
                idx = z3.simplify(idx)
                return Variant(t.targs, idx, [self.dec(a, z3.simplify(d.accessor(i, 0)(x)))
                                              for i, a in enumerate(t.targs)])
            if t.qn in VECS:
                d = self.vec_dt(t.targs[0])
                if x.decl().eq(d.constructor(0)):
                    return Vec(t.targs[0], x.arg(0), x.arg(1), x.arg(2))
                lo = d.accessor(0, 1)(x)
                if t.qn not in ('std::deque', 'std::queue'):
                    lo = z3.IntVal(0)
                return Vec(t.targs[0], d.accessor(0, 0)(x), lo, d.accessor(0, 2)(x))
            if t.qn in SETS:
                return SetV(t.targs[0], x)
            if t.qn in MAPS:
                kt, vt = self.map_targs(t)
                d = self.map_dt(kt, vt)
                if x.decl().eq(d.constructor(0)):
                    return MapV(kt, vt, x.arg(0), x.arg(1))
                return MapV(kt, vt, d.accessor(0, 0)(x), d.accessor(0, 1)(x))
            if self.is_object(t):
                return ObjRef(x, t)
            if self.is_mine(t):
                d = self.struct_dt(t)
                direct = x.decl().eq(d.constructor(0))
                return Struct(t, {k: self.dec(ft, x.arg(i) if direct else d.accessor(0, i)(x))
                                  for i, (k, ft, _) in enumerate(self.prog.all_fields(t))})
            return Opaque(t, x)
        raise Unsupported('decode ' + t.s)

    def fresh(self, t, name='v'):
        if t.k in ('ref', 'rref'):
            t = t.to
        if t.k == 'record' and t.qn == 'llvm::iterator_range' and t.targs and t.targs[0].k == 'record' and self.is_mine(t.targs[0]) and not t.targs[0].qn.split('::')[-1] in ('FeatureMapIterator', 'UniqueIterator'):
            return Range(IterPair(self.fresh(t.targs[0], name), self.fresh(t.targs[0], name)))
        return self.dec(t, z3.Const(fresh_name(name), self.sort(t)))

    def facts(self, t, v, nxt, depth=0):
        """type invariants of a symbolic value (integer ranges, allocated pointers, sizes)"""
        out = []
        if t.k in ('ref', 'rref'):
            t = t.to
        if depth > 4:
            return out
        if t.k == 'builtin':
            if t.b == 'int' and isinstance(v, z3.ExprRef) and not z3.is_int_value(v):
                lo, hi = int_range(t)
                out += [v >= lo, v <= hi]
            elif t.b == 'char' and not z3.is_int_value(v):
                out += [v >= (-128 if t.sgn else 0), v <= 255]
        elif t.k == 'enum':
            e = self.prog.enums.get(t.qn)
            if e and not z3.is_int_value(v):
                vals = sorted(x[1] for x in e)
                if vals == list(range(vals[0], vals[-1] + 1)):
                    out += [v >= vals[0], v <= vals[-1]]
        elif isinstance(v, Ptr):
            if not z3.is_int_value(v.ref):
                out += [v.ref >= 0, v.ref < nxt]
        elif isinstance(v, ObjRef):
            if not z3.is_int_value(v.ref):
                out += [v.ref > 0, v.ref < nxt]
        elif isinstance(v, Opt):
            for f in self.facts(v.et, v.val, nxt, depth + 1):
                out.append(z3.Implies(v.has, f))
        elif isinstance(v, Tup):
            for a, b in zip(v.ts, v.vals):
                out += self.facts(a, b, nxt, depth + 1)
        elif isinstance(v, Variant):
            for i, (a, b) in enumerate(zip(v.ts, v.vals)):
                if b is not None:
                    for f in self.facts(a, b, nxt, depth + 1):
                        out.append(z3.Implies(v.idx == i, f))
        elif isinstance(v, Vec):
            out += [v.lo <= v.hi]
        elif isinstance(v, Struct):
            for k, ft, _ in self.prog.all_fields(v.t):
                out += self.facts(ft, v.fields[k], nxt, depth + 1)
        elif t.k == 'record' and t.qn in self.custom and len(self.custom[t.qn]) > 3:
            out += self.custom[t.qn][3](v, nxt)
        return out


def int_range(t):
    w = t.w or 32
    if t.sgn:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


class Frame:
    __slots__ = ('env', 'this', 'fn', 'cls', 'loopn')

    def __init__(self, env, this, fn):
        self.env, self.this, self.fn = env, this, fn
        self.loopn = {}

    def copy(self):
        f = Frame(dict(self.env), self.this, self.fn)
        f.loopn = self.loopn
        return f


class State:
    __slots__ = ('cells', 'heap', 'next', 'pc', 'factset', 'frames', 'ghost', 'trace')

    def __init__(self):
        self.cells = {}
        self.heap = {}
        self.next = None
        self.pc = []
        self.factset = set()
        self.frames = []
        self.ghost = {}
        self.trace = ()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.next = self.next
        s.pc = list(self.pc)
        s.factset = set(self.factset)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    @property
    def frame(self):
        return self.frames[-1]

    def assume(self, *fs):
        for f in fs:
            if f is None:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            i = f.get_id()
            if i in self.factset:
                continue
            self.factset.add(i)
            self.pc.append(f)
