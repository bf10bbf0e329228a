"""Assumed contracts of library functions (the trusted base), as transformers of
the symbolic state.  Everything here is an assumption about code outside /repo."""
import re
import z3
from values import *
from ex import I, TRUE, FALSE, Call, sel, Unsupported, schar

NPOS = (1 << 64) - 1
S_ = z3.StringSort()
LOWER = z3.Function('lower', S_, S_)
TRIM = z3.Function('trim', S_, S_)
LTRIM = z3.Function('ltrim', S_, S_)
INT_OK = z3.Function('int_ok', S_, z3.IntSort(), z3.BoolSort())
INT_VAL = z3.Function('int_val', S_, z3.IntSort(), z3.IntSort())
REAL_STR = z3.Function('real_str', z3.RealSort(), S_)
FIX0 = z3.Function('fixed0', z3.RealSort(), S_)   # a floating point number without decimals
REAL_OK = z3.Function('real_ok', S_, z3.BoolSort())
REAL_VAL = z3.Function('real_val', S_, z3.RealSort())
STRLT = z3.Function('strlt', S_, S_, z3.BoolSort())


OPAQUE_DEC = []
NULLABLE_TEXT = []
SAME_EMPTY = []      # the (unused) elements of all empty vectors are the same
NULLTEXT = z3.StringVal('\\u{0}')
DEC = z3.Function('decimal', z3.IntSort(), z3.StringSort())


def dec(n):
    """decimal spelling of an integer"""
    if OPAQUE_DEC:
        return DEC(n)
    if z3.is_int_value(n):
        return z3.StringVal(str(n.as_long()))
    return z3.If(n >= 0, z3.IntToStr(n), z3.Concat(z3.StringVal('-'), z3.IntToStr(-n)))


def concat(*xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == '')]
    if not xs:
        return z3.StringVal('')
    if len(xs) == 1:
        return xs[0]
    return z3.Concat(*xs)


def code_str(c):
    """one-character string from a char code"""
    if z3.is_int_value(c):
        n = c.as_long()
        if 0 <= n < 128:
            return z3.StringVal(chr(n))
        if n < 0:
            return z3.StrFromCode(I(n + 256))
    if z3.is_app_of(c, z3.Z3_OP_ITE) and z3.is_app(c.arg(2)) and schar(c.arg(2)).eq(c):
        return z3.StrFromCode(c.arg(2))
    return z3.StrFromCode(z3.If(c < 0, c + 256, c))


class Models:
    def __init__(self):
        self.fns = {}
        self.ctors = {}
        self.lazy = {}
        self.globals = {}
        self.ranges = {}

    # registration
    def fn(self, *names):
        def d(f):
            for n in names:
                self.fns[n] = f
            return f
        return d

    def ctor(self, *names):
        def d(f):
            for n in names:
                self.ctors[n] = f
            return f
        return d

    def lz(self, *names):
        def d(f):
            for n in names:
                self.lazy[n] = f
            return f
        return d

    def find(self, f):
        return self.fns.get(f['qn'])

    def find_ctor(self, t, f):
        return self.ctors.get(t.qn)

    # iterators ------------------------------------------------------------
    def deref_it(self, ex, st, it, line):
        if it.kind == 'vec':
            v = ex.load(st, it.lv)
            n = z3.Length(v) if isinstance(v, z3.SeqRef) else v.size()
            p = it.pos
            ex.safe(st, z3.And(p >= 0, p < n), 'dereferenced iterator is in range', line)
            if isinstance(v, z3.SeqRef):
                return char_at(ex, st, v, p, line, checked=True)
            return it.lv.sub(('idx', p), v.et)
        if it.kind == 'set':
            ex.safe(st, it.end == FALSE, 'dereferenced iterator is not end()', line)
            return ex.newcell(st, it.et, ex.ty.dec(it.et, it.pos))
        if it.kind == 'map':
            ex.safe(st, z3.Not(it.end), 'dereferenced iterator is not end()', line)
            v = ex.load(st, it.lv)
            return MapEntry(it.lv, it.pos, v)
        raise Unsupported('dereference of iterator ' + it.kind)

    def map_entry(self, ex, st, v, lv, key):
        return MapEntry(lv, key, v)

    def it_step(self, ex, st, it, d):
        if it.kind == 'vec':
            return It('vec', it.lv, z3.simplify(it.pos + d), None, None, it.et)
        if it.kind == 'map' and d == 1 and not isinstance(it.pos, str):
            v = ex.load(st, it.lv)
            k = it.pos.sort()
            nx = z3.Function('map_next', v.dom.sort(), k, k)
            ne = z3.Function('map_next_end', v.dom.sort(), k, z3.BoolSort())
            ex.safe(st, z3.Not(it.end), 'incremented iterator is not end()', None)
            p, e = nx(v.dom, it.pos), ne(v.dom, it.pos)
            st.assume(z3.Implies(z3.Not(e), sel(v.dom, p)))
            return It('map', it.lv, p, e, it.snap, it.et)
        raise Unsupported('++ on iterator ' + it.kind)

    def it_havoc(self, ex, st, it):
        if it.kind == 'vec':
            p = z3.Int(fresh_name('it'))
            return It('vec', it.lv, p, None, None, it.et)
        raise Unsupported('havoc iterator ' + it.kind)

    def it_eq(self, ex, st, a, b):
        if a.kind != b.kind:
            raise Unsupported('comparing different iterators')
        if a.kind == 'vec':
            return a.pos == b.pos
        if a.kind in ('set', 'map'):
            return z3.And(a.end == b.end, z3.Or(a.end, a.pos == b.pos))
        raise Unsupported('comparing iterators')

    def it_binop(self, ex, st, op, a, b):
        if op in ('==', '!='):
            x = self.it_eq(ex, st, a, b)
            return x if op == '==' else z3.Not(x)
        if isinstance(a, It) and a.kind == 'vec':
            if isinstance(b, It):
                if op == '-':
                    return z3.simplify(a.pos - b.pos)
                return {'<': a.pos < b.pos, '<=': a.pos <= b.pos, '>': a.pos > b.pos, '>=': a.pos >= b.pos}[op]
            if op == '+':
                return It('vec', a.lv, z3.simplify(a.pos + b), None, None, a.et)
            if op == '-':
                return It('vec', a.lv, z3.simplify(a.pos - b), None, None, a.et)
        raise Unsupported('iterator operator ' + op)

    def char_at(self, ex, st, s, i, line):
        return char_at(ex, st, s, i, line)

    def range_of(self, ex, st, rv, v):
        h = self.ranges.get(v.t.qn)
        return h(ex, st, rv, v) if h else None

    def dyn_cast_to(self, ex, st, v, t):
        """dynamic_cast / dyn_cast through the class's own classof"""
        raise Unsupported('dynamic_cast')


class MapEntry:
    """element of a map: first is the key, second lives in the map"""

    def __init__(self, lv, key, v):
        self.lv, self.key, self.v = lv, key, v
        self.t = None


def char_at(ex, st, s, i, line, checked=False):
    """character code at index i of string s (string end yields 0, as for std::string)"""
    if not checked:
        ex.safe(st, z3.And(i >= 0, i <= z3.Length(s)), 'string index in bounds', line)
    if z3.is_string_value(s) and z3.is_int_value(i):
        x = s.as_string()
        j = i.as_long()
        return I(ord(x[j])) if j < len(x) else I(0)
    c = z3.StrToCode(z3.SubString(s, i, 1))
    st.assume(c <= 255)
    c = schar(c)
    return z3.If(i < z3.Length(s), c, I(0)) if not checked else c


M = Models()


# ---------------------------------------------------------------- helpers
def val(ex, st, a):
    if isinstance(a, LV):
        return ex.load(st, a)
    return a


def sval(ex, st, a):
    """string value of an argument"""
    v = val(ex, st, a)
    if isinstance(v, z3.SeqRef):
        return v
    if isinstance(v, Stream):
        return ex.load(st, v.lv)
    raise Unsupported('string expected, got %s' % type(v).__name__)


def ret(st, v):
    return [(st, v)]


def recv(ex, st, c):
    """receiver value"""
    if c.obj is not None:
        return val(ex, st, c.obj)
    return ex.load(st, ex.deref(st, c.this, c.f['cls'], c.e.get('ln')))


def recv_lv(ex, st, c):
    if c.obj is not None:
        if isinstance(c.obj, LV):
            return c.obj
        return ex.var_lv(st, c.f['cls'], c.obj)
    return ex.deref(st, c.this, c.f['cls'], c.e.get('ln'))


def line(c):
    return c.e.get('ln')


# ---------------------------------------------------------------- misc
@M.fn('std::move', 'std::forward', 'std::as_const', 'std::__addressof')
def _(ex, st, c):
    return ret(st, c.args[0])


@M.fn('std::swap')
def _(ex, st, c):
    a, b = ex.load(st, c.args[0]), ex.load(st, c.args[1])
    ex.store(st, c.args[0], b)
    ex.store(st, c.args[1], a)
    return ret(st, VOID)


@M.fn('std::exchange')
def _(ex, st, c):
    a = ex.load(st, c.args[0])
    ex.store(st, c.args[0], val(ex, st, c.args[1]))
    return ret(st, a)


@M.fn('__assert_fail')
def _(ex, st, c):
    msg = ''
    try:
        msg = ex.load(st, c.args[0]).as_string() if isinstance(c.args[0], LV) else c.args[0].as_string()
    except Exception:   # noqa
        pass
    ex.safe(st, FALSE, 'assertion holds: %s' % msg, line(c))
    return []


@M.fn('llvm::llvm_unreachable_internal')
def _(ex, st, c):
    ex.safe(st, FALSE, 'unreachable code is not reached', line(c))
    return []


@M.fn('abort', 'std::abort', 'exit', 'std::terminate')
def _(ex, st, c):
    return []


@M.fn('std::addressof')
def _(ex, st, c):
    a = c.args[0]
    return ret(st, Ptr(a.base, a.t) if a.kind == 'heap' and not a.path else PPtr(a))


def minmax(f):
    def m(ex, st, c):
        a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
        return ret(st, z3.If(a < b, a, b) if f == 'min' else z3.If(a < b, b, a))
    return m


M.fns['std::min'] = minmax('min')
M.fns['std::max'] = minmax('max')


@M.fn('std::numeric_limits::max')
def _(ex, st, c):
    return ret(st, I(int_range(c.f['ret'])[1]))


@M.fn('std::numeric_limits::min', 'std::numeric_limits::lowest')
def _(ex, st, c):
    return ret(st, I(int_range(c.f['ret'])[0]))


# ---------------------------------------------------------------- unique_ptr
M.globals['xmlFree'] = lambda ex, st: Ptr(I(1), None)


@M.ctor('std::unique_ptr', 'std::shared_ptr')
def _(ex, st, c):
    t = c.t
    pt = t.targs[0]
    if not c.args:
        return ret(st, Ptr(I(0), pt))
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, Ptr):
        if isinstance(a, LV) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS and c.f.get('ctor') != 'copy':
            ex.store(st, a, Ptr(I(0), v.t))
        return ret(st, Ptr(v.ref, pt))
    if isinstance(v, z3.SeqRef):      # a C string and its deleter
        if isinstance(a, LV) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS:
            ex.store(st, a, NULLTEXT)
        return ret(st, v)
    raise Unsupported('unique_ptr from %s' % type(v).__name__)


@M.fn('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(a, LV) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS and a.t.qn != 'std::shared_ptr':
        ex.store(st, a, Ptr(I(0), v.t))
    ex.store(st, lv, Ptr(v.ref, None))
    return ret(st, lv)


@M.fn('std::unique_ptr::get', 'std::shared_ptr::get')
def _(ex, st, c):
    v = recv(ex, st, c)
    if isinstance(v, z3.SeqRef):
        return ret(st, v)
    return ret(st, Ptr(v.ref, c.f['ret'].to))


@M.fn('std::unique_ptr::release')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = ex.load(st, lv)
    ex.store(st, lv, Ptr(I(0), v.t))
    return ret(st, Ptr(v.ref, c.f['ret'].to))


@M.fn('std::unique_ptr::reset')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = val(ex, st, c.args[0]) if c.args else Ptr(I(0), None)
    ex.store(st, lv, Ptr(v.ref, None))
    return ret(st, VOID)


@M.fn('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool')
def _(ex, st, c):
    v = recv(ex, st, c)
    if isinstance(v, z3.SeqRef):
        return ret(st, v != NULLTEXT)
    return ret(st, v.ref != 0)


@M.fn('std::unique_ptr::operator->', 'std::shared_ptr::operator->')
def _(ex, st, c):
    v = recv(ex, st, c)
    ex.safe(st, v.ref != 0, 'unique_ptr is not null', line(c))
    return ret(st, Ptr(v.ref, c.f['ret'].to))


@M.fn('std::unique_ptr::operator*', 'std::shared_ptr::operator*')
def _(ex, st, c):
    v = recv(ex, st, c)
    return ret(st, ex.deref(st, v, c.f['ret'].to, line(c)))


MADE = {}         # library class -> what holds of a new object of it


@M.fn('std::make_unique', 'std::make_shared')
def _(ex, st, c):
    t = c.f['targs'][0]
    for x in c.f['targs']:
        if x is not None and not isinstance(x, dict):
            t = x
            break
    r = ex.alloc(st, t)
    args = list(c.args)
    if not (ex.ty.is_mine(t) or ex.ty.is_object(t)):
        v = construct_lib(ex, st, t, args, c)
        ex.store(st, LV('heap', r, t, (), t), v)
        if t.qn in MADE:
            MADE[t.qn](ex, st, r)
        return ret(st, Ptr(r, t))
    f = pick_ctor(ex, t, args, c)
    if f is None:
        raise Unsupported('make_unique<%s>: constructor not found' % t.s)
    if f.get('ctor') in ('copy', 'move') and not ex.user_body(f):
        v = val(ex, st, args[0])
        if f['ctor'] == 'move' and isinstance(args[0], LV):
            ex.store(st, args[0], ex.moved_from(st, v))
        ex.store(st, LV('heap', r, t, (), t), v)
        return ret(st, Ptr(r, t))
    args = convert_args(ex, st, f, args)
    return [(s, Ptr(r, t)) for s, _ in ex.call_ctor(st, t, f, args, Ptr(r, t), c.e)]


def construct_lib(ex, st, t, args, c):
    m = M.ctors.get(t.qn)
    if m is None:
        if t.k == 'builtin' and args:
            return val(ex, st, args[0])
        raise Unsupported('constructing ' + t.s)
    r = m(ex, st, Call({'qn': t.qn, 'n': t.qn, 'pt': [], 'ctor': 'other'}, None, args, c.e, t, None))
    return r[0][1]


def atype(ex, st, a):
    if isinstance(a, LV):
        return a.t
    return None


def pick_ctor(ex, t, args, c):
    """overload resolution for perfect-forwarding factories: arity, then type fit"""
    cands = []
    for f in ex.prog.functions.values():
        if f.get('ctor') and f['cls'].name == t.name:
            n = len(f['pt'])
            if n == len(args):
                cands.append(f)
            elif n > len(args) and all_default(f, len(args)):
                cands.append(f)
    if len(cands) == 1:
        return cands[0]

    def score(f):
        s = 0
        if len(f['pt']) != len(args):
            s += 5
        for p, a, ae in zip(f['pt'], args, (c.ae or [None] * len(args))):
            at = ae['t'] if isinstance(ae, dict) and ae.get('t') is not None else atype(ex, None, a)
            if at is None:
                continue
            pd, ad = p.deref(), at.deref()
            if strip(pd.name) == strip(ad.name):
                if p.k == 'rref' and isinstance(ae, dict) and ae.get('lv') == 1:
                    s += 50
                continue
            if compat(ex, pd, ad):
                s += 1
            else:
                s += 100
        return s
    cands.sort(key=score)
    return cands[0] if cands and score(cands[0]) < 100 else None


def all_default(f, n):
    ps = f.get('params') or []
    return len(ps) == len(f['pt']) and all(p.get('def') is not None for p in ps[n:])


def strip(n):
    return n.replace('const ', '')


def compat(ex, p, a):
    if p.k == 'record' and p.qn in STRINGS:
        return a.k == 'record' and a.qn in STRINGS or a.k in ('ptr', 'array')
    if p.k == 'record' and p.qn in UPTRS:
        return a.k == 'record' and a.qn in UPTRS or (a.k == 'builtin' and a.b == 'nullptr')
    if p.k == 'record' and p.qn == 'std::optional':
        return True
    if p.k == 'record' and p.qn == 'std::variant':
        return True
    if p.k == 'ptr':
        return a.k == 'ptr' or (a.k == 'builtin' and a.b == 'nullptr')
    if p.k == 'builtin':
        return a.k == 'builtin' and (p.b == a.b or p.b in ('int', 'char') and a.b in ('int', 'char') or a.b == 'float')
    if p.k == 'record' and a.k == 'record':
        return p.qn == a.qn or any(b.qn == p.qn for b in ex.prog.bases(a))
    if p.k == 'record' and p.qn in VECS:
        return a.k == 'record' and a.qn in VECS
    return False


def convert_args(ex, st, f, args):
    """implicit conversions performed when forwarding to the chosen constructor"""
    out = []
    for p, a in zip(f['pt'], args):
        pd = p.deref()
        if pd.k == 'record' and pd.qn in UPTRS and p.k not in ('ref',):
            v = val(ex, st, a)
            if isinstance(a, LV) and p.k == 'record':
                ex.store(st, a, Ptr(I(0), v.t))
            out.append(Ptr(v.ref, pd.targs[0]) if p.k == 'record' else a)
            continue
        if pd.k == 'record' and pd.qn in ('std::optional', 'std::variant') and p.k != 'ref':
            v = val(ex, st, a)
            if pd.qn == 'std::optional' and not isinstance(v, Opt):
                v = Opt(pd.targs[0], TRUE, v) if not isinstance(v, Void) else ex.default_value(st, pd)
                out.append(v)
                continue
            if pd.qn == 'std::variant' and not isinstance(v, Variant):
                out.append(to_variant(ex, st, pd, a, v))
                continue
        if p.k == 'record' and isinstance(a, LV):
            v = ex.load(st, a)
            if isinstance(v, (Vec, z3.SeqRef, Struct, Opt, Variant, SetV, MapV)):
                out.append(v)
                continue
        out.append(a)
    for p in (f.get('params') or [])[len(args):]:
        r = ex.ev(st, p['def'])
        if len(r) != 1 or r[0][0] is not st:
            raise Unsupported('forking default argument')
        out.append(r[0][1])
    return out


@M.ctor('std::allocator', 'std::in_place_type_t')
def _(ex, st, c):
    return ret(st, VOID)


M.globals['std::in_place_type'] = lambda ex, st: VOID


@M.ctor('llvm::function_ref', 'std::function')
def _(ex, st, c):
    return ret(st, val(ex, st, c.args[0]))


# ---------------------------------------------------------------- optional
@M.ctor('std::optional')
def _(ex, st, c):
    t = c.t
    et = t.targs[0]
    if not c.args:
        return ret(st, Opt(et, FALSE, ex.ty.fresh(et, 'none')))
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, Opt):
        if c.f.get('ctor') == 'move' and isinstance(a, LV):
            ex.store(st, a, ex.moved_from(st, v))
        return ret(st, v)
    if isinstance(v, Void) or is_nullopt(c, 0):
        return ret(st, Opt(et, FALSE, ex.ty.fresh(et, 'none')))
    if isinstance(a, LV) and isinstance(v, Ptr) and a.t is not None and a.t.qn in UPTRS:
        ex.store(st, a, Ptr(I(0), v.t))
    return ret(st, Opt(et, TRUE, conv(ex, st, et, v)))


def conv(ex, st, t, v):
    if isinstance(v, Ptr) and t.k == 'record' and t.qn in UPTRS:
        return Ptr(v.ref, t.targs[0])
    if t.k == 'record' and t.qn == 'std::variant' and not isinstance(v, Variant):
        return to_variant(ex, st, t, v, v)
    return v


def is_nullopt(c, i):
    a = c.ae[i] if c.ae else None
    while isinstance(a, dict) and a['k'] in ('icast', 'cast', 'mat'):
        a = a['e']
    return isinstance(a, dict) and a.get('t') is not None and a['t'].deref().qn == 'std::nullopt_t'


@M.ctor('std::nullopt_t')
def _(ex, st, c):
    return ret(st, VOID)


M.globals['std::nullopt'] = lambda ex, st: VOID


@M.fn('std::optional::has_value', 'std::optional::operator bool', 'llvm::Optional::has_value')
def _(ex, st, c):
    return ret(st, recv(ex, st, c).has)


@M.fn('std::optional::value', 'std::optional::operator*', 'llvm::Optional::operator*')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = ex.load(st, lv)
    ex.safe(st, v.has, 'optional has a value', line(c))
    return ret(st, lv.sub(('opt',), v.et))


@M.fn('std::optional::operator->', 'llvm::Optional::operator->')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = ex.load(st, lv)
    ex.safe(st, v.has, 'optional has a value', line(c))
    return ret(st, PPtr(lv.sub(('opt',), v.et)))


@M.fn('std::optional::value_or')
def _(ex, st, c):
    v = recv(ex, st, c)
    d = val(ex, st, c.args[0])
    if isinstance(v.val, z3.ExprRef):
        return ret(st, z3.If(v.has, v.val, d))
    return ret(st, ex.ty.dec(v.et, z3.If(v.has, ex.ty.enc(v.et, v.val), ex.ty.enc(v.et, d))))


@M.fn('std::optional::reset')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = ex.load(st, lv)
    ex.store(st, lv, Opt(v.et, FALSE, v.val))
    return ret(st, VOID)


@M.fn('std::optional::operator=')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    a = c.args[0]
    old = ex.load(st, lv)
    v = val(ex, st, a)
    if isinstance(v, Opt):
        ex.store(st, lv, v)
    elif isinstance(v, Void) or is_nullopt(c, -1):
        ex.store(st, lv, Opt(old.et, FALSE, old.val))
    else:
        ex.store(st, lv, Opt(old.et, TRUE, conv(ex, st, old.et, v)))
    return ret(st, lv)


@M.fn('std::optional::emplace')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    old = ex.load(st, lv)
    v = val(ex, st, c.args[0])
    ex.store(st, lv, Opt(old.et, TRUE, conv(ex, st, old.et, v)))
    return ret(st, lv.sub(('opt',), old.et))


@M.fn('std::make_optional')
def _(ex, st, c):
    return ret(st, Opt(c.f['ret'].targs[0], TRUE, val(ex, st, c.args[0])))


# ---------------------------------------------------------------- equality
def equal(ex, st, a, b, ln=None):
    """-> list of (st, Bool)"""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return [(st, a == b)]
    if isinstance(a, (Ptr, PPtr)) and isinstance(b, (Ptr, PPtr)):
        return [(st, ex.ptr_eq(st, a, b))]
    if isinstance(a, Opt) and isinstance(b, Opt):
        out = []
        if isinstance(a.val, Struct) and not (z3.is_true(a.has) and z3.is_true(b.has)):
            both = z3.And(a.has, b.has)
            s1, s2 = st.copy(), st
            s1.assume(both)
            s2.assume(z3.Not(both))
            return equal(ex, s1, a.val, b.val, ln) + [(s2, z3.And(z3.Not(a.has), z3.Not(b.has)))]
        for s, q in equal(ex, st, a.val, b.val, ln):
            out.append((s, z3.And(a.has == b.has, z3.Implies(a.has, q))))
        return out
    if isinstance(a, Opt):
        return [(s, z3.And(a.has, q)) for s, q in equal(ex, st, a.val, b, ln)]
    if isinstance(b, Opt):
        return [(s, z3.And(b.has, q)) for s, q in equal(ex, st, a, b.val, ln)]
    if isinstance(a, Void) or isinstance(b, Void):
        o = b if isinstance(a, Void) else a
        if isinstance(o, Opt):
            return [(st, z3.Not(o.has))]
    if isinstance(a, It) and isinstance(b, It):
        return [(st, M.it_eq(ex, st, a, b))]
    if isinstance(a, Tup) and isinstance(b, Tup):
        res = [(st, [])]
        for x, y in zip(a.vals, b.vals):
            res = [(s2, qs + [q]) for s, qs in res for s2, q in equal(ex, s, x, y, ln)]
        return [(s, z3.And(*qs)) for s, qs in res]
    if isinstance(a, Variant) and isinstance(b, Variant):
        res = [(st, [a.idx == b.idx])]
        for i, (x, y) in enumerate(zip(a.vals, b.vals)):
            if x is None or y is None:
                continue
            res = [(s2, qs + [z3.Implies(a.idx == i, q)]) for s, qs in res for s2, q in equal(ex, s, x, y, ln)]
        return [(s, z3.And(*qs)) for s, qs in res]
    if isinstance(a, Struct) and isinstance(b, Struct):
        # user-defined operator==
        for f in ex.prog.functions.values():
            if f['n'] == 'operator==' and f.get('mine') and f.get('cls') is not None and f['cls'].name == a.t.name:
                la, lb = ex.newcell(st, a.t, a), ex.newcell(st, b.t, b)
                return ex.call(st, f, PPtr(la), None, [lb], {'ln': ln, 'k': 'call'})
        raise Unsupported('no operator== for ' + a.t.s)
    if isinstance(a, (SetV,)) and isinstance(b, SetV):
        return [(st, a.arr == b.arr)]
    if isinstance(a, MapV) and isinstance(b, MapV):
        ks = a.dom.sort().domain()
        k = z3.Const(fresh_name('k'), ks)
        return [(st, z3.And(a.dom == b.dom, z3.ForAll([k], z3.Implies(sel(a.dom, k), sel(a.arr, k) == sel(b.arr, k)))))]
    if isinstance(a, Vec) and isinstance(b, Vec):
        i = z3.Int(fresh_name('i'))
        if a.et.k == 'record' and ex.ty.is_mine(a.et):
            # element-wise user operator==, evaluated on a generic element
            x, y = ex.ty.dec(a.et, sel(a.arr, a.lo + i)), ex.ty.dec(a.et, sel(b.arr, b.lo + i))
            s2 = st.copy()
            s2.assume(i >= 0, i < a.size())
            n = len(s2.pc)
            r = equal(ex, s2, x, y, ln)
            if len(r) != 1:
                raise Unsupported('vector element comparison forks')
            facts = r[0][0].pc[n:]
            q = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.size(), *facts), r[0][1]))
        else:
            q = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.size()), sel(a.arr, a.lo + i) == sel(b.arr, b.lo + i)))
        return [(st, z3.And(a.size() == b.size(), q))]
    raise Unsupported('== of %s and %s' % (type(a).__name__, type(b).__name__))


def pat_arr(st, a):
    """a constant equal to a: usable in quantifier patterns"""
    if a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0:
        return a
    k = z3.Const(fresh_name('parr'), a.sort())
    st.assume(k == a)
    return k


def eq_term(ex, st, a, b):
    """a == b as one term"""
    s2 = st.copy()
    n = len(s2.pc)
    r = equal(ex, s2, a, b)
    if len(r) == 1:
        return r[0][1]
    base = st.copy()
    m = ex.try_merge(base, n, r, None)
    if m is None:
        raise Unsupported('comparison is not a pure function')
    return m


def _args2(ex, st, c):
    xs = ([c.obj] if c.obj is not None else []) + list(c.args)
    return val(ex, st, xs[0]), val(ex, st, xs[1])


EQ_NAMES = ['std::operator==', 'llvm::operator==', 'std::filesystem::operator==', 'std::filesystem::__cxx11::operator==',
            '__gnu_cxx::operator==', 'std::basic_string::operator==', 'std::__detail::operator==',
            'llvm::StringMapIterBase::operator==', 'llvm::iterator_facade_base::operator==', 'llvm::StringRef::equals',
            'llvm::SmallPtrSetIteratorImpl::operator==', 'std::_Rb_tree_const_iterator::operator==',
            'llvm::SmallVectorImpl::operator==']


@M.fn(*EQ_NAMES)
def _(ex, st, c):
    a, b = _args2(ex, st, c)
    return equal(ex, st, a, b, line(c))


@M.fn(*[n.replace('==', '!=') for n in EQ_NAMES if '==' in n])
def _(ex, st, c):
    a, b = _args2(ex, st, c)
    return [(s, z3.Not(q)) for s, q in equal(ex, st, a, b, line(c))]


# a place in the rationals for every string, in lexicographic order (the strings over a finite alphabet are countable)
RANK = z3.Function('rank', S_, z3.RealSort())


def str_less(ex, st, a, b):
    if getattr(ex, 'ranked_strings', False):
        st.assume((RANK(a) == RANK(b)) == (a == b))
        return RANK(a) < RANK(b)
    return a < b


def _cmp(op):
    def m(ex, st, c):
        a, b = _args2(ex, st, c)
        if isinstance(a, z3.SeqRef):
            x, y = (a, b) if op in ('<', '>=') else (b, a)
            r = str_less(ex, st, x, y)
            return ret(st, r if op in ('<', '>') else z3.Not(r))
        if isinstance(a, z3.ArithRef):
            return ret(st, {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if isinstance(a, It):
            return ret(st, M.it_binop(ex, st, op, a, b))
        raise Unsupported('%s on %s' % (op, type(a).__name__))
    return m


for _op in ('<', '>', '<=', '>='):
    for _ns in ('std::', 'llvm::', '__gnu_cxx::'):
        M.fns[_ns + 'operator' + _op] = _cmp(_op)


# ---------------------------------------------------------------- strings
@M.ctor('std::basic_string', 'llvm::StringRef', 'std::basic_string_view', 'llvm::Twine', 'std::filesystem::path',
        'std::filesystem::__cxx11::path', 'llvm::SmallString')
def _(ex, st, c):
    if not c.args:
        return ret(st, z3.StringVal(''))
    a0 = val(ex, st, c.args[0])
    if isinstance(a0, z3.SeqRef):
        if len(c.args) == 1 or c.t.qn in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
            if c.f.get('ctor') == 'move' and isinstance(c.args[0], LV):
                ex.store(st, c.args[0], z3.Const(fresh_name('moved'), S_))
            return ret(st, a0)
        a1 = val(ex, st, c.args[1])
        if isinstance(a1, z3.ArithRef):
            if len(c.args) == 2 and c.f['pt'] and c.f['pt'][0].deref().k == 'ptr':
                return ret(st, z3.SubString(a0, 0, a1))      # (const char*, length)
            raise Unsupported('string(str, pos)')
        return ret(st, a0)       # allocator argument
    if isinstance(a0, It) and len(c.args) >= 2:
        a1 = val(ex, st, c.args[1])
        src = ex.load(st, a0.lv)
        if isinstance(src, z3.SeqRef):
            return ret(st, z3.SubString(src, a0.pos, a1.pos - a0.pos))
    if isinstance(a0, z3.ArithRef) and len(c.args) >= 2:
        ch = val(ex, st, c.args[1])
        if isinstance(ch, z3.ArithRef) and z3.is_int_value(a0):
            return ret(st, concat(*[code_str(ch)] * a0.as_long()))
    if isinstance(a0, z3.ArithRef) and c.t.qn == 'llvm::Twine':
        if c.f['pt'] and c.f['pt'][0].deref().b == 'char':
            return ret(st, code_str(a0))
        return ret(st, dec(a0))
    if isinstance(a0, Vec):
        raise Unsupported('string from initializer list')
    if isinstance(a0, Ptr):
        raise Unsupported('string from null')
    raise Unsupported('string from %s' % type(a0).__name__)


def strm(*names):
    def d(f):
        def m(ex, st, c):
            s = recv(ex, st, c)
            if isinstance(s, Stream):
                s = ex.load(st, s.lv)
            args = [val(ex, st, a) for a in c.args]
            return ret(st, f(ex, st, s, args, c))
        for n in names:
            for p in ('std::basic_string::', 'llvm::StringRef::', 'std::basic_string_view::', 'std::filesystem::path::',
                      'llvm::Twine::', 'llvm::SmallString::', 'llvm::formatv_object_base::'):
                M.fns[p + n] = m
        return f
    return d


@strm('size', 'length')
def _(ex, st, s, a, c):
    return z3.Length(s)


@strm('empty')
def _(ex, st, s, a, c):
    return z3.Length(s) == 0


@strm('str', 'string', 'c_str', 'data', 'operator basic_string', 'operator basic_string_view', 'toVector',
      'operator StringRef', 'copy', 'native', 'operator string', 'operator std::basic_string')
def _(ex, st, s, a, c):
    return s


@strm('front')
def _(ex, st, s, a, c):
    ex.safe(st, z3.Length(s) > 0, 'front() of a non-empty string', line(c))
    return char_at(ex, st, s, I(0), line(c), checked=True)


@strm('back')
def _(ex, st, s, a, c):
    ex.safe(st, z3.Length(s) > 0, 'back() of a non-empty string', line(c))
    return char_at(ex, st, s, z3.Length(s) - 1, line(c), checked=True)


@strm('at')
def _(ex, st, s, a, c):
    ex.safe(st, z3.And(a[0] >= 0, a[0] < z3.Length(s)), 'at() in bounds', line(c))
    return char_at(ex, st, s, a[0], line(c), checked=True)


@strm('operator[]')
def _(ex, st, s, a, c):
    strict = c.f['cls'].qn == 'llvm::StringRef'
    if strict:
        ex.safe(st, z3.And(a[0] >= 0, a[0] < z3.Length(s)), 'index in bounds', line(c))
        return char_at(ex, st, s, a[0], line(c), checked=True)
    return char_at(ex, st, s, a[0], line(c))


def zmin(a, b):
    return z3.If(a < b, a, b)


@strm('substr', 'slice_')
def _(ex, st, s, a, c):
    n = z3.Length(s)
    start = a[0] if a else I(0)
    cnt = a[1] if len(a) > 1 else I(NPOS)
    if c.f['cls'].qn != 'llvm::StringRef':
        ex.safe(st, start <= n, 'substr position in range', line(c))
    else:
        start = zmin(start, n)
    if z3.is_int_value(cnt) and cnt.as_long() == NPOS:
        return z3.SubString(s, start, n - start)
    return z3.SubString(s, start, zmin(cnt, n - start))


@strm('drop_front')
def _(ex, st, s, a, c):
    k = a[0] if a else I(1)
    ex.safe(st, k <= z3.Length(s), 'drop_front within the string', line(c))
    return z3.SubString(s, k, z3.Length(s) - k)


@strm('drop_back')
def _(ex, st, s, a, c):
    k = a[0] if a else I(1)
    ex.safe(st, k <= z3.Length(s), 'drop_back within the string', line(c))
    return z3.SubString(s, 0, z3.Length(s) - k)


@strm('take_front')
def _(ex, st, s, a, c):
    k = a[0] if a else I(1)
    return z3.If(k >= z3.Length(s), s, z3.SubString(s, 0, k))


@strm('find')
def _(ex, st, s, a, c):
    pat = a[0]
    if isinstance(pat, z3.ArithRef):
        pat = code_str(pat)
    frm = a[1] if len(a) > 1 else I(0)
    i = z3.IndexOf(s, pat, frm)
    return z3.If(i < 0, I(NPOS), i)


@strm('contains')
def _(ex, st, s, a, c):
    pat = code_str(a[0]) if isinstance(a[0], z3.ArithRef) else a[0]
    return z3.Contains(s, pat)


@strm('contains_insensitive')
def _(ex, st, s, a, c):
    if isinstance(a[0], z3.ArithRef) and z3.is_int_value(a[0]):
        p = chr(a[0].as_long())
        if p.isalpha():
            return z3.Or(z3.Contains(s, z3.StringVal(p.lower())), z3.Contains(s, z3.StringVal(p.upper())))
    raise Unsupported('contains_insensitive of a text')


@strm('startswith', 'starts_with')
def _(ex, st, s, a, c):
    return z3.PrefixOf(a[0], s)


@strm('endswith', 'ends_with')
def _(ex, st, s, a, c):
    return z3.SuffixOf(a[0], s)


@strm('lower')
def _(ex, st, s, a, c):
    return lower(st, s)


def lower(st, s):
    if z3.is_string_value(s):
        return z3.StringVal(s.as_string().lower())
    x = LOWER(s)
    st.assume(LOWER(x) == x)
    st.assume(z3.Length(x) == z3.Length(s))
    return x


@strm('equals_insensitive', 'equals_lower')
def _(ex, st, s, a, c):
    return lower(st, s) == lower(st, a[0])


@strm('trim')
def _(ex, st, s, a, c):
    return TRIM(s)


@strm('ltrim')
def _(ex, st, s, a, c):
    if a and not (isinstance(a[0], z3.SeqRef) and a[0].eq(z3.StringVal(' \t\n\x0b\x0c\r'))):
        raise Unsupported('ltrim of particular characters: %s' % a[0])
    return LTRIM(s)


@strm('getAsInteger', 'consumeInteger_')
def _(ex, st, s, a, c):
    radix = a[0]
    lv = c.args[1]
    t = lv.t
    x = INT_VAL(s, radix)
    lo, hi = int_range(t)
    ok = z3.And(INT_OK(s, radix), x >= lo, x <= hi)
    old = ex.load(st, lv)
    # on failure the output is unspecified for the caller's purposes (unchanged in LLVM)
    ex.store(st, lv, z3.If(ok, x, old))
    return z3.Not(ok)


@strm('getAsDouble')
def _(ex, st, s, a, c):
    lv = c.args[0]
    ok = REAL_OK(s)
    ex.store(st, lv, z3.If(ok, REAL_VAL(s), ex.load(st, lv)))
    return z3.Not(ok)


@strm('take_while')
def _(ex, st, s, a, c):
    n = take_while_len(ex, st, s, a[0], I(0), c)
    return z3.SubString(s, 0, n)


@strm('drop_while')
def _(ex, st, s, a, c):
    n = take_while_len(ex, st, s, a[0], I(0), c)
    return z3.SubString(s, n, z3.Length(s) - n)


def pred_term(ex, st, fn, x):
    """value of a pure predicate closure on x, as one Boolean term"""
    s2 = st.copy()
    n = len(s2.pc)
    r = ex.call_value(s2, fn, [x], {'ln': None, 'k': 'call'})
    res = []
    for q, v in r:
        if isinstance(v, LV):
            v = ex.load(q, v)
        res.append((q, ex.truth(v)))
    base = st.copy()
    m = ex.try_merge(base, n, res, None) if len(res) > 1 else None
    if len(res) == 1:
        if not ex.same_store(st, res[0][0]):
            raise Unsupported('predicate with side effects')
        return res[0][1], res[0][0].pc[n:]
    if m is None:
        raise Unsupported('predicate is not a pure function')
    return m, base.pc[n:]


def take_while_len(ex, st, s, fn, frm, c):
    """length of the longest prefix whose characters all satisfy fn"""
    n = z3.Int(fresh_name('tw'))
    i = z3.Int(fresh_name('i'))
    st.assume(n >= 0, n <= z3.Length(s))
    ch = schar(z3.StrToCode(z3.SubString(s, i, 1)))
    p, facts = pred_term(ex, st, fn, ch)
    body = z3.Implies(z3.And(i >= 0, i < n), z3.And(p))
    st.assume(z3.ForAll([i], body))
    chn = schar(z3.StrToCode(z3.SubString(s, n, 1)))
    pn, f2 = pred_term(ex, st, fn, chn)
    st.assume(z3.Implies(n < z3.Length(s), z3.And(z3.Not(pn))))
    ch0 = schar(z3.StrToCode(z3.SubString(s, 0, 1)))
    p0, _ = pred_term(ex, st, fn, ch0)
    st.assume(z3.Implies(n > 0, p0))
    return n


@strm('append_', 'operator+_')
def _(ex, st, s, a, c):
    return concat(s, a[0])


def str_mut(name, f):
    def m(ex, st, c):
        lv = recv_lv(ex, st, c)
        s = ex.load(st, lv)
        args = [val(ex, st, a) for a in c.args]
        ex.store(st, lv, f(ex, st, s, args, c))
        return ret(st, lv)
    for p in ('std::basic_string::', 'llvm::SmallString::', 'llvm::StringRef::', 'std::filesystem::path::',
              'std::basic_string_view::'):
        M.fns[p + name] = m


def tostr_arg(a):
    return code_str(a) if isinstance(a, z3.ArithRef) else a


def str_append(ex, st, s, a, c):
    if isinstance(a[0], z3.ArithRef) and len(a) > 1:
        raise Unsupported('append(n, c)')
    return concat(s, tostr_arg(a[0]))


str_mut('operator+=', str_append)
str_mut('append', str_append)
str_mut('push_back', str_append)
str_mut('clear', lambda ex, st, s, a, c: z3.StringVal(''))


def str_assign(ex, st, s, a, c):
    arg = c.args[0]
    v = tostr_arg(a[0])
    if isinstance(v, Void):
        return z3.StringVal('')
    return v


str_mut('operator=', str_assign)
str_mut('assign', str_assign)


LASTIDX = z3.Function('last_index', S_, S_, z3.IntSort())
JOINED = z3.Function('joined', z3.ArraySort(z3.IntSort(), S_), z3.IntSort(), z3.IntSort(), S_, S_)   # arr, lo, hi, separator


def join_axioms():
    a = z3.Const('a!jn', z3.ArraySort(z3.IntSort(), S_))
    lo, hi = z3.Ints('lo!jn hi!jn')
    p = z3.String('p!jn')
    f = JOINED(a, lo, hi, p)
    return [z3.ForAll([a, lo, hi, p], f == z3.If(hi <= lo, z3.StringVal(''), z3.If(hi == lo + 1, z3.Select(a, lo),
                      z3.Concat(JOINED(a, lo, hi - 1, p), p, z3.Select(a, hi - 1)))), patterns=[f])]


def last_index(st, s, p):
    """position of the last occurrence of p in s, -1 if there is none"""
    i = LASTIDX(s, p)
    n = z3.Length(p)
    st.assume(i >= -1, (i >= 0) == z3.Contains(s, p),
              z3.Implies(i >= 0, z3.And(i + n <= z3.Length(s), z3.SubString(s, i, n) == p,
                                        s == z3.Concat(z3.SubString(s, 0, i), p, z3.SubString(s, i + n, z3.Length(s) - i - n)),
                                        z3.Not(z3.Contains(z3.SubString(s, i + 1, z3.Length(s) - i - 1), p)),
                                        z3.Not(z3.Contains(z3.SubString(s, i + n, z3.Length(s) - i - n), p)))))
    return i


@strm('rfind')
def _(ex, st, s, a, c):
    if len(a) > 1:
        raise Unsupported('rfind(pattern, from)')
    i = last_index(st, s, tostr_arg(a[0]))
    return z3.If(i < 0, I(NPOS), i)


def _split2(ex, st, s, p, i):
    n = z3.Length(p)
    return z3.If(i < 0, s, z3.SubString(s, 0, i)), z3.If(i < 0, z3.StringVal(''), z3.SubString(s, i + n, z3.Length(s) - i - n))


@M.fn('llvm::StringRef::rsplit')
def _(ex, st, c):
    s = recv(ex, st, c)
    p = tostr_arg(val(ex, st, c.args[0]))
    return ret(st, Tup(c.t.targs, list(_split2(ex, st, s, p, last_index(st, s, p)))))


@M.fn('llvm::StringRef::split')
def _(ex, st, c):
    s = recv(ex, st, c)
    if c.t.k == 'record':
        p = tostr_arg(val(ex, st, c.args[0]))
        return ret(st, Tup(c.t.targs, list(_split2(ex, st, s, p, z3.IndexOf(s, p, I(0))))))
    lv = c.args[0]
    v = ex.load(st, lv)
    p = tostr_arg(val(ex, st, c.args[1]))
    rest = [val(ex, st, a) for a in c.args[2:]]
    if rest and not (z3.is_int_value(rest[0]) and rest[0].as_long() == -1) or len(rest) > 1 and not z3.is_true(rest[1]):
        raise Unsupported('StringRef::split with a limit')
    ex.safe(st, v.size() == 0, 'split into an empty vector', line(c))
    arr = z3.Const(fresh_name('split'), z3.ArraySort(z3.IntSort(), S_))
    n = z3.Int(fresh_name('nsplit'))
    i = z3.Int(fresh_name('i'))
    st.assume(n >= 1, n < (1 << 62), JOINED(arr, I(0), n, p) == s)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(z3.Contains(z3.Select(arr, i), p))), patterns=[z3.Select(arr, i)]))
    ex.store(st, lv, Vec(v.et, arr, I(0), n))
    return ret(st, VOID)


@M.fn('std::operator+', 'llvm::operator+')
def _(ex, st, c):
    a, b = _args2(ex, st, c)
    if isinstance(a, It) or isinstance(b, It):
        return ret(st, M.it_binop(ex, st, '+', a, b))
    return ret(st, concat(tostr_arg(a), tostr_arg(b)))


@M.fn('std::to_string', 'llvm::itostr', 'llvm::utostr')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    if z3.is_bool(v):
        v = z3.If(v, I(1), I(0))
    if z3.is_real(v):
        return ret(st, REAL_STR(v))
    return ret(st, dec(v))


@M.fn('isspace', 'std::isspace', 'llvm::isSpace')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    b = z3.Or(v == 32, z3.And(v >= 9, v <= 13))
    return ret(st, b if c.t.b == 'bool' else z3.If(b, I(1), I(0)))


def is_digit(v):
    return z3.And(v >= 48, v <= 57)


def is_alpha(v):
    return z3.Or(z3.And(v >= 65, v <= 90), z3.And(v >= 97, v <= 122))


def _chr(f):
    def m(ex, st, c):
        v = val(ex, st, c.args[0])
        b = f(v)
        return ret(st, b if c.t.b == 'bool' else z3.If(b, I(1), I(0)))
    return m


for _n in ('llvm::isDigit', 'isdigit', 'std::isdigit'):
    M.fns[_n] = _chr(is_digit)
for _n in ('llvm::isAlnum', 'isalnum', 'std::isalnum'):
    M.fns[_n] = _chr(lambda v: z3.Or(is_digit(v), is_alpha(v)))
for _n in ('llvm::isAlpha', 'isalpha', 'std::isalpha'):
    M.fns[_n] = _chr(is_alpha)


@M.fn('std::tolower', 'tolower', 'llvm::toLower')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    return ret(st, z3.If(z3.And(v >= 65, v <= 90), v + 32, v))


@M.fn('llvm::to_integer')
def _(ex, st, c):
    s = sval(ex, st, c.args[0])
    lv = c.args[1]
    base = val(ex, st, c.args[2]) if len(c.args) > 2 else I(10)
    lo, hi = int_range(lv.t)
    x = INT_VAL(s, base)
    ok = z3.And(INT_OK(s, base), x >= lo, x <= hi)
    ex.store(st, lv, z3.If(ok, x, ex.load(st, lv)))
    return ret(st, ok)


POW = z3.Function('pow_real', z3.RealSort(), z3.RealSort(), z3.RealSort())


@M.fn('pow', 'std::pow')
def _(ex, st, c):
    r = [z3.ToReal(x) if z3.is_int(x) else x for x in (val(ex, st, a) for a in c.args)]
    return ret(st, POW(*r))


# formatv -------------------------------------------------------------------
def to_text(ex, st, a, t=None):
    """text printed for a value by llvm's formatting"""
    v = val(ex, st, a)
    if isinstance(v, z3.SeqRef):
        return v
    if z3.is_bool(v):
        return z3.If(v, z3.StringVal('true'), z3.StringVal('false'))
    if isinstance(v, z3.ArithRef):
        if z3.is_real(v):
            return REAL_STR(v)
        if t is not None and t.deref().b == 'char':
            return code_str(v)
        return dec(v)
    raise Unsupported('formatting %s' % type(v).__name__)


@M.fn('llvm::formatv')
def _(ex, st, c):
    fmt = val(ex, st, c.args[0])
    if not z3.is_string_value(fmt):
        raise Unsupported('formatv with a computed format')
    f = fmt.as_string()
    args = c.args[1:]
    pts = c.f['pt'][1:]
    out = []
    i = 0
    lit = ''
    while i < len(f):
        if f.startswith('{{', i):
            lit += '{'
            i += 2
        elif f[i] == '{':
            m = re.match(r'\{(\d+)\}', f[i:])
            m0 = re.match(r'\{(\d+):0\}', f[i:])
            if not m and m0 and isinstance(val(ex, st, args[int(m0.group(1))]), z3.ArithRef) and z3.is_real(val(ex, st, args[int(m0.group(1))])):
                if lit:
                    out.append(z3.StringVal(lit))
                    lit = ''
                out.append(FIX0(val(ex, st, args[int(m0.group(1))])))
                i += len(m0.group(0))
                continue
            if not m:
                raise Unsupported('formatv replacement ' + f[i:i + 12])
            if lit:
                out.append(z3.StringVal(lit))
                lit = ''
            k = int(m.group(1))
            if k >= len(args):
                raise Unsupported('formatv index out of range')
            out.append(to_text(ex, st, args[k], pts[k] if k < len(pts) else None))
            i += len(m.group(0))
        else:
            lit += f[i]
            i += 1
    if lit:
        out.append(z3.StringVal(lit))
    return ret(st, concat(*out))


# streams -------------------------------------------------------------------
@M.ctor('std::basic_stringstream', 'std::basic_ostringstream')
def _(ex, st, c):
    buf = ex.newcell(st, None, z3.StringVal(''))
    if c.args and isinstance(val(ex, st, c.args[0]), z3.SeqRef):
        raise Unsupported('stringstream for reading')
    return ret(st, Stream(buf))


@M.ctor('llvm::raw_string_ostream', 'llvm::raw_svector_ostream')
def _(ex, st, c):
    return ret(st, Stream(c.args[0]))


@M.fn('std::basic_stringstream::str', 'llvm::raw_string_ostream::str', 'std::basic_ostringstream::str')
def _(ex, st, c):
    v = recv(ex, st, c)
    return ret(st, ex.load(st, v.lv))


@M.fn('llvm::raw_ostream::flush')
def _(ex, st, c):
    return ret(st, VOID)


HTML_ESC = z3.Function('HTML_ESC', z3.StringSort(), z3.StringSort())


def html_escaped(s):
    return HTML_ESC(s)


@M.fn('llvm::printHTMLEscaped')
def _(ex, st, c):
    o = val(ex, st, c.args[1])
    if isinstance(o, PPtr):
        o = ex.load(st, o.lv)
    if not isinstance(o, Stream):
        raise Unsupported('printHTMLEscaped on %s' % type(o).__name__)
    ex.store(st, o.lv, concat(ex.load(st, o.lv), html_escaped(sval(ex, st, c.args[0]))))
    return ret(st, VOID)


@M.fn('llvm::errs', 'llvm::outs', 'llvm::dbgs', 'llvm::nulls')
def _(ex, st, c):
    key = ('global', c.f['qn'])
    lv = st.ghost.get(key)
    if lv is None:
        buf = ex.newcell(st, None, z3.StringVal(''))
        lv = ex.newcell(st, None, Stream(buf))
        st.ghost[key] = lv
        st.ghost[('errbuf', c.f['qn'])] = buf
    return ret(st, lv)


M.globals['std::cerr'] = lambda ex, st: M.fns['llvm::errs'](ex, st, Call({'qn': 'std::cerr'}, None, [], {}, None, None))[0][1]
M.globals['std::cout'] = lambda ex, st: M.fns['llvm::errs'](ex, st, Call({'qn': 'std::cout'}, None, [], {}, None, None))[0][1]


@M.fn('std::operator<<', 'llvm::raw_ostream::operator<<', 'std::basic_ostream::operator<<', 'llvm::operator<<', 'llvm::json::operator<<')
def _(ex, st, c):
    xs = ([c.obj] if c.obj is not None else ([c.this] if c.this is not None else [])) + list(c.args)
    o = xs[0]
    stv = val(ex, st, o)
    if isinstance(stv, PPtr):
        o = stv.lv
        stv = ex.load(st, o)
    if not isinstance(stv, Stream):
        raise Unsupported('<< on %s' % type(stv).__name__)
    av = val(ex, st, xs[1])
    if isinstance(av, FnVal):
        return ret(st, o)
    pt = c.f['pt'][-1]
    if isinstance(av, z3.ExprRef) and av.sort() == JV:
        t = JPRINT(av)
    else:
        t = to_text(ex, st, av, pt)
    ex.store(st, stv.lv, concat(ex.load(st, stv.lv), t))
    return ret(st, o)


@M.fn('std::endl')
def _(ex, st, c):
    return ret(st, c.args[0])


# ---------------------------------------------------------------- pair / tuple
@M.ctor('std::pair', 'std::tuple')
def _(ex, st, c):
    t = c.t
    if len(c.args) == 1 and isinstance(val(ex, st, c.args[0]), Tup):
        v = val(ex, st, c.args[0])
        if isinstance(c.args[0], LV) and c.f.get('ctor') != 'copy' and (c.ae and c.ae[0].get('lv') == 2):
            ex.store(st, c.args[0], ex.moved_from(st, v))
        return ret(st, Tup(t.targs, list(v.vals)))
    if not c.args:
        return ret(st, ex.default_value(st, t))
    vals = []
    for a in c.args:
        v = val(ex, st, a)
        if isinstance(a, LV) and isinstance(v, Ptr) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS:
            ex.store(st, a, Ptr(I(0), v.t))
        vals.append(v)
    return ret(st, Tup(t.targs, vals))


@M.fn('std::make_pair', 'std::make_tuple')
def _(ex, st, c):
    vals = []
    for a in c.args:
        v = val(ex, st, a)
        if isinstance(a, LV) and isinstance(v, Ptr) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS:
            ex.store(st, a, Ptr(I(0), v.t))
        vals.append(v)
    return ret(st, Tup(c.f['ret'].targs, vals))


@M.fn('std::pair::operator=', 'std::tuple::operator=')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    v = val(ex, st, c.args[0])
    if isinstance(c.args[0], LV) and c.f['pt'] and c.f['pt'][0].k == 'rref':
        ex.store(st, c.args[0], ex.moved_from(st, v))
    ex.store(st, lv, v)
    return ret(st, lv)


# ---------------------------------------------------------------- variant
def to_variant(ex, st, t, a, v):
    """pick the alternative for a converting construction"""
    at = a.t if isinstance(a, LV) else None
    best = None
    for i, alt in enumerate(t.targs):
        if at is not None and strip(alt.name) == strip(at.deref().name):
            best = i
            break
    if best is None:
        for i, alt in enumerate(t.targs):
            if fits(ex, alt, v):
                best = i
                break
    if best is None:
        raise Unsupported('variant alternative for %s' % type(v).__name__)
    vals = [None] * len(t.targs)
    for i, alt in enumerate(t.targs):
        vals[i] = v if i == best else None
    return Variant(t.targs, I(best), [vals[i] if vals[i] is not None else ex.ty.fresh(t.targs[i], 'alt') for i in range(len(vals))])


def fits(ex, alt, v):
    if isinstance(v, z3.SeqRef):
        return alt.k == 'record' and alt.qn in STRINGS or alt.k == 'ptr' and alt.to.b == 'char'
    if isinstance(v, z3.BoolRef):
        return alt.k == 'builtin' and alt.b == 'bool'
    if isinstance(v, z3.ArithRef):
        return alt.k in ('builtin', 'enum') and alt.b != 'bool'
    if isinstance(v, Ptr):
        if alt.k == 'record' and alt.qn in UPTRS:
            return v.t is None or alt.targs[0].name == v.t.name
        return alt.k == 'ptr'
    if isinstance(v, Struct):
        return alt.name == v.t.name
    if isinstance(v, Vec):
        return alt.k == 'record' and alt.qn in VECS
    if isinstance(v, Tup):
        return alt.k == 'record' and alt.qn in ('std::pair', 'std::tuple')
    return False


def variant_in_place(ex, st, c):
    ta = [x for x in c.f.get('targs', []) if x is not None and not isinstance(x, dict)]
    alt = ta[0].deref()
    i = next(k for k, x in enumerate(c.t.targs) if strip(x.name) == strip(alt.name))
    alt = c.t.targs[i]
    args = list(c.args[1:])
    c2 = Call(c.f, c.obj, args, c.e, alt, (c.ae or [None] * len(c.args))[1:])
    pack = lambda x: Variant(c.t.targs, I(i), [x if j == i else ex.ty.fresh(y, 'alt') for j, y in enumerate(c.t.targs)])
    if not ex.ty.is_mine(alt) or ex.ty.is_object(alt):
        return ret(st, pack(construct_lib(ex, st, alt, args, c2)))
    f = pick_ctor(ex, alt, args, c2)
    if f is None:
        raise Unsupported('constructor of %s not found' % alt.s)
    return [(s2, pack(val(ex, s2, v))) for s2, v in ex.construct_v(st, alt, f, convert_args(ex, st, f, args), c.e)]


@M.ctor('std::variant')
def _(ex, st, c):
    if not c.args:
        return ret(st, ex.default_value(st, c.t))
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, Void):     # in_place_type: build the named alternative from the remaining arguments
        return variant_in_place(ex, st, c)
    if isinstance(v, Variant):
        if c.f.get('ctor') == 'move' and isinstance(a, LV):
            ex.store(st, a, ex.moved_from(st, v))
        return ret(st, v)
    # the constructor's own template argument gives the source type
    src = None
    ta = [x for x in c.f.get('targs', []) if x is not None and not isinstance(x, dict)]
    if ta:
        src = ta[0].deref()
        for i, alt in enumerate(c.t.targs):
            if strip(alt.name) == strip(src.name):
                r = Variant(c.t.targs, I(i), [v if j == i else ex.ty.fresh(x, 'alt') for j, x in enumerate(c.t.targs)])
                if isinstance(a, LV) and isinstance(v, Ptr) and alt.k == 'record':
                    ex.store(st, a, Ptr(I(0), v.t))
                return ret(st, r)
    r = to_variant(ex, st, c.t, a, v)
    return ret(st, r)


@M.fn('std::variant::operator=')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    a = c.args[0]
    v = val(ex, st, a)
    t = c.f['cls']
    if not isinstance(v, Variant):
        v = to_variant(ex, st, t, a, v)
    ex.store(st, lv, v)
    return ret(st, lv)


@M.fn('std::variant::index')
def _(ex, st, c):
    return ret(st, recv(ex, st, c).idx)


def alt_index(ex, c, ts):
    x = c.f['targs'][0]
    if isinstance(x, dict):
        return x['int']
    for i, t in enumerate(ts):
        if strip(t.name) == strip(x.name):
            return i
    raise Unsupported('alternative ' + x.s)


@M.fn('std::holds_alternative')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    return ret(st, v.idx == alt_index(ex, c, v.ts))


@M.fn('std::get')
def _(ex, st, c):
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, Tup):
        i = alt_index(ex, c, v.ts)
        if isinstance(a, LV):
            return ret(st, a.sub(('tup', i), v.ts[i]))
        return ret(st, v.vals[i])
    if isinstance(v, MapEntry):
        i = c.f['targs'][0]['int']
        return ret(st, entry_field(ex, st, v, i))
    if not isinstance(v, Variant):
        raise Unsupported('std::get of %s' % type(v).__name__)
    i = alt_index(ex, c, v.ts)
    ex.safe(st, v.idx == i, 'variant holds the requested alternative', line(c))
    if isinstance(a, LV):
        return ret(st, a.sub(('alt', i), v.ts[i]))
    return ret(st, v.vals[i])


@M.fn('std::get_if')
def _(ex, st, c):
    p = val(ex, st, c.args[0])
    lv = ex.deref(st, p, c.f['pt'][0].to)
    v = ex.load(st, lv)
    i = alt_index(ex, c, v.ts)
    out = []
    for s, b in ex.branch(st, v.idx == i):
        out.append((s, PPtr(lv.sub(('alt', i), v.ts[i])) if b else Ptr(I(0), v.ts[i])))
    return out


def callable_for(ex, st, fn, alt_t, arg):
    """the overload of a visitor that takes an argument of type alt_t"""
    v = fn
    if isinstance(v, LV):
        v = ex.load(st, v)
    if isinstance(v, Closure):
        return v
    if isinstance(v, Struct):
        cands = v.fields.get('#bases')
        if cands:
            # exact type match, then generic lambda
            for b in cands:
                if isinstance(b, Closure) and not b.e.get('generic'):
                    p = b.e['body']['params'][0]['t'].deref()
                    if strip(p.name) == strip(alt_t.name):
                        return b
            for b in cands:
                if isinstance(b, Closure) and not b.e.get('generic'):
                    p = b.e['body']['params'][0]['t'].deref()
                    if compat(ex, p, alt_t):
                        return b
            for b in cands:
                if isinstance(b, Closure) and b.e.get('generic'):
                    return b
        # struct with overloaded operator()
        for f in ex.prog.functions.values():
            if f['n'] == 'operator()' and f.get('cls') is not None and f['cls'].name == v.t.name and len(f['pt']) == 1:
                if strip(f['pt'][0].deref().name) == strip(alt_t.name):
                    return ('method', f, fn)
        for f in ex.prog.functions.values():
            if f['n'] == 'operator()' and f.get('cls') is not None and f['cls'].name == v.t.name and len(f['pt']) == 1:
                if compat(ex, f['pt'][0].deref(), alt_t):
                    return ('method', f, fn)
    raise Unsupported('no visitor overload for ' + alt_t.s)


def call_any(ex, st, cl, args, e):
    if isinstance(cl, tuple) and cl[0] == 'method':
        _, f, o = cl
        return ex.call(st, f, None, o, args, e)
    return ex.call_value(st, cl, args, e)


@M.fn('std::visit')
def _(ex, st, c):
    a = c.args[1]
    v = val(ex, st, a)
    if len(c.args) != 2 or not isinstance(v, Variant):
        raise Unsupported('std::visit')
    out = []
    rem = st
    for i in range(len(v.ts)):
        br = ex.branch(rem, v.idx == i, 'alternative %d' % i)
        rest = None
        for s, b in br:
            if b:
                arg = a.sub(('alt', i), v.ts[i]) if isinstance(a, LV) else v.vals[i]
                cl = callable_for(ex, s, c.args[0], v.ts[i], arg)
                out += call_any(ex, s, cl, [arg], c.e)
            else:
                rest = s
        if rest is None:
            break
        rem = rest
    rt = c.f['ret']
    if rt.k not in ('ref', 'rref'):
        out = [(s, ex.load(s, v) if isinstance(v, LV) else v) for s, v in out]
    return out


# ---------------------------------------------------------------- vectors, deques, stacks
@M.ctor('std::vector', 'std::deque', 'std::stack', 'std::queue', 'llvm::SmallVector', 'llvm::SmallVectorImpl', 'llvm::ArrayRef',
        'std::initializer_list')
def _(ex, st, c):
    t = c.t
    if not c.args:
        return ret(st, ex.default_value(st, t))
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, Vec):
        if isinstance(a, LV) and (c.f.get('ctor') == 'move' or (c.ae and c.ae[0].get('lv') == 2 and a.t is not None and a.t.qn in VECS and c.f.get('ctor') != 'copy')):
            ex.store(st, a, Vec(v.et, v.arr, I(0), I(0)))
        if z3.is_int_value(v.lo) and v.lo.as_long() == 0 or t.qn in ('std::deque', 'std::stack', 'std::queue'):
            return ret(st, Vec(t.targs[0], v.arr, v.lo, v.hi))
        raise Unsupported('vector from shifted deque')
    if isinstance(v, It) and len(c.args) >= 2:
        w = val(ex, st, c.args[1])
        src = ex.load(st, v.lv)
        if isinstance(src, Vec) and z3.is_int_value(v.pos) and v.pos.as_long() == 0:
            if ex.provable(st, w.pos == src.size()):
                return ret(st, Vec(t.targs[0], src.arr, src.lo, src.hi))
        if isinstance(src, SetV):
            return ret(st, enumerate_set(ex, st, src, t.targs[0]))
        raise Unsupported('vector from a sub-range')
    if isinstance(v, Range):
        if isinstance(v.val, Vec):
            return ret(st, v.val)
        if isinstance(v.val, SetV):
            return ret(st, enumerate_set(ex, st, v.val, t.targs[0]))
    if isinstance(v, z3.ArithRef):
        x = val(ex, st, c.args[1]) if len(c.args) > 1 and not isinstance(val(ex, st, c.args[1]), Opaque) else ex.default_value(st, t.targs[0])
        return ret(st, Vec(t.targs[0], z3.K(z3.IntSort(), ex.ty.enc(t.targs[0], x)), I(0), v))
    raise Unsupported('vector from %s' % type(v).__name__)


def enumerate_set(ex, st, s, et):
    """a vector listing every element of a set exactly once, in an unspecified order"""
    es = ex.ty.sort(et)
    n = z3.Int(fresh_name('n'))
    arr = z3.Const(fresh_name('enum'), z3.ArraySort(z3.IntSort(), es))
    pos = z3.Function(fresh_name('posof'), es, z3.IntSort())
    i = z3.Int(fresh_name('i'))
    x = z3.Const(fresh_name('x'), es)
    st.assume(n >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sel(s.arr, sel(arr, i)), pos(sel(arr, i)) == i)),
                        patterns=[z3.Select(arr, i)]))
    st.assume(z3.ForAll([x], z3.Implies(sel(s.arr, x), z3.And(0 <= pos(x), pos(x) < n, sel(arr, pos(x)) == x)),
                        patterns=[pos(x)] if not z3.is_app_of(s.arr, z3.Z3_OP_UNINTERPRETED) else [z3.Select(s.arr, x)]))
    return Vec(et, arr, I(0), n)


def vecm(*names):
    def d(f):
        def m(ex, st, c):
            lv = recv_lv(ex, st, c)
            v = ex.load(st, lv)
            if isinstance(v, Range):
                v = v.val
            return f(ex, st, lv, v, c)
        for n in names:
            for p in ('std::vector::', 'z3::ast_vector_tpl::', 'std::deque::', 'std::stack::', 'std::queue::', 'llvm::SmallVector::', 'llvm::SmallVectorImpl::',
                      'llvm::SmallVectorBase::', 'llvm::SmallVectorTemplateCommon::', 'llvm::SmallVectorTemplateBase::',
                      'llvm::ArrayRef::', 'std::initializer_list::', 'std::array::'):
                M.fns[p + n] = m
        return f
    return d


@vecm('size')
def _(ex, st, lv, v, c):
    return ret(st, v.size())


@vecm('empty')
def _(ex, st, lv, v, c):
    return ret(st, v.size() == 0)


@vecm('reserve', 'shrink_to_fit')
def _(ex, st, lv, v, c):
    return ret(st, VOID)


@vecm('clear')
def _(ex, st, lv, v, c):
    ex.store(st, lv, Vec(v.et, v.arr, I(0), I(0)))
    return ret(st, VOID)


def moved_arg(ex, st, a, v):
    if isinstance(a, LV) and isinstance(v, Ptr) and a.t is not None and a.t.k == 'record' and a.t.qn in UPTRS:
        ex.store(st, a, Ptr(I(0), v.t))


@vecm('push_back', 'push')
def _(ex, st, lv, v, c):
    a = c.args[0]
    x = val(ex, st, a)
    enc = ex.ty.enc(v.et, conv(ex, st, v.et, x))
    moved_arg(ex, st, a, x)
    v = ex.load(st, lv)
    ex.store(st, lv, Vec(v.et, z3.Store(v.arr, v.hi, enc), v.lo, z3.simplify(v.hi + 1)))
    return ret(st, VOID)


@vecm('emplace_back', 'emplace')
def _(ex, st, lv, v, c):
    et = v.et
    out = []
    for s, x in build(ex, st, et, c.args, c):
        v2 = ex.load(s, lv)
        ex.store(s, lv, Vec(et, z3.Store(v2.arr, v2.hi, ex.ty.enc(et, x)), v2.lo, z3.simplify(v2.hi + 1)))
        out.append((s, lv.sub(('idx', z3.simplify(v2.size())), et)))
    return out


def build(ex, st, t, args, c):
    """construct a value of type t from forwarded arguments"""
    if len(args) == 1:
        v = val(ex, st, args[0])
        if t.k != 'record' or t.qn in STRINGS or t.qn in UPTRS or (isinstance(v, Struct) and v.t.name == t.name):
            if isinstance(v, z3.ExprRef) or isinstance(v, (Ptr, Struct)):
                moved_arg(ex, st, args[0], v)
                return [(st, conv(ex, st, t, v))]
    if ex.ty.is_mine(t) and not ex.ty.is_object(t):
        f = pick_ctor(ex, t, list(args), c)
        if f is None:
            raise Unsupported('emplace of ' + t.s)
        return ex.construct_v(st, t, f, convert_args(ex, st, f, list(args)), c.e)
    m = M.ctors.get(t.qn)
    if m is not None:
        return m(ex, st, Call({'qn': t.qn, 'n': '', 'pt': [], 'ctor': 'other'}, None, list(args), c.e, t, None))
    raise Unsupported('emplace of ' + t.s)


@vecm('push_front')
def _(ex, st, lv, v, c):
    a = c.args[0]
    x = val(ex, st, a)
    lo = z3.simplify(v.lo - 1)
    ex.store(st, lv, Vec(v.et, z3.Store(v.arr, lo, ex.ty.enc(v.et, x)), lo, v.hi))
    return ret(st, VOID)


@vecm('pop_front')
def _(ex, st, lv, v, c):
    ex.safe(st, v.size() > 0, 'pop from a non-empty sequence', line(c))
    ex.store(st, lv, Vec(v.et, v.arr, z3.simplify(v.lo + 1), v.hi))
    return ret(st, VOID)


@vecm('pop_back', 'pop')
def _(ex, st, lv, v, c):
    ex.safe(st, v.size() > 0, 'pop from a non-empty sequence', line(c))
    if c.f['cls'].qn == 'std::queue':
        ex.store(st, lv, Vec(v.et, v.arr, z3.simplify(v.lo + 1), v.hi))
    else:
        ex.store(st, lv, Vec(v.et, v.arr, v.lo, z3.simplify(v.hi - 1)))
    return ret(st, VOID)


@vecm('back', 'top')
def _(ex, st, lv, v, c):
    ex.safe(st, v.size() > 0, 'back() of a non-empty sequence', line(c))
    return ret(st, lv.sub(('idx', z3.simplify(v.size() - 1)), v.et))


@vecm('front')
def _(ex, st, lv, v, c):
    ex.safe(st, v.size() > 0, 'front() of a non-empty sequence', line(c))
    return ret(st, lv.sub(('idx', I(0)), v.et))


@vecm('operator[]', 'at')
def _(ex, st, lv, v, c):
    i = val(ex, st, c.args[0])
    ex.safe(st, z3.And(i >= 0, i < v.size()), 'index in bounds', line(c))
    return ret(st, lv.sub(('idx', i), v.et))


@vecm('begin', 'cbegin')
def _(ex, st, lv, v, c):
    return ret(st, It('vec', lv, I(0), None, None, v.et))


@vecm('end', 'cend')
def _(ex, st, lv, v, c):
    return ret(st, It('vec', lv, v.size(), None, None, v.et))


@vecm('operator=')
def _(ex, st, lv, v, c):
    a = c.args[0]
    w = val(ex, st, a)
    if not isinstance(w, Vec):
        raise Unsupported('vector assignment')
    if isinstance(a, LV) and c.f['pt'] and c.f['pt'][0].k == 'rref':
        ex.store(st, a, Vec(w.et, w.arr, I(0), I(0)))
    ex.store(st, lv, Vec(v.et, w.arr, w.lo, w.hi))
    return ret(st, lv)


@vecm('insert')
def _(ex, st, lv, v, c):
    it = val(ex, st, c.args[0])
    if len(c.args) == 3:
        b, e = val(ex, st, c.args[1]), val(ex, st, c.args[2])
        if isinstance(b, It) and b.kind == 'vec' and ex.provable(st, it.pos == v.size()):
            src = ex.load(st, b.lv)
            n = z3.simplify(e.pos - b.pos)
            arr = z3.Const(fresh_name('ins'), v.arr.sort())
            i = z3.Int(fresh_name('i'))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= v.lo, i < v.hi), sel(arr, i) == sel(v.arr, i)), patterns=[z3.Select(arr, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= v.hi, i < v.hi + n),
                                                sel(arr, i) == sel(src.arr, src.lo + b.pos + i - v.hi)), patterns=[z3.Select(arr, i)]))
            ex.store(st, lv, Vec(v.et, arr, v.lo, z3.simplify(v.hi + n)))
            return ret(st, it)
        raise Unsupported('insert of a range')
    x = val(ex, st, c.args[1])
    enc = ex.ty.enc(v.et, x)
    moved_arg(ex, st, c.args[1], x)
    v = ex.load(st, lv)
    ex.safe(st, z3.And(it.pos >= 0, it.pos <= v.size()), 'insert position in range', line(c))
    if z3.is_int_value(z3.simplify(it.pos)) and z3.simplify(it.pos).as_long() == 0:
        # in front: every element moves by one
        arr, old = z3.Const(fresh_name('ins'), v.arr.sort()), pat_arr(st, v.arr)
        i = z3.Int(fresh_name('i'))
        st.assume(z3.ForAll([i], sel(arr, i) == z3.If(i == v.lo, enc, sel(old, i - 1)), patterns=[z3.Select(arr, i)]))
        st.assume(sel(arr, v.lo) == enc)
        st.assume(z3.ForAll([i], z3.Implies(i >= v.lo, sel(arr, i + 1) == sel(old, i)), patterns=[z3.Select(old, i)]))
        ex.store(st, lv, Vec(v.et, arr, v.lo, z3.simplify(v.hi + 1)))
        return ret(st, it)
    p = z3.simplify(v.lo + it.pos)
    arr = z3.Const(fresh_name('ins'), v.arr.sort())
    i = z3.Int(fresh_name('i'))
    st.assume(z3.ForAll([i], sel(arr, i) == z3.If(i < p, sel(v.arr, i), z3.If(i == p, enc, sel(v.arr, i - 1))),
                        patterns=[z3.Select(arr, i)]))
    st.assume(sel(arr, p) == enc)
    old = pat_arr(st, v.arr)
    st.assume(z3.ForAll([i], sel(old, i) == z3.If(i < p, sel(arr, i), sel(arr, i + 1)), patterns=[z3.Select(old, i)]))
    ex.store(st, lv, Vec(v.et, arr, v.lo, z3.simplify(v.hi + 1)))
    return ret(st, it)


@vecm('erase')
def _(ex, st, lv, v, c):
    it = val(ex, st, c.args[0])
    arr = z3.Const(fresh_name('era'), v.arr.sort())
    i = z3.Int(fresh_name('i'))
    p = z3.simplify(v.lo + it.pos)
    if len(c.args) == 2:
        e = val(ex, st, c.args[1])
        ex.safe(st, z3.And(it.pos >= 0, it.pos <= e.pos, e.pos <= v.size()), 'erased range is valid', line(c))
        n = e.pos - it.pos
    else:
        ex.safe(st, z3.And(it.pos >= 0, it.pos < v.size()), 'erased iterator is dereferenceable', line(c))
        n = I(1)
    st.assume(z3.ForAll([i], sel(arr, i) == z3.If(i < p, sel(v.arr, i), sel(v.arr, i + n)), patterns=[z3.Select(arr, i)]))
    old = pat_arr(st, v.arr)
    st.assume(z3.ForAll([i], z3.And(z3.Implies(i < p, sel(arr, i) == sel(old, i)),
                                    z3.Implies(i >= p + n, sel(arr, i - n) == sel(old, i))), patterns=[z3.Select(old, i)]))
    ex.store(st, lv, Vec(v.et, arr, v.lo, z3.simplify(v.hi - n)))
    return ret(st, it)


# iterator operators
@M.fn('__gnu_cxx::__normal_iterator::operator*', 'std::_Deque_iterator::operator*', 'llvm::SmallPtrSetIterator::operator*',
      'std::_Rb_tree_const_iterator::operator*', 'llvm::StringMapIterator::operator*', 'llvm::StringMapConstIterator::operator*',
      'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*',
      'std::_Rb_tree_iterator::operator*', 'std::reverse_iterator::operator*')
def _(ex, st, c):
    it = recv(ex, st, c)
    return ret(st, M.deref_it(ex, st, it, line(c)))


@M.fn('__gnu_cxx::__normal_iterator::operator->', 'llvm::iterator_facade_base::operator->',
      'std::__detail::_Node_iterator::operator->', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->',
      'std::_Deque_iterator::operator->')
def _(ex, st, c):
    it = recv(ex, st, c)
    x = M.deref_it(ex, st, it, line(c))
    if isinstance(x, LV):
        v = ex.load(st, x) if x.kind == 'cell' else None
        return ret(st, PPtr(x))
    if isinstance(x, MapEntry):
        return ret(st, x)
    return ret(st, PPtr(ex.var_lv(st, None, x)))


@M.fn('llvm::iterator_facade_base::PointerProxy::operator->')
def _(ex, st, c):
    return ret(st, recv(ex, st, c))


def step(d):
    def m(ex, st, c):
        lv = c.obj if c.obj is not None else ex.deref(st, c.this, c.f['cls'])
        it = val(ex, st, lv)
        n = M.it_step(ex, st, it, d)
        post = len(c.args) == 1
        if isinstance(lv, LV):
            ex.store(st, lv, n)
        return ret(st, it if post else lv)
    return m


for _c in ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'llvm::SmallPtrSetIterator', 'std::_Rb_tree_const_iterator',
           'llvm::StringMapIterBase', 'std::__detail::_Node_iterator'):
    M.fns[_c + '::operator++'] = step(1)
    M.fns[_c + '::operator--'] = step(-1)


@M.fn('__gnu_cxx::__normal_iterator::operator-', '__gnu_cxx::operator-', '__gnu_cxx::__normal_iterator::operator+')
def _(ex, st, c):
    a, b = _args2(ex, st, c)
    return ret(st, M.it_binop(ex, st, '+' if c.f['n'].endswith('+') else '-', a, b))


@M.fn('std::next', 'std::prev')
def _(ex, st, c):
    it = val(ex, st, c.args[0])
    n = val(ex, st, c.args[1]) if len(c.args) > 1 else I(1)
    return ret(st, M.it_binop(ex, st, '+' if c.f['n'] == 'next' else '-', it, n))


@M.fn('std::distance')
def _(ex, st, c):
    a, b = _args2(ex, st, c)
    return ret(st, M.it_binop(ex, st, '-', b, a))


@M.ctor('__gnu_cxx::__normal_iterator', 'llvm::SmallPtrSetIterator', 'llvm::StringMapConstIterator', 'std::_Rb_tree_const_iterator',
        'llvm::StringMapIterator', 'std::_Deque_iterator')
def _(ex, st, c):
    return ret(st, val(ex, st, c.args[0]))


@M.fn('llvm::StringMapIterator::operator StringMapConstIterator')
def _(ex, st, c):
    return ret(st, recv(ex, st, c))


@M.fn('__gnu_cxx::__normal_iterator::operator=')
def _(ex, st, c):
    ex.store(st, c.obj, val(ex, st, c.args[0]))
    return ret(st, c.obj)


@M.fn('std::begin', 'std::cbegin', 'std::end', 'std::cend')
def _(ex, st, c):
    lv = c.args[0]
    v = val(ex, st, lv)
    if isinstance(v, Vec):
        return ret(st, It('vec', lv, I(0) if c.f['n'].endswith('begin') else v.size(), None, None, v.et))
    raise Unsupported('std::begin')


@M.fn('llvm::make_range')
def _(ex, st, c):
    a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
    if isinstance(a, It):
        v = ex.load(st, a.lv) if a.lv is not None else a.snap
        if a.kind == 'vec':
            if ex.provable(st, z3.And(a.pos == 0, b.pos == v.size())):
                return ret(st, Range(v, a.lv, a.et))
            raise Unsupported('sub-range')
        if isinstance(a.pos, str) and a.pos == 'begin' or isinstance(a.snap, str) and a.snap == 'begin' and isinstance(b, It) and isinstance(b.snap, str) and b.snap == 'end':
            return ret(st, Range(v, a.lv, a.et))
    wa, wb = wrapped_it(ex, a), wrapped_it(ex, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and wa is None and wb is None and a.t.qn == b.t.qn:
        return ret(st, Range(IterPair(a, b)))
    if wa is not None and wb is not None:
        # an iterator of /repo around a container iterator: its operators are under contract (contracts/iters.py)
        v = ex.load(st, wa.lv) if wa.lv is not None else wa.snap
        if wa.kind == 'vec' and ex.provable(st, z3.And(wa.pos == 0, wb.pos == v.size())):
            return ret(st, Range(v, wa.lv, wa.et))
        if wa.kind == 'map' and isinstance(wa.pos, str) and wa.pos == 'begin' and wb.kind == 'map' and wb.end is not None and ex.provable(st, wb.end):
            return ret(st, Range(MapVals(v, v.vt), wa.lv, None))
    raise Unsupported('make_range of %r %s %s' % (a, getattr(wa, 'kind', None), getattr(wa, 'snap', None)))


ITER_WRAPPERS = ('FeatureMapIterator', 'UniqueIterator')


def wrapped_it(ex, v):
    if isinstance(v, Struct) and len(v.fields) == 1 and v.t.qn.split('::')[-1] in ITER_WRAPPERS:
        x = next(iter(v.fields.values()))
        return x if isinstance(x, It) else None
    return None


@M.fn('llvm::iterator_range::begin', 'llvm::iterator_range::end')
def _(ex, st, c):
    r = recv(ex, st, c)
    if not isinstance(r, Range):
        raise Unsupported('iterator_range')
    b = c.f['n'] == 'begin'
    if isinstance(r.val, IterPair):
        return ret(st, r.val.a if b else r.val.b)
    if isinstance(r.val, Vec):
        lv = r.lv or ex.newcell(st, None, r.val)
        return ret(st, It('vec', lv, I(0) if b else r.val.size(), None, None, r.val.et))
    if isinstance(r.val, SetV):
        lv = r.lv or ex.newcell(st, None, r.val)
        return ret(st, It('set', lv, 'begin' if b else None, FALSE if b else TRUE, r.val, r.val.et))
    if isinstance(r.val, MapVals):
        return ret(st, It('mapvals', r.lv, 'begin' if b else None, FALSE if b else TRUE, r.val, r.val.et))
    raise Unsupported('iterator_range over %s' % type(r.val).__name__)


@M.fn('llvm::iterator_range::empty')
def _(ex, st, c):
    r = recv(ex, st, c)
    v = r.val
    if isinstance(v, Vec):
        return ret(st, v.size() == 0)
    if isinstance(v, SetV):
        return ret(st, v.arr == z3.K(v.arr.sort().domain(), FALSE))
    raise Unsupported('iterator_range::empty')


# ---------------------------------------------------------------- sets
CARD = {}
# quantifiers over sets are instantiated for elements that are looked up only
SET_PATTERNS = []


def card(ex, st, s):
    """cardinality of a finite set, with the facts clients need"""
    so = s.arr.sort()
    f = CARD.get(str(so))
    if f is None:
        f = CARD[str(so)] = z3.Function('card<%s>' % so, so, z3.IntSort())
    n = f(s.arr)
    st.assume(n >= 0, (n == 0) == (s.arr == z3.K(so.domain(), FALSE)))
    x = z3.Const(fresh_name('sx'), so.domain())
    # a one-element set
    st.assume(z3.Implies(n == 1, s.arr == z3.Store(z3.K(so.domain(), FALSE), x, TRUE)))
    a = s.arr
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        base, k, b = a.arg(0), a.arg(1), a.arg(2)
        if z3.is_true(b):
            st.assume(f(a) == f(base) + z3.If(sel(base, k), I(0), I(1)))
        elif z3.is_false(b):
            st.assume(f(a) == f(base) - z3.If(sel(base, k), I(1), I(0)))
        st.assume(f(base) >= 0)
        a = base
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
        st.assume(f(a) == 0)
    return n


@M.ctor('llvm::SmallSet', 'std::set', 'std::unordered_set', 'llvm::SmallPtrSet', 'llvm::SmallPtrSetImpl', 'llvm::SetVector')
def _(ex, st, c):
    if not c.args:
        return ret(st, ex.default_value(st, c.t))
    a = c.args[0]
    v = val(ex, st, a)
    if isinstance(v, SetV):
        return ret(st, v)
    if isinstance(v, Vec) and z3.is_int_value(v.size()):
        arr = z3.K(ex.ty.sort(c.t.targs[0]), FALSE)
        for i in range(v.size().as_long()):
            arr = z3.Store(arr, sel(v.arr, z3.simplify(v.lo + i)), TRUE)
        return ret(st, SetV(c.t.targs[0], arr))
    if isinstance(v, It) and len(c.args) >= 2:
        src = ex.load(st, v.lv) if v.lv is not None else v.snap
        if isinstance(src, Vec):
            return ret(st, vec_to_set(ex, st, src, c.t.targs[0]))
        if isinstance(src, SetV):
            return ret(st, SetV(c.t.targs[0], src.arr))
    raise Unsupported('set from %s' % type(v).__name__)


def vec_to_set(ex, st, v, et):
    es = ex.ty.sort(et)
    s = z3.Const(fresh_name('setof'), z3.ArraySort(es, z3.BoolSort()))
    x = z3.Const(fresh_name('x'), es)
    i = z3.Int(fresh_name('i'))
    w = z3.Function(fresh_name('wit'), es, z3.IntSort())
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.size()), sel(s, sel(v.arr, v.lo + i))),
                        patterns=[z3.Select(v.arr, v.lo + i)]))
    st.assume(z3.ForAll([x], z3.Implies(sel(s, x), z3.And(0 <= w(x), w(x) < v.size(), sel(v.arr, v.lo + w(x)) == x)),
                        patterns=[z3.Select(s, x)]))
    return SetV(et, s)


def setm(*names):
    def d(f):
        def m(ex, st, c):
            lv = recv_lv(ex, st, c)
            v = ex.load(st, lv)
            return f(ex, st, lv, v, c)
        for n in names:
            for p in ('llvm::SmallSet::', 'std::set::', 'std::unordered_set::', 'llvm::SmallPtrSet::', 'llvm::SmallPtrSetImpl::',
                      'llvm::SmallPtrSetImplBase::', 'llvm::SetVector::'):
                M.fns[p + n] = m
        return f
    return d


def set_union(ex, a, b):
    u = z3.Const(fresh_name('union'), a.sort())
    x = z3.Const(fresh_name('x'), a.sort().domain())
    ex.axioms.append(z3.ForAll([x], sel(u, x) == z3.Or(sel(a, x), sel(b, x)), patterns=[z3.Select(u, x)]))
    return u


@setm('insert')
def _(ex, st, lv, v, c):
    if len(c.args) == 2:
        a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
        src = ex.load(st, a.lv) if a.lv is not None else a.snap
        if isinstance(src, SetV):
            ex.store(st, lv, SetV(v.et, set_union(ex, v.arr, src.arr)))
            return ret(st, VOID)
        if isinstance(src, Vec):
            s2 = vec_to_set(ex, st, src, v.et)
            ex.store(st, lv, SetV(v.et, set_union(ex, v.arr, s2.arr)))
            return ret(st, VOID)
        raise Unsupported('set insert range')
    x = ex.ty.enc(v.et, val(ex, st, c.args[0]))
    was = sel(v.arr, x)
    ex.store(st, lv, SetV(v.et, z3.Store(v.arr, x, TRUE)))
    if c.t is not None and c.t.b == 'bool':
        return ret(st, z3.Not(was))
    return ret(st, Tup([None, None], [It('set', lv, x, FALSE, None, v.et), z3.Not(was)]))


@setm('emplace')
def _(ex, st, lv, v, c):
    return M.fns['std::set::insert'](ex, st, c)


@setm('remove')
def _(ex, st, lv, v, c):
    x = ex.ty.enc(v.et, val(ex, st, c.args[0]))
    was = sel(v.arr, x)
    ex.store(st, lv, SetV(v.et, z3.Store(v.arr, x, FALSE)))
    return ret(st, was)


@setm('erase')
def _(ex, st, lv, v, c):
    a = val(ex, st, c.args[0])
    if isinstance(a, It):
        ex.safe(st, z3.Not(a.end), 'erased iterator is not end()', line(c))
        ex.store(st, lv, SetV(v.et, z3.Store(v.arr, a.pos, FALSE)))
        return ret(st, VOID)
    x = ex.ty.enc(v.et, a)
    was = sel(v.arr, x)
    ex.store(st, lv, SetV(v.et, z3.Store(v.arr, x, FALSE)))
    if c.t is not None and c.t.b == 'bool':
        return ret(st, was)
    return ret(st, z3.If(was, I(1), I(0)))


@setm('count', 'contains')
def _(ex, st, lv, v, c):
    x = ex.ty.enc(v.et, val(ex, st, c.args[0]))
    b = sel(v.arr, x)
    return ret(st, b if c.t.b == 'bool' else z3.If(b, I(1), I(0)))


@setm('find')
def _(ex, st, lv, v, c):
    x = ex.ty.enc(v.et, val(ex, st, c.args[0]))
    return ret(st, It('set', lv, x, z3.Not(sel(v.arr, x)), None, v.et))


@setm('size')
def _(ex, st, lv, v, c):
    return ret(st, card(ex, st, v))


@setm('empty')
def _(ex, st, lv, v, c):
    return ret(st, v.arr == z3.K(v.arr.sort().domain(), FALSE))


@setm('clear')
def _(ex, st, lv, v, c):
    ex.store(st, lv, SetV(v.et, z3.K(v.arr.sort().domain(), FALSE)))
    return ret(st, VOID)


@setm('begin', 'cbegin')
def _(ex, st, lv, v, c):
    # an arbitrary element, or end() when empty
    w = z3.Const(fresh_name('first'), v.arr.sort().domain())
    empty = v.arr == z3.K(v.arr.sort().domain(), FALSE)
    st.assume(z3.Implies(z3.Not(empty), sel(v.arr, w)))
    it = It('set', lv, w, empty, 'begin', v.et)
    return ret(st, it)


@setm('end', 'cend')
def _(ex, st, lv, v, c):
    return ret(st, It('set', lv, z3.Const(fresh_name('endel'), v.arr.sort().domain()), TRUE, 'end', v.et))


# ---------------------------------------------------------------- maps
@M.ctor('llvm::StringMap', 'std::map', 'std::unordered_map', 'llvm::DenseMap')
def _(ex, st, c):
    if not c.args:
        return ret(st, ex.default_value(st, c.t))
    v = val(ex, st, c.args[0])
    if isinstance(v, MapV):
        return ret(st, v)
    return ret(st, ex.default_value(st, c.t))


def mapm(*names):
    def d(f):
        def m(ex, st, c):
            lv = recv_lv(ex, st, c)
            v = ex.load(st, lv)
            return f(ex, st, lv, v, c)
        for n in names:
            for p in ('llvm::StringMap::', 'std::map::', 'std::unordered_map::', 'llvm::DenseMap::', 'llvm::StringMapImpl::'):
                M.fns[p + n] = m
        return f
    return d


def mkey(ex, st, v, a):
    x = val(ex, st, a)
    return x if v.kt is None else ex.ty.enc(v.kt, x)


@mapm('find')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    return ret(st, It('map', lv, k, z3.Not(sel(v.dom, k)), None, None))


@mapm('count', 'contains')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    b = sel(v.dom, k)
    return ret(st, b if c.t.b == 'bool' else z3.If(b, I(1), I(0)))


@mapm('lookup')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    d = ex.default_value(st, v.vt)
    return ret(st, ex.ty.dec(v.vt, z3.If(sel(v.dom, k), sel(v.arr, k), ex.ty.enc(v.vt, d))))


@mapm('operator[]')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    d = ex.ty.enc(v.vt, ex.default_value(st, v.vt))
    cur = sel(v.dom, k)
    if not z3.is_true(cur):
        ex.store(st, lv, MapV(v.kt, v.vt, z3.Store(v.dom, k, TRUE), z3.Store(v.arr, k, z3.If(cur, sel(v.arr, k), d))))
    return ret(st, lv.sub(('mapv', k), v.vt))


@mapm('at')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    ex.safe(st, sel(v.dom, k), 'key present', line(c))
    return ret(st, lv.sub(('mapv', k), v.vt))


@mapm('try_emplace', 'emplace')
def _(ex, st, lv, v, c):
    k = mkey(ex, st, v, c.args[0])
    had = sel(v.dom, k)
    out = []
    for s, b in ex.branch(st, had, 'key already present'):
        if not b:
            a = c.args[1]
            for s2, x in build(ex, s, v.vt, c.args[1:], c):
                v2 = ex.load(s2, lv)
                ex.store(s2, lv, MapV(v.kt, v.vt, z3.Store(v2.dom, k, TRUE), z3.Store(v2.arr, k, ex.ty.enc(v.vt, x))))
                out.append((s2, Tup([None, None], [It('map', lv, k, FALSE, None, None), TRUE])))
        else:
            out.append((s, Tup([None, None], [It('map', lv, k, FALSE, None, None), FALSE])))
    return out


@mapm('insert')
def _(ex, st, lv, v, c):
    p = val(ex, st, c.args[0])
    if not isinstance(p, Tup):
        raise Unsupported('map insert')
    k = p.vals[0]
    had = sel(v.dom, k)
    x = ex.ty.enc(v.vt, p.vals[1])
    ex.store(st, lv, MapV(v.kt, v.vt, z3.Store(v.dom, k, TRUE), z3.If(had, v.arr, z3.Store(v.arr, k, x))))
    return ret(st, Tup([None, None], [It('map', lv, k, FALSE, None, None), z3.Not(had)]))


@mapm('erase')
def _(ex, st, lv, v, c):
    a = val(ex, st, c.args[0])
    if isinstance(a, It):
        ex.safe(st, z3.Not(a.end), 'erased iterator is not end()', line(c))
        k = a.pos
        ex.store(st, lv, MapV(v.kt, v.vt, z3.Store(v.dom, k, FALSE), v.arr))
        return ret(st, VOID)
    k = mkey(ex, st, v, c.args[0])
    was = sel(v.dom, k)
    ex.store(st, lv, MapV(v.kt, v.vt, z3.Store(v.dom, k, FALSE), v.arr))
    return ret(st, was if c.t is not None and c.t.b == 'bool' else z3.If(was, I(1), I(0)))


@mapm('begin')
def _(ex, st, lv, v, c):
    return ret(st, It('map', lv, 'begin', None, v, None))


@mapm('end')
def _(ex, st, lv, v, c):
    return ret(st, It('map', lv, z3.Const(fresh_name('endkey'), v.dom.sort().domain()), TRUE, None, None))


@mapm('size')
def _(ex, st, lv, v, c):
    return ret(st, card(ex, st, SetV(None, v.dom)))


@mapm('empty')
def _(ex, st, lv, v, c):
    return ret(st, v.dom == z3.K(v.dom.sort().domain(), FALSE))


def entry_field(ex, st, en, i):
    if i == 0:
        return ex.newcell(st, None, en.key)
    if en.lv is not None:
        return en.lv.sub(('mapv', en.key), en.v.vt)
    return ex.newcell(st, en.v.vt, ex.ty.dec(en.v.vt, sel(en.v.arr, en.key)))


@M.fn('llvm::StringMapEntryStorage::getValue', 'llvm::StringMapEntryStorage::second', 'llvm::detail::DenseMapPair::getSecond')
def _(ex, st, c):
    en = entry_recv(ex, st, c)
    return ret(st, entry_field(ex, st, en, 1))


@M.fn('llvm::StringMapEntry::getKey', 'llvm::StringMapEntry::first', 'llvm::detail::DenseMapPair::getFirst')
def _(ex, st, c):
    en = entry_recv(ex, st, c)
    return ret(st, en.key)


def entry_recv(ex, st, c):
    o = c.obj if c.obj is not None else c.this
    v = val(ex, st, o) if isinstance(o, LV) else o
    if isinstance(v, PPtr):
        v = ex.load(st, v.lv)
    if isinstance(v, It):
        v = M.deref_it(ex, st, v, line(c))
    if not isinstance(v, MapEntry):
        raise Unsupported('map entry')
    return v


# ---------------------------------------------------------------- casts
def classof(ex, st, c, ptr, t):
    """truth of isa<T>(p), by running T::classof from /repo"""
    fs = [f for f in ex.prog.functions.values() if f['n'] == 'classof' and f.get('cls') is not None and f['cls'].name == strip(t.name)]
    if not fs:
        pt = getattr(ptr, 't', None)
        if pt is not None and (strip(pt.name) == strip(t.name) or any(strip(b.name) == strip(t.name) for b in ex.prog.bases(pt))):
            return TRUE      # upcast
        raise Unsupported('no classof for ' + t.s)
    f = fs[0]
    r = ex.call(st, f, None, None, [ptr], c.e)
    if len(r) != 1:
        raise Unsupported('classof forks')
    return r[0][1]


def cast_arg(ex, st, a):
    if isinstance(a, LV):
        if a.kind == 'heap' and not a.path and ex.ty.is_object(a.t):
            return Ptr(a.base, a.t)
        v = ex.load(st, a)
        if isinstance(v, ObjRef):
            return Ptr(v.ref, v.t)
        return v
    if isinstance(a, ObjRef):
        return Ptr(a.ref, a.t)
    return a


def target_t(c):
    for x in c.f['targs']:
        if x is not None and not isinstance(x, dict):
            return x
    raise Unsupported('cast target')


def isa_many(ex, st, c, p, nullok):
    # isa<A, B, ...>(x): all template args but the last deduced one
    ts = [x for x in c.f['targs'] if x is not None and not isinstance(x, dict)]
    k = len(ts)
    if k > 1:
        ts = ts[:-1]
    conds = []
    if nullok:
        nn = ex.truth(p)
        sub = st
        conds = []
        if z3.is_false(z3.simplify(nn)):
            return FALSE
        q = st.copy()
        q.assume(nn)
        n = len(q.pc)
        for t in ts:
            conds.append(classof(ex, q, c, p, t))
        for fct in q.pc[n:]:
            st.assume(z3.Implies(nn, fct))
        return z3.And(nn, z3.Or(*conds))
    ex.safe(st, ex.truth(p), 'isa<> on a non-null pointer', line(c))
    for t in ts:
        conds.append(classof(ex, st, c, p, t))
    return z3.Or(*conds)


@M.fn('llvm::isa')
def _(ex, st, c):
    p = cast_arg(ex, st, c.args[0])
    return ret(st, isa_many(ex, st, c, p, False))


@M.fn('llvm::isa_and_nonnull', 'llvm::isa_and_present')
def _(ex, st, c):
    p = cast_arg(ex, st, c.args[0])
    return ret(st, isa_many(ex, st, c, p, True))


@M.fn('llvm::dyn_cast', 'llvm::dyn_cast_or_null', 'llvm::dyn_cast_if_present')
def _(ex, st, c):
    p = cast_arg(ex, st, c.args[0])
    t = target_t(c)
    ok = isa_many(ex, st, c, p, c.f['n'] != 'dyn_cast')
    if isinstance(p, PPtr):
        raise Unsupported('dyn_cast of local')
    r = z3.If(ok, p.ref, I(0))
    return ret(st, Ptr(z3.simplify(r) if z3.is_true(z3.simplify(ok)) else r, t))


@M.fn('llvm::cast', 'llvm::cast_or_null')
def _(ex, st, c):
    p = cast_arg(ex, st, c.args[0])
    t = target_t(c)
    ok = isa_many(ex, st, c, p, False)
    ex.safe(st, ok, 'cast<> to the dynamic type', line(c))
    if c.f['ret'].k == 'ref':
        return ret(st, LV('heap', p.ref, t, (), t))
    return ret(st, Ptr(p.ref, t))


# ---------------------------------------------------------------- algorithms
def range_elems(ex, st, a, b):
    """container value behind an iterator pair covering it entirely"""
    if a.kind == 'vec':
        v = ex.load(st, a.lv)
        return v, a.lv, a.pos, b.pos
    if a.kind == 'mapvals':
        return a.snap, a.lv, None, None
    v = ex.load(st, a.lv) if a.lv is not None else a.snap
    return v, a.lv, None, None


def only_depends(ex, p, x, mark):
    """no value chosen while evaluating p may differ between elements x"""
    seen, stack = set(), [p]
    while stack:
        f = stack.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            stack.append(f.body())
        elif z3.is_app(f):
            if f.num_args() == 0 and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in f.decl().name() and not f.eq(x):
                t = f.decl().name().rsplit('!', 1)[1]
                if t.isdigit() and int(t) > mark:
                    raise Unsupported('predicate is not a function of the element')
            stack.extend(f.children())


def quantify(ex, st, c, it0, it1, fn, kind):
    v, lv, lo, hi = range_elems(ex, st, it0, it1)
    mark = int(fresh_name('m').rsplit('!', 1)[1])
    if isinstance(v, MapVals):
        x = z3.Const(fresh_name('q'), v.m.dom.sort().domain())
        guard = sel(v.m.dom, x)
        s2 = st.copy()
        s2.assume(guard)
        xv = ex.ty.dec(v.et, sel(v.m.arr, x))
        s2.assume(*ex.ty.facts(v.et, xv, st.next))
        p, facts = pred_term(ex, s2, fn, ex.var_lv(s2, v.et, xv))
        only_depends(ex, p, x, mark)
        if kind == 'all':
            return z3.ForAll([x], z3.Implies(guard, p))
        return z3.Exists([x], z3.And(guard, p))
    if isinstance(v, Vec):
        i = z3.Int(fresh_name('q'))
        guard = z3.And(i >= lo, i < hi)
        n = z3.simplify(hi - lo)
        s2 = st.copy()
        s2.assume(guard)
        k = len(s2.pc)
        x = ex.ty.dec(v.et, sel(v.arr, v.lo + i))
        s2.assume(*ex.ty.facts(v.et, x, st.next))
        p, facts = pred_term(ex, s2, fn, ex.var_lv(s2, v.et, x))
        only_depends(ex, p, i, mark)
        if kind == 'all':
            return z3.ForAll([i], z3.Implies(guard, p))
        return z3.Exists([i], z3.And(guard, p))
    if isinstance(v, SetV):
        x = z3.Const(fresh_name('q'), v.arr.sort().domain())
        guard = sel(v.arr, x)
        s2 = st.copy()
        s2.assume(guard)
        xv = ex.ty.dec(v.et, x)
        s2.assume(*ex.ty.facts(v.et, xv, st.next))
        p, facts = pred_term(ex, s2, fn, ex.var_lv(s2, v.et, xv))
        only_depends(ex, p, x, mark)
        pats = [guard] if SET_PATTERNS else []
        if kind == 'all':
            return z3.ForAll([x], z3.Implies(guard, p), patterns=pats)
        return z3.Exists([x], z3.And(guard, p), patterns=pats)
    raise Unsupported('algorithm over %s' % type(v).__name__)


@M.fn('std::all_of', 'std::any_of', 'std::none_of')
def _(ex, st, c):
    a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
    fn = val(ex, st, c.args[2])
    k = c.f['n']
    if not isinstance(a, It):
        raise Unsupported('%s over %s' % (k, type(a).__name__))
    if k == 'all_of':
        q = quantify(ex, st, c, a, b, fn, 'all')
    else:
        q = quantify(ex, st, c, a, b, fn, 'ex')
        if k == 'none_of':
            q = z3.Not(q)
    return ret(st, q)


@M.fn('llvm::all_of', 'llvm::any_of', 'llvm::none_of')
def _(ex, st, c):
    r = c.args[0]
    v = val(ex, st, r)
    if isinstance(v, Range):
        v, r = v.val, v.lv
    lv = r if isinstance(r, LV) else ex.newcell(st, None, v)
    if isinstance(v, Vec):
        a, b = It('vec', lv, I(0), None, None, v.et), It('vec', lv, v.size(), None, None, v.et)
    elif isinstance(v, SetV):
        a = b = It('set', lv, 'begin', FALSE, v, v.et)
    else:
        raise Unsupported('llvm range algorithm')
    fn = val(ex, st, c.args[1])
    k = c.f['n']
    q = quantify(ex, st, c, a, b, fn, 'all' if k == 'all_of' else 'ex')
    return ret(st, z3.Not(q) if k == 'none_of' else q)


@M.fn('std::upper_bound', 'std::lower_bound')
def _(ex, st, c):
    """the first position whose element the searched value is less than (not greater than, for lower_bound); the
    elements must be partitioned that way"""
    a, b, x = val(ex, st, c.args[0]), val(ex, st, c.args[1]), c.args[2]
    if not isinstance(a, It) or a.kind != 'vec':
        raise Unsupported('binary search over %s' % type(a).__name__)
    v, lv, lo, hi = range_elems(ex, st, a, b)
    upper = c.f['n'] == 'upper_bound'
    x = x if isinstance(x, LV) else ex.newcell(st, v.et, x)
    fn = val(ex, st, c.args[3]) if len(c.args) > 3 else None
    if fn is None:
        raise Unsupported('binary search without comparison')
    fa = pat_arr(st, v.arr)
    k = z3.Int(fresh_name('k'))
    L, H = z3.simplify(v.lo + lo), z3.simplify(v.lo + hi)
    base = st.copy()
    base.assume(k >= L, k < H)
    xv = ex.ty.dec(v.et, sel(fa, k))
    base.assume(*ex.ty.facts(v.et, xv, st.next))
    cell = ex.var_lv(base, v.et, xv)
    s2 = base.copy()
    n = len(s2.pc)
    r = ex.call_value(s2, fn, [x, cell] if upper else [cell, x], {'ln': None, 'k': 'call'})
    if len(r) != 1 or not ex.same_store(base, r[0][0]):
        raise Unsupported('comparison is not a pure function')
    q, t = r[0]
    t = ex.truth(ex.load(q, t) if isinstance(t, LV) else t)
    extra = q.pc[n:]
    t = t if upper else z3.Not(t)
    at_ = lambda f, i: z3.substitute(f, (k, i))
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    for f in extra:       # facts about the order of strings
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= L, i < H), at_(f, i)), patterns=[z3.Select(fa, i)]))
    ex.safe(st, z3.ForAll([i, j], z3.Implies(z3.And(i >= L, i < j, j < H, at_(t, i)), at_(t, j)), patterns=[z3.MultiPattern(z3.Select(fa, i), z3.Select(fa, j))]),
            'searched range is ordered', line(c))
    p = z3.Int(fresh_name('pos'))
    st.assume(p >= lo, p <= hi)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= L, i < H), at_(t, i) == (i >= v.lo + p)), patterns=[z3.Select(fa, i)]))
    return ret(st, It('vec', a.lv, p, None, None, v.et))


@M.fn('std::find', 'std::find_if', 'std::find_if_not')
def _(ex, st, c):
    a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
    if not isinstance(a, It):
        raise Unsupported('find over %s' % type(a).__name__)
    x = val(ex, st, c.args[2])
    v, lv, lo, hi = range_elems(ex, st, a, b)
    isif = c.f['n'] != 'find'

    def holds(s2, el, cellv):
        if not isif and v.et.k == 'record' and ex.ty.is_mine(v.et) and not ex.ty.is_object(v.et):
            return eq_term(ex, s2, cellv, x)
        if not isif:
            return ex.ty.enc(v.et, x) == el
        p, _ = pred_term(ex, s2, x, ex.var_lv(s2, v.et, cellv))
        return p if c.f['n'] == 'find_if' else z3.Not(p)
    if isinstance(v, Vec):
        p = z3.Int(fresh_name('pos'))
        i = z3.Int(fresh_name('i'))
        st.assume(p >= lo, p <= hi)
        fa = pat_arr(st, v.arr)
        el = sel(fa, v.lo + p)
        st.assume(z3.Implies(p < hi, holds(st, el, ex.ty.dec(v.et, el))))
        s2 = st.copy()
        eli = sel(fa, i)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= v.lo + lo, i < v.lo + p), z3.Not(holds(s2, eli, ex.ty.dec(v.et, eli)))),
                            patterns=[z3.Select(fa, i)]))
        return ret(st, It('vec', lv, p, None, None, v.et))
    if isinstance(v, SetV):
        if not isif:
            k = ex.ty.enc(v.et, x)
            return ret(st, It('set', lv, k, z3.Not(sel(v.arr, k)), None, v.et))
        w = z3.Const(fresh_name('found'), v.arr.sort().domain())
        e = z3.Bool(fresh_name('notfound'))
        y = z3.Const(fresh_name('y'), v.arr.sort().domain())
        st.assume(z3.Implies(z3.Not(e), z3.And(sel(v.arr, w), holds(st, w, ex.ty.dec(v.et, w)))))
        st.assume(z3.Implies(e, z3.ForAll([y], z3.Implies(sel(v.arr, y), z3.Not(holds(st.copy(), y, ex.ty.dec(v.et, y)))))))
        return ret(st, It('set', lv, w, e, None, v.et))
    raise Unsupported('find over %s' % type(v).__name__)


COUNT = {}


def counted(ex, st, m, pred):
    """number of keys of a finite map that satisfy pred, with the facts clients need about 0 and 1"""
    n = z3.Int(fresh_name('count'))
    ks = m.dom.sort().domain()
    x, y = z3.Const(fresh_name('cx'), ks), z3.Const(fresh_name('cy'), ks)
    w = z3.Const(fresh_name('cw'), ks)
    hit = lambda k: z3.And(sel(m.dom, k), pred(k))
    one = z3.And(hit(w), z3.ForAll([y], z3.Implies(hit(y), y == w)))
    st.assume(n >= 0, n < (1 << 31) - 1, (n == 0) == z3.Not(z3.Exists([x], hit(x))), z3.Implies(n == 1, one),
              z3.Implies(n != 1, z3.Not(z3.Exists([x], z3.And(hit(x), z3.ForAll([y], z3.Implies(hit(y), y == x)))))))
    return n


@M.fn('std::accumulate')
def _(ex, st, c):
    a, b = val(ex, st, c.args[0]), val(ex, st, c.args[1])
    init, fn = val(ex, st, c.args[2]), val(ex, st, c.args[3])
    if not isinstance(a, It) or a.kind != 'mapvals':
        raise Unsupported('accumulate over %s' % type(a).__name__)
    v = a.snap
    mark = int(fresh_name('m').rsplit('!', 1)[1])
    k = z3.Const(fresh_name('q'), v.m.dom.sort().domain())
    s = z3.Int(fresh_name('sum'))
    s2 = st.copy()
    xv = ex.ty.dec(v.et, sel(v.m.arr, k))
    s2.assume(sel(v.m.dom, k), s >= 0, s < (1 << 31) - 1, *ex.ty.facts(v.et, xv, st.next))
    s3 = s2.copy()
    n = len(s3.pc)
    r = ex.call_value(s3, fn, [s, ex.var_lv(s3, v.et, xv)], {'ln': None, 'k': 'call'})
    res = [(q, ex.load(q, z) if isinstance(z, LV) else z) for q, z in r]
    base = s2.copy()
    t = res[0][1] if len(res) == 1 else ex.try_merge(base, n, res, None)
    if t is None:
        raise Unsupported('accumulate with an impure function')
    d = z3.simplify(z3.substitute(t, (s, I(0))))
    only_depends(ex, d, k, mark)
    if not ex.provable(base, z3.And(t == s + d, z3.Or(d == 0, d == 1))):
        raise Unsupported('accumulate that does not count')
    return ret(st, z3.simplify(init + counted(ex, st, v.m, lambda key: z3.substitute(d, (k, key)) == 1)))


@M.fn('std::for_each', 'llvm::for_each')
def _(ex, st, c):
    a = val(ex, st, c.args[0])
    if c.f['qn'].startswith('llvm'):
        rv, fn = c.args[0], c.args[1]
    else:
        b = val(ex, st, c.args[1])
        fn = c.args[2]
        if isinstance(a, It) and a.kind == 'vec':
            v = ex.load(st, a.lv)
            if ex.provable(st, z3.And(a.pos == 0, b.pos == v.size())):
                rv = a.lv
            else:
                ex.safe(st, z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.size()), 'for_each runs over a part of the container', c.e.get('ln'))
                g = val(ex, st, fn)
                p = g.e['body']['params'][0]['t'] if isinstance(g, Closure) and not g.e.get('generic') else None
                if p is None or p.k in ('ref', 'rref'):
                    raise Unsupported('for_each over a sub-range')
                rv = Range(Vec(v.et, v.arr, z3.simplify(v.lo + a.pos), z3.simplify(v.lo + b.pos)))
        elif isinstance(a, It):
            rv = a.lv if a.lv is not None else Range(a.snap)
        else:
            raise Unsupported('for_each over %s' % type(a).__name__)
    cl = val(ex, st, fn)
    if not isinstance(cl, Closure):
        raise Unsupported('for_each with %s' % type(cl).__name__)
    return for_each_closure(ex, st, rv, cl, c)


def for_each_closure(ex, st, rv, cl, c):
    """std::for_each(range, lambda) is the range-for loop over the lambda's body"""
    body = cl.e['body'] if not cl.e.get('generic') else cl.e['insts'][0]
    p = body['params'][0]
    s = {'k': 'forrange', 'var': {'id': p['id'], 'n': p['n'], 't': p['t']}, 'ln': c.e.get('ln'), 'foreach': True}

    def run_body(q):
        # captured variables are visible under their original ids
        saved = q.frame
        env = dict(cl.env)
        env[p['id']] = q.frame.env[p['id']]
        q.frames.append(Frame(env, cl.this, None))
        out = []
        for q2, ctl in ex.run(q, body['body']):
            q2.frames.pop()
            out.append((q2, None if ctl and ctl[0] == 'ret' else ctl))
        return out
    s['body'] = {'k': 'rawiter', 'f': run_body, 'ln': s['ln']}
    return [(q, VOID) for q, _ in ex.for_each(st, s, rv)]


# ---------------------------------------------------------------- llvm::json (objects with string members)
JV = z3.DeclareSort('JV')
JKIND = z3.Function('jkind', JV, z3.IntSort())
JSTR = z3.Function('jstr', JV, S_)
JDOM = z3.Function('jdom', JV, z3.ArraySort(S_, z3.BoolSort()))
JVAL = z3.Function('jval', JV, z3.ArraySort(S_, JV))
JTEXT = z3.Function('jtext', S_, JV)                                   # json string value
JOBJ = z3.Function('jobj', z3.ArraySort(S_, z3.BoolSort()), z3.ArraySort(S_, JV), JV)
JPRINT = z3.Function('jprint', JV, S_)
JPARSE_OK = z3.Function('jparse_ok', S_, z3.BoolSort())
JPARSE = z3.Function('jparse', S_, JV)
JSTRING, JOBJECT = 3, 5
_je = z3.Datatype('JExp')
_je.declare('jexp', ('jok', z3.BoolSort()), ('jv', JV))
JEXP = _je.create()


def json_axioms():
    s = z3.String('s!j')
    d, a = z3.Const('d!j', JDOM.range()), z3.Const('a!j', JVAL.range())
    return [z3.ForAll([s], z3.And(JKIND(JTEXT(s)) == JSTRING, JSTR(JTEXT(s)) == s), patterns=[JTEXT(s)]),
            z3.ForAll([d, a], z3.And(JKIND(JOBJ(d, a)) == JOBJECT, JDOM(JOBJ(d, a)) == d, JVAL(JOBJ(d, a)) == a),
                      patterns=[JOBJ(d, a)])]


class _JVT:
    k, qn, s, name, targs, const, b, to = 'record', 'llvm::json::Value', 'llvm::json::Value', 'llvm::json::Value', [], False, None, None
    islambda = False

    def deref(self):
        return self


JVT = _JVT()


def _term(v):
    return v.term if isinstance(v, Opaque) else v


def json_types(ty):
    ident = lambda x: x
    wrap = lambda q: (lambda x: Opaque(q, x))
    ty.custom['llvm::json::Value'] = (JV, _term, ident)
    ty.custom['llvm::json::ObjectKey'] = (S_, ident, ident)
    mdt = ty.map_dt(None, JVT)

    def enc(v):
        return mdt.constructor(0)(v.dom, v.arr)

    def dec(x):
        if x.decl().eq(mdt.constructor(0)):
            return MapV(None, JVT, x.arg(0), x.arg(1))
        return MapV(None, JVT, mdt.accessor(0, 0)(x), mdt.accessor(0, 1)(x))
    ty.custom['llvm::json::Object'] = (mdt, enc, dec)
    ty.custom['llvm::Expected'] = (JEXP, _term, ident)
    ty.custom['llvm::Error'] = (z3.BoolSort(), ident, ident)


@M.fn('llvm::json::parse')
def _(ex, st, c):
    s = sval(ex, st, c.args[0])
    return ret(st, JEXP.constructor(0)(JPARSE_OK(s), JPARSE(s)))


@M.fn('llvm::Expected::takeError')
def _(ex, st, c):
    return ret(st, z3.Not(JEXP.accessor(0, 0)(recv(ex, st, c))))


@M.ctor('llvm::Error')
def _(ex, st, c):
    return ret(st, val(ex, st, c.args[0]) if c.args else FALSE)


@M.ctor('llvm::Expected')
def _(ex, st, c):
    return ret(st, val(ex, st, c.args[0]))


@M.fn('llvm::Error::operator bool')
def _(ex, st, c):
    return ret(st, recv(ex, st, c))


@M.fn('llvm::Expected::operator bool')
def _(ex, st, c):
    return ret(st, JEXP.accessor(0, 0)(recv(ex, st, c)))


@M.fn('llvm::toString')
def _(ex, st, c):
    return ret(st, z3.Const(fresh_name('errtext'), S_))


@M.fn('llvm::Expected::get', 'llvm::Expected::operator*')
def _(ex, st, c):
    v = recv(ex, st, c)
    ex.safe(st, JEXP.accessor(0, 0)(v), 'llvm::Expected holds a value', line(c))
    return ret(st, ex.newcell(st, JVT, JEXP.accessor(0, 1)(v)))


@M.fn('llvm::json::Value::kind')
def _(ex, st, c):
    return ret(st, JKIND(recv(ex, st, c)))


@M.fn('llvm::json::Value::getAsObject')
def _(ex, st, c):
    v = recv(ex, st, c)
    out = []
    for s, b in ex.branch(st, JKIND(v) == JOBJECT, 'json object'):
        if not b:
            out.append((s, Ptr(I(0), None)))
        else:
            out.append((s, PPtr(ex.newcell(s, c.t.to if c.t.k == 'ptr' else None, MapV(None, JVT, JDOM(v), JVAL(v))))))
    return out


@M.fn('llvm::json::Value::getAsString')
def _(ex, st, c):
    v = recv(ex, st, c)
    return ret(st, Opt(c.t.targs[0], JKIND(v) == JSTRING, JSTR(v)))


@M.ctor('llvm::json::Value')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    st.assume(*json_axioms())
    if isinstance(v, MapV):
        return ret(st, JOBJ(v.dom, v.arr))
    if isinstance(v, z3.SeqRef):
        return ret(st, JTEXT(v))
    if isinstance(v, z3.ExprRef) and v.sort() == JV:
        return ret(st, v)
    raise Unsupported('json::Value from %s' % type(v).__name__)


@M.ctor('llvm::json::ObjectKey')
def _(ex, st, c):
    return ret(st, sval(ex, st, c.args[0]))


@M.fn('llvm::json::ObjectKey::str', 'llvm::json::ObjectKey::operator StringRef')
def _(ex, st, c):
    return ret(st, recv(ex, st, c))


@M.ctor('llvm::json::Object')
def _(ex, st, c):
    if c.args:
        v = val(ex, st, c.args[0])
        if isinstance(v, MapV):
            return ret(st, v)
        raise Unsupported('json::Object from initialisers')
    return ret(st, MapV(None, JVT, z3.K(S_, FALSE), z3.Const(fresh_name('map'), JVAL.range())))


@M.fn('llvm::json::Object::operator[]')
def _(ex, st, c):
    lv = c.obj if isinstance(c.obj, LV) else ex.deref(st, c.this, c.f['cls'])
    v = ex.load(st, lv)
    k = sval(ex, st, c.args[0])
    ex.store(st, lv, MapV(None, JVT, z3.Store(v.dom, k, TRUE), v.arr))
    return ret(st, lv.sub(('mapv', k), JVT))


@M.fn('llvm::json::Value::operator=')
def _(ex, st, c):
    lv = c.obj if isinstance(c.obj, LV) else ex.deref(st, c.this, c.f['cls'])
    v = val(ex, st, c.args[0])
    st.assume(*json_axioms())
    if isinstance(v, z3.SeqRef):
        v = JTEXT(v)
    ex.store(st, lv, v)
    return ret(st, lv)


@M.fn('std::abs', 'abs', 'labs', 'llabs')
def _(ex, st, c):
    x = val(ex, st, c.args[0])
    if not (isinstance(x, z3.ArithRef) and x.is_int()):
        raise Unsupported('abs of a floating-point number')
    lo, _ = int_range(c.f['ret'])
    ex.safe(st, x > lo, 'absolute value fits', line(c))
    return ret(st, z3.If(x >= 0, x, -x))
