"""Assumed contracts of the Z3 C++ API.

An expression is described by its value under one arbitrary, fixed assignment of the
variables (VB, VI): whatever is proved about that value holds for every assignment.
A solver is described by whether that assignment satisfies everything asserted so far."""
import z3
from values import *
from ex import I, TRUE, FALSE, sel, Call
import models
from models import M, ret, val, sval, recv, recv_lv, line

S_ = z3.StringSort()
VB = z3.Function('vbool', S_, z3.BoolSort())       # the assignment: value of a boolean variable
VI = z3.Function('vint', S_, z3.IntSort())         # ... of an integer variable
E = z3.DeclareSort('Opq_z3expr')
IsB = z3.Function('z3isbool', E, z3.BoolSort())
Bv = z3.Function('z3b', E, z3.BoolSort())
Iv = z3.Function('z3i', E, z3.IntSort())
IsV = z3.Function('z3isvar', E, z3.BoolSort())     # a variable ...
Nm = z3.Function('z3name', E, S_)                  # ... of this name
AS = 'z3!asserted'                                 # ghost: solver -> the assignment satisfies its assertions
VER = 'z3!state'                                   # ghost: solver -> identity of its assertions (changes whenever something is asserted)
MD = z3.DeclareSort('Opq_z3model')
MB = z3.Function('z3modelbool', MD, S_, z3.BoolSort())
MI = z3.Function('z3modelint', MD, S_, z3.IntSort())
IsC = z3.Function('z3isliteral', E, z3.BoolSort())
TXT = z3.Function('z3text', E, S_)
SATV = z3.Function('z3satisfiable', z3.IntSort(), z3.BoolSort())      # the assertions of that identity have a solution
SOLVES = z3.Function('z3solves', MD, z3.IntSort(), z3.BoolSort())     # the model satisfies them
ET = None


def sorts(ex):
    ex.ghost_sorts.update({AS: z3.BoolSort(), VER: z3.IntSort()})


def etype(ex):
    return ex.prog.types['z3::expr']


def new(ex, st, b=None, i=None, var=None):
    e = z3.Const(fresh_name('z3e'), E)
    if b is not None:
        st.assume(IsB(e))
        st.assume(Bv(e) == b)
    else:
        st.assume(z3.Not(IsB(e)))
        st.assume(Iv(e) == i)
    if var is not None:
        st.assume(z3.And(IsV(e), Nm(e) == var))
    return Opaque(etype(ex), e)


def isexpr(v):
    return isinstance(v, Opaque) and v.term.sort() == E


def boolean(ex, st, v, ln):
    """truth value of an operand"""
    if isexpr(v):
        ex.safe(st, IsB(v.term), 'operand is a boolean expression', ln)
        return Bv(v.term)
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported('boolean operand of z3')


def integer(ex, st, v, ln):
    if isexpr(v):
        ex.safe(st, z3.Not(IsB(v.term)), 'operand is an integer expression', ln)
        return Iv(v.term)
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported('integer operand of z3')


def ops(ex, st, c):
    return [val(ex, st, a) for a in ([c.obj] if c.obj is not None else []) + list(c.args)]


def boolop(f):
    def m(ex, st, c):
        return ret(st, new(ex, st, b=f(*[boolean(ex, st, v, line(c)) for v in ops(ex, st, c)])))
    return m


def cmpop(f):
    def m(ex, st, c):
        return ret(st, new(ex, st, b=f(*[integer(ex, st, v, line(c)) for v in ops(ex, st, c)])))
    return m


def intop(f):
    def m(ex, st, c):
        return ret(st, new(ex, st, i=f(*[integer(ex, st, v, line(c)) for v in ops(ex, st, c)])))
    return m


for _n, _f in {'z3::operator&&': lambda a, b: z3.And(a, b), 'z3::operator||': lambda a, b: z3.Or(a, b), 'z3::operator!': lambda a: z3.Not(a),
               'z3::implies': lambda a, b: z3.Implies(a, b), 'z3::operator&': lambda a, b: z3.And(a, b), 'z3::operator|': lambda a, b: z3.Or(a, b),
               'z3::operator^': lambda a, b: z3.Xor(a, b)}.items():
    M.fns[_n] = boolop(_f)
for _n, _f in {'z3::operator<': lambda a, b: a < b, 'z3::operator<=': lambda a, b: a <= b, 'z3::operator>': lambda a, b: a > b, 'z3::operator>=': lambda a, b: a >= b}.items():
    M.fns[_n] = cmpop(_f)
for _n, _f in {'z3::operator+': lambda a, b: a + b, 'z3::operator*': lambda a, b: a * b, 'z3::operator/': lambda a, b: a / b}.items():
    M.fns[_n] = intop(_f)


@M.fn('z3::operator-')
def _(ex, st, c):
    vs = [integer(ex, st, v, line(c)) for v in ops(ex, st, c)]
    return ret(st, new(ex, st, i=-vs[0] if len(vs) == 1 else vs[0] - vs[1]))


def equal(neg):
    def m(ex, st, c):
        a, b = ops(ex, st, c)
        if isexpr(a) and isexpr(b):
            ex.safe(st, IsB(a.term) == IsB(b.term), 'operands of == have the same sort', line(c))
            r = z3.If(IsB(a.term), Bv(a.term) == Bv(b.term), Iv(a.term) == Iv(b.term))
        else:
            r = integer(ex, st, a, line(c)) == integer(ex, st, b, line(c))
        return ret(st, new(ex, st, b=z3.Not(r) if neg else r))
    return m


M.fns['z3::operator=='] = equal(False)
M.fns['z3::operator!='] = equal(True)


@M.fn('z3::context::bool_const')
def _(ex, st, c):
    n = sval(ex, st, c.args[0])
    return ret(st, new(ex, st, b=VB(n), var=n))


@M.fn('z3::context::int_const')
def _(ex, st, c):
    n = sval(ex, st, c.args[0])
    return ret(st, new(ex, st, i=VI(n), var=n))


@M.fn('z3::context::bool_val')
def _(ex, st, c):
    return ret(st, new(ex, st, b=val(ex, st, c.args[0])))


@M.fn('z3::context::int_val')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    if isinstance(v, z3.SeqRef):
        raise Unsupported('int_val of a text')
    return ret(st, new(ex, st, i=v))


@M.ctor('z3::expr')
def _(ex, st, c):
    a = val(ex, st, c.args[0]) if c.args else None
    if isexpr(a):
        return ret(st, a)
    return ret(st, Opaque(c.t, z3.Const(fresh_name('z3null'), E)))


@M.fn('z3::expr::operator=')
def _(ex, st, c):
    lv = recv_lv(ex, st, c)
    ex.store(st, lv, val(ex, st, c.args[0]))
    return ret(st, lv)


@M.fn('z3::ast::operator Z3_ast', 'z3::ast::operator _Z3_ast *', 'z3::to_expr', 'z3::expr::simplify', 'z3::ast::operator struct _Z3_ast *')
def _(ex, st, c):
    v = recv(ex, st, c) if c.f['n'] not in ('to_expr',) else val(ex, st, c.args[-1])
    return ret(st, v)


@M.fn('z3::context::operator Z3_context', 'z3::context::operator _Z3_context *', 'z3::context::operator struct _Z3_context *')
def _(ex, st, c):
    return ret(st, recv(ex, st, c))


def ite(ex, st, b, x, y, ln):
    bb = boolean(ex, st, b, ln)
    ex.safe(st, IsB(x.term) == IsB(y.term), 'branches of ite have the same sort', ln)
    e = z3.Const(fresh_name('z3e'), E)
    st.assume(IsB(e) == IsB(x.term))
    st.assume(Bv(e) == z3.If(bb, Bv(x.term), Bv(y.term)))
    st.assume(Iv(e) == z3.If(bb, Iv(x.term), Iv(y.term)))
    return Opaque(etype(ex), e)


@M.fn('Z3_mk_ite')
def _(ex, st, c):
    v = [val(ex, st, a) for a in c.args]
    return ret(st, ite(ex, st, v[1], v[2], v[3], line(c)))


@M.fn('z3::ite')
def _(ex, st, c):
    v = [val(ex, st, a) for a in c.args]
    return ret(st, ite(ex, st, v[0], v[1], v[2], line(c)))


def vec_has(v, i, j=None):
    return z3.And(i >= v.lo, i < v.hi)


def allbool(ex, st, v, ln):
    i = z3.Int('i!zv')
    ex.safe(st, z3.ForAll([i], z3.Implies(vec_has(v, i), IsB(z3.Select(v.arr, i)))), 'every element is a boolean expression', ln)


@M.fn('z3::mk_or')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    allbool(ex, st, v, line(c))
    i = z3.Int('i!zv')
    return ret(st, new(ex, st, b=z3.Exists([i], z3.And(vec_has(v, i), Bv(z3.Select(v.arr, i))))))


@M.fn('z3::mk_and')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    allbool(ex, st, v, line(c))
    i = z3.Int('i!zv')
    return ret(st, new(ex, st, b=z3.ForAll([i], z3.Implies(vec_has(v, i), Bv(z3.Select(v.arr, i))))))


def count_le1(v):
    i, j = z3.Ints('i!zv j!zv')
    return z3.ForAll([i, j], z3.Implies(z3.And(vec_has(v, i), vec_has(v, j), i != j), z3.Not(z3.And(Bv(z3.Select(v.arr, i)), Bv(z3.Select(v.arr, j))))))


@M.fn('z3::atmost', 'z3::atleast')
def _(ex, st, c):
    v = val(ex, st, c.args[0])
    n = z3.simplify(val(ex, st, c.args[1]))
    allbool(ex, st, v, line(c))
    ex.safe(st, v.hi > v.lo, 'the vector is not empty', line(c))
    i = z3.Int('i!zv')
    if not (z3.is_int_value(n) and n.as_long() == 1):
        raise Unsupported('cardinality other than one')
    if c.f['n'] == 'atmost':
        return ret(st, new(ex, st, b=count_le1(v)))
    return ret(st, new(ex, st, b=z3.Exists([i], z3.And(vec_has(v, i), Bv(z3.Select(v.arr, i))))))


def solver_ref(ex, st, c):
    lv = recv_lv(ex, st, c)
    if isinstance(lv, LV) and lv.kind == 'heap' and not lv.path:
        return lv.base
    raise Unsupported('a z3 solver that is not on the heap')


@M.fn('z3::solver::add')
def _(ex, st, c):
    r = solver_ref(ex, st, c)
    if len(c.args) != 1:
        raise Unsupported('solver::add with a tracking literal')
    v = val(ex, st, c.args[0])
    b = boolean(ex, st, v, line(c))
    g = ex.garr(st, AS)
    st.ghost[AS] = z3.Store(g, r, z3.And(z3.Select(g, r), b))
    st.ghost[VER] = z3.Store(ex.garr(st, VER), r, z3.Int(fresh_name('z3state')))
    return ret(st, VOID)


@M.fn('z3::solver::push')
def _(ex, st, c):
    solver_ref(ex, st, c)
    return ret(st, VOID)


def made(ex, st, r):
    """a new solver asserts nothing"""
    st.ghost[AS] = z3.Store(ex.garr(st, AS), r, TRUE)
    st.ghost[VER] = z3.Store(ex.garr(st, VER), r, z3.Int(fresh_name('z3state')))


models.MADE['z3::solver'] = made


@M.ctor('z3::solver', 'z3::config', 'z3::context')
def _(ex, st, c):
    if c.t.qn == 'z3::solver' and len(c.args) != 1:
        raise Unsupported('a z3 solver with options')
    return ret(st, ex.ty.fresh(c.t, 'z3'))


@M.fn('z3::config::set')
def _(ex, st, c):
    return ret(st, VOID)


@M.ctor('z3::ast_vector_tpl')
def _(ex, st, c):
    et = c.t.targs[0]
    a = z3.Const(fresh_name('zvec'), z3.ArraySort(z3.IntSort(), ex.ty.sort(et)))
    return ret(st, Vec(et, a, I(0), I(0)))


def itoa(v):
    return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v)))


@M.fn('z3::solver::check')
def _(ex, st, c):
    r = solver_ref(ex, st, c)
    if c.args:
        raise Unsupported('solver::check under assumptions')
    v = z3.Select(ex.garr(st, VER), r)
    e = dict(ex.prog.enums['z3::check_result'])
    st.assume(z3.Implies(z3.Select(ex.garr(st, AS), r), SATV(v)))
    return ret(st, z3.If(SATV(v), I(e['sat']), I(e['unsat'])))


@M.fn('z3::solver::get_model')
def _(ex, st, c):
    r = solver_ref(ex, st, c)
    v = z3.Select(ex.garr(st, VER), r)
    ex.safe(st, SATV(v), 'there is a model', line(c))
    m = z3.Const(fresh_name('z3model'), MD)
    st.assume(SOLVES(m, v))
    return ret(st, Opaque(c.f['ret'], m))


@M.fn('z3::model::eval')
def _(ex, st, c):
    m = val(ex, st, c.obj)
    v = val(ex, st, c.args[0])
    ex.safe(st, IsV(v.term), 'only variables are evaluated', line(c))
    if len(c.args) > 1:
        ex.safe(st, val(ex, st, c.args[1]), 'variables without value are completed', line(c))
    e = z3.Const(fresh_name('z3e'), E)
    st.assume(z3.And(IsC(e), IsB(e) == IsB(v.term), Bv(e) == MB(m.term, Nm(v.term)), Iv(e) == MI(m.term, Nm(v.term))))
    return ret(st, Opaque(etype(ex), e))


@M.fn('z3::expr::is_bool')
def _(ex, st, c):
    return ret(st, IsB(recv(ex, st, c).term))


@M.fn('z3::expr::is_int', 'z3::expr::is_arith')
def _(ex, st, c):
    return ret(st, z3.Not(IsB(recv(ex, st, c).term)))


@M.fn('z3::expr::is_true', 'z3::expr::is_false')
def _(ex, st, c):
    e = recv(ex, st, c).term
    ex.safe(st, IsC(e), 'only values are inspected', line(c))
    return ret(st, z3.And(IsB(e), Bv(e) if c.f['n'] == 'is_true' else z3.Not(Bv(e))))


@M.fn('z3::expr::is_numeral', 'z3::expr::is_numeral_i64')
def _(ex, st, c):
    e = recv(ex, st, c).term
    ex.safe(st, IsC(e), 'only values are inspected', line(c))
    if len(c.args) > 1:
        raise Unsupported('is_numeral with precision')
    if c.args:
        old = val(ex, st, c.args[0])
        ok = z3.Not(IsB(e))
        if isinstance(old, z3.SeqRef):
            ex.store(st, c.args[0], z3.If(ok, itoa(Iv(e)), old))
        else:
            ok = z3.And(ok, Iv(e) >= -(1 << 63), Iv(e) < (1 << 63))
            ex.store(st, c.args[0], z3.If(ok, Iv(e), old))
        return ret(st, ok)
    return ret(st, z3.Not(IsB(e)))


@M.fn('z3::expr::get_numeral_int64', 'z3::expr::get_numeral_int')
def _(ex, st, c):
    e = recv(ex, st, c).term
    ex.safe(st, z3.And(IsC(e), z3.Not(IsB(e))), 'only numbers are inspected', line(c))
    n = 63 if c.f['n'].endswith('64') else 31
    if n == 63:       # every number a model has is the value of a feature or computed from them: taken to fit
        st.assume(Iv(e) >= -(1 << 63), Iv(e) < (1 << 63))
    else:
        ex.safe(st, z3.And(Iv(e) >= -(1 << 31), Iv(e) < (1 << 31)), 'number fits into int', line(c))
    return ret(st, Iv(e))


@M.fn('z3::ast::to_string', 'z3::expr::to_string')
def _(ex, st, c):
    e = recv(ex, st, c).term
    return ret(st, z3.If(z3.And(IsC(e), IsB(e)), z3.If(Bv(e), z3.StringVal('true'), z3.StringVal('false')),
                         z3.If(z3.And(IsC(e), Iv(e) >= 0), z3.IntToStr(Iv(e)), TXT(e))))
