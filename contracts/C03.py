"""C03: constraint texts mean the expression their grammar gives them, with the documented precedences; all other texts are rejected."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa
from ex import named_goal as ng
import models
import ct
from ct import CT
from clex import *
from runner import Group

PA = NS + 'ConstraintParser'
TL = PA + '::TokenList'
# operator token -> (precedence, expression); smaller numbers bind tighter
OPS = {'STAR': (1, 'MultiplicationConstraint'), 'PLUS': (2, 'AdditionConstraint'), 'MINUS': (2, 'SubtractionConstraint'),
       'GREATER': (3, 'GreaterConstraint'), 'GREATER_EQUAL': (3, 'GreaterEqualConstraint'), 'LESS': (3, 'LessConstraint'), 'LESS_EQUAL': (3, 'LessEqualConstraint'),
       'EQUAL': (4, 'EqualConstraint'), 'NOT_EQUAL': (4, 'NotEqualConstraint'), 'AND': (5, 'AndConstraint'), 'OR': (6, 'OrConstraint'),
       'IMPLIES': (7, 'ImpliesConstraint'), 'EQUIVALENT': (8, 'EquivalenceConstraint')}
TOP = 9
UNARY = {'NOT': 'NotConstraint', 'NEG': 'NegConstraint'}

_r = z3.Datatype('ParseResult')
_r.declare('fail')
_r.declare('ok', ('tree', CT), ('end', z3.IntSort()))
RES = _r.create()

MAX, MIN = I((1 << 63) - 1), I(-(1 << 63))
has_e = lambda s: z3.Or(z3.Contains(s, S('e')), z3.Contains(s, S('E')))


def plain(s):
    v = models.INT_VAL(s, I(10))
    return z3.If(z3.And(models.INT_OK(s, I(10)), v >= MIN, v <= MAX), v, z3.If(z3.PrefixOf(S('-'), s), MIN, MAX))


def pint(s):
    """the 64-bit integer a number stands for; what does not fit is the nearest bound"""
    return z3.If(z3.And(has_e(s), models.REAL_OK(s)), plain(models.FIX0(models.REAL_VAL(s))),
                 z3.If(has_e(s), z3.If(z3.PrefixOf(S('-'), s), MIN, MAX), plain(s)))


PINT = z3.Function('PINT', z3.StringSort(), z3.IntSort())


class G:
    """the grammar, over an array of tokens a[..h)"""

    def __init__(self, ex):
        self.ex = ex
        d = ex.ty.struct_dt(ex.prog.types[TK])
        A = z3.ArraySort(z3.IntSort(), d)
        N, B = z3.IntSort(), z3.BoolSort()
        self.NW = z3.Function('cNW', A, N, N, N)              # first token from i on that is not white space
        self.EXPR = z3.Function('EXPR', A, N, N, B, N, RES)     # an expression at i, (nested, stop at this precedence)
        self.REST = z3.Function('REST', A, N, N, CT, B, N, RES)  # what follows an operand, from the next token i on
        self.UN = z3.Function('UNEXP', A, N, N, RES)           # a unary expression at i
        self.BIN = z3.Function('BINEXP', A, N, N, CT, N, RES)   # operator i and its right operand, after a left operand
        self.A = A
        self.k = kinds(ex)
        self.K = ct.K(ex.prog)

    def axioms(self):
        a = z3.Const('a!cg', self.A)
        i, h = z3.Ints('i!cg h!cg')
        w = tk(self.ex, z3.Select(a, i))[0] == self.k['WHITESPACE']
        return [z3.ForAll([a, h, i], self.NW(a, h, i) == z3.If(z3.And(i < h, w), self.NW(a, h, i + 1), i), patterns=[self.NW(a, h, i)])]

    def prec(self, kd):
        r = I(TOP)
        for n, (p, _) in OPS.items():
            r = z3.If(kd == self.k[n], I(p), r)
        return r

    def isop(self, kd):
        return z3.Or(*[kd == self.k[n] for n in OPS])

    def mk(self, kd, l, r):
        t = None
        for n, (_, c) in OPS.items():
            x = CT.bin(self.K(ct.KINDS[c]), l, r)
            t = x if t is None else z3.If(kd == self.k[n], x, t)
        return t

    def un_def(self, a, h, i):
        j = self.NW(a, h, i)
        kd, _, txt = tk(self.ex, z3.Select(a, j))
        sub = self.EXPR(a, h, j + 1, TRUE, I(0))
        par = self.EXPR(a, h, j + 1, TRUE, I(TOP))
        r = RES.fail
        r = z3.If(kd == self.k['L_PAR'], z3.If(z3.And(RES.is_ok(par), tk(self.ex, z3.Select(a, RES.end(par)))[0] == self.k['R_PAR']), RES.ok(RES.tree(par), RES.end(par) + 1), RES.fail), r)
        for n, c in UNARY.items():
            r = z3.If(kd == self.k[n], z3.If(RES.is_ok(sub), RES.ok(CT.un(self.K(ct.KINDS[c]), RES.tree(sub)), RES.end(sub)), RES.fail), r)
        r = z3.If(kd == self.k['NUMBER'], RES.ok(CT.int(PINT(txt)), j + 1), r)
        r = z3.If(kd == self.k['IDENTIFIER'], RES.ok(CT.feat(txt), j + 1), r)
        return self.UN(a, h, i) == r

    def expr_def(self, a, h, i, nest, p):
        u = self.UN(a, h, i)
        return self.EXPR(a, h, i, nest, p) == z3.If(RES.is_ok(u), self.REST(a, h, self.NW(a, h, RES.end(u)), RES.tree(u), nest, p), RES.fail)

    def bin_def(self, a, h, j, t, p):
        kd = tk(self.ex, z3.Select(a, j))[0]
        x = self.EXPR(a, h, j + 1, TRUE, p)
        return self.BIN(a, h, j, t, p) == z3.If(z3.And(self.isop(kd), RES.is_ok(x)), RES.ok(self.mk(kd, t, RES.tree(x)), RES.end(x)), RES.fail)

    def rest_def(self, a, h, j, t, nest, p):
        kd = tk(self.ex, z3.Select(a, j))[0]
        x = self.BIN(a, h, j, t, self.prec(kd))
        stop = RES.ok(t, j)
        return self.REST(a, h, j, t, nest, p) == z3.If(kd == self.k['END_OF_FILE'], stop, z3.If(
            kd == self.k['R_PAR'], z3.If(nest, stop, RES.fail), z3.If(self.isop(kd), z3.If(
                self.prec(kd) >= p, stop, z3.If(RES.is_ok(x), self.REST(a, h, self.NW(a, h, RES.end(x)), RES.tree(x), nest, p), RES.fail)), RES.fail)))


def setup(ex):
    ct.setup(ex)


def parser(P):
    lex, lexed, tokz = lexer()

    def toks(c, post=False):
        return c.thisval(post).fields[TL]

    def n_of(c, i):
        return c.arg(i)
    MEASURE = lambda c: toks(c).hi - toks(c).lo
    room = lambda c, n: [n >= 0, n + 4 * MEASURE(c) < (1 << 31), MEASURE(c) >= 0]

    def pre(c):
        return wellformed(c.ex, toks(c)) + G(c.ex).axioms() + [ct.wf(c)]

    def tidy(c):
        """the list of tokens keeps its end"""
        v0, v1 = toks(c), toks(c, True)
        l0, l1 = c.thisval().fields[PA + '::Line'], c.thisval(True).fields[PA + '::Line']
        t = c.ex.field_type(PA + '::Line')
        return [v1.arr == v0.arr, v1.hi == v0.hi, v1.lo >= v0.lo, v1.lo < v1.hi, c.ex.ty.enc(t, l0) == c.ex.ty.enc(t, l1)]

    def yields(c, r, spec):
        """r is the tree the grammar gives, or null"""
        v1 = toks(c, True)
        return [ng('accepted exactly if the grammar accepts', (r != 0) == RES.is_ok(spec)),
                z3.Implies(r != 0, z3.And(ng('the expression is the one of the grammar', sel(c.g('view'), r) == RES.tree(spec)),
                                          ng('the tokens of the expression are consumed', v1.lo == RES.end(spec)),
                                          sel(c.g('con'), r), sel(c.heap(ct.CP), r) == 0, r < c.st1.next)), ct.wf(c, True)]
    FRESH = lambda c: ct.CON_FIELDS + list(ct.GHOSTS) + ct.feature_fields(c)
    new = lambda c: {k: (lambda r: FALSE) for k in FRESH(c)}

    def uses(c, i):
        p = c.ref(i)
        m = new(c)
        for k in ct.CON_FIELDS + list(ct.GHOSTS):
            m[k] = (lambda r: r == p) if k == ct.CP else (lambda r: FALSE)
        return m
    dec2 = lambda c, w: 4 * MEASURE(c) + w

    def root(c, i):
        p = c.ref(i)
        return [p > 0, p < c.st0.next, sel(c.g0('con'), p), sel(c.heap0(ct.CP), p) == 0]

    # parseUnaryConstraint(NestingLevel)
    def un_inv(L):
        v0, v = toks(L), toks(L, True)
        g = G(L.ex)
        t = L.ex.field_type(PA + '::Line')
        return [v.arr == v0.arr, v.hi == v0.hi, v.lo >= v0.lo, v.lo < v.hi, g.NW(v.arr, v.hi, v.lo) == g.NW(v0.arr, v0.hi, v0.lo),
                L.ex.ty.enc(t, L.thisval().fields[PA + '::Line']) == L.ex.ty.enc(t, L.thisval(True).fields[PA + '::Line'])]

    def spec_un(c):
        v = toks(c)
        g = G(c.ex)
        c.st1.assume(g.un_def(v.arr, v.hi, v.lo))
        return g.UN(v.arr, v.hi, v.lo)

    def fresh(c, r):
        return [z3.Implies(r != 0, sel(c.g('mn'), r) >= c.st0.next)]
    un = Contract(PA + '::parseUnaryConstraint', modifies=new, modifies_args=('this',), requires=lambda c: pre(c) + room(c, c.arg(0)),
                  decreases=lambda c: dec2(c, 0), loops=[Loop(un_inv, decreases=lambda L: toks(L, True).hi - toks(L, True).lo)],
                  ensures=lambda c: tidy(c) + yields(c, c.ret.ref, spec_un(c)) + fresh(c, c.ret.ref) + [z3.Implies(c.ret.ref != 0, toks(c, True).lo > toks(c).lo)])

    # parseBinaryConstraint(NestingLevel, LHS, Precedence)
    def spec_bin(c):
        v = toks(c)
        g = G(c.ex)
        t = sel(c.g0('view'), c.ref(1))
        j = g.NW(v.arr, v.hi, v.lo)
        c.st1.assume(g.bin_def(v.arr, v.hi, j, t, c.arg(2)))
        return g.BIN(v.arr, v.hi, j, t, c.arg(2))
    bn = Contract(PA + '::parseBinaryConstraint', modifies=lambda c: uses(c, 1), modifies_args=('this',),
                  requires=lambda c: pre(c) + room(c, c.arg(0)) + root(c, 1) + [c.arg(2) >= 0],
                  decreases=lambda c: dec2(c, 0), loops=[Loop(un_inv, decreases=lambda L: toks(L, True).hi - toks(L, True).lo)],
                  ensures=lambda c: tidy(c) + yields(c, c.ret.ref, spec_bin(c)) + [z3.Implies(c.ret.ref != 0, z3.And(
                      toks(c, True).lo > toks(c).lo, c.ret.ref >= c.st0.next, sel(c.g('mn'), c.ret.ref) >= z3.If(sel(c.g0('mn'), c.ref(1)) < c.st0.next, sel(c.g0('mn'), c.ref(1)), c.st0.next)))])

    # parseConstraint(NestingLevel, Precedence)
    def spec_expr(c, st=None):
        v = toks(c)
        g = G(c.ex)
        (st or c.st1).assume(g.expr_def(v.arr, v.hi, v.lo, c.arg(0) != 0, c.arg(1)))
        return g.EXPR(v.arr, v.hi, v.lo, c.arg(0) != 0, c.arg(1))

    def lhs_of(L):
        return L.vt(lambda t: t.k == 'record' and t.qn == 'std::unique_ptr').ref

    def ex_inv(L):
        v0, v = toks(L), toks(L, True)
        g = G(L.ex)
        t = L.ex.field_type(PA + '::Line')
        lhs = lhs_of(L)
        c = L
        tr = sel(L.g('view'), lhs)
        spec = spec_expr(c, L.st1)
        j = g.NW(v.arr, v.hi, v.lo)
        L.st1.assume(g.rest_def(v.arr, v.hi, j, tr, c.arg(0) != 0, c.arg(1)))
        return [v.arr == v0.arr, v.hi == v0.hi, v.lo >= v0.lo, v.lo < v.hi,
                L.ex.ty.enc(t, L.thisval().fields[PA + '::Line']) == L.ex.ty.enc(t, L.thisval(True).fields[PA + '::Line']),
                ct.wf(L, True),
                z3.Implies(lhs == 0, spec == RES.fail),
                z3.Implies(lhs != 0, z3.And(spec == g.REST(v.arr, v.hi, j, tr, c.arg(0) != 0, c.arg(1)), lhs > 0, lhs < L.st1.next, sel(L.g('con'), lhs), sel(L.heap(ct.CP), lhs) == 0,
                                            sel(L.g('mn'), lhs) >= L.ex.unit_st0.next, v.lo > v0.lo))]
    xp = Contract(PA + '::parseConstraint', modifies=new, modifies_args=('this',), requires=lambda c: pre(c) + room(c, c.arg(0)) + [c.arg(1) >= 0],
                  decreases=lambda c: dec2(c, 1), loops=[Loop(ex_inv, decreases=lambda L: toks(L, True).hi - toks(L, True).lo + z3.If(lhs_of(L) != 0, I(1), I(0)))],
                  ensures=lambda c: tidy(c) + yields(c, c.ret.ref, spec_expr(c)) + fresh(c, c.ret.ref) + [z3.Implies(c.ret.ref != 0, toks(c, True).lo > toks(c).lo)])

    def spec_all(c):
        v = toks(c)
        g = G(c.ex)
        return g.EXPR(v.arr, v.hi, v.lo, FALSE, I(TOP))
    pctor = Contract(PA + '::ConstraintParser', pred=lambda f: f.get('ctor') == 'other', modifies_args=('this',), requires=lambda c: [short(c.arg(0))],
                     ensures=lambda c: tokens_of(c.ex, toks(c, True), c.arg(0)) + [toks(c, True).hi - toks(c, True).lo <= z3.Length(c.arg(0)) + 1] +
                     [z3.Implies(z3.And(*tok_axiom(c.ex)), g) for g in wellformed(c.ex, toks(c, True))])
    build = Contract(PA + '::buildConstraint', modifies=new, modifies_args=('this',), requires=lambda c: pre(c) + room(c, I(0)),
                     ensures=lambda c: yields(c, c.ret.ref, spec_all(c)) + fresh(c, c.ret.ref))
    return lex, lexed, tokz, un, bn, xp, pctor, build


def groups(P):
    lex, lexed, tokz, un, bn, xp, pctor, build = parser(P)

    def pi_ens(c):
        return [c.ret == pint(c.arg(0))]
    # parseInteger, as its definition, and as its callers see it
    r = z3.Real('r!pi')
    noe = [z3.ForAll([r], z3.Not(has_e(models.FIX0(r))), patterns=[models.FIX0(r)])]
    pi = Contract(NS + 'parseInteger', ensures=pi_ens, decreases=lambda c: z3.If(has_e(c.arg(0)), I(1), I(0)), axioms=noe)
    pis = Contract(NS + 'parseInteger', name=NS + 'parseInteger (PINT)', ensures=lambda c: [c.ret == PINT(c.arg(0)), c.ret >= MIN, c.ret <= MAX])
    prec = Contract(TK + '::calcPrecedence', ensures=lambda c: [c.ret == G(c.ex).prec(c.tf('Kind'))])
    return [Group('numbers', [pi]), Group('precedence', [prec]),
            Group('parse', ct.ctor_contracts() + [pis, prec, un, bn, xp, build], units=[un, bn, xp, build], setup=setup, objects=ct.OBJECTS),
            Group('text', [tokz, pctor], units=[pctor])]


HARNESS = 'c03'
ASSUMPTIONS = ['constraint texts are shorter than 2^28 characters']
