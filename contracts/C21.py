"""C21: step functions compute what they say, and are parsed from exactly the texts that denote them."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa, schar
from runner import Group
import models

NS = 'vara::feature::'
SF, TK, LX, PA = NS + 'StepFunction', NS + 'StepFunctionToken', NS + 'StepFunctionLexer', NS + 'StepFunctionParser'
OP, LHS, RHS = SF + '::Op', SF + '::LHS', SF + '::RHS'
KIND, VALUE = TK + '::Kind', TK + '::Value'
S = z3.StringVal
NX = z3.Function('NX', z3.StringSort(), z3.IntSort())                       # length of the first token of a text
SUF = z3.Function('SUF', z3.StringSort(), z3.IntSort(), z3.StringSort())     # text left after j tokens


def kinds(ex):
    return {n: I(v) for n, v in ex.prog.enums[TK + '::TokenKind']}


def ops(ex):
    return {n: I(v) for n, v in ex.prog.enums[SF + '::StepOperation']}


def code(u, i=0):
    return schar(z3.StrToCode(z3.SubString(u, i, 1)))


def byte(u, i=0):
    return z3.StrToCode(z3.SubString(u, i, 1))


dig = models.is_digit
alp = models.is_alpha
word = lambda c: z3.Or(dig(c), alp(c), c == ord('_'))
numc = lambda c: z3.Or(dig(c), c == ord('.'))
ws = lambda c: z3.Or(c == 32, c == 9, c == 13, c == 10)


def nx_axioms():
    u, i = z3.String('u!nx'), z3.Int('i!nx')
    s = z3.String('s!nx')
    j = z3.Int('j!nx')
    ne = z3.Length(u) > 0
    c0 = code(u)
    ax = []
    for start, cls in ((alp, word), (numc, numc), (ws, ws)):
        ax.append(z3.ForAll([u], z3.Implies(z3.And(ne, start(c0)), z3.And(
            NX(u) >= 1, NX(u) <= z3.Length(u),
            z3.Implies(NX(u) < z3.Length(u), z3.Not(cls(code(u, NX(u))))))), patterns=[NX(u)]))
        ax.append(z3.ForAll([u, i], z3.Implies(z3.And(ne, start(c0), i >= 0, i < NX(u)), cls(code(u, i))),
                            patterns=[z3.MultiPattern(NX(u), z3.SubString(u, i, 1))]))
    ax.append(z3.ForAll([u], z3.Implies(z3.And(ne, z3.Not(alp(c0)), z3.Not(numc(c0)), z3.Not(ws(c0))), NX(u) == 1), patterns=[NX(u)]))
    ax.append(z3.ForAll([s], SUF(s, 0) == s, patterns=[SUF(s, 0)]))
    n = SUF(s, j)
    k = z3.Int('k!nx')
    ax.append(z3.ForAll([s, j, k], z3.Implies(z3.And(j >= 0, k == j + 1), SUF(s, k) == z3.SubString(n, NX(n), z3.Length(n) - NX(n))),
                        patterns=[z3.MultiPattern(SUF(s, j), SUF(s, k))]))
    return ax


def TOK(ex):
    return z3.Function('TOK', z3.StringSort(), ex.ty.struct_dt(ex.prog.types[TK]))


def tok_axiom(ex):
    u = z3.String('u!tok')
    return [z3.ForAll([u], TOK(ex)(u) == tok(ex, u), patterns=[TOK(ex)(u)])]


def mktok(ex, kind, value):
    t = ex.prog.types[TK]
    d = ex.ty.struct_dt(t)
    fs = [k for k, _, _ in ex.prog.all_fields(t)]
    od = ex.ty.sort(ex.field_type(VALUE))
    v = od.constructor(0)() if value is None else od.constructor(1)(value)
    return d.constructor(0)(*[{KIND: kind, VALUE: v}[k] for k in fs])


def tok(ex, u):
    """the token at the start of a non-empty text"""
    k = kinds(ex)
    c = code(u)
    pre = z3.SubString(u, 0, NX(u))
    t = mktok(ex, k['ERROR'], z3.SubString(u, 0, 1))
    for ch, n in (('^', 'CARET'), ('*', 'STAR'), ('+', 'PLUS')):
        t = z3.If(c == ord(ch), mktok(ex, k[n], None), t)
    t = z3.If(ws(c), mktok(ex, k['WHITESPACE'], None), t)
    t = z3.If(z3.Or(c == -1, c == 0), mktok(ex, k['END_OF_FILE'], None), t)
    t = z3.If(numc(c), mktok(ex, k['NUMBER'], models.LOWER(pre)), t)
    return z3.If(alp(c), mktok(ex, k['IDENTIFIER'], pre), t)


def tk(ex, x):
    """kind and value of an encoded token"""
    t = ex.prog.types[TK]
    d = ex.ty.struct_dt(t)
    fs = [k for k, _, _ in ex.prog.all_fields(t)]
    od = ex.ty.sort(ex.field_type(VALUE))
    v = d.accessor(0, fs.index(VALUE))(x)
    return d.accessor(0, fs.index(KIND))(x), od.recognizer(1)(v), od.accessor(1, 0)(v)


def stops(ex, x):
    k = kinds(ex)
    kd = tk(ex, x)[0]
    return z3.Or(kd == k['END_OF_FILE'], kd == k['ERROR'])


def prefix_ok(ex, v, s, n):
    """the first n tokens of v are the first n tokens of text s, none of them final"""
    j = z3.Int('j!tk')
    x = z3.Select(v.arr, j)
    u = SUF(s, z3.simplify(j - v.lo))
    return fa([j], z3.Implies(z3.And(j >= v.lo, j < v.lo + n), z3.And(z3.Length(u) > 0, x == TOK(ex)(u), z3.Not(stops(ex, x)))), x)


def tokens_of(ex, v, s):
    n = v.hi - v.lo
    k = kinds(ex)
    last = z3.Select(v.arr, v.hi - 1)
    rest = SUF(s, n - 1)
    return [n >= 1, prefix_ok(ex, v, s, n - 1),
            z3.Or(z3.And(rest == S(''), last == mktok(ex, k['END_OF_FILE'], None)),
                  z3.And(rest != S(''), last == TOK(ex)(rest), stops(ex, last)))]


def wellformed(ex, v):
    """what the parser needs: the last token is final, and tokens that carry text have it"""
    k = kinds(ex)
    i = z3.Int('i!wf')
    kd, has, _ = tk(ex, z3.Select(v.arr, i))
    return [v.lo < v.hi, stops(ex, z3.Select(v.arr, v.hi - 1)),
            fa([i], z3.Implies(z3.And(i >= v.lo, i < v.hi), z3.And(
                z3.Or(*[kd == x for x in k.values()]), z3.Implies(z3.Or(kd == k['IDENTIFIER'], kd == k['NUMBER'], kd == k['ERROR']), has))),
               z3.Select(v.arr, i))]


# ---------------------------------------------------------------- evaluation
def alt(ex, key, x):
    d = ex.ty.var_dt(ex.field_type(key).targs)
    return d.recognizer(0)(x), d.accessor(0, 0)(x), d.accessor(1, 0)(x)


def value_at(c, x):
    ex = c.ex
    o = ops(ex)
    op = sel(c.heap0(OP), c.this)
    ls, _, ln = alt(ex, LHS, sel(c.heap0(LHS), c.this))
    rs, _, rn = alt(ex, RHS, sel(c.heap0(RHS), c.this))
    a = z3.If(rs, ln, x)
    b = z3.If(rs, x, rn)
    return z3.If(op == o['ADDITION'], a + b, z3.If(op == o['MULTIPLICATION'], a * b, models.POW(a, b)))


def one_operand(c):
    """exactly one of the two operands is a constant (what every constructed step function satisfies)"""
    ls = alt(c.ex, LHS, sel(c.heap0(LHS), c.this))[0]
    rs = alt(c.ex, RHS, sel(c.heap0(RHS), c.this))[0]
    return ls != rs


def real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def back(c, r):
    if z3.is_int(c.ret):
        return c.ret == z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    return c.ret == r


# ---------------------------------------------------------------- parsing
def groups(P):
    ev = [
        Contract(SF + '::next', requires=lambda c: [one_operand(c)],
                 ensures=lambda c: [back(c, value_at(c, real(c.arg(0))))]),
        Contract(SF + '::operator()', requires=lambda c: [one_operand(c)], ensures=lambda c: [c.ret == value_at(c, c.arg(0))]),
    ]

    def opnames(c):
        o = ops(c.ex)
        op = sel(c.heap0(OP), c.this)
        sym = z3.If(op == o['ADDITION'], S(' + '), z3.If(op == o['MULTIPLICATION'], S(' * '), S(' ^ ')))
        def txt(key):
            is_s, s, n = alt(c.ex, key, sel(c.heap0(key), c.this))
            return z3.If(is_s, s, models.REAL_STR(n))
        return z3.Concat(txt(LHS), sym, txt(RHS))
    ev.append(Contract(SF + '::toString', requires=lambda c: [one_operand(c)], ensures=lambda c: [c.ret == opnames(c)]))

    def ctor(c):
        """the constant and the place it was given at are kept"""
        f = c.f['pt']
        H1 = lambda k: sel(c.heap(k), c.this)
        vd = c.ex.ty.var_dt(c.ex.field_type(LHS).targs)
        var, num = vd.constructor(0)(S('x')), vd.constructor(1)
        if len(f) == 3:
            enc = lambda i, k: c.ex.ty.enc(c.ex.field_type(k), c.arg(i))
            return [H1(LHS) == enc(0, LHS), H1(OP) == c.arg(1), H1(RHS) == enc(2, RHS)]
        if f[0].k == 'enum':
            return [H1(LHS) == var, H1(OP) == c.arg(0), H1(RHS) == num(c.arg(1))]
        return [H1(LHS) == num(c.arg(0)), H1(OP) == c.arg(1), H1(RHS) == var]
    fields = lambda c: {k: (lambda r: r == c.this) for k in (OP, LHS, RHS)}
    ctors = [Contract(SF + '::StepFunction', pred=lambda f: f.get('ctor') == 'other', modifies=fields, ensures=ctor,
                      name=SF + '::StepFunction')]

    ax = nx_axioms()

    def run_post(cls, kind, low=False):
        def ens(c):
            ex = c.ex
            u = c.arg(0)
            pre = z3.SubString(u, 0, NX(u))
            v = None if kind == 'WHITESPACE' else (models.LOWER(pre) if low else pre)
            return [c.ret.vals[1] == NX(u), ex.ty.enc(ex.prog.types[TK], c.ret.vals[0]) == mktok(ex, kinds(ex)[kind], v)]
        return ens
    def tokval(c):
        return c.ex.ty.enc(c.ex.prog.types[TK], c.ret.vals[0])
    short = lambda u: z3.Length(u) < (1 << 31)
    lex = [
        Contract(LX + '::munchWhitespace', requires=lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0, ws(code(c.arg(0)))],
                 ensures=run_post(ws, 'WHITESPACE'), axioms=ax),
        Contract(LX + '::munchNumber', requires=lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0, numc(code(c.arg(0)))],
                 ensures=run_post(numc, 'NUMBER', True), axioms=ax),
        Contract(LX + '::munchIdentifier', requires=lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0, alp(code(c.arg(0)))],
                 ensures=run_post(word, 'IDENTIFIER'), axioms=ax),
        Contract(LX + '::munch', requires=lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0], axioms=ax,
                 ensures=lambda c: [c.ret.vals[1] == NX(c.arg(0)), NX(c.arg(0)) >= 1, NX(c.arg(0)) <= z3.Length(c.arg(0)),
                                    tokval(c) == tok(c.ex, c.arg(0))]),
    ]

    def tinv(L):
        v = L.vt(lambda t: t.k == 'record' and t.qn == 'std::deque')
        u = L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::StringRef')
        s = L.thisval().fields[LX + '::Cnt']
        k = v.hi - v.lo
        return [v.hi >= v.lo, u == SUF(s, k), short(u), prefix_ok(L.ex, v, s, k)]
    # munch as its callers see it: TOK(u) abbreviates the specification above
    lexed = Contract(LX + '::munch', name=LX + '::munch (TOK)', requires=lex[-1].requires,
                     ensures=lambda c: [c.ret.vals[1] == NX(c.arg(0)), NX(c.arg(0)) >= 1, NX(c.arg(0)) <= z3.Length(c.arg(0)),
                                        tokval(c) == TOK(c.ex)(c.arg(0))])
    tokz = [Contract(LX + '::tokenize', axioms=ax[-2:], requires=lambda c: [short(c.tf('Cnt'))], loops=[Loop(tinv, decreases=lambda L: z3.Length(
        L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::StringRef')))],
        ensures=lambda c: tokens_of(c.ex, c.ret, c.tf('Cnt')))]

    return [Group('evaluate', ev, objects=[SF]), Group('construct', ctors, objects=[SF]), Group('lex', lex), Group('tokenize', [lexed] + tokz, units=tokz),
            Group('parse', *parser(tokz, ctors), objects=[SF])]


class NWf:
    """index of the first token that is not white space, at or after a position"""

    def __init__(self):
        self.f = None

    def get(self, ex):
        t = ex.prog.types[TK]
        d = ex.ty.struct_dt(t)
        A = z3.ArraySort(z3.IntSort(), d)
        return z3.Function('NW', A, z3.IntSort(), z3.IntSort(), z3.IntSort()), A

    def axioms(self, ex):
        f, A = self.get(ex)
        a = z3.Const('a!nw', A)
        i, h = z3.Ints('i!nw h!nw')
        w = tk(ex, z3.Select(a, i))[0] == kinds(ex)['WHITESPACE']
        return [z3.ForAll([a, i, h], f(a, i, h) == z3.If(z3.And(i < h, w), f(a, i + 1, h), i), patterns=[f(a, i, h)])]


def parser(tokz, ctors):
    nw = NWf()
    TL = PA + '::TokenList'

    def toks(c, post=False):
        return c.thisval(post).fields[TL]

    def at(c, p):
        return tk(c.ex, z3.Select(toks(c).arr, p))

    def front(c, frm=None):
        v = toks(c)
        return nw.get(c.ex)[0](v.arr, v.lo if frm is None else frm, v.hi)

    def moved(c, lo):
        v0, v1 = toks(c), toks(c, True)
        return [v1.arr == v0.arr, v1.hi == v0.hi, v1.lo == lo]

    def keepline(c):
        l0, l1 = c.thisval().fields[PA + '::Line'], c.thisval(True).fields[PA + '::Line']
        t = c.ex.field_type(PA + '::Line')
        return [c.ex.ty.enc(t, l0) == c.ex.ty.enc(t, l1)]

    def pre(c):
        return wellformed(c.ex, toks(c)) + nw.axioms(c.ex)

    def post(c):
        p = front(c)
        v0 = toks(c)
        return [p >= v0.lo, p < v0.hi, at(c, p)[0] != kinds(c.ex)['WHITESPACE']] + keepline(c)

    def inv(L):
        v0, v = toks(L), toks(L, True)
        return [v.arr == v0.arr, v.hi == v0.hi, v.lo >= v0.lo, v.lo < v.hi,
                nw.get(L.ex)[0](v.arr, v.lo, v.hi) == front(L)] + keepline(L)
    loop = [Loop(inv, decreases=lambda L: toks(L, True).hi - toks(L, True).lo)]

    def operand(c, p):
        """-> (is an operand, encoded operand value)"""
        k = kinds(c.ex)
        kd, _, txt = at(c, p)
        vd = c.ex.ty.var_dt(c.ex.field_type(LHS).targs)
        isnum = z3.And(kd == k['NUMBER'], models.REAL_OK(txt))
        return z3.Or(kd == k['IDENTIFIER'], isnum), z3.If(kd == k['IDENTIFIER'], vd.constructor(0)(txt), vd.constructor(1)(models.REAL_VAL(txt)))

    def operator(c, p):
        k, o = kinds(c.ex), ops(c.ex)
        kd = at(c, p)[0]
        return z3.Or(kd == k['PLUS'], kd == k['STAR'], kd == k['CARET']), z3.If(
            kd == k['PLUS'], o['ADDITION'], z3.If(kd == k['STAR'], o['MULTIPLICATION'], o['EXPONENTIATION']))

    def enc_alt(c, v):
        return c.ex.ty.enc(c.ex.field_type(LHS), v)

    def res(spec, encode):
        def ens(c):
            p = front(c)
            ok, v = spec(c, p)
            return post(c) + [c.ret.has == ok, z3.Implies(ok, encode(c, c.ret.val) == v)] + \
                [z3.Implies(ok, g) for g in moved(c, p + 1) + [p + 1 < toks(c).hi]] + [z3.Implies(z3.Not(ok), g) for g in moved(c, toks(c, True).lo)]
        return ens
    pc = [
        Contract(PA + '::parseOperand', requires=pre, ensures=res(operand, enc_alt), loops=loop, modifies_args=('this',)),
        Contract(PA + '::parseOperator', requires=pre, ensures=res(operator, lambda c, v: v), loops=loop, modifies_args=('this',)),
        Contract(PA + '::parseEOF', requires=pre, loops=loop, modifies_args=('this',),
                 ensures=lambda c: post(c) + [c.ret == (at(c, front(c))[0] == kinds(c.ex)['END_OF_FILE'])]),
    ]

    def whole(c):
        """a parsed step function is operand, operator, operand, end, with exactly one constant"""
        a = front(c)
        o = front(c, a + 1)
        b = front(c, o + 1)
        e = front(c, b + 1)
        (oka, va), (oko, vo), (okb, vb) = operand(c, a), operator(c, o), operand(c, b)
        vd = c.ex.ty.var_dt(c.ex.field_type(LHS).targs)
        ok = z3.And(oka, oko, okb, at(c, e)[0] == kinds(c.ex)['END_OF_FILE'], vd.recognizer(0)(va) != vd.recognizer(0)(vb))
        r = c.ret.ref
        return [(r != 0) == ok, z3.Implies(ok, z3.And(sel(c.heap(LHS), r) == va, sel(c.heap(OP), r) == vo, sel(c.heap(RHS), r) == vb))]
    new = lambda c: {k: (lambda r: FALSE) for k in (OP, LHS, RHS)}
    pw = [Contract(PA + '::parseStepFunction', requires=pre, ensures=whole, modifies=new, modifies_args=('this',)),
          Contract(PA + '::buildStepFunction', requires=pre, ensures=whole, modifies=new, modifies_args=('this',))]
    pctor = Contract(PA + '::StepFunctionParser', pred=lambda f: f.get('ctor') == 'other', axioms=nx_axioms(),
                     modifies_args=('this',), requires=lambda c: [z3.Length(c.arg(0)) < (1 << 31)],
                     ensures=lambda c: tokens_of(c.ex, toks(c, True), c.arg(0)) + [z3.Implies(z3.And(*tok_axiom(c.ex)), g) for g in wellformed(c.ex, toks(c, True))])
    return tokz + ctors + pc + pw + [pctor], pc + pw + [pctor]

HARNESS = 'c21'
ASSUMPTIONS = ['double arithmetic of StepFunction::next is treated as real arithmetic; std::pow is uninterpreted',
               'parsed texts are shorter than 2^31 characters']
