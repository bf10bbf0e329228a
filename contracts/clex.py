"""Tokens of constraint texts: the vocabulary of C03 and C04."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa, schar
from ex import named_goal as ng
import models

NS = 'vara::feature::'
TK, LX = NS + 'ConstraintToken', NS + 'ConstraintLexer'
KIND, VALUE = TK + '::Kind', TK + '::Value'
S = z3.StringVal
NX = z3.Function('cNX', z3.StringSort(), z3.IntSort())                       # length of the first token of a text
SUF = z3.Function('cSUF', z3.StringSort(), z3.IntSort(), z3.StringSort())     # text left after j tokens


def kinds(ex):
    return {n: I(v) for n, v in ex.prog.enums[TK + '::ConstraintTokenKind']}


def code(u, i=0):
    return schar(z3.StrToCode(z3.SubString(u, i, 1)))


dig = models.is_digit
alp = models.is_alpha
word = lambda u, i: z3.Or(dig(code(u, i)), alp(code(u, i)), code(u, i) == ord('_'))
expo = lambda c: z3.Or(c == ord('e'), c == ord('E'))
sign = lambda c: z3.Or(c == ord('+'), c == ord('-'))
numc = lambda u, i: z3.Or(dig(code(u, i)), expo(code(u, i)), z3.And(i > 0, expo(code(u, i - 1)), sign(code(u, i))))
ws = lambda c: z3.Or(c == 32, c == 9, c == 13, c == 10)
wsc = lambda u, i: ws(code(u, i))
# fixed texts, longest first
FIX = [('<->', 'EQUIVALENT'), ('<=>', 'EQUIVALENT'), ('->', 'IMPLIES'), ('=>', 'IMPLIES'), ('!=', 'NOT_EQUAL'), ('>=', 'GREATER_EQUAL'), ('<=', 'LESS_EQUAL'),
       ('-', 'MINUS'), ('!', 'NOT'), ('=', 'EQUAL'), ('>', 'GREATER'), ('<', 'LESS'), ('(', 'L_PAR'), (')', 'R_PAR'), ('+', 'PLUS'), ('~', 'NEG'), ('*', 'STAR'), ('&', 'AND'), ('|', 'OR')]
RUNS = ((alp, word), (dig, numc), (ws, wsc))


def fixed_len(u):
    n = I(1)
    for t, _ in reversed(FIX):
        if len(t) > 1:
            n = z3.If(z3.PrefixOf(S(t), u), I(len(t)), n)
    return n


def nx_axioms():
    u, i = z3.String('u!cnx'), z3.Int('i!cnx')
    ne = z3.Length(u) > 0
    c0 = code(u)
    ax = []
    for start, cls in RUNS:
        ax.append(z3.ForAll([u], z3.Implies(z3.And(ne, start(c0)), z3.And(
            NX(u) >= 1, NX(u) <= z3.Length(u), z3.Implies(NX(u) < z3.Length(u), z3.Not(cls(u, NX(u)))))), patterns=[NX(u)]))
        ax.append(z3.ForAll([u, i], z3.Implies(z3.And(ne, start(c0), i >= 0, i < NX(u)), cls(u, i)),
                            patterns=[z3.MultiPattern(NX(u), z3.SubString(u, i, 1))]))
    ax.append(z3.ForAll([u], z3.Implies(z3.And(ne, z3.Not(alp(c0)), z3.Not(dig(c0)), z3.Not(ws(c0))), NX(u) == fixed_len(u)), patterns=[NX(u)]))
    return ax


def suf_axioms():
    s = z3.String('s!cnx')
    j, k = z3.Ints('j!cnx k!cnx')
    n = SUF(s, j)
    return [z3.ForAll([s], SUF(s, 0) == s, patterns=[SUF(s, 0)]),
            z3.ForAll([s, j, k], z3.Implies(z3.And(j >= 0, k == j + 1), SUF(s, k) == z3.SubString(n, NX(n), z3.Length(n) - NX(n))),
                      patterns=[z3.MultiPattern(SUF(s, j), SUF(s, k))])]


def TOK(ex):
    return z3.Function('cTOK', z3.StringSort(), ex.ty.struct_dt(ex.prog.types[TK]))


def tok_axiom(ex):
    u = z3.String('u!ctok')
    return [z3.ForAll([u], TOK(ex)(u) == tok(ex, u), patterns=[TOK(ex)(u)])]


def mktok(ex, kind, value):
    t = ex.prog.types[TK]
    d = ex.ty.struct_dt(t)
    fs = [k for k, _, _ in ex.prog.all_fields(t)]
    od = ex.ty.sort(ex.field_type(VALUE))
    v = od.constructor(0)() if value is None else od.constructor(1)(value)
    return d.constructor(0)(*[{KIND: kind, VALUE: v}[k] for k in fs])


def tok(ex, u):
    """the token at the start of a non-empty text"""
    k = kinds(ex)
    c = code(u)
    pre = z3.SubString(u, 0, NX(u))
    t = mktok(ex, k['ERROR'], z3.SubString(u, 0, 1))
    for txt, n in reversed(FIX):
        t = z3.If(z3.PrefixOf(S(txt), u), mktok(ex, k[n], None), t)
    t = z3.If(ws(c), mktok(ex, k['WHITESPACE'], None), t)
    t = z3.If(z3.Or(c == -1, c == 0), mktok(ex, k['END_OF_FILE'], None), t)
    t = z3.If(dig(c), mktok(ex, k['NUMBER'], models.LOWER(pre)), t)
    return z3.If(alp(c), z3.If(pre == S('or'), mktok(ex, k['OR'], None), mktok(ex, k['IDENTIFIER'], pre)), t)


def tk(ex, x):
    """kind and value of an encoded token"""
    t = ex.prog.types[TK]
    d = ex.ty.struct_dt(t)
    fs = [k for k, _, _ in ex.prog.all_fields(t)]
    od = ex.ty.sort(ex.field_type(VALUE))
    v = d.accessor(0, fs.index(VALUE))(x)
    return d.accessor(0, fs.index(KIND))(x), od.recognizer(1)(v), od.accessor(1, 0)(v)


def stops(ex, x):
    k = kinds(ex)
    kd = tk(ex, x)[0]
    return z3.Or(kd == k['END_OF_FILE'], kd == k['ERROR'])


def prefix_ok(ex, v, s, n):
    """the first n tokens of v are the first n tokens of text s, none of them final"""
    j = z3.Int('j!ctk')
    x = z3.Select(v.arr, j)
    u = SUF(s, z3.simplify(j - v.lo))
    return fa([j], z3.Implies(z3.And(j >= v.lo, j < v.lo + n), z3.And(z3.Length(u) > 0, x == TOK(ex)(u), z3.Not(stops(ex, x)))), x)


def tokens_of(ex, v, s):
    n = v.hi - v.lo
    k = kinds(ex)
    last = z3.Select(v.arr, v.hi - 1)
    rest = SUF(s, n - 1)
    return [n >= 1, ng('every token but the last is the next token of the text', prefix_ok(ex, v, s, n - 1)),
            ng('the last token ends the text or is the first error',
               z3.Or(z3.And(rest == S(''), last == mktok(ex, k['END_OF_FILE'], None)),
                     z3.And(rest != S(''), last == TOK(ex)(rest), stops(ex, last))))]


def wellformed(ex, v):
    """what the parser needs: the last token is final, and tokens that carry text have it"""
    k = kinds(ex)
    i = z3.Int('i!cwf')
    kd, has, _ = tk(ex, z3.Select(v.arr, i))
    return [v.lo < v.hi, stops(ex, z3.Select(v.arr, v.hi - 1)),
            fa([i], z3.Implies(z3.And(i >= v.lo, i < v.hi), z3.And(
                z3.Or(*[kd == x for x in k.values()]), z3.Implies(z3.Or(kd == k['IDENTIFIER'], kd == k['NUMBER'], kd == k['ERROR']), has))),
               z3.Select(v.arr, i))]


short = lambda u: z3.Length(u) < (1 << 28)


def lexer():
    ax = nx_axioms()

    def tokval(c):
        return c.ex.ty.enc(c.ex.prog.types[TK], c.ret.vals[0])

    def run_post(kind, low=False):
        def ens(c):
            ex = c.ex
            u = c.arg(0)
            pre = z3.SubString(u, 0, NX(u))
            v = None if kind == 'WHITESPACE' else (models.LOWER(pre) if low else pre)
            return [c.ret.vals[1] == NX(u), tokval(c) == mktok(ex, kinds(ex)[kind], v)]
        return ens

    def ident(c):
        ex = c.ex
        u = c.arg(0)
        pre = z3.SubString(u, 0, NX(u))
        return [c.ret.vals[1] == NX(u), tokval(c) == z3.If(pre == S('or'), mktok(ex, kinds(ex)['OR'], None), mktok(ex, kinds(ex)['IDENTIFIER'], pre))]
    req = lambda p: (lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0, p(code(c.arg(0)))])
    full = lambda T: (lambda c: [c.ret.vals[1] == NX(c.arg(0)), NX(c.arg(0)) >= 1, NX(c.arg(0)) <= z3.Length(c.arg(0)), tokval(c) == T(c.ex)(c.arg(0))])
    spec = lambda ex: (lambda u: tok(ex, u))

    def ninv(L):
        u = L.arg(0)
        n = L.vt(lambda t: t.k == 'builtin' and t.b == 'int' and t.w == 64)
        i = z3.Int('i!cni')
        return [n >= 0, n <= z3.Length(u), fa([i], z3.Implies(z3.And(i >= 0, i < n), numc(u, i)), z3.SubString(u, i, 1))]
    lex = [Contract(LX + '::munchWhitespace', requires=req(ws), ensures=run_post('WHITESPACE'), axioms=ax),
           Contract(LX + '::munchNumber', requires=req(dig), ensures=run_post('NUMBER', True), axioms=ax, loops=[Loop(ninv, decreases=lambda L: z3.Length(L.arg(0)) - ninv_n(L))]),
           Contract(LX + '::munchIdentifier', requires=req(alp), ensures=ident, axioms=ax),
           Contract(LX + '::munchOperator', requires=req(lambda c: z3.Or(*[c == ord(x) for x in '-!=<>'])), axioms=ax, ensures=full(spec)),
           Contract(LX + '::munch', requires=lambda c: [short(c.arg(0)), z3.Length(c.arg(0)) > 0], axioms=ax, ensures=full(spec))]

    def ninv_n(L):
        return L.vt(lambda t: t.k == 'builtin' and t.b == 'int' and t.w == 64)

    def tinv(L):
        v = L.vt(lambda t: t.k == 'record' and t.qn == 'std::deque')
        u = L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::StringRef')
        s = L.thisval().fields[LX + '::Cnt']
        k = v.hi - v.lo
        return [v.hi >= v.lo, u == SUF(s, k), short(u), prefix_ok(L.ex, v, s, k), z3.Length(u) + k <= z3.Length(s)]
    lexed = Contract(LX + '::munch', name=LX + '::munch (TOK)', requires=lex[-1].requires, ensures=full(TOK))
    tokz = Contract(LX + '::tokenize', axioms=suf_axioms(), requires=lambda c: [short(c.tf('Cnt'))], loops=[Loop(tinv, decreases=lambda L: z3.Length(
        L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::StringRef')))],
        ensures=lambda c: tokens_of(c.ex, c.ret, c.tf('Cnt')) + [c.ret.hi - c.ret.lo <= z3.Length(c.tf('Cnt')) + 1])
    return lex, lexed, tokz


def prec_contract():
    PREC = [(('STAR',), 1), (('PLUS', 'MINUS'), 2), (('GREATER', 'GREATER_EQUAL', 'LESS', 'LESS_EQUAL'), 3), (('EQUAL', 'NOT_EQUAL'), 4), (('AND',), 5), (('OR',), 6), (('IMPLIES',), 7),
            (('EQUIVALENT',), 8)]

    def spec(ex, kd):
        k = kinds(ex)
        r = I(9)
        for ns, p in PREC:
            for n in ns:
                r = z3.If(kd == k[n], I(p), r)
        return r
    return spec
