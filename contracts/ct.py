"""Abstract view of constraint trees, and the specification vocabulary over it."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel

NS = 'vara::feature::'
CK = NS + 'Constraint::Kind'
CP = NS + 'Constraint::Parent'
BL = NS + 'BinaryConstraint::LeftOperand'
BR = NS + 'BinaryConstraint::RightOperand'
UO = NS + 'UnaryConstraint::Operand'
IV = NS + 'PrimaryIntegerConstraint::Value'
FV = NS + 'PrimaryFeatureConstraint::FV'
FN = NS + 'Feature::Name'
BASE = NS + 'Constraint'

# class -> (enumerator, operator text)    [the documented concrete syntax]
BIN = {
    'OrConstraint': ('CK_OR', '|'), 'XorConstraint': ('CK_XOR', '^'), 'AndConstraint': ('CK_AND', '&'),
    'EqualConstraint': ('CK_EQUAL', '='), 'NotEqualConstraint': ('CK_NOT_EQUAL', '!='),
    'ImpliesConstraint': ('CK_IMPLIES', '=>'), 'ExcludesConstraint': ('CK_EXCLUDES', '=> !'),
    'EquivalenceConstraint': ('CK_EQUIVALENCE', '<=>'), 'AdditionConstraint': ('CK_ADDITION', '+'),
    'SubtractionConstraint': ('CK_SUBTRACTION', '-'), 'MultiplicationConstraint': ('CK_MULTIPLICATION', '*'),
    'DivisionConstraint': ('CK_DIVISION', '/'), 'LessConstraint': ('CK_LESS', '<'),
    'GreaterConstraint': ('CK_GREATER', '>'), 'LessEqualConstraint': ('CK_LESS_EQUAL', '<='),
    'GreaterEqualConstraint': ('CK_GREATER_EQUAL', '>='),
}
UN = {'NotConstraint': ('CK_NOT', '!'), 'NegConstraint': ('CK_NEG', '~')}
PRIM = {'PrimaryIntegerConstraint': 'CK_INTEGER', 'PrimaryFeatureConstraint': 'CK_FEATURE'}
KINDS = {**{c: k for c, (k, _) in BIN.items()}, **{c: k for c, (k, _) in UN.items()}, **PRIM}

_ct = z3.Datatype('CT')
_ct.declare('bin', ('bkind', z3.IntSort()), ('bl', _ct), ('br', _ct))
_ct.declare('un', ('ukind', z3.IntSort()), ('uc', _ct))
_ct.declare('int', ('ival', z3.IntSort()))
_ct.declare('feat', ('fname', z3.StringSort()))
CT = _ct.create()

OBJECTS = [BASE, NS + 'Feature', NS + 'FeatureTreeNode', NS + 'Relationship', NS + 'FeatureModel']

GHOSTS = {
    'con': z3.BoolSort(),      # live constraint node
    'view': CT,                # abstract tree rooted at the node
    'mn': z3.IntSort(),        # smallest identity among the nodes of the tree (and owned features)
    'size': z3.IntSort(),      # height measure for recursion
}


def setup(ex):
    ex.ghost_sorts.update(GHOSTS)


class K:
    """enumerator values of ConstraintKind read from the current sources"""

    def __init__(self, prog):
        self.v = {n: v for n, v in prog.enums[NS + 'Constraint::ConstraintKind']}

    def __call__(self, n):
        if n not in self.v:
            raise Unsupported('no enumerator ' + n)
        return I(self.v[n])


def kof(cx):
    return K(cx.ex.prog)


def isbin(k, kk):
    return z3.Or(*[kk == k(x) for x, _ in BIN.values()])


def isun(k, kk):
    return z3.Or(*[kk == k(x) for x, _ in UN.values()])


def feat_of(ex, fv):
    """feature identity held by a PrimaryFeatureConstraint's variant"""
    d = ex.ty.var_dt(ex.field_type(FV).targs)
    return d, z3.If(d.recognizer(0)(fv), d.accessor(0, 0)(fv), d.accessor(1, 0)(fv))


def node_inv(cx, post, r, fresh_next=None):
    """class invariant of the constraint node r in state st"""
    ex = cx.ex
    st = cx.st1 if post else cx.st0
    k = K(ex.prog)
    H = lambda key: ex.harr(st, key)
    G = lambda key: ex.garr(st, key)
    con, view, mn, size = G('con'), G('view'), G('mn'), G('size')
    kd = sel(H(CK), r)
    l, rr, o = sel(H(BL), r), sel(H(BR), r), sel(H(UO), r)
    d, f = feat_of(ex, sel(H(FV), r))
    owned = d.recognizer(1)(sel(H(FV), r))
    v = sel(view, r)
    child = lambda c: z3.And(c > 0, sel(con, c), sel(H(CP), c) == r, sel(mn, r) <= sel(mn, c), sel(size, c) < sel(size, r))
    return z3.And(
        r > 0, r < st.next, sel(mn, r) <= r, sel(size, r) >= 0,
        z3.Or(isbin(k, kd), isun(k, kd), kd == k('CK_INTEGER'), kd == k('CK_FEATURE')),
        z3.Implies(isbin(k, kd), z3.And(child(l), child(rr), l != rr, v == CT.bin(kd, sel(view, l), sel(view, rr)))),
        z3.Implies(isun(k, kd), z3.And(child(o), v == CT.un(kd, sel(view, o)))),
        z3.Implies(kd == k('CK_INTEGER'), v == CT.int(sel(H(IV), r))),
        z3.Implies(kd == k('CK_FEATURE'), z3.And(f > 0, f < st.next, v == CT.feat(sel(H(FN), f)),
                                                 z3.Implies(owned, sel(mn, r) <= f))))


def wf(cx, post=False):
    """every live constraint node satisfies the class invariant"""
    st = cx.st1 if post else cx.st0
    con = cx.ex.garr(st, 'con')
    r = z3.Int('r!wf')
    mn = cx.ex.garr(st, 'mn')
    return z3.And(z3.ForAll([r], z3.Implies(sel(con, r), z3.And(r > 0, r < st.next, sel(mn, r) <= r, sel(cx.ex.garr(st, "size"), r) >= 0)), patterns=[z3.Select(con, r)]),
                  wf_struct(cx, post))


def wf_struct(cx, post):
    st = cx.st1 if post else cx.st0
    con = cx.ex.garr(st, 'con')
    r = z3.Int('r!wf')
    return z3.ForAll([r], z3.Implies(sel(con, r), node_inv(cx, post, r)), patterns=[z3.MultiPattern(z3.Select(con, r), z3.Select(cx.ex.harr(st, CK), r))])


def class_kind(cx, K_t):
    """what the dynamic class of a node says about its kind tag"""
    n = K_t.qn[len(NS):]
    if n not in KINDS:
        raise Unsupported('constraint class %s is not covered by the specification' % K_t.qn)
    return [sel(cx.heap0(CK), cx.this) == K(cx.ex.prog)(KINDS[n])]


CON_FIELDS = [CK, CP, BL, BR, UO, IV, FV]


def new_only(cx, keys):
    return {k: (lambda r: FALSE) for k in keys}


def feature_fields(cx):
    ex = cx.ex
    t = ex.prog.types.get('vara::feature::Feature')
    return [k for k, _, _ in ex.prog.all_fields(t)]


# ---------------------------------------------------------------- constructors
def ctor_contracts():
    out = []
    for cls, (kn, _) in BIN.items():
        out.append(_bin_ctor(cls, kn))
    for cls, (kn, _) in UN.items():
        out.append(_un_ctor(cls, kn))
    out.append(Contract(
        NS + 'PrimaryIntegerConstraint::PrimaryIntegerConstraint', pred=lambda f: f.get('ctor') == 'other',
        requires=lambda c: [wf(c), z3.Not(sel(c.g0('con'), c.this))] + gfresh(c),
        ghost=lambda c: [('con', c.this, TRUE), ('view', c.this, CT.int(c.arg(0))), ('mn', c.this, c.this), ('size', c.this, I(0))],
        modifies=lambda c: only_this(c, CON_FIELDS + list(GHOSTS)),
        ensures=lambda c: [wf(c, True), sel(c.g('con'), c.this), sel(c.g('view'), c.this) == CT.int(c.arg(0)),
                           sel(c.g('mn'), c.this) == c.this, sel(c.heap(CP), c.this) == 0, *tag(c, 'PrimaryIntegerConstraint')]))

    def ffeat(c):
        return feat_of(c.ex, c.ex.ty.enc(c.ex.field_type(FV), c.arg(0)))
    def fmn(c):
        d, f = ffeat(c)
        own = d.recognizer(1)(c.ex.ty.enc(c.ex.field_type(FV), c.arg(0)))
        return z3.If(z3.And(own, f < c.this), f, c.this)
    out.append(Contract(
        NS + 'PrimaryFeatureConstraint::PrimaryFeatureConstraint', pred=lambda f: f.get('ctor') == 'other',
        requires=lambda c: [wf(c), z3.Not(sel(c.g0('con'), c.this)), ffeat(c)[1] > 0, ffeat(c)[1] < c.st0.next] + gfresh(c),
        ghost=lambda c: [('con', c.this, TRUE), ('view', c.this, CT.feat(sel(c.heap0(FN), ffeat(c)[1]))), ('mn', c.this, fmn(c)), ('size', c.this, I(0))],
        modifies=lambda c: only_this(c, CON_FIELDS + list(GHOSTS)),
        ensures=lambda c: [wf(c, True), sel(c.g('con'), c.this), sel(c.g('view'), c.this) == CT.feat(sel(c.heap0(FN), ffeat(c)[1])),
                           sel(c.g('mn'), c.this) == fmn(c), sel(c.heap(CP), c.this) == 0, *tag(c, 'PrimaryFeatureConstraint')]))
    return out


def gfresh(c):
    return []


def only_this(c, keys, also=lambda r: FALSE):
    this = c.this
    m = {k: (lambda r: r == this) for k in keys}
    m[CP] = lambda r: z3.Or(r == this, also(r))
    return m


def tag(c, cls):
    return [sel(c.heap(CK), c.this) == K(c.ex.prog)(KINDS[cls])]


def root_arg(c, i):
    """argument i is a live tree nobody owns yet"""
    p = c.ref(i)
    return [p > 0, sel(c.g0('con'), p), sel(c.heap0(CP), p) == 0, p != c.this]


def _bin_ctor(cls, kn):
    def mn(c):
        a, b = sel(c.g0('mn'), c.ref(0)), sel(c.g0('mn'), c.ref(1))
        m = z3.If(a < b, a, b)
        return z3.If(m < c.this, m, c.this)
    def size(c):
        a, b = sel(c.g0('size'), c.ref(0)), sel(c.g0('size'), c.ref(1))
        return 1 + z3.If(a < b, b, a)
    def view(c):
        return CT.bin(K(c.ex.prog)(kn), sel(c.g0('view'), c.ref(0)), sel(c.g0('view'), c.ref(1)))
    return Contract(
        NS + '%s::%s' % (cls, cls), pred=lambda f: f.get('ctor') == 'other',
        requires=lambda c: [wf(c), z3.Not(sel(c.g0('con'), c.this)), *root_arg(c, 0), *root_arg(c, 1), c.ref(0) != c.ref(1)],
        ghost=lambda c: [('con', c.this, TRUE), ('view', c.this, view(c)), ('mn', c.this, mn(c)), ('size', c.this, size(c))],
        modifies=lambda c: only_this(c, CON_FIELDS + list(GHOSTS), lambda r: z3.Or(r == c.ref(0), r == c.ref(1))),
        ensures=lambda c: [wf(c, True), sel(c.g('con'), c.this), sel(c.g('view'), c.this) == view(c),
                           sel(c.g('mn'), c.this) == mn(c), sel(c.heap(CP), c.this) == 0,
                           sel(c.heap(BL), c.this) == c.ref(0), sel(c.heap(BR), c.this) == c.ref(1), *tag(c, cls)])


def _un_ctor(cls, kn):
    def mn(c):
        m = sel(c.g0('mn'), c.ref(0))
        return z3.If(m < c.this, m, c.this)
    def view(c):
        return CT.un(K(c.ex.prog)(kn), sel(c.g0('view'), c.ref(0)))
    return Contract(
        NS + '%s::%s' % (cls, cls), pred=lambda f: f.get('ctor') == 'other',
        requires=lambda c: [wf(c), z3.Not(sel(c.g0('con'), c.this)), *root_arg(c, 0)],
        ghost=lambda c: [('con', c.this, TRUE), ('view', c.this, view(c)), ('mn', c.this, mn(c)),
                         ('size', c.this, 1 + sel(c.g0('size'), c.ref(0)))],
        modifies=lambda c: only_this(c, CON_FIELDS + list(GHOSTS), lambda r: r == c.ref(0)),
        ensures=lambda c: [wf(c, True), sel(c.g('con'), c.this), sel(c.g('view'), c.this) == view(c),
                           sel(c.g('mn'), c.this) == mn(c), sel(c.heap(CP), c.this) == 0,
                           sel(c.heap(UO), c.this) == c.ref(0), *tag(c, cls)])


# ---------------------------------------------------------------- clone
def clone_contract():
    return Contract(
        BASE + '::clone', virtual=True, this_inv=class_kind,
        requires=lambda c: [wf(c), sel(c.g0('con'), c.this)],
        modifies=lambda c: new_only(c, CON_FIELDS + list(GHOSTS) + feature_fields(c)),
        decreases=lambda c: sel(c.g0('size'), c.this),
        ensures=lambda c: [wf(c, True), c.ret.ref > 0, sel(c.g('con'), c.ret.ref),
                           sel(c.g('view'), c.ret.ref) == sel(c.g0('view'), c.this),     # structurally equal
                           sel(c.g('mn'), c.ret.ref) >= c.st0.next,                      # every node (and owned feature) is new
                           sel(c.heap(CP), c.ret.ref) == 0])                             # a root of its own
