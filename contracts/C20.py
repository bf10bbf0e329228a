"""C20: what reading an XML document hands to the builder of a feature model."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, named_goal as ng
from runner import Group, Lemma
import ct
import fm
from fm import *
import models
import C03
import C07
import C12
import C24
import C19
import C25
from C19 import S, S_, f_, define

P_ = NS + 'FeatureModelXmlParser'
FSR = NS + 'FeatureSourceRange'
XN = '_xmlNode'
OBJECTS = [XN]
CHI, NXT, TYP, NAM, LIN = (XN + '::' + n for n in ('children', 'next', 'type', 'name', 'line'))
ELEMENT = 1
# the text of a node; an attribute of a node (NULLTEXT: it is absent)
CONTENT = z3.Function('content', N_, S_)
PROP = z3.Function('attribute_of', N_, S_, S_)
# how many nodes follow in its list, itself included
RANK = z3.Function('list_length', N_, N_)
ATOI = z3.Function('atoi', S_, N_)
x = z3.Int('x!c20')
# documents: the one a text denotes (0: none), conforming to a document type
READ = z3.Function('document_of', S_, N_)
WELL = z3.Function('well_formed', S_, z3.BoolSort())
CONFORMS = z3.Function('conforms_to', N_, N_, z3.BoolSort())
DTD = z3.Int('the_document_type')
XML = P_ + '::Xml'
VALID = '_xmlParserCtxt::valid'


def setup(ex):
    models.NULLABLE_TEXT[:] = [1]
    try:
        ex._key_sort('')
    except Unsupported:
        pass
    T = ex.prog.types
    p = T['_xmlNode *'] if '_xmlNode *' in T else T['xmlNode *']
    for k, t in ((CHI, p), (NXT, p), (NAM, T['const xmlChar *'] if 'const xmlChar *' in T else T['const unsigned char *']), (TYP, T['int']), (VALID, T['int']), (LIN, T['unsigned short'])):
        ex._fieldtypes[k] = t


def text(c, i):
    return C19.text(c, i)


def api():
    return [Contract('xmlNodeGetContent', requires=lambda c: [c.ref(0) > 0], ensures=lambda c: [c.ret == CONTENT(c.ref(0))], assumed=True),
            Contract('xmlGetProp', requires=lambda c: [c.ref(0) > 0], ensures=lambda c: [c.ret == PROP(c.ref(0), text(c, 1))], assumed=True),
            Contract('xmlStrcmp', ensures=lambda c: [(c.ret == 0) == (text(c, 0) == text(c, 1))], assumed=True),
            Contract('xmlStrEqual', ensures=lambda c: [(c.ret != 0) == (text(c, 0) == text(c, 1))], assumed=True),
            Contract('atoi', ensures=lambda c: [c.ret == ATOI(text(c, 0))], assumed=True)]


def H(c, k, r):
    return sel(c.ex.harr(c.st0, k), r)


def tree_at(c, r):
    """the document is a finite tree of nodes, at node r"""
    ex, st = c.ex, c.st0
    h = lambda k: sel(ex.harr(st, k), r)
    ok = lambda r: z3.And(r >= 0, r < st.next, z3.Implies(r != 0, RANK(r) > 0))
    return z3.Implies(r > 0, z3.And(ok(h(CHI)), ok(h(NXT)), RANK(r) > 0, z3.Implies(h(NXT) != 0, RANK(h(NXT)) < RANK(r)), CONTENT(r) != models.NULLTEXT,
                                     z3.Implies(h(NAM) == S('sourceRange'), categorised(r))))


def categorised(r):
    return z3.Or(*[PROP(r, S('category')) == s for s in (models.NULLTEXT, S('necessary'), S('inessential'))])


def tree(c):
    h = lambda k: sel(c.ex.harr(c.st0, k), x)
    return [z3.ForAll([x], tree_at(c, x), patterns=[h(CHI), h(NXT), CONTENT(x)])]


def element(c, h, name):
    return z3.And(H(c, TYP, h) == ELEMENT, H(c, NAM, h) == S(name))


def node(c):
    return next(c.ref(i) for i in range(len(c.args_v)) if is_node(c.args_v[i]))


def is_node(v):
    return isinstance(v, (Ptr, LV)) and v.t is not None and 'xmlNode' in str(getattr(v.t, 's', v.t))


def head(L):
    """the loop's position in the list of nodes: the last local that is a node"""
    ls = [lv for lv in L.st_entry.frame.env.values() if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and lv.t.k == 'ptr' and 'xmlNode' in lv.t.s]
    if not ls:
        raise Unsupported('no position in the list of nodes')
    g = lambda st: (lambda v: v.ref if hasattr(v, 'ref') else v)(L.ex.load(st, ls[-1]))
    return g(L.st1), g(L.st_entry)


class Fold:
    """the value of a local after the rest of a list of nodes, by recursion over the list"""

    def __init__(self, name, step, local=None):
        self.name, self.step, self.local = name, step, local

    def fn(self, acc):
        return z3.Function(self.name, N_, acc.sort(), acc.sort())

    def define(self, c, h, acc):
        define(c.ex, [self(I(0), acc) == acc, z3.Implies(h > 0, self(h, acc) == self(H(c, NXT, h), self.step(c, h, acc)))])

    def __call__(self, h, acc):
        return self.fn(acc)(h, acc)


def pick(tag, val):
    return lambda c, h, acc: z3.If(element(c, h, tag), val(c, h), acc)


def u32(t):
    return models.wrap_u32(t) if hasattr(models, 'wrap_u32') else t % 2**32


def enc(ex, v):
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, Opt):
        d = ex.ty.opt_dt(v.et)
        return z3.If(v.has, d.constructor(1)(ex.ty.enc(v.et, v.val)), d.constructor(0)())
    if isinstance(v, Vec):
        return ex.ty.vec_dt(v.et).constructor(0)(v.arr, v.lo, v.hi)
    if isinstance(v, Tup):
        return ex.ty.tup_dt(v.ts).constructor(0)(*[ex.ty.enc(t, y) for t, y in zip(v.ts, v.vals)])
    return ex.ty.enc(v.t, v)


def some(c, t, z):
    """a present optional of the value z"""
    return c.ex.ty.opt_dt(t).constructor(1)(z)


def none(c, t):
    return c.ex.ty.opt_dt(t).constructor(0)()


def typ(c, n):
    return c.ex.prog.types[n]


def folded(c, fs, h):
    return [f(h, i) for f, i in fs]


LINE = Fold('line_after', pick('line', lambda c, h: u32(ATOI(CONTENT(h)))), 'Line')
COL = Fold('column_after', pick('column', lambda c, h: u32(ATOI(CONTENT(h)))), 'Column')
trimmed = lambda c, h: models.TRIM(CONTENT(h))
INTRO = Fold('introduced_after', pick('introduced', trimmed), 'Introduced')
REMO = Fold('removed_after', pick('removed', trimmed), 'Removed')


def mk(c, n, *vals):
    """a value of class n with these fields, encoded"""
    t = typ(c, FSR + '::' + n)
    return c.ex.ty.sort(t).constructor(0)(*vals)


def loc_of(c, h):
    k = H(c, CHI, h)
    return mk(c, 'FeatureSourceLocation', LINE(k, I(0)), COL(k, I(0)))


def rev_of(c, h):
    k = H(c, CHI, h)
    r = REMO(k, S(''))
    t = typ(c, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>')
    return mk(c, 'FeatureRevisionRange', INTRO(k, S('')), z3.If(r == S(''), none(c, t), some(c, t, r)))


def opt_pick(tag, n, val):
    return pick(tag, lambda c, h: some(c, typ(c, FSR + '::' + n), val(c, h)))


def offset(c, s):
    return z3.Function('member_offset_of', S_, c.ex.ty.opt_dt(typ(c, FSR + '::FeatureMemberOffset')))(s)


PATH = Fold('path_after', pick('path', trimmed), 'Path')
START = Fold('start_after', opt_pick('start', 'FeatureSourceLocation', loc_of), 'Start')
END = Fold('end_after', opt_pick('end', 'FeatureSourceLocation', loc_of), 'End')
REV = Fold('revision_after', opt_pick('revisionRange', 'FeatureRevisionRange', rev_of), 'RevisionRange')
OFF = Fold('offset_after', pick('memberOffset', lambda c, h: offset(c, trimmed(c, h))), 'MemberOffset')


def cat_of(c, h):
    k = lambda n: C19.category(c.ex, n)
    return z3.If(PROP(h, S('category')) == S('inessential'), k('inessential'), k('necessary'))


def range_fields(c, h):
    k = H(c, CHI, h)
    o = lambda n: none(c, typ(c, FSR + '::' + n))
    return {'Path': PATH(k, S('')), 'Start': START(k, o('FeatureSourceLocation')), 'End': END(k, o('FeatureSourceLocation')), 'CategoryKind': cat_of(c, h),
            'MemberOffset': OFF(k, o('FeatureMemberOffset')), 'RevisionRange': REV(k, o('FeatureRevisionRange'))}


def walk(*folds):
    def inv(L):
        h, h0 = head(L)
        define(L.ex, [tree_at(L, h)])      # an instance of the precondition
        out = [h >= 0, h < L.st1.next, z3.Implies(h > 0, RANK(h) > 0)]
        for f in folds:
            v, v0 = enc(L.ex, L.v(f.local)), enc(L.ex, L.v(f.local, entry=True))
            f.define(L, h, v)
            out.append(ng('the rest of the list', f(h, v) == f(h0, v0)))
        return out
    return Loop(inv, fn='*', match=lambda s: True, decreases=lambda L: z3.If(head(L)[0] == 0, I(0), RANK(head(L)[0])))


# ---------------------------------------------------------------- constraints and options
# what a model has been told to contain so far
BLog = z3.DeclareSort('Told')
TOLD = 'told'
CsS = z3.DeclareSort('ConstraintMeaning')
PARSES, PARSE = z3.Function('parses', S_, z3.BoolSort()), z3.Function('meaning', S_, CsS)
CSRC = z3.Function('meaning_of', N_, CsS)
KINDS = {C25.BC: 'BooleanConstraint', C25.NC: 'NonBooleanConstraint', C25.MXC: 'MixedConstraint'}
CON = {'BooleanConstraint': z3.Function('boolean_constraint', BLog, CsS, BLog), 'NonBooleanConstraint': z3.Function('non_boolean_constraint', BLog, CsS, BLog),
       'MixedConstraint': z3.Function('mixed_constraint', BLog, CsS, N_, N_, BLog)}
VMNAME, VMPATH, VMCOMMIT = (z3.Function(n, BLog, S_, BLog) for n in ('model_name', 'model_path', 'model_commit'))
CWD = z3.Const('current path', S_)
# reading a configuration option: does it succeed, what is told
OPT_OK, OPT = z3.Function('option_ok', BLog, N_, z3.BoolSort(), z3.BoolSort()), z3.Function('option', BLog, N_, z3.BoolSort(), BLog)
CP = NS + 'ConstraintParser'
FMBQ = NS + 'FeatureModelBuilder'


def told0(c):
    return sel(c.g0(TOLD), I(0))


def told1(c):
    return sel(c.g(TOLD), I(0))


def lsetup(ex):
    setup(ex)
    ct.setup(ex)
    ex.ghost_sorts[TOLD] = BLog
    ident = lambda v: v
    ex.ty.custom[CP] = (S_, lambda v: v.term, lambda t: Opaque(CP, t))


def wsetup(ex):
    lsetup(ex)
    ex.ghost_sorts[DETECTED] = z3.BoolSort()


# objects may be created
NEW = {k: (lambda r: FALSE) for k in (C25.FC, C25.MR, C25.ME)}
TELLS = {TOLD: (lambda r: r == I(0))}


def tell(n, f, **kw):
    return Contract(FMBQ + '::' + n, modifies=lambda c: TELLS, ensures=lambda c: [told1(c) == f(c, told0(c))], assumed=True, **kw)


def conkind(f):
    return f['pt'][0].targs[0].qn.split('::')[-1]


def builder():
    def con(k):
        def f(c, l):
            r = c.ref(0)
            h = lambda key: sel(c.ex.harr(c.st0, key), r)
            m = CSRC(h(C25.FC))
            return CON[k](l, m, h(C25.MR), h(C25.ME)) if k == 'MixedConstraint' else CON[k](l, m)
        return tell('addConstraint', f, pred=lambda f: conkind(f) == k)
    return [con(k) for k in CON] + [tell('setVmName', lambda c, l: VMNAME(l, c.arg(0))), tell('setPath', lambda c, l: VMPATH(l, c.arg(0))), tell('setCommit', lambda c, l: VMCOMMIT(l, c.arg(0)))]


def parser():
    val = lambda c, post: c.thisval(post).term
    return [Contract(CP + '::ConstraintParser', modifies_args=('this',), ensures=lambda c: [val(c, True) == c.arg(0)], assumed=True),
            Contract(CP + '::buildConstraint', modifies_args=('this',), ensures=lambda c: [(c.ret.ref != 0) == PARSES(val(c, False)), z3.Implies(c.ret.ref != 0, z3.And(CSRC(c.ret.ref) == PARSE(val(c, False)), c.ret.ref >= c.st0.next))], assumed=True)]


def ok(v):
    return f_(v, 'Variant').idx == 0


class Steps:
    """what the model is told by the rest of a list of nodes: step(c, h, l) -> (success, told)"""

    def __init__(self, name, step, *sorts, nextp=None):
        self.step, self.nextp = step, nextp or (lambda c, h, l, *p: p)
        self.log = z3.Function('told_' + name, N_, BLog, *sorts, BLog)
        self.good = z3.Function('ok_' + name, N_, BLog, *sorts, z3.BoolSort())

    def define(self, c, h, l, *p):
        g, m = self.step(c, h, l, *p)
        n, q = H(c, NXT, h), self.nextp(c, h, l, *p)
        define(c.ex, [self.log(I(0), l, *p) == l, self.good(I(0), l, *p), z3.Implies(h > 0, z3.And(self.log(h, l, *p) == self.log(n, m, *q), self.good(h, l, *p) == z3.And(g, self.good(n, m, *q))))])


def told_by(steps, params=lambda L: []):
    def inv(L):
        h, h0 = head(L)
        define(L.ex, [tree_at(L, h)])      # an instance of the precondition
        w = lambda st: sel(L.ex.garr(st, TOLD), I(0))
        l, l0, p = w(L.st1), w(L.st_entry), params(L)
        steps.define(L, h, l, *p)
        return [h >= 0, h < L.st1.next, z3.Implies(h > 0, RANK(h) > 0), ng('what the rest of the list tells', steps.log(h, l, *p) == steps.log(h0, l0, *p)), ng('whether the rest of the list can be read', steps.good(h, l, *p) == steps.good(h0, l0, *p))]
    return Loop(inv, fn='*', match=lambda s: True, decreases=lambda L: z3.If(head(L)[0] == 0, I(0), RANK(head(L)[0])))


def mixed(c, h, l):
    q = lambda t, n: I(dict(c.ex.prog.enums[NS + 'FeatureModel::MixedConstraint::' + t])[n])
    return CON['MixedConstraint'](l, PARSE(CONTENT(h)), z3.If(PROP(h, S('req')) == S('none'), q('Req', 'NONE'), q('Req', 'ALL')), z3.If(PROP(h, S('exprKind')) == S('neg'), q('ExprKind', 'NEG'), q('ExprKind', 'POS')))


def con_step(k):
    def step(c, h, l):
        e = element(c, h, 'constraint')
        m = mixed(c, h, l) if k == 'MixedConstraint' else CON[k](l, PARSE(CONTENT(h)))
        return z3.Implies(e, PARSES(CONTENT(h))), z3.If(e, m, l)
    return step


CONS = {k: Steps('constraints_' + k, con_step(k)) for k in CON}
OPTS = Steps('options', lambda c, h, l, n: (z3.Implies(element(c, h, 'configurationOption'), OPT_OK(l, h, n)), z3.If(element(c, h, 'configurationOption'), OPT(l, h, n), l)), z3.BoolSort())


def section(c, h, l):
    """one part of the document"""
    g, m = TRUE, l
    k = H(c, CHI, h)
    for tag, s, p in [('mixedConstraints', CONS['MixedConstraint'], ()), ('nonBooleanConstraints', CONS['NonBooleanConstraint'], ()), ('booleanConstraints', CONS['BooleanConstraint'], ()), ('numericOptions', OPTS, (TRUE,)), ('binaryOptions', OPTS, (FALSE,))]:
        e = element(c, h, tag)
        g, m = z3.If(e, s.good(k, l, *p), g), z3.If(e, s.log(k, l, *p), m)
    return g, m


VM = Steps('sections', section)


def reads(fname, good, log, requires=lambda c: [], **kw):
    return Contract(P_ + '::' + fname, requires=lambda c: [node(c) > 0, node(c) < c.st0.next] + tree(c) + requires(c), modifies=lambda c: {**TELLS, **NEW},
                    ensures=lambda c: [ng('success', ok(c.ret) == good(c, told0(c))), ng('what is told', z3.Implies(ok(c.ret), told1(c) == log(c, told0(c))))], **kw)


def head_told(c, n, l):
    """what the root element n says itself"""
    p, q = PROP(n, S('root')), PROP(n, S('commit'))
    t = models.TRIM
    no = lambda s: s == models.NULLTEXT
    return VMCOMMIT(VMPATH(VMNAME(l, t(PROP(n, S('name')))), z3.If(no(p), CWD, t(p))), z3.If(no(q), S(''), t(q)))


def listers():
    kids = lambda c: H(c, CHI, node(c))
    cons = [reads('parseConstraints', lambda c, l, k=k: CONS[k].good(kids(c), l), lambda c, l, k=k: CONS[k].log(kids(c), l), loops=[told_by(CONS[k])], name=P_ + '::parseConstraints<%s>' % k, pred=lambda f, k=k: '::' + k in str(f.get('targs') or f['fqn'])) for k in CON]
    num = lambda L: [L.arg(1)]
    opts = reads('parseOptions', lambda c, l: OPTS.good(kids(c), l, c.arg(1)), lambda c, l: OPTS.log(kids(c), l, c.arg(1)), loops=[told_by(OPTS, num)])
    opt = reads('parseConfigurationOption', lambda c, l: OPT_OK(l, node(c), c.arg(1)), lambda c, l: OPT(l, node(c), c.arg(1)), assumed=True)

    vm = reads('parseVm', lambda c, l: VM.good(kids(c), head_told(c, node(c), l)), lambda c, l: VM.log(kids(c), head_told(c, node(c), l)), lambda c: [PROP(node(c), S('name')) != models.NULLTEXT], loops=[told_by(VM)])
    return cons, opts, opt, vm


# ---------------------------------------------------------------- one configuration option
CB, SP, RX, MR_, SM_ = NS + 'ConstraintBuilder', NS + 'StepFunctionParser', 'std::basic_regex', 'std::match_results', 'std::sub_match'
BuS, StS, MaS = z3.DeclareSort('Builder'), z3.DeclareSort('StepMeaning'), z3.DeclareSort('Match')
B0 = z3.Const('empty builder', BuS)
BFEAT, BEXC, BIMP = z3.Function('then_feature', BuS, S_, BuS), z3.Function('then_excludes', BuS, BuS), z3.Function('then_implies', BuS, BuS)
BUILT = z3.Function('built', BuS, CsS)
STEP, STEPOF = z3.Function('step_meaning', S_, StS), z3.Function('step_meaning_of', N_, StS)
NUMBERS = S('-?\\d+')
FOUND, MATCH = z3.Function('found', S_, S_, z3.BoolSort()), z3.Function('match_of', S_, S_, MaS)
MSTR, MREST = z3.Function('match_text', MaS, S_), z3.Function('match_rest', MaS, S_)
PINTF = C03.PINT
EDGE = z3.Function('edge', BLog, S_, S_, BLog)
ROOTOPT = z3.Function('root_feature', BLog, S_, BLog)
HASPAR, PARENT = z3.Function('has_parent', BLog, S_, z3.BoolSort()), z3.Function('parent_name', BLog, S_, S_)
VECT = 'std::vector<%s, std::allocator<%s>>'


def osetup(ex):
    lsetup(ex)
    models.SAME_EMPTY[:] = [1]
    ex.ghost_sorts[TOLD] = BLog
    for q, srt in ((CB, BuS), (SP, S_), (RX, S_), (MR_, MaS), (SM_, S_)):
        ex.ty.custom[q] = (srt, lambda v: v.term, lambda t, q=q: Opaque(q, t))


@models.M.ctor(RX)
def _(ex, st, c):
    v = models.val(ex, st, c.args[0])
    if not isinstance(v, z3.SeqRef):
        raise Unsupported('regular expression from %s' % type(v).__name__)
    return models.ret(st, Opaque(RX, v))


@models.M.ctor(MR_)
def _(ex, st, c):
    if c.args and isinstance(models.val(ex, st, c.args[0]), Opaque):
        return models.ret(st, models.val(ex, st, c.args[0]))
    return models.ret(st, Opaque(MR_, z3.Const(fresh_name('match'), MaS)))


def val_of(v):
    if not isinstance(v, Opaque):
        raise Unsupported('unexpected %s' % type(v).__name__)
    return v.term


def tools():
    A = lambda n, ens, **kw: Contract(n, ensures=ens, assumed=True, **kw)
    this, post = (lambda c: val_of(c.thisval())), (lambda c: val_of(c.thisval(True)))
    me = lambda c: c.this_v.lv
    on = lambda n, f: A(CB + '::' + n, lambda c: [post(c) == f(c)], modifies_args=('this',), result=me)
    made = lambda src, f: (lambda c: [c.ret.ref > 0, f(c.ret.ref) == src(c), c.ret.ref >= c.st0.next])
    return [A(CB + '::ConstraintBuilder', lambda c: [post(c) == B0], modifies_args=('this',)),
            on('feature', lambda c: BFEAT(this(c), c.arg(0))), on('excludes', lambda c: BEXC(this(c))), on('implies', lambda c: BIMP(this(c))),
            A(CB + '::build', made(lambda c: BUILT(this(c)), CSRC), modifies_args=('this',)),
            A(SP + '::StepFunctionParser', lambda c: [post(c) == c.arg(0)], modifies_args=('this',)),
            A(SP + '::buildStepFunction', lambda c: [STEPOF(c.ret.ref) == STEP(this(c)), c.ret.ref >= 0], modifies_args=('this',)),
            A(NS + 'parseInteger', lambda c: [c.ret == PINTF(c.arg(0))]),
            A('std::regex_search', lambda c: [c.ret == FOUND(val_of(c.arg(2)), c.arg(0)), val_of(c.arg(1, True)) == MATCH(val_of(c.arg(2)), c.arg(0)),
                                              z3.Implies(z3.And(val_of(c.arg(2)) == NUMBERS, c.ret), z3.Length(MREST(MATCH(NUMBERS, c.arg(0)))) < z3.Length(c.arg(0)))], modifies_args=(1,)),
            A(MR_ + '::str', lambda c: [c.ret == MSTR(this(c))]), A(MR_ + '::suffix', lambda c: [], result=lambda c: Opaque(SM_, MREST(this(c)))),
            A(SM_ + '::operator basic_string', lambda c: [c.ret == this(c)])]


def pushed(ex, v, z):
    """an encoded vector with one more element"""
    d = v.sort()
    a, lo, hi = (d.accessor(0, i)(v) for i in range(3))
    return d.constructor(0)(z3.Store(a, hi, z), lo, hi + 1)


def made_features():
    def f(cls, nargs):
        def told(c, l):
            vs = [enc(c.ex, c.arg(i)) if not (isinstance(c.arg(i), Ptr)) else STEPOF(c.arg(i).ref) for i in range(len(c.f['pt']))]
            return feature_told(cls, l, vs)
        return tell('makeFeature', told, pred=lambda f: str(f['targs'][0]).split('::')[-1] == cls and len(f['pt']) == nargs, name=FMBQ + '::makeFeature<%s>' % cls)
    return [f('BinaryFeature', 4), f('NumericFeature', 6)]


def feature_told(cls, l, vs):
    return z3.Function('%s_%s' % (cls, clean(str(vs[1].sort()))), BLog, *[v.sort() for v in vs], BLog)(l, *vs)


def is_text(c, h):
    return z3.And(H(c, TYP, h) == ELEMENT, models.TRIM(CONTENT(h)) != S(''))


def filled(tag, value, more=None):
    return lambda c, h, acc: z3.If(z3.And(is_text(c, h), H(c, NAM, h) == S(tag), *([more(c)] if more else [])), value(c, h, acc), acc)


NUM = lambda c: c.arg(1)
LISTTAGS = ('children', 'excludedOptions', 'impliedOptions')
ONAME = Fold('name_after', filled('name', lambda c, h, a: trimmed(c, h)), 'Name')
OOUT = Fold('output_after', filled('outputString', lambda c, h, a: models.LTRIM(CONTENT(h))), 'OutputString')
OOPT = Fold('optional_after', filled('optional', lambda c, h, a: trimmed(c, h) == S('True')), 'Opt')
OMIN = Fold('minimum_after', filled('minValue', lambda c, h, a: PINTF(trimmed(c, h)), NUM), 'MinValue')
OMAX = Fold('maximum_after', filled('maxValue', lambda c, h, a: PINTF(trimmed(c, h)), NUM), 'MaxValue')


def numbers_in(s, acc):
    return z3.Function('numbers_in', S_, acc.sort(), acc.sort())(s, acc)


OVAL = Fold('values_after', filled('values', lambda c, h, a: numbers_in(trimmed(c, h), a), NUM), 'Values')


def range_of(c, h):
    t = typ(c, FSR)
    d = range_fields(c, h)
    return c.ex.ty.sort(t).constructor(0)(*[d[k.split('::')[-1]] for k, _, _ in c.ex.prog.all_fields(t)])


# locations listed below a node
KRNG = Fold('ranges_below_after', lambda c, h, a: z3.If(element(c, h, 'sourceRange'), pushed(c.ex, a, range_of(c, h)), a), 'SourceRanges')
ORNG = Fold('ranges_after', filled('locations', lambda c, h, a: KRNG(H(c, CHI, h), a)), 'SourceRanges')
OSTEP = Fold('step_after', filled('stepFunction', lambda c, h, a: STEP(trimmed(c, h)), NUM), 'Step')
FOLDS = (ONAME, OOUT, OOPT, OMIN, OMAX, OVAL, ORNG, OSTEP)


def listed(c, h, l, name, tag):
    """a name listed below a node called tag"""
    t = trimmed(c, h)
    e = element(c, h, 'options')
    con = lambda op: CON['BooleanConstraint'](l, BUILT(BFEAT(op(BFEAT(B0, name)), t)))
    g = z3.Implies(z3.And(e, tag == S('children')), z3.Or(z3.Not(HASPAR(l, t)), PARENT(l, t) == name))
    return g, z3.If(e, z3.If(tag == S('children'), EDGE(l, name, t), z3.If(tag == S('excludedOptions'), con(BEXC), con(BIMP))), l)


KLOG = Steps('listed', listed, S_, S_)


def option_step(c, h, l, name):
    t, n = trimmed(c, h), H(c, NAM, h)
    k = H(c, CHI, h)
    lst = z3.Or(*[n == S(q) for q in LISTTAGS])
    x = is_text(c, h)
    par = n == S('parent')
    g = z3.If(par, z3.Or(z3.Not(HASPAR(l, name)), PARENT(l, name) == t), z3.Implies(lst, KLOG.good(k, l, name, n)))
    return z3.Implies(x, g), z3.If(x, z3.If(par, EDGE(l, t, name), z3.If(lst, KLOG.log(k, l, name, n), l)), l)


OLOG = Steps('option', option_step, S_, nextp=lambda c, h, l, name: (ONAME.step(c, h, name),))


def local(L, n, entry=False):
    v = L.v(n, entry=entry)
    return STEPOF(v.ref) if isinstance(v, Ptr) else enc(L.ex, v)


def nodes(L):
    """the nodes that loops have reached, outermost first"""
    ls = [lv for lv in L.st_entry.frame.env.values() if isinstance(lv, LV) and lv.kind == 'cell' and not lv.path and lv.t is not None and lv.t.k == 'ptr' and 'xmlNode' in lv.t.s]
    g = lambda st, lv: (lambda v: v.ref if hasattr(v, 'ref') else v)(L.ex.load(st, lv))
    return [(g(L.st1, lv), g(L.st_entry, lv)) for lv in ls]


def option_loop():
    def inv(L):
        ex = L.ex
        ns = nodes(L)
        names = [ex.varnames.get(k) for k in L.st_entry.frame.env]
        if 'Suffix' in names:
            s, s0, v, v0 = local(L, 'Suffix'), local(L, 'Suffix', True), local(L, 'Values'), local(L, 'Values', True)
            m = MATCH(NUMBERS, s)
            define(ex, [numbers_in(s, v) == z3.If(FOUND(NUMBERS, s), numbers_in(MREST(m), pushed(ex, v, PINTF(MSTR(m)))), v)])
            return [ng('the numbers in the rest of the text', numbers_in(s, v) == numbers_in(s0, v0))]
        w = lambda st: sel(ex.garr(st, TOLD), I(0))
        l, l0 = w(L.st1), w(L.st_entry)
        h, h0 = ns[-1]
        define(ex, [tree_at(L, h), tree_at(L, h0)])
        out = [h >= 0, h < L.st1.next, z3.Implies(h > 0, RANK(h) > 0)]
        if len(ns) == 2:      # the elements of the option
            n, n0 = local(L, 'Name'), local(L, 'Name', True)
            OLOG.define(L, h, l, n)
            for f in FOLDS:
                v, v0 = local(L, f.local), local(L, f.local, True)
                f.define(L, h, v)
                out.append(ng('the rest of the list: ' + f.name, f(h, v) == f(h0, v0)))
            return out + [ng('what the rest of the option tells', OLOG.log(h, l, n) == OLOG.log(h0, l0, n0)), ng('whether the rest of the option can be read', OLOG.good(h, l, n) == OLOG.good(h0, l0, n0))]
        if len(ns) != 3:
            raise Unsupported('%d positions in lists of nodes' % len(ns))
        n, tag = local(L, 'Name'), H(L, NAM, ns[-2][0])
        v, v0 = local(L, 'SourceRanges'), local(L, 'SourceRanges', True)
        KLOG.define(L, h, l, n, tag)
        KRNG.define(L, h, v)
        inl, loc = z3.Or(*[tag == S(q) for q in LISTTAGS]), tag == S('locations')
        return out + [ng('what the rest of the listed tells', z3.Implies(inl, KLOG.log(h, l, n, tag) == KLOG.log(h0, l0, n, tag))), ng('whether the rest of the listed can be read', z3.Implies(inl, KLOG.good(h, l, n, tag) == KLOG.good(h0, l0, n, tag))),
                      ng('nothing else is told', z3.Implies(z3.Not(inl), l == l0)), ng('the rest of the locations', z3.Implies(loc, KRNG(h, v) == KRNG(h0, v0))), ng('no other locations', z3.Implies(z3.Not(loc), v == v0))]

    def dec(L):
        if 'Suffix' in [L.ex.varnames.get(k) for k in L.st_entry.frame.env]:
            return z3.Length(L.v('Suffix'))
        h = nodes(L)[-1][0]
        return z3.If(h == 0, I(0), RANK(h))
    return Loop(inv, fn='*', match=lambda s: True, decreases=dec)


def option_reader():
    """the definition of reading a configuration option"""
    def parts(c):
        t = lambda n: c.ex.prog.types[n]
        empty = lambda et: c.ex.ty.vec_dt(et)
        return t, empty

    def final(c, l):
        h = H(c, CHI, node(c))
        num = c.arg(1)
        v0, r0 = VALS0(c), RANGES0(c)
        name = ONAME(h, S('root'))
        out, opt, lo, hi = OOUT(h, S('')), OOPT(h, FALSE), OMIN(h, I(0)), OMAX(h, I(0))
        vals, rng, step = OVAL(h, v0), ORNG(h, r0), OSTEP(h, STEPOF(I(0)))
        m = OLOG.log(h, l, S('root'))
        d = vals.sort()
        pt = c.ex.ty.tup_dt([typ(c, 'long'), typ(c, 'long')])
        isroot = z3.Or(name == S('root'), name == S('base'))
        bounds = feature_told('NumericFeature', m, [name, pt.constructor(0)(lo, hi), opt, rng, out, step])
        listv = feature_told('NumericFeature', m, [name, vals, opt, rng, out, step])
        nov = d.accessor(0, 2)(vals) == d.accessor(0, 1)(vals)
        return OLOG.good(h, l, S('root')), z3.If(isroot, ROOTOPT(m, name), z3.If(num, z3.If(nov, bounds, listv), feature_told('BinaryFeature', m, [name, opt, rng, out])))
    return reads('parseConfigurationOption', lambda c, l: final(c, l)[0], lambda c, l: final(c, l)[1], loops=[option_loop()], maxpaths=20000)


def empty_vec(c, et):
    d = c.ex.ty.vec_dt(et)
    return d.constructor(0)(z3.Const('no elements ' + et.name, z3.ArraySort(z3.IntSort(), c.ex.ty.sort(et))), I(0), I(0))


VALS0 = lambda c: empty_vec(c, typ(c, 'long'))
RANGES0 = lambda c: empty_vec(c, typ(c, FSR))


def groups(P):
    req = lambda c: [node(c) > 0, node(c) < c.st0.next] + tree(c)
    same = lambda c, v, z: enc(c.ex, v) == z
    loc = Contract(P_ + '::createFeatureSourceLocation', requires=req, loops=[walk(LINE, COL)], ensures=lambda c: [ng('line and column', same(c, c.ret, loc_of(c, node(c))))])
    rev = Contract(P_ + '::createFeatureRevisionRange', requires=req, loops=[walk(INTRO, REMO)], ensures=lambda c: [ng('introduced and removed', same(c, c.ret, rev_of(c, node(c))))])
    off = Contract(FSR + '::FeatureMemberOffset::createFeatureMemberOffset', ensures=lambda c: [same(c, c.ret, offset(c, c.arg(0)))], assumed=True)
    cat = lambda c: [categorised(node(c))]
    rng = Contract(P_ + '::createFeatureSourceRange', requires=lambda c: req(c) + cat(c), loops=[walk(PATH, START, END, REV, OFF)],
                   ensures=lambda c: [ng('the ' + k, same(c, f_(c.ret, k), z)) for k, z in range_fields(c, node(c)).items()])
    cons, opts, opt, vm = listers()
    orr = option_reader()
    obuilder = [tell('addEdge', lambda c, l: EDGE(l, c.arg(0), c.arg(1))), tell('makeRoot', lambda c, l: ROOTOPT(l, c.arg(0))),
                Contract(FMBQ + '::getParentName', ensures=lambda c: [c.ret.has == HASPAR(told0(c), c.arg(0)), z3.Implies(c.ret.has, c.ret.val == PARENT(told0(c), c.arg(0)))], assumed=True)]
    cwd = Contract('std::filesystem::current_path', ensures=lambda c: [c.ret == CWD], assumed=True)
    fea = I(dict(P.enums[NS + 'FeatureTreeNode::NodeKind'])['NK_FEATURE'])
    first, _, _, _, fs = C12.others(fea)
    it = first + [C25.with_lemma(C12.contracts()[0]), fs]
    alts = [[alternatives(fea)]]
    asked = Contract(NS + 'detectExclude', result=lambda c: EXC(c.ref(0), c.ref(1)), allocates=False, assumed=True)
    calls, build = whole()
    return [Group('model', calls + [documents()[1][0], vm, build], units=[build], setup=wsetup, objects=OBJECTS + [o for o in C19.OBJECTS if o != NS + 'FeatureModelXmlWriter'] + [P_, NS + 'FeatureModel']),
            Group('alternatives', alts[0] + transaction() + [altkids(), asked] + it, units=[alts[0][0]], setup=altsetup, objects=C19.OBJECTS),
            Group('sections', api() + builder() + parser() + cons + [opts, opt, vm, cwd], units=cons + [opts, vm], setup=lsetup, objects=OBJECTS + [o for o in C19.OBJECTS if o != NS + 'FeatureModelXmlWriter'] + [P_]),
            Group('options', api() + builder() + obuilder + made_features() + tools() + [rng, orr], units=[orr], setup=osetup, objects=OBJECTS + [o for o in C19.OBJECTS if o != NS + 'FeatureModelXmlWriter'] + [P_]),
            Group('exclusions', [excluder()], units=[excluder()], setup=C19.setup, objects=C19.OBJECTS),
            Group('documents', documents()[0] + documents()[1], units=documents()[1], setup=setup, objects=OBJECTS + [P_, '_xmlParserCtxt']),
            Group('locations', api() + [loc, rev, off, rng], units=[loc, rev, rng], setup=setup, objects=OBJECTS)]


def accepted(s):
    return z3.And(READ(s) != 0, WELL(s), CONFORMS(READ(s), DTD))


def documents():
    """what is accepted as a document"""
    dtd = [Contract(P_ + '::createDtd', ensures=lambda c: [c.ret.ref == DTD, DTD > 0, DTD < c.st1.next], assumed=True)]
    ctx = [Contract('xmlNewParserCtxt', ensures=lambda c: [c.ret.ref > 0, c.ret.ref >= c.st0.next, c.ret.ref < c.st1.next], assumed=True),
           Contract('xmlCtxtReadMemory', requires=lambda c: [c.ref(0) > 0, ng('the whole text', c.arg(2) == z3.Length(text(c, 1)))],
                    modifies=lambda c: {VALID: lambda r: r == c.ref(0)},
                    ensures=lambda c: [c.ret.ref == READ(text(c, 1)), c.ret.ref >= 0, c.ret.ref < c.st1.next, (sel(c.ex.harr(c.st1, VALID), c.ref(0)) != 0) == WELL(text(c, 1))], assumed=True),
           Contract('xmlValidateDtd', ensures=lambda c: [(c.ret != 0) == CONFORMS(c.ref(1), c.ref(2))], assumed=True)]
    ctx.append(Contract('xmlCleanupParser', assumed=True))
    doc = Contract(P_ + '::parseDoc', requires=lambda c: [c.this > 0, c.this < c.st0.next, z3.Length(H(c, XML, c.this)) < 2**31], modifies=lambda c: {VALID: lambda r: FALSE},
                   ensures=lambda c: [ng('the document if it conforms to the DTD', c.ret.ref == z3.If(accepted(H(c, XML, c.this)), READ(H(c, XML, c.this)), I(0)))])
    verify = Contract(P_ + '::verifyFeatureModel', requires=doc.requires, modifies=lambda c: {VALID: lambda r: FALSE}, ensures=lambda c: [ng('what conforms to the DTD is accepted', ok(c.ret) == accepted(H(c, XML, c.this)))])
    return ctx + dtd, [doc, verify]


ROOTEL = z3.Function('root_element', N_, N_)
BUILDS, MADE = z3.Function('can_be_built', BLog, z3.BoolSort()), z3.Function('model_told', N_, BLog)
DETECTED = 'alternatives detected'


def whole():
    """reading a document as a model"""
    root = Contract('xmlDocGetRootElement', ensures=lambda c: [c.ret.ref == ROOTEL(c.ref(0)), c.ret.ref >= 0, c.ret.ref < c.st1.next, z3.Implies(CONFORMS(c.ref(0), DTD), z3.And(c.ret.ref > 0, PROP(c.ret.ref, S('name')) != models.NULLTEXT))], assumed=True)
    made = Contract(FMBQ + '::buildFeatureModel', ensures=lambda c: [(c.ret.ref != 0) == BUILDS(told0(c)), c.ret.ref >= 0, z3.Implies(c.ret.ref != 0, z3.And(c.ret.ref >= c.st0.next, MADE(c.ret.ref) == told0(c)))], assumed=True)
    alts = Contract(P_ + '::detectXMLAlternatives', modifies=lambda c: {DETECTED: lambda r: r == c.ref(0)}, ensures=lambda c: [sel(c.g(DETECTED), c.ref(0))], assumed=True)

    def said(c):
        d = READ(H(c, XML, c.this))
        n = ROOTEL(d)
        l = head_told(c, n, told0(c))
        k = H(c, CHI, n)
        log = VM.log(k, l)
        return log, z3.And(accepted(H(c, XML, c.this)), VM.good(k, l), BUILDS(log))

    def ens(c):
        log, good = said(c)
        r = c.ret.ref
        return [ng('a model exactly if the document says so', (r != 0) == good), ng('the model is what the document tells', z3.Implies(r != 0, MADE(r) == log)), ng('with alternatives', z3.Implies(r != 0, sel(c.g(DETECTED), r)))]
    doc = documents()[1][0]
    build = Contract(P_ + '::buildFeatureModel', requires=lambda c: doc.requires(c) + tree(c), modifies=lambda c: {**TELLS, **NEW, VALID: lambda r: FALSE, DETECTED: lambda r: TRUE}, ensures=ens)
    return [root, made, alts], build



# ---------------------------------------------------------------- alternatives
SetS = C19.SetS
# f excludes g by a constraint over the two features alone; the features below f; the features told to become alternatives
EXC = z3.Function('excludes', N_, N_, z3.BoolSort())
y = z3.Int('y!c20')


def excludes_by(c, a, b):
    """one of the constraints listed with feature a says that it excludes feature b"""
    ex, st = c.ex, c.st0
    w = C19.vecf(ex, st, C19.FEX, a)
    e = sel(w.arr, y)
    l, r = sel(ex.harr(st, ct.BL), e), sel(ex.harr(st, ct.BR), e)
    kk = ct.K(ex.prog)('CK_FEATURE')
    kd, nm = ex.harr(st, ct.CK), ex.harr(st, NM)
    fl, fr = (ct.feat_of(ex, sel(ex.harr(st, ct.FV), o))[1] for o in (l, r))
    hit = z3.And(sel(kd, l) == kk, sel(kd, r) == kk, fl != 0, sel(nm, fl) == sel(nm, a), fr != 0, sel(nm, fr) == sel(nm, b))
    return z3.Exists([y], z3.And(y >= w.lo, y < w.hi, hit), patterns=[z3.Select(w.arr, y)])


def excluder():
    def req(c):
        ex, st, a = c.ex, c.st0, c.ref(0)
        w = C19.vecf(ex, st, C19.FEX, a)
        e = sel(w.arr, y)
        l, r = sel(ex.harr(st, ct.BL), e), sel(ex.harr(st, ct.BR), e)
        define(ex, [EXC(a, c.ref(1)) == excludes_by(c, a, c.ref(1))])
        typed = [e > 0, e < st.next]
        for o in (l, r):
            fv, kd = sel(ex.harr(st, ct.FV), o), sel(ex.harr(st, ct.CK), o)
            d = ct.feat_of(ex, fv)[0]
            typed += [o > 0, o < st.next, kd >= 0, kd <= max(n for _, n in ex.prog.enums[NS + 'Constraint::ConstraintKind'])] + [z3.Implies(d.recognizer(j)(fv), z3.And(d.accessor(j, 0)(fv) >= 0, d.accessor(j, 0)(fv) < st.next)) for j in (0, 1)]
        return [a > 0, a < st.next, c.ref(1) > 0, c.ref(1) < st.next, w.lo == 0, w.hi >= 0, z3.ForAll([y], z3.Implies(z3.And(y >= w.lo, y < w.hi), z3.And(*typed)), patterns=[z3.Select(w.arr, y)])]
    return Contract(NS + 'detectExclude', requires=req, ensures=lambda c: [ng('is the exclusion listed', c.ret == EXC(c.ref(0), c.ref(1)))])


def alternative(c, f):
    """the features below f, of which there is more than one, are mandatory and exclude each other"""
    k = KIDSET(f)
    opt = c.heap0(C19.FOP)
    a, b = z3.Ints('a!alt b!alt')
    return z3.And(KC(k) > 1, z3.ForAll([a], z3.Implies(sel(k, a), z3.Not(sel(opt, a))), patterns=[sel(k, a)]), z3.ForAll([a, b], z3.Implies(z3.And(sel(k, a), sel(k, b)), z3.Or(a == b, z3.And(EXC(a, b), EXC(b, a)))), patterns=[z3.MultiPattern(sel(k, a), sel(k, b))]))


def alternatives(fea):
    """the groups that are detected"""
    A = z3.Function('is_alternative', N_, z3.BoolSort())
    alts = lambda ex, st: ex.garr(st, ALTS)

    def inv(L):
        ex = L.ex
        v = View(ex, L.st0, L.ref(0))
        b, e = (C12.Iter(ex, L.v(n)) for n in [next(n for n in ex.varnames.values() if n.startswith(p) and any(ex.varnames.get(q) == n for q in L.st1.frame.env)) for p in ('__begin', '__end')])
        now, ent = alts(ex, L.st1), alts(ex, L.st_entry)
        define(ex, [A(b.top) == alternative(L, b.top)])
        end = z3.Implies(b.done, z3.ForAll([x], b.visited(x) == z3.And(v.mem(x), v.isf(x)), patterns=[z3.Select(b.seen, x), z3.Select(v.mem_a, x)]))
        return b.inv(v) + [C25.exhausted(v, b), end, e.done, ng('exactly the alternatives among the visited features are told', z3.ForAll([x], z3.Implies(x < L.st0.next, sel(now, x) == z3.Or(sel(ent, x), z3.And(b.visited(x), A(x)))), patterns=[z3.Select(now, x)]))]

    def req(c):
        v = View(c.ex, c.st0, c.ref(0))
        return [C12.GM == c.ref(0), c.ref(0) > 0, c.ref(0) < c.st0.next] + C12.wf(v)

    def ens(c):
        v = View(c.ex, c.st0, c.ref(0))
        now, ent = alts(c.ex, c.st1), alts(c.ex, c.st0)
        return [ng('exactly the alternatives of the model are told', z3.ForAll([x], z3.Implies(x < c.st0.next, sel(now, x) == z3.Or(sel(ent, x), z3.And(v.mem(x), v.isf(x), A(x)))), patterns=[z3.Select(now, x)])), ng('they are committed', sel(c.g(DONE), I(0)))]
    return Contract(P_ + '::detectXMLAlternatives', requires=req, modifies=lambda c: {ALTS: lambda r: TRUE, DONE: lambda r: TRUE}, ensures=ens, loops=[Loop(inv, fn=P_ + '::detectXMLAlternatives', match=lambda s: True)], axioms=vec_axioms() + C24.pf_axioms(fea))


TXN = NS + 'FeatureModelTransaction'


def transaction():
    """a transaction keeps what it is asked for (C08)"""
    kind = lambda c: dict(c.ex.prog.enums[NS + 'Relationship::RelationshipKind'])['RK_ALTERNATIVE']

    def target(c):
        v = c.arg(1)
        v = c.ex.load(c.st0, v.lv if isinstance(v, PPtr) else v) if isinstance(v, (LV, PPtr)) else v
        return v.vals[-1].ref if hasattr(v.vals[-1], 'ref') else v.vals[-1]
    A = lambda n, **kw: Contract(TXN + '::' + n, assumed=True, allocates=False, **kw)
    return [A('openTransaction'), A('~FeatureModelTransaction', modifies_args=('this',)),
            A('addRelationship', requires=lambda c: [ng('only alternatives are made', c.arg(0) == I(kind(c)))], modifies_args=('this',), modifies=lambda c: {ALTS: (lambda r: r == target(c)), DONE: (lambda r: r == I(0))},
              ensures=lambda c: [sel(c.g(ALTS), target(c)), z3.Not(sel(c.g(DONE), I(0)))]),
            A('commit', modifies_args=('this',), modifies=lambda c: {DONE: (lambda r: r == I(0))}, ensures=lambda c: [sel(c.g(DONE), I(0))])]


def altkids():
    """getChildren (C07) gives the features below"""
    return Contract(C07.FTN + '::getChildren', name='getChildren<Feature>', allocates=False, pred=lambda f: C07.targ(f) == 'Feature', ensures=lambda c: [c.ret.arr == KIDSET(c.this), KC(KIDSET(c.this)) >= 0, z3.ForAll([x], z3.Implies(sel(KIDSET(c.this), x), z3.And(x > 0, x < c.st0.next)), patterns=[z3.Select(KIDSET(c.this), x)])], assumed=True)


def altsetup(ex):
    models.SET_PATTERNS[:] = [1]
    C19.C25_setup(ex)
    ex.ghost_sorts[ALTS] = ex.ghost_sorts[DONE] = z3.BoolSort()
    ex.ty.custom[TXN] = (z3.IntSort(), lambda v: v.term, lambda t: Opaque(TXN, t))




KIDSET = z3.Function('set_below', N_, SetS)
ALTS, DONE = 'alternatives', 'committed'
KC = z3.Function('card<%s>' % SetS, SetS, z3.IntSort())

HARNESS = 'c20'
SECONDS = 12
ASSUMPTIONS = ['libxml2 reads a text into a finite tree of nodes, gives the text of a node and of an attribute (null if absent), and xmlValidateDtd tells whether a document conforms to a document type; a document that conforms has a named vm and categories that are necessary or inessential',
               'the builder keeps what it is told (its methods are recorded as a log; what becomes of it is C07, C08 and C25), getParentName answers from that log',
               'a transaction leaves the model alone until it is committed and then makes the groups it was asked for (C08), getChildren gives the features below (C07)',
               'the meaning of the text of a constraint is that of C03, of a step function and of a member offset that of C22; parsing a constraint depends on its text only',
               'std::regex_search finds the first match of a fixed expression, which is not empty; atoi is a function of the text',
               'texts contain no NUL characters and are shorter than 2 GiB']
BOUNDED = 'models read from random documents of up to 8 options and from ill-formed documents are compared with what the document says, including alternatives (not counted as proved)'
