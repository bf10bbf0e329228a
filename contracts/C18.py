"""C18: configuration options keep the value they were given, in its most specific type; a configuration is a faithful
map from names to options."""
import z3
from values import *
from ex import Contract, Loop, I, TRUE, FALSE, sel, fa
from runner import Group
import models

NS = 'vara::feature::'
CO = NS + 'ConfigurationOption'
CF = NS + 'Configuration'
NAME, VALUE, MAPF = CO + '::Name', CO + '::Value', CF + '::OptionMappings'
S = z3.StringVal


def vdt(ex):
    return ex.ty.var_dt(ex.field_type(VALUE).targs)


def spec_value(ex, s):
    """the most specific value a text stands for"""
    d = vdt(ex)
    low = models.LOWER(s)
    n = models.INT_VAL(s, I(0))
    ok = z3.And(models.INT_OK(s, I(0)), n >= -(1 << 63), n < (1 << 63))
    return z3.If(low == S('true'), d.constructor(0)(TRUE), z3.If(low == S('false'), d.constructor(0)(FALSE),
                 z3.If(ok, d.constructor(1)(n), d.constructor(2)(s))))


def itoa(v):
    return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(S('-'), z3.IntToStr(-v)))


def spec_text(ex, v):
    d = vdt(ex)
    return z3.If(d.recognizer(0)(v), z3.If(d.accessor(0, 0)(v), S('true'), S('false')),
                 z3.If(d.recognizer(1)(v), itoa(d.accessor(1, 0)(v)), d.accessor(2, 0)(v)))


def H(c, key, post=False):
    return c.heap(key) if post else c.heap0(key)


def mp(c, post=False):
    ex = c.ex
    t = ex.field_type(MAPF)
    d = ex.ty.sort(t)
    m = sel(H(c, MAPF, post), c.this)
    return d.accessor(0, 0)(m), d.accessor(0, 1)(m)


def opts_alloc(c, post=False):
    """every stored option exists"""
    st = c.st1 if post else c.st0
    dom, arr = mp(c, post)
    n = z3.String('n!opt')
    return fa([n], z3.Implies(z3.Select(dom, n), z3.And(z3.Select(arr, n) > 0, z3.Select(arr, n) < st.next)), z3.Select(dom, n))


def groups(P):
    val0 = lambda c: sel(c.heap0(VALUE), c.this)
    opt = [
        Contract(CO + '::ConfigurationOption', pred=lambda f: f.get('ctor') == 'other',
                 modifies=lambda c: {NAME: lambda r: r == c.this, VALUE: lambda r: r == c.this},
                 ensures=lambda c: [sel(c.heap(NAME), c.this) == c.arg(0), sel(c.heap(VALUE), c.this) == spec_value(c.ex, c.arg(1))]),
        Contract(CO + '::name', ensures=lambda c: [c.ret == sel(c.heap0(NAME), c.this)]),
        Contract(CO + '::isBool', ensures=lambda c: [c.ret == vdt(c.ex).recognizer(0)(val0(c))]),
        Contract(CO + '::isInt', ensures=lambda c: [c.ret == vdt(c.ex).recognizer(1)(val0(c))]),
        Contract(CO + '::isString', ensures=lambda c: [c.ret == vdt(c.ex).recognizer(2)(val0(c))]),
    ]
    for i, m in enumerate(('boolValue', 'intValue', 'stringValue')):
        def ens(c, i=i):
            d = vdt(c.ex)
            return [c.ret.has == d.recognizer(i)(val0(c)), z3.Implies(c.ret.has, c.ret.val == d.accessor(i, 0)(val0(c)))]
        opt.append(Contract(CO + '::' + m, ensures=ens))
    opt.append(Contract(CO + '::asString', ensures=lambda c: [c.ret == spec_text(c.ex, val0(c))]))
    opt.append(Contract(CO + '::toString',
                        ensures=lambda c: [c.ret == z3.Concat(sel(c.heap0(NAME), c.this), S(': '), spec_text(c.ex, val0(c)))]))

    def put(c, name):
        d0, a0 = mp(c)
        d1, a1 = mp(c, True)
        return d0, a0, d1, a1, name
    only = lambda c: {MAPF: lambda r: r == c.this, NAME: lambda r: FALSE, VALUE: lambda r: FALSE}
    conf = [
        Contract(CF + '::addConfigurationOption',
                 requires=lambda c: [opts_alloc(c), c.ref(0) > 0],
                 modifies=only,
                 ensures=lambda c: [opts_alloc(c, True),
                                    mp(c, True)[0] == z3.Store(mp(c)[0], sel(c.heap0(NAME), c.ref(0)), TRUE),
                                    mp(c, True)[1] == z3.Store(mp(c)[1], sel(c.heap0(NAME), c.ref(0)), c.ref(0))]),
        Contract(CF + '::setConfigurationOption',
                 requires=lambda c: [opts_alloc(c)],
                 modifies=only,
                 ensures=lambda c: [opts_alloc(c, True),
                                    mp(c, True)[0] == z3.Store(mp(c)[0], c.arg(0), TRUE),
                                    mp(c, True)[1] == z3.Store(mp(c)[1], c.arg(0), z3.Select(mp(c, True)[1], c.arg(0))),
                                    sel(c.heap(NAME), z3.Select(mp(c, True)[1], c.arg(0))) == c.arg(0),
                                    sel(c.heap(VALUE), z3.Select(mp(c, True)[1], c.arg(0))) == spec_value(c.ex, c.arg(1))]),
        Contract(CF + '::configurationOptionValue',
                 requires=lambda c: [opts_alloc(c)],
                 ensures=lambda c: [c.ret.has == z3.Select(mp(c)[0], c.arg(0)),
                                    z3.Implies(c.ret.has, c.ret.val == spec_text(c.ex, sel(c.heap0(VALUE), z3.Select(mp(c)[1], c.arg(0)))))]),
    ]
    J = models

    def parsed(c):
        s = c.arg(0)
        v = J.JPARSE(s)
        n = z3.String('n!js')
        return z3.And(J.JPARSE_OK(s), J.JKIND(v) == J.JOBJECT,
                      fa([n], z3.Implies(z3.Select(J.JDOM(v), n), J.JKIND(z3.Select(J.JVAL(v), n)) == J.JSTRING), z3.Select(J.JVAL(v), n)))

    def holds(c, ref, dom, text, post=True):
        """configuration `ref` maps exactly the names in dom to options made from text(name)"""
        ex = c.ex
        d = ex.ty.sort(ex.field_type(MAPF))
        m = sel(H(c, MAPF, post), ref)
        n = z3.String('n!hold')
        o = z3.Select(d.accessor(0, 1)(m), n)
        return [d.accessor(0, 0)(m) == dom,
                fa([n], z3.Implies(z3.Select(dom, n), z3.And(o > 0, o < (c.st1 if post else c.st0).next,
                                                           sel(H(c, NAME, post), o) == n,
                                                           sel(H(c, VALUE, post), o) == spec_value(ex, text(n)))), o)]

    def jinv(L):
        v = J.JPARSE(L.arg(0))
        p = L.vt(lambda t: t.k == 'record' and t.qn == 'std::unique_ptr')
        n = z3.String('n!ji')
        return [p.ref >= L.st0.next, p.ref < L.st1.next,
                *holds(L, p.ref, L.done, lambda n: J.JSTR(z3.Select(J.JVAL(v), n))),
                fa([n], z3.Implies(z3.Select(L.done, n), J.JKIND(z3.Select(J.JVAL(v), n)) == J.JSTRING), z3.Select(J.JVAL(v), n))]
    new = lambda c: {MAPF: lambda r: FALSE, NAME: lambda r: FALSE, VALUE: lambda r: FALSE}
    read = Contract(CF + '::createConfigurationFromString', modifies=new, axioms=J.json_axioms(),
                    loops=[Loop(jinv)],
                    ensures=lambda c: [(c.ret.ref != 0) == parsed(c),
                                       *[z3.Implies(c.ret.ref != 0, g) for g in
                                         holds(c, c.ret.ref, J.JDOM(J.JPARSE(c.arg(0))), lambda n: J.JSTR(z3.Select(J.JVAL(J.JPARSE(c.arg(0))), n)))]])

    def dump_text(c, n):
        return spec_text(c.ex, sel(c.heap0(VALUE), z3.Select(mp(c)[1], n)))

    def dinv(L):
        o = L.vt(lambda t: t.k == 'record' and t.qn == 'llvm::json::Object')
        n = z3.String('n!di')
        return [o.dom == L.done,
                fa([n], z3.Implies(z3.Select(L.done, n), z3.Select(o.arr, n) == J.JTEXT(dump_text(L, n))), z3.Select(o.arr, n))]
    DV = z3.Function('dumped', z3.IntSort(), J.JV)

    def dumped(c):
        """the printed value is an object whose members are the options and their texts"""
        n = z3.String('n!dm')
        w = z3.Const('w!dm', J.JV)
        body = lambda w: z3.And(c.ret == J.JPRINT(w), J.JKIND(w) == J.JOBJECT, J.JDOM(w) == mp(c)[0],
                                z3.ForAll([n], z3.Implies(z3.Select(mp(c)[0], n), z3.Select(J.JVAL(w), n) == J.JTEXT(dump_text(c, n)))))
        t = z3.simplify(c.ret) if c.ret_v is not None else None
        t = c.ret
        if z3.is_app(t) and t.decl().eq(J.JPRINT):
            return body(t.arg(0))
        return z3.Exists([w], body(w))
    dump = Contract(CF + '::dumpToString', requires=lambda c: [opts_alloc(c)], axioms=J.json_axioms(), loops=[Loop(dinv)],
                    ensures=lambda c: [dumped(c)])
    js = [read, dump]
    return [Group('json', opt + conf + js, units=js, objects=[CO, CF], types=models.json_types), Group('options', opt, objects=[CO, CF]), Group('configuration', opt + conf, units=conf, objects=[CO, CF])]


HARNESS = 'c18'
