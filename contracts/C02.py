"""C02: the text form of a constraint is its fully parenthesised infix spelling; the HTML form is the same text escaped."""
from ct import *
from runner import Group
import models

PR = z3.Function('PR', CT, z3.StringSort())      # the documented spelling
S = z3.StringVal


def itoa(v):
    return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(S('-'), z3.IntToStr(-v)))


def pr_axioms(prog):
    k = K(prog)
    a, b = z3.Consts('a!pr b!pr', CT)
    n, s = z3.Int('n!pr'), z3.String('s!pr')
    ax = []
    for cls, (kn, op) in BIN.items():
        t = CT.bin(k(kn), a, b)
        sep = ' %s ' % op if not op.endswith('!') else ' %s' % op
        ax.append(z3.ForAll([a, b], PR(t) == z3.Concat(S('('), PR(a), S(sep), PR(b), S(')')), patterns=[PR(t)]))
    for cls, (kn, op) in UN.items():
        t = CT.un(k(kn), a)
        ax.append(z3.ForAll([a], PR(t) == z3.Concat(S(op), PR(a)), patterns=[PR(t)]))
    ax.append(z3.ForAll([n], PR(CT.int(n)) == itoa(n), patterns=[PR(CT.int(n))]))
    ax.append(z3.ForAll([s], PR(CT.feat(s)) == s, patterns=[PR(CT.feat(s))]))
    return ax


def groups(P):
    ax = pr_axioms(P)
    tostr = Contract(BASE + '::toString', virtual=True, this_inv=class_kind, axioms=ax,
                     requires=lambda c: [wf(c), sel(c.g0('con'), c.this)],
                     decreases=lambda c: sel(c.g0('size'), c.this),
                     ensures=lambda c: [c.ret == PR(sel(c.g0('view'), c.this))])
    html = Contract(BASE + '::toHTML', virtual=True, this_inv=class_kind, axioms=ax,
                    requires=lambda c: [wf(c), sel(c.g0('con'), c.this)],
                    ensures=lambda c: [c.ret == models.html_escaped(PR(sel(c.g0('view'), c.this)))])
    return [Group('print', [tostr, html], setup=setup, objects=OBJECTS)]


HARNESS = 'c02'
