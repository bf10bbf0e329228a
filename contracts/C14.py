"""C14: constraints given to the solver admit exactly the assignments that satisfy them."""
from sol import *
from runner import Group


def groups(P):
    acc, call, own = translation()
    add, plain, mix = adding()
    return [Group('translate', [acc] + call + own, units=[acc] + own, setup=setup, objects=OBJECTS),
            Group('add', [acc, add, plain, mix], units=[add, plain, mix], setup=setup, objects=OBJECTS)]


HARNESS = 'c14'
