"""C01: cloning a constraint yields an equal, fully independent tree."""
from ct import *
from runner import Group


def groups(P):
    return [Group('clone', ctor_contracts() + [clone_contract()], setup=setup, objects=OBJECTS)]
HARNESS = 'c01'
