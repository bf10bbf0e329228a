"""C17: numeric features take exactly their listed values, or the ascending steps of their range."""
from solf import *
from runner import Group


def groups(P):
    own, binary, feature = named_features(), binary_constraints(), any_feature()
    pf = C24.contracts(P)[0]
    ev = C21.groups(P)[0]
    return [Group('values', own[1:], setup=setup, objects=OBJECTS),
            Group('ranges', own + [pf, binary, feature, next_step()], units=[feature], setup=setup, objects=OBJECTS),
            Group('steps', ev.contracts, units=ev.contracts[:1], objects=[C21.SF])]


HARNESS = 'c17'
ASSUMPTIONS = ['double arithmetic of step functions is treated as real arithmetic', 'Z3 decides conjunctions of the assertions exactly as their meaning (contracts of the Z3 C++ API)']
