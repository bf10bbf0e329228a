"""C16: features and groups given to the solver admit exactly the selections they allow."""
from solf import *
from runner import Group


def groups(P):
    own, binary, feature, rel = named_features(), binary_constraints(), any_feature(), relationship()
    pf = C24.contracts(P)[0]
    return [Group('variables', own, setup=setup, objects=OBJECTS),
            Group('binary features', [pf, binary], units=[binary], setup=setup, objects=OBJECTS),
            Group('features', own + [pf, binary, feature, next_step()], units=[feature], setup=setup, objects=OBJECTS),
            Group('groups', [rel], setup=setup, objects=OBJECTS)]


HARNESS = 'c16'
