"""Properties that the technique does not decide."""
from props import Prop

SKIPPED = {}


def skip(id, title, statement, over, quant, why, files, mechanism, reason):
    SKIPPED[id] = Prop(id, title, statement, over, quant, why, files, mechanism, [], reason)


skip('X01', 'Trajectories have the right statistical distribution',
     'Long simulations sample the master equation of the model: waiting times, event frequencies and stationary '
     'occupations converge to the values implied by the rates.',
     ['histories', 'inputs'], 'every model, seed and simulation length',
     'Tests compare a few averages of a few models with loose tolerances.',
     ['c++/src/latticemodel.cpp', 'c++/src/random.cpp'],
     [('the whole simulation loop', 'c++/src/latticemodel.cpp')],
     'Convergence in distribution depends on the quality of the pseudo random generators and on floating point sums; '
     'no static argument in reach bounds it. The algebraic part (selection and waiting time formulas) is decided by '
     'P02, P03 and P04.')
