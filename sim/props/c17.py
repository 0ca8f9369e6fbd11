"""C17: contractions, tensor tools and the maps built from tensors mean what they say, whatever ran before or beside."""
from ..asks import gen as _gen, run, simplify  # noqa: F401

RUNS = dict(quick=6000, thorough=200000)
TIMEOUT = 60
RULE = ('one run = 4-24 requests of clients for contractions of networks, grouped legs, partial traces, factorisations, isometries and their extensions, transfer maps, null-space projectors and products of operators, drawn from a small set of requests so that they recur; '
        'clients edit what they were handed and the arrays behind shared maps and operators, requests are aborted at a chosen executed line and put again, or the requests run in 2-3 threads with hand-overs at chosen executed lines. '
        'Every answer is compared with an independent value, every argument with what it was. Non-trivial: three requests. Distinct: by the full case.')
STATES = 'distinct (request, previous request, repeated or not, aborted or not) combinations, and lines at which threads were preempted'
COMPONENTS = dict(real=['xmps.ncon', 'xmps.tensor', 'xmps.peps_tools', 'xmps.iMPS (Map, TransferMatrix)', 'xmps.fMPS (null-space projectors)', 'xmps.fPEPS (fMPO)'],
                  simulated=['order of the requests of the clients', 'aborts at chosen executed lines', 'hand-over between threads at chosen executed lines'], stub=[])
ASSUMPTIONS = ['preemption and aborts happen at line boundaries of the library', 'module-level matrices are not edited by clients']
LEVEL = 'fault_enumeration'
LINES = True


def gen(r, tier, k):
    return _gen(r, tier, 'C17')
