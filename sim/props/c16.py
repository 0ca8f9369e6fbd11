"""C16: operators, generators and example states are what their names say, whatever ran before or beside."""
from ..asks import gen as _gen, run, simplify  # noqa: F401

RUNS = dict(quick=8000, thorough=250000)
TIMEOUT = 60
RULE = ('one run = 4-24 requests of clients for spin operators of any size and their embeddings, gates, generators of SU(N), group elements and their components, and example states, drawn from a small set of requests so that they recur; '
        'clients edit what they were handed, requests are aborted at a chosen executed line and put again, or the requests run in 2-3 threads with hand-overs at chosen executed lines. '
        'Every answer is compared with an independent value, every argument with what it was. Non-trivial: three requests. Distinct: by the full case.')
STATES = 'distinct (request, previous request, repeated or not, aborted or not) combinations, and lines at which threads were preempted'
COMPONENTS = dict(real=['xmps.spin', 'xmps.mps_examples', 'xmps.fMPS and xmps.iMPS (the states handed out)'],
                  simulated=['order of the requests of the clients', 'aborts at chosen executed lines', 'hand-over between threads at chosen executed lines'], stub=[])
ASSUMPTIONS = ['preemption and aborts happen at line boundaries of the library', 'module-level matrices are not edited by clients']
LEVEL = 'fault_enumeration'
LINES = True


def gen(r, tier, k):
    return _gen(r, tier, 'C16')
