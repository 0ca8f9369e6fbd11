"""C03: measuring or re-gauging a finite chain never changes its state or later results."""
from .. import chain, trace, seams
from ..core import Violation

RUNS = dict(quick=14000, thorough=250000)
TIMEOUT = 60
RULE = ('one run = 1-3 clients with interleaved programs of 4-24 canonicalisations, orthogonalisations, gauge matchings, bond paddings, tensor edits, copies and '
        'measurements on a shared pool of 1-3 chains or thermofield doubles; every state and every result is compared with the dense state vector after every operation. '
        'Non-trivial: at least one re-gauging and one measurement were judged on a state of bond dimension above one. Distinct: by the full case.')
STATES = 'distinct (previous operation, operation, bond dimension above one, kind of state) combinations'
COMPONENTS = dict(real=['xmps.fMPS (fMPS, fTFD), xmps.tensor, xmps.ncon, LAPACK'], simulated=['order in which clients use shared states'], stub=[])
ASSUMPTIONS = ['chains up to 7 sites (d=2) or 4 sites (d=3, 4), so that the dense state is available', 'agreement to 2e-6 (relative to norms), up to norm and phase',
               'energy() with a list of local terms is judged on canonical chains only (its documented use)']
LEVEL = 'exploration'


def gen(r, tier, k):
    clients = r.choice([1, 2, 2, 3])
    n = r.choice([4, 8, 12, 18, 24])
    names = chain.CANON + chain.MEASURE + ['copy', 'edit'] + (['fresh'] if r.random() < .3 else [])
    if r.random() < .3:                    # concentrated mixes
        names = r.sample(chain.CANON, 3) + r.sample(chain.MEASURE, 4) + ['edit']
    specs = [chain.gen_spec(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if len(specs) > 1 and r.random() < .6:     # states that have overlaps
        for s in specs[1:]:
            s['L'], s['d'] = specs[0]['L'], specs[0]['d']
            if s['kind'] in ('tfd', 'tfdmix') or specs[0]['kind'] in ('tfd', 'tfdmix'):
                s['kind'] = specs[0]['kind']
    return dict(params={}, slots=specs, ops=chain.gen_program(r, names, n, clients))


simplify = chain.simplify


def run(case, ctx):
    W = chain.world(case, ctx)
    chain.execute(W, case['ops'])
    done = {k[3:] for k in ctx.stats if k.startswith('op:')}
    ctx.nontrivial = bool(done & set(chain.CANON)) and bool(done & set(chain.MEASURE)) and any(s.obj.bond_dimension > 1 for s in W.slots)
