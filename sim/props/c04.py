"""C04: gate circuits on a finite chain act as the same circuit on the state vector."""
from .. import chain

RUNS = dict(quick=14000, thorough=250000)
TIMEOUT = 60
RULE = ('one run = 1-3 clients with interleaved circuits of 4-24 one-site operators, two-site gates (any two sites, either order, with and without bond limits), post-selections, sums, '
        'products with numbers, tensor products and copies, mixed with measurements and re-gauging, on a shared pool of 1-3 chains; every state is compared with the same circuit on the '
        'dense vector after every operation. Non-trivial: at least two circuit operations were judged. Distinct: by the full case.')
STATES = 'distinct (previous operation, operation, bond dimension above one, kind of state) combinations'
COMPONENTS = dict(real=['xmps.fMPS, xmps.tensor, xmps.ncon, LAPACK'], simulated=['order in which clients use shared states'], stub=[])
ASSUMPTIONS = ['chains up to 7 sites (d=2) or 4 sites (d=3)', 'agreement to 2e-6 up to norm and phase',
               'optimal truncation is judged for gates on neighbouring sites with the centre at the gate; where the weights at the cut are equal only the kept weight is judged']
LEVEL = 'exploration'


def gen(r, tier, k):
    clients = r.choice([1, 2, 2, 3])
    n = r.choice([4, 8, 12, 18, 24])
    names = chain.CIRCUIT * 3 + chain.CANON + chain.MEASURE + ['copy', 'edit']
    if r.random() < .3:
        names = ['g2', 'g2D', 'g1'] + r.sample(chain.CIRCUIT, 2) + r.sample(chain.CANON, 2) + r.sample(chain.MEASURE, 2)
    specs = [chain.gen_spec(r, tfd=False) for _ in range(r.choice([1, 1, 2, 3]))]
    if len(specs) > 1 and r.random() < .7:     # states that can be added
        for s in specs[1:]:
            s['L'], s['d'] = specs[0]['L'], specs[0]['d']
    return dict(params={}, slots=specs, ops=chain.gen_program(r, names, n, clients))


simplify = chain.simplify


def run(case, ctx):
    W = chain.world(case, ctx)
    chain.execute(W, case['ops'])
    ctx.nontrivial = sum(ctx.stats['op:' + n] for n in set(chain.CIRCUIT)) >= 2
