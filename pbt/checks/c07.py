from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import check_net, links_of

PROPERTY = 'C07'
NAN = float('nan')

@st.composite
def pair(draw):
    N = gen.scaled(12)
    pool = draw(gen.labels(N, exotic=True))
    def net():
        n = draw(st.integers(0, gen.scaled(8)))
        es = draw(gen.edges(n, self_loops=False)) if n else []
        perm = draw(st.permutations(list(range(N))))
        if draw(st.integers(0, 3)) == 0: perm = list(range(N))
        ws = draw(gen.weights(len(es)))
        return dict(n=n, labels=[pool[i] for i in perm[:n]], edges=[[u, v, w] for (u, v), w in zip(es, ws)])
    a, b = net(), net()
    if draw(st.integers(0, 3)) == 0 and a['n']:            # b: a perturbed, reordered copy of a
        p = draw(st.permutations(list(range(a['n']))))
        inv = {x: i for i, x in enumerate(p)}
        drop = draw(st.integers(0, 3))
        b = dict(n=a['n'], labels=[a['labels'][x] for x in p],
                 edges=[[inv[u], inv[v], 1.0] for i, (u, v, w) in enumerate(a['edges']) if drop == 0 or i % (drop + 1)])
    return dict(a=a, b=b)

def lset(g): return {frozenset((g['labels'][u], g['labels'][v])) for u, v, w in g['edges']}
def div(a, b): return a / b if b else NAN

def run(ctx, c):
    a, b = c['a'], c['b']
    r = ctx.ex('graph').call('compare', gen.net_args(a), gen.net_args(b))
    for g, k in ((a, 'a'), (b, 'b')): check_net(r[k], g['labels'], gen.wmap(g), 'operand ' + k)
    A, B = set(a['labels']), set(b['labels'])
    com = A & B
    LA, LB = [{l for l in lset(g) if l <= com} for g in (a, b)]
    eq('counts (nodes A, B, common, links A, B, common)', r['i'], [len(A), len(B), len(com), len(LA), len(LB), len(LA & LB)])
    for what, x, w in zip(('nodes A|B', 'nodes B|A', 'links A|B', 'links B|A'), r['d'],
                          (div(len(com), len(B)), div(len(com), len(A)), div(len(LA & LB), len(LB)), div(len(LA & LB), len(LA)))):
        eq('overlap ' + what, x, w, 1e-12)
    lab = list(a['labels']) + [x for x in b['labels'] if x not in A]
    for key in ('sum', 'sum2'):
        d = r[key]
        eq('labels of the sum', sorted(x[0] for x in d['nodes']), sorted(lab))
        pos = {x[0]: i for i, x in enumerate(d['nodes'])}
        wm = {}
        for u, v, w in b['edges']:
            i, j = pos[b['labels'][u]], pos[b['labels'][v]]; wm[(i, j)] = wm[(j, i)] = None
        for u, v, w in a['edges']:
            i, j = pos[a['labels'][u]], pos[a['labels'][v]]; wm[(i, j)] = wm[(j, i)] = w
        check_net(d, [x[0] for x in d['nodes']], wm, 'sum')
    s = ctx.ex('graph').call('compare', gen.net_args(b), gen.net_args(a))
    i = r['i']
    eq('swapped counts', s['i'], [i[1], i[0], i[2], i[4], i[3], i[5]])
    name = lambda d: sorted(tuple(sorted((d['nodes'][u][0], d['nodes'][v][0]))) for u, v in links_of(d))
    eq('links of swapped sum', name(s['sum']), name(r['sum']))
    if com and com != A and com != B: ctx.label('partial overlap')
    if LA & LB: ctx.label('common links')
    ctx.nontrivial(bool(com) and bool(a['edges']) and bool(b['edges']))

FACETS = [Facet('pair', pair(), run, quick=5000, thorough=90000, exes=['graph'],
                rule='pairs of networks over a shared label pool (independent, or a perturbed reordered copy); non-trivial: common labels and links on both sides')]
FACETS += gen.larger(FACETS, pair=(150, 2500))
