"""C35: conflict scores."""
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from .c24 import bargs, check_bip, emap
from .c28 import partitions, converge, few_samples
from .c32 import ratings, gcounts
from .c33 import exact, planted, planted_table

PROPERTY = 'C35'

@st.composite
def case(draw, hi=4, big=None, shape=False):
    c = dict(b=draw(ratings(2, hi, big, exotic=True)), seed=draw(st.integers(0, 10**6)), decor=draw(st.sampled_from([-1, -1, 1, 2])))
    return dict(c, N=draw(st.integers(1, 60)), v=draw(st.sampled_from(['q', 'q', 'v', 'd']))) if shape else c

def result(ctx, c, N, seed, v='q', opt=True):
    ex = ctx.ex('recommend', 'opt') if opt else ctx.ex('recommend')
    b = c['b']; n1, n2 = len(b['l1']), len(b['l2'])
    r = ex.call('conflict', *bargs(b), N, seed, Raw(v), c['decor'], timeout=300)
    eq('pairs scored', sorted(x[:2] for x in r['q']), [[u, a] for u in range(n1) for a in range(n2)])
    for u, a, s in r['q']: check(-1e-12 <= s <= 1 + 1e-12, 'score of (%d,%d) is %r', u, a, s)
    check_bip(r['net'], b['l1'], b['l2'], emap(b), 'the network')
    return {(u, a): s for u, a, s in r['q']}

def run(ctx, c):
    b = c['b']; pairs = [(u, a) for u in range(len(b['l1'])) for a in range(len(b['l2']))]
    X = exact('2', b, 2, pairs, b['edges'])[1]
    def attempt(N, k):
        s = result(ctx, c, N, c['seed'] + 7919 * k)
        return max((abs(s[p] - x), 'pair %r: %.5f, exact %.5f' % (p, s[p], x)) for p, x in zip(pairs, X))
    converge(attempt, 0.015, (4000, 30000, 200000), 'the score')
    ctx.nontrivial(max(X) - min(X) > 0.05)

def run_shape(ctx, c):
    s = result(ctx, c, c['N'], c['seed'], c['v'], opt=False)
    eq('scores of the same network and seed', result(ctx, c, c['N'], c['seed'], 'q', opt=False), s)
    ctx.nontrivial(len(c['b']['edges']) >= 3)

def run_few(ctx, c):
    b = c['b']; n1, n2 = len(b['l1']), len(b['l2']); N = 1 + (c['N'] % 3 == 0 and max(n1, n2) < 4)
    vals = []
    for p in partitions(n1):
        for q in partitions(n2):
            C = gcounts(b['edges'], p, q, 2)
            t = [C.get((p[u], q[a])) or [0, 0] for u in range(n1) for a in range(n2)]
            vals.append(tuple((x[1] + 1) / (sum(x) + 2) for x in t))
    s = result(ctx, c, N, c['seed'], opt=False)
    few_samples(vals, [s[u, a] for u in range(n1) for a in range(n2)], N, 'the score')
    ctx.label('%d' % N)
    ctx.nontrivial(len(b['edges']) >= 2 and len(set(vals)) > 1)

def run_blocks(ctx, c):
    p, q, b, _ = planted_table(c)
    C = gcounts(b['edges'], p, q, 2)
    def attempt(N, k):
        s = result(ctx, dict(c, b=b), N, c['seed'] + 7919 * k)
        D = [abs(x - (C[p[u], q[a]][1] + 1) / (sum(C[p[u], q[a]]) + 2)) for (u, a), x in s.items()]
        return sum(D) / len(D), 'is the mean deviation'
    converge(attempt, 0.1, (60, 200, 400), 'the score of a network of dense and empty blocks')
    ctx.nontrivial(len({x for r in c['B'] for x in r}) > 1)

FACETS = [
    Facet('blocks', planted(['2']), run_blocks, quick=64, thorough=1000, exes=[('recommend', 'opt')], rule='dense and empty blocks'),
    Facet('few samples', case(4, None, True), run_few, quick=400, thorough=6000, exes=['recommend'], rule='partitions that predict differently'),
    Facet('pairs', case(7, 16, True), run_shape, quick=500, thorough=8000, exes=['recommend'], rule='three or more links'),
    Facet('posterior', case(), run, quick=320, thorough=4000, exes=[('recommend', 'opt')], rule='exact scores over 0.05 apart'),
]
