"""C29: AND / OR / degeneracy-only link scores are exact posterior means."""
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen
from .c27 import energy_mb, harm, check_net_same, start, state_args
from .c28 import posterior, average, converge, matrix_ok, worst, tv_check, planted_case, run_planted, few_samples, partition_scores

PROPERTY = 'C29'

def predict(fam):
    if fam == 'a': return lambda l, r: (l + 1) * (harm(r + 2) - harm(l + 1)) / ((r + 2) * (harm(r + 1) - harm(l)))
    if fam == 'o': return lambda l, r: 1 - (r - l + 1) * (harm(r + 2) - harm(r - l + 1)) / ((r + 2) * (harm(r + 1) - harm(r - l)))
    return lambda l, r: (l + 1) / (r + 2)

def exe(fam): return 'od' if fam == 'd' else 'mb'
def kinds(fam, op): return op.upper() if fam == 'o' else op

@st.composite
def score_case(draw, op, lo=2, hi=6):
    n = draw(st.integers(lo, hi))
    g = dict(n=n, labels=draw(gen.labels(n)), edges=[[u, v, 1.0] for u, v in draw(gen.edges(n))])
    return dict(g=g, fam=draw(st.sampled_from('aod')), op=op, linC=draw(st.sampled_from([0.0, 0.0, 1.0])), seed=draw(st.integers(0, 10**6)))

def run_score(ctx, c):
    g = c['g']; n = g['n']; E = g['edges']; fam = c['fam']
    X = average(n, E, posterior(n, lambda p: energy_mb(fam, n, E, p, c['linC'])), predict(fam))
    def attempt(N, k):
        r = ctx.ex(exe(fam), 'opt').call('score', Raw(kinds(fam, c['op'])), *gen.net_args(g), c['linC'], N, c['seed'] + 7919 * k, Raw('q'), timeout=300)
        matrix_ok(r['p'], n, c['fam'] != 'o')
        check_net_same(ctx, g, r['net'])
        return worst(r['p'], X)
    converge(attempt, 0.015, (4000, 30000, 150000), 'the link score')
    ctx.label({'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[fam])
    flat = [X[u][v] for u in range(n) for v in range(u)]
    ctx.nontrivial(n >= 3 and max(flat) - min(flat) > 0.03)

@st.composite
def few_case(draw, ops):
    N = draw(st.sampled_from([1, 1, 2]))
    return dict(draw(score_case(draw(st.sampled_from(ops)), 2, 6 if N == 1 else 4)), N=N)

def run_few(ctx, c):
    g = c['g']; n = g['n']; fam = c['fam']
    r = ctx.ex(exe(fam)).call('score', Raw(kinds(fam, c['op'])), *gen.net_args(g), c['linC'], c['N'], c['seed'], Raw('q'), timeout=120)
    few_samples(partition_scores(n, g['edges'], predict(fam)), [r['p'][u][v] for u in range(n) for v in range(u)], c['N'], 'the link score')
    ctx.label({'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[fam] + ', %d' % c['N'])
    ctx.nontrivial(n >= 4 and len(g['edges']) >= 2)

@st.composite
def dist_case(draw):
    c = draw(score_case(draw(st.sampled_from('mg')), 3, 5))
    return dict(c, mem=draw(start(c['g']['n'])), T=draw(st.sampled_from([3, 12, 200])))

def run_dist(ctx, c):
    g = c['g']; n = g['n']; E = g['edges']; fam = c['fam']
    post = posterior(n, lambda p: energy_mb(fam, n, E, p, c['linC']))
    def attempt(N, k):
        cc = dict(c, seed=c['seed'] + 7919 * k)
        r = ctx.ex(exe(fam), 'opt').call('hist', Raw(fam), *state_args(cc), c['linC'], c['T'], c['T'], Raw(kinds(fam, c['op'])), 2, 200, N, timeout=120)
        return tv_check(r['hist'], post, N)
    converge(attempt, 0.03, (20000, 200000, 1000000), 'the distribution of the partitions visited by the sampler')
    ctx.label({'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[fam] + {'m': ' Metropolis', 'g': ' Gibbs'}[c['op']])
    ctx.nontrivial(len(E) >= 1)

@st.composite
def shape_case(draw):
    g = draw(gen.graph(2, 10, 26, exotic=True))
    return dict(g=g, fam=draw(st.sampled_from('aod')), op='m', N=draw(st.integers(1, 6)), seed=draw(st.integers(0, 10**6)), linC=draw(st.sampled_from([0.0, 2.0, 20.0])), v=draw(st.sampled_from('qvd')))

def run_shape(ctx, c):
    g = c['g']; n = g['n']
    a = (Raw(kinds(c['fam'], c['op'])), *gen.net_args(g), c['linC'], c['N'], c['seed'])
    r = ctx.ex(exe(c['fam'])).call('score', *a, Raw(c['v']), timeout=120)
    matrix_ok(r['p'], n, c['fam'] != 'o')
    check_net_same(ctx, g, r['net'])
    q = ctx.ex(exe(c['fam'])).call('score', *a, Raw('q'), timeout=120)
    eq('scores of the same network and seed', q['p'], r['p'])
    ctx.nontrivial(n >= 5 and len(g['edges']) >= 2)

def run_gshape(ctx, c):
    run_shape(ctx, dict(c, op='g'))

def run_blocks(ctx, c):
    fam, op = c['kind']
    run_planted(ctx, c, exe(fam), predict(fam), kinds(fam, op))
    ctx.label({'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[fam])

O = [('mb', 'opt'), ('od', 'opt')]
FACETS = [
    Facet('blocks', planted_case(['am', 'om', 'dm', 'am', 'om', 'dm', 'ag', 'og', 'dg']), run_blocks, quick=64, thorough=1000, exes=O, rule='blocks of different density'),
    Facet('few samples', few_case('m'), run_few, quick=400, thorough=6000, exes=['mb', 'od'], rule='four or more nodes, two or more links'),
    Facet('few samples, gibbs', few_case('g'), run_few, quick=32, thorough=400, exes=['mb', 'od'], rule='four or more nodes, two or more links'),
    Facet('shape', shape_case(), run_shape, quick=320, thorough=5000, exes=['mb', 'od'], rule='five or more nodes and two or more links'),
    Facet('gibbs shape', shape_case(), run_gshape, quick=24, thorough=200, exes=['mb', 'od'], rule='five or more nodes and two or more links'),
    Facet('metropolis', score_case('m'), run_score, quick=400, thorough=4000, exes=O, rule='three or more nodes whose exact scores differ by over 0.03'),
    Facet('gibbs', score_case('g'), run_score, quick=80, thorough=600, exes=O, rule='three or more nodes whose exact scores differ by over 0.03'),
    Facet('partitions', dist_case(), run_dist, quick=600, thorough=8000, exes=O, rule='three or more nodes and a link'),
]
