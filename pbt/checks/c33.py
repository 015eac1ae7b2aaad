"""C33: recommendations converge to the exact posterior means; ratings and queries are left alone."""
from math import exp, lgamma
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen
from .c24 import bargs, check_bip, emap
from .c27 import start
from .c28 import partitions, converge, few_samples
from .c32 import ratings, energy2, energyk, gcounts, sargs

PROPERTY = 'C33'

def posterior(n1, n2, energy):
    ps = [(p, q) for p in partitions(n1) for q in partitions(n2)]
    lw = [-(energy(p, q) + lgamma(n1 - len(set(p)) + 1) + lgamma(n2 - len(set(q)) + 1)) for p, q in ps]
    m = max(lw); w = [exp(x - m) for x in lw]; z = sum(w)
    return [(p, q, x / z) for (p, q), x in zip(ps, w)]

def predictions(n1, n2, E, K, pairs, post):
    """exact P[k][i] for the i-th pair"""
    P = [[0.0] * len(pairs) for _ in range(K)]
    for p, q, pr in post:
        if pr < 1e-9: continue
        C = gcounts(E, p, q, K)
        for i, (u, a) in enumerate(pairs):
            c = C.get((p[u], q[a])) or [0] * K
            n = sum(c)
            for k in range(K): P[k][i] += pr * (c[k] + 1) / (n + K)
    return P

def exact(kind, b, K, pairs, E):
    n1, n2 = len(b['l1']), len(b['l2'])
    en = (lambda p, q: energy2(n1, n2, E, p, q)) if kind == '2' else (lambda p, q: energyk(n1, n2, E, p, q, K))
    return predictions(n1, n2, E, K, pairs, posterior(n1, n2, en))

@st.composite
def case(draw, kind, hi=4, big=None):
    K = 2 if kind == '2' else draw(st.integers(1, 4))
    b = draw(ratings(K, hi, big, exotic=True))
    n1, n2 = len(b['l1']), len(b['l2'])
    allp = [[u, a] for u in range(n1) for a in range(n2)]
    rated = [[u, a] for u, a, _ in b['edges']]
    free = [p for p in allp if p not in rated]
    pool = [allp] + ([rated] if rated else []) + ([free, free] if free else [])
    qs = [draw(st.sampled_from(draw(st.sampled_from(pool)))) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 5])))]
    return dict(kind=kind, K=K, b=b, q=qs, seed=draw(st.integers(0, 10**6)), decor=draw(st.sampled_from([-1, -1, 1, 2])))

def result(ctx, c, N, seed, v='q', flavour='asan', timeout=300):
    ex = ctx.ex('recommend') if flavour == 'asan' else ctx.ex('recommend', 'opt')
    r = ex.call('score', Raw(c['kind']), c['K'], *bargs(c['b']), len(c['q']), c['q'], N, seed, Raw(v), c['decor'], timeout=timeout)
    s = [[1 - x for x in r['s']], r['s']] if c['kind'] == '2' else r['s']
    for i in range(len(c['q'])):
        for k in range(c['K']): check(-1e-12 <= s[k][i] <= 1 + 1e-12, 'probability of rating %d for query %d is %r', k, i, s[k][i])
        t = sum(s[k][i] for k in range(c['K']))
        check(abs(t - 1) < 1e-5, 'the probabilities of query %d add up to %r', i, t)
    eq('the queries', [x[:2] for x in r['q']], c['q'])
    check_bip(r['net'], c['b']['l1'], c['b']['l2'], emap(c['b']), 'the ratings')
    return s

def run(ctx, c):
    b, K = c['b'], c['K']
    hide = {tuple(x) for x in c['q']}
    E = [e for e in b['edges'] if (e[0], e[1]) not in hide]
    X = exact(c['kind'], b, K, c['q'], E)
    def attempt(N, k):
        s = result(ctx, c, N, c['seed'] + 7919 * k, flavour='opt')
        return max((abs(s[x][i] - X[x][i]), 'rating %d of query %d: %.5f, exact %.5f' % (x, i, s[x][i], X[x][i])) for x in range(K) for i in range(len(c['q'])))
    converge(attempt, 0.015, (4000, 30000, 200000), 'the prediction')
    if len(E) < len(b['edges']): ctx.label('query already rated')
    if len(hide) < len(c['q']): ctx.label('repeated query')
    if not E: ctx.label('nothing observed')
    ctx.nontrivial(K >= 2 and max(abs(X[k][i] - 1.0 / K) for k in range(K) for i in range(len(c['q']))) > 0.05)

def run_shape(ctx, c):
    s = result(ctx, c, c['N'], c['seed'], c['v'])
    # the value of a rating that is queried is never used
    hide = {tuple(x) for x in c['q']}
    flip = dict(c['b'], edges=[[u, a, float((w + 1) % c['K'] if (u, a) in hide else w)] for u, a, w in c['b']['edges']])
    t = result(ctx, dict(c, b=flip), c['N'], c['seed'], 'q')
    if flip['edges'] != c['b']['edges']: ctx.label('queried rating changed')
    eq('predictions when only the queried ratings change', t, s)
    ctx.nontrivial(len(c['b']['edges']) >= 3)

@st.composite
def shape_case(draw):
    c = draw(case(draw(st.sampled_from(['2', 'k', 'g'])), 6, 14))
    return dict(c, N=draw(st.integers(1, 120)), v=draw(st.sampled_from(['q', 'q', 'v', 'd'])))

# ---- so few samples that only the predictions of single pairs of partitions, or the mean of two, can come out
@st.composite
def few_case(draw, kinds):
    N = draw(st.sampled_from([1, 1, 2]))
    return dict(draw(case(draw(st.sampled_from(kinds)), 4 if N == 1 else 3)), N=N)

def run_few(ctx, c):
    b, K = c['b'], c['K']; n1, n2 = len(b['l1']), len(b['l2'])
    hide = {tuple(x) for x in c['q']}
    E = [e for e in b['edges'] if (e[0], e[1]) not in hide]
    vals = []
    for p in partitions(n1):
        for q in partitions(n2):
            C = gcounts(E, p, q, K)
            t = [C.get((p[u], q[a])) or [0] * K for u, a in c['q']]
            vals.append(tuple((x[k] + 1) / (sum(x) + K) for x in t for k in range(K)))
    s = result(ctx, c, c['N'], c['seed'])
    few_samples(vals, [s[k][i] for i in range(len(c['q'])) for k in range(K)], c['N'], 'the prediction')
    ctx.label('%s, %d' % (c['kind'], c['N']))
    ctx.nontrivial(K >= 2 and len(set(vals)) > 1)

@st.composite
def dist_case(draw):
    kind = draw(st.sampled_from(['2', 'k', 'k', 'g', 'g']))
    K = 2 if kind == '2' else draw(st.integers(1, 4))
    b = draw(ratings(K, 4))
    n1, n2 = len(b['l1']), len(b['l2'])
    return dict(kind='2' if kind == '2' else 'k', op='g' if kind == 'g' else 'm', K=K, b=b, m1=draw(start(n1)), m2=draw(start(n2)), seed=draw(st.integers(0, 10**6)),
                LS=draw(st.sampled_from([2, 10, 100])), LCS=draw(st.sampled_from([2, 10, 60])), LFS=draw(st.sampled_from([2, 10, 60])))

def run_dist(ctx, c):
    b, K, E = c['b'], c['K'], c['b']['edges']
    n1, n2 = len(b['l1']), len(b['l2'])
    en = (lambda p, q: energy2(n1, n2, E, p, q)) if c['kind'] == '2' else (lambda p, q: energyk(n1, n2, E, p, q, K))
    key = lambda p: ''.join(chr(97 + x) for x in gen.canon(p))
    P = {key(p) + '|' + key(q): pr for p, q, pr in posterior(n1, n2, en)}
    def attempt(N, k):
        r = ctx.ex('recommend', 'opt').call('hist', *sargs(dict(c, seed=c['seed'] + 7919 * k)), Raw(c['op']), 2, 200, N, timeout=120)
        for h in r['hist']: check(h in P, 'sampled something that is not a pair of partitions: %s', h)
        return 0.5 * sum(abs(r['hist'].get(h, 0) / N - pr) for h, pr in P.items()), ''
    converge(attempt, 0.04, (40000, 400000, 2000000), 'the distribution of the partitions visited by the sampler')
    ctx.label({'2m': 'two-state', 'km': 'K-state', 'kg': 'K-state Gibbs'}[c['kind'] + c['op']])
    ctx.nontrivial(len(E) >= 2 and min(n1, n2) >= 2)

# ---- rating tables too large to enumerate: blocks that the posterior cannot miss
@st.composite
def planted(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    K = 2 if kind == '2' else draw(st.integers(2, 4))
    n1, n2 = draw(st.integers(24, 50)), draw(st.integers(24, 50))
    b1, b2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    B = [[draw(st.integers(0, K - 1)) for _ in range(b2)] for _ in range(b1)]
    return dict(kind=kind, K=K, n1=n1, n2=n2, B=B, noise=draw(st.sampled_from([0.0, 0.03])), hide=draw(st.sampled_from([0.0, 0.1])),
                l1=draw(gen.labels(n1)), l2=draw(gen.labels(n2)), bits=draw(st.integers(0, 2 ** 32)),
                seed=draw(st.integers(0, 10**6)), decor=draw(st.sampled_from([-1, -1, 1, 3])))

def planted_table(c):
    import random
    R = random.Random(c['bits'])
    K, n1, n2, B = c['K'], c['n1'], c['n2'], c['B']
    p = [(5 * i + i // len(B)) % len(B) for i in range(n1)]; q = [(7 * i + i // len(B[0])) % len(B[0]) for i in range(n2)]
    E = []
    for u in range(n1):
        for a in range(n2):
            if R.random() < c['hide']: continue
            k = B[p[u]][q[a]]
            if R.random() < c['noise']: k = (k + 1) % K
            E.append([u, a, float(k)])
    qs = [[R.randrange(n1), R.randrange(n2)] for _ in range(25)]
    return p, q, dict(l1=c['l1'], l2=c['l2'], edges=E), qs

def run_planted(ctx, c):
    p, q, b, qs = planted_table(c)
    K = c['K']
    hide = {tuple(x) for x in qs}
    C = gcounts([e for e in b['edges'] if (e[0], e[1]) not in hide], p, q, K)
    def attempt(N, k):
        s = result(ctx, dict(c, b=b, q=qs), N, c['seed'] + 7919 * k, flavour='opt')
        D = [abs(s[x][i] - (C[p[u], q[a]][x] + 1) / (sum(C[p[u], q[a]]) + K)) for i, (u, a) in enumerate(qs) for x in range(K)]
        return sum(D) / len(D), 'is the mean deviation'
    converge(attempt, 0.1, (60, 200, 400), 'the prediction from a table of blocks')
    ctx.label('kind ' + c['kind'])
    ctx.nontrivial(len({x for r in c['B'] for x in r}) > 1)

R = 'two or more rating values and a prediction over 0.05 from uniform'
O = [('recommend', 'opt')]
FACETS = [
    Facet('blocks', planted(['2', 'k', 'g']), run_planted, quick=64, thorough=1000, exes=O, rule='blocks of different rating'),
    Facet('few samples', few_case('2kg'), run_few, quick=500, thorough=8000, exes=['recommend'], rule='partitions that predict differently'),
    Facet('shape', shape_case(), run_shape, quick=500, thorough=8000, exes=['recommend'], rule='three or more ratings'),
    Facet('two-state', case('2'), run, quick=240, thorough=3000, exes=O, rule=R),
    Facet('K-state', case('k'), run, quick=240, thorough=3000, exes=O, rule=R),
    Facet('K-state Gibbs', case('g'), run, quick=240, thorough=3000, exes=O, rule=R),
    Facet('partitions', dist_case(), run_dist, quick=400, thorough=6000, exes=O, rule='two or more ratings, two or more nodes in both sets'),
]
