"""C28: link reliabilities converge to the exact posterior averages over all partitions."""
from math import lgamma, log, exp
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen
from .c27 import counts, pairs_of, energy_sbm, energy_sparse, energy_k, check_net_same, kgraph, state_args, start

PROPERTY = 'C28'

_parts = {}
def partitions(n):
    if n not in _parts: _parts[n] = [list(gen.canon(p)) for p in gen.set_partitions(n)]
    return _parts[n]

def posterior(n, energy):
    """[(partition, probability)] with energy() including the labelled-groups correction -ln (n - groups)!."""
    ps = partitions(n)
    lw = [-(energy(p) + lgamma(n - len(set(p)) + 1)) for p in ps]
    m = max(lw); w = [exp(x - m) for x in lw]; z = sum(w)
    return [(p, x / z) for p, x in zip(ps, w)]

def average(n, edges, post, predict):
    """Posterior mean of predict(l, r) for every pair."""
    P = [[0.0] * n for _ in range(n)]
    for p, pr in post:
        if pr < 1e-9: continue
        L, size = counts(n, edges, p)
        for u in range(n):
            for v in range(u):
                a, b = min(p[u], p[v]), max(p[u], p[v])
                r = size[a] * (size[a] - 1) // 2 if a == b else size[a] * size[b]
                x = pr * predict(L.get((a, b), 0), r)
                P[u][v] += x; P[v][u] += x
    return P

def exact(kind, g, linC):
    n, E = g['n'], g['edges']
    if kind == 's':
        d = 2.0 * len(E) / (n * (n - 1)); B = .5; A = d * B / (1 - d)
        return average(n, E, posterior(n, lambda p: energy_sparse(n, E, p, A, B)), lambda l, r: (l + A) / (r + A + B))
    return average(n, E, posterior(n, lambda p: energy_sbm(n, E, p, linC)), lambda l, r: (l + 1) / (r + 2))

def converge(attempt, tol, sizes, what):
    """attempt(N, k) -> (error, text). Fails only if the error stays above tol as the number of samples grows."""
    hist = []
    for k, N in enumerate(sizes):
        e, txt = attempt(N, k)
        hist.append('%d samples: %.4f %s' % (N, e, txt))
        if e <= tol: return k
    check(False, '%s does not converge to the exact value (tolerance %g): %s', what, tol, '; '.join(hist))

def matrix_ok(P, n, diagonal=True):
    check(len(P) == n and all(len(r) == n for r in P), 'score matrix has the wrong shape')
    for i in range(n):
        check(not diagonal or P[i][i] == 0.0, 'score of the pair (%d,%d) is %r, expected 0', i, i, P[i][i])
        for j in range(n):
            check(-1e-12 <= P[i][j] <= 1.0 + 1e-12, 'score of (%d,%d) is %r, outside [0,1]', i, j, P[i][j])
            check(abs(P[i][j] - P[j][i]) <= 1e-12, 'scores of (%d,%d) and (%d,%d) differ: %r %r', i, j, j, i, P[i][j], P[j][i])

def worst(P, X):
    n = len(X)
    return max((abs(P[u][v] - X[u][v]), 'at pair (%d,%d): %.5f, exact %.5f' % (u, v, P[u][v], X[u][v]))
               for u in range(n) for v in range(n) if u != v)

@st.composite
def score_case(draw, kind, hi=6):
    n = draw(st.integers(3 if kind == 's' else 2, hi))
    es = draw(gen.edges(n))
    if kind == 's':
        full = n * (n - 1) // 2
        if not es: es = [[0, 1]]
        if len(es) == full: es = es[1:]
    g = dict(n=n, labels=draw(gen.labels(n)), edges=[[u, v, 1.0] for u, v in es])
    return dict(g=g, kind=kind, linC=draw(st.sampled_from([0.0, 0.0, 1.0, -1.0])) if kind != 's' else 0.0, seed=draw(st.integers(0, 10**6)))

def run_score(ctx, c):
    g = c['g']; n = g['n']
    X = exact(c['kind'], g, c['linC'])
    def attempt(N, k):
        r = ctx.ex('missing', 'opt').call('score', Raw(c['kind']), *gen.net_args(g), c['linC'], N, c['seed'] + 7919 * k, Raw('q'), timeout=300)
        matrix_ok(r['p'], n)
        check_net_same(ctx, g, r['net'])
        return worst(r['p'], X)
    k = converge(attempt, 0.015, (4000, 30000, 150000), {'m': 'the Metropolis', 'g': 'the Gibbs', 's': 'the sparse-prior'}[c['kind']] + ' link score')
    if k: ctx.label('needed %d retries' % k)
    flat = [X[u][v] for u in range(n) for v in range(u)]
    ctx.nontrivial(n >= 3 and max(flat) - min(flat) > 0.05)

@st.composite
def kscore_case(draw):
    g, K = draw(kgraph(2, 5, None, K=draw(st.integers(1, 4))))
    return dict(g=g, K=K, dec=draw(st.sampled_from([0, 0, 1, 3])), seed=draw(st.integers(0, 10**6)))

def run_kscore(ctx, c):
    g, K = c['g'], c['K']; n = g['n']; E = g['edges']
    prs = [(u, v) for u in range(n) for v in range(u + 1, n)]
    X = [[0.0] * len(prs) for _ in range(K)]
    for p, pr in posterior(n, lambda q: energy_k(n, E, q, K)):
        T = {}
        for u, v, w in E:
            T.setdefault((min(p[u], p[v]), max(p[u], p[v])), [0] * K)[int(w)] += 1
        for i, (u, v) in enumerate(prs):
            t = T.get((min(p[u], p[v]), max(p[u], p[v])), [0] * K)
            for k in range(K): X[k][i] += pr * (t[k] + 1) / (sum(t) + K)
    def attempt(N, k):
        r = ctx.ex('missing', 'opt').call('kscore', K, *gen.net_args(g), N, c['dec'], c['seed'] + 7919 * k, Raw('q'), timeout=300)
        eq('queried pairs', [tuple(x) for x in r['q']], prs)
        P = r['p']
        for i in range(len(prs)):
            s = sum(P[k][i] for k in range(K))
            check(abs(s - 1) < 1e-5, 'probabilities of the pair %r sum to %r: %r', prs[i], s, [P[k][i] for k in range(K)])
            for k in range(K): check(0 <= P[k][i] <= 1 + 1e-6, 'probability %r outside [0,1]', P[k][i])
        check_net_same(ctx, g, r['net'])
        return max((abs(P[k][i] - X[k][i]), 'at pair %r value %d: %.5f, exact %.5f' % (prs[i], k, P[k][i], X[k][i])) for k in range(K) for i in range(len(prs)))
    k = converge(attempt, 0.015, (4000, 30000, 150000), 'the several-valued link score')
    if k: ctx.label('needed %d retries' % k)
    ctx.nontrivial(K >= 2 and len(E) >= 2 and len({w for _, _, w in E}) >= 2)

# ---- networks too large to enumerate: blocks that the posterior cannot miss
@st.composite
def planted_case(draw, kinds):
    nb = draw(st.integers(1, 3)); n = draw(st.integers(36, 60))
    dens = [[0.0] * nb for _ in range(nb)]
    for i in range(nb):
        for j in range(i + 1): dens[i][j] = dens[j][i] = draw(st.sampled_from([0.95, 1.0] if (i == j) ^ draw(st.sampled_from([False] * 5 + [True] * (nb == 2))) else [0.0, 0.05]))
    return dict(n=n, nb=nb, dens=dens, kind=draw(st.sampled_from(kinds)), shift=draw(st.integers(0, 59)), bits=draw(st.integers(0, 2 ** 32)),
                labels=draw(gen.labels(n)), seed=draw(st.integers(0, 10**6)))

def planted_network(c):
    import random
    R = random.Random(c['bits'])
    n = c['n']
    mem = [(i * 7 + c['shift']) % c['nb'] for i in range(n)]
    E = [[u, v, 1.0] for u in range(n) for v in range(u) if R.random() < c['dens'][mem[u]][mem[v]]]
    return mem, dict(n=n, labels=c['labels'], edges=E)

def planted_expect(mem, g, predict):
    n = g['n']
    L, size = counts(n, g['edges'], mem)
    def r(a, b): return size[a] * (size[a] - 1) // 2 if a == b else size[a] * size[b]
    X = {(a, b): predict(L.get((a, b), 0), r(a, b)) for a in set(mem) for b in set(mem) if a <= b}
    return [[X[min(mem[u], mem[v]), max(mem[u], mem[v])] if u != v else 0 for v in range(n)] for u in range(n)]

def run_planted(ctx, c, exe='missing', predict=None, kind=None):
    mem, g = planted_network(c); n = g['n']
    m = len(g['edges']); full = n * (n - 1) // 2
    if c['kind'] == 's' and not 0 < m < full: ctx.label('empty or full'); return
    if predict is None:
        B = .5; d = m / full; A = d * B / (1 - d) if d < 1 else 0
        predict = (lambda l, r: (l + A) / (r + A + B)) if c['kind'] == 's' else (lambda l, r: (l + 1) / (r + 2))
    X = planted_expect(mem, g, predict)
    def attempt(N, k):
        r = ctx.ex(exe, 'opt').call('score', Raw(kind or c['kind']), *gen.net_args(g), 0.0, N, c['seed'] + 7919 * k, Raw('q'), timeout=300)
        matrix_ok(r['p'], n, exe != 'mb' or (kind or 'm').lower() == (kind or 'm'))
        check_net_same(ctx, g, r['net'])
        D = [abs(r['p'][u][v] - X[u][v]) for u in range(n) for v in range(u)]
        return sum(D) / len(D), 'is the mean deviation'
    converge(attempt, 0.1, (60, 200, 400), 'the score of networks of dense and empty blocks')
    ctx.label('kind ' + (kind or c['kind']))
    ctx.nontrivial(len(set(map(tuple, c['dens']))) > 1)

# ---- the distribution of the sampled partitions itself
@st.composite
def dist_case(draw, fam, op, hi=5):
    n = draw(st.integers(3, hi))       # two nodes always accept: the chain is periodic, though its scores are exact
    g = dict(n=n, labels=draw(gen.labels(n, exotic=False)), edges=[[u, v, 1.0] for u, v in draw(gen.edges(n))])
    return dict(g=g, mem=draw(start(n)), seed=draw(st.integers(0, 10**6)), fam=fam, op=op,
                linC=draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 2.0])), A=draw(st.sampled_from([0.5, 0.1, 1.0, 2.5])),
                B=draw(st.sampled_from([0.5, 1.0])), T=draw(st.sampled_from([3, 12, 200])))

def tv_check(hist, post, N):
    key = lambda p: ''.join(chr(97 + x) for x in gen.canon(p))
    P = {key(p): pr for p, pr in post}
    for h in hist: check(h in P, 'sampled something that is not a partition: %s', h)
    return 0.5 * sum(abs(hist.get(k, 0) / N - pr) for k, pr in P.items()), ''

def run_dist(ctx, c):
    g = c['g']; n = g['n']; E = g['edges']
    en = (lambda p: energy_sparse(n, E, p, c['A'], c['B'])) if c['fam'] == 's' else (lambda p: energy_sbm(n, E, p, c['linC']))
    post = posterior(n, en)
    def attempt(N, k):
        cc = dict(c, seed=c['seed'] + 7919 * k)
        r = ctx.ex('missing', 'opt').call('hist', Raw(c['fam']), *state_args(cc), c['linC'], c['A'], c['B'], c['T'], c['T'], c['T'], Raw(c['op']), 2, 200, N, timeout=120)
        return tv_check(r['hist'], post, N)
    converge(attempt, 0.03, (20000, 200000, 1000000), 'the distribution of the partitions visited by the sampler')
    ctx.nontrivial(n >= 3 and len(E) >= 1)

@st.composite
def kdist_case(draw):
    g, K = draw(kgraph(3, 5, None))
    return dict(g=g, K=K, mem=draw(start(g['n'])), seed=draw(st.integers(0, 10**6)), LFS=draw(st.sampled_from([4, 200])))

def run_kdist(ctx, c):
    g, K = c['g'], c['K']; n = g['n']; E = g['edges']
    post = posterior(n, lambda p: energy_k(n, E, p, K))
    def attempt(N, k):
        cc = dict(c, seed=c['seed'] + 7919 * k)
        r = ctx.ex('missing', 'opt').call('khist', *state_args(cc), K, c['LFS'], 2, 200, N, timeout=120)
        return tv_check(r['hist'], post, N)
    converge(attempt, 0.03, (20000, 200000, 1000000), 'the distribution of the partitions visited by the several-valued sampler')
    ctx.nontrivial(n >= 3 and K >= 2 and len(E) >= 1)

# ---- so few samples that only the values of single partitions, or the mean of two, can come out
def few_samples(values, got, N, what):
    """values: for every partition the tuple of all scores it predicts. got must be the mean of N of them."""
    near = lambda a, b: all(abs(x - y) < 3e-6 for x, y in zip(a, b))
    if N == 1: ok = any(near(v, got) for v in values)
    else:
        vs = list(set(values))
        ok = any(near([(x + y) / 2 for x, y in zip(v, w)], got) for i, v in enumerate(vs) for w in vs[i:])
    check(ok, '%s after %d sample%s is not what any %s predict%s: %r', what, N, 's' * (N > 1), 'two partitions' if N > 1 else 'partition', 's' * (N < 2), list(got))

def partition_scores(n, E, predict):
    """for every partition the predicted scores of all pairs v < u"""
    res = []
    for p in partitions(n):
        L, size = counts(n, E, p)
        def r(a, b): return size[a] * (size[a] - 1) // 2 if a == b else size[a] * size[b]
        res.append(tuple(predict(L.get((min(p[u], p[v]), max(p[u], p[v])), 0), r(p[u], p[v])) for u in range(n) for v in range(u)))
    return res

@st.composite
def few_case(draw, kinds):
    N = draw(st.sampled_from([1, 1, 2]))
    return dict(draw(score_case(draw(st.sampled_from(kinds)), 6 if N == 1 else 4)), N=N)

def run_few(ctx, c):
    g = c['g']; n = g['n']; E = g['edges']
    A = B = .5
    if c['kind'] == 's':
        d = 2.0 * len(E) / (n * (n - 1)); A = d * B / (1 - d)
    vals = partition_scores(n, E, (lambda l, r: (l + A) / (r + A + B)) if c['kind'] == 's' else (lambda l, r: (l + 1) / (r + 2)))
    r = ctx.ex('missing').call('score', Raw(c['kind']), *gen.net_args(g), c['linC'], c['N'], c['seed'], Raw('q'), timeout=120)
    few_samples(vals, [r['p'][u][v] for u in range(n) for v in range(u)], c['N'], 'the link score')
    ctx.label('%s, %d' % (c['kind'], c['N']))
    ctx.nontrivial(n >= 4 and len(E) >= 2)

# ---- shape of the result on larger networks, all verbosity levels, under the sanitizers
@st.composite
def shape_case(draw):
    kind = draw(st.sampled_from('mmss'))
    g = draw(gen.graph(3, 12, 30, exotic=True, min_edges=1))
    n = g['n']
    if kind == 's' and 2 * len(g['edges']) == n * (n - 1): g = dict(g, edges=g['edges'][1:])
    return dict(g=g, kind=kind, N=draw(st.integers(1, 6)), seed=draw(st.integers(0, 10**6)), linC=draw(st.sampled_from([0.0, 2.0])), v=draw(st.sampled_from('qvd')))

def run_shape(ctx, c):
    g = c['g']; n = g['n']
    a = (Raw(c['kind']), *gen.net_args(g), c['linC'], c['N'], c['seed'])
    r = ctx.ex('missing').call('score', *a, Raw(c['v']), timeout=120)
    matrix_ok(r['p'], n)
    check_net_same(ctx, g, r['net'])
    q = ctx.ex('missing').call('score', *a, Raw('q'), timeout=120)
    eq('scores of the same network and seed', q['p'], r['p'])
    ctx.nontrivial(n >= 6)

@st.composite
def kshape_case(draw):
    g, K = draw(kgraph(2, 8, 15))
    return dict(g=g, K=K, N=draw(st.integers(1, 101)), seed=draw(st.integers(0, 10**6)), dec=draw(st.sampled_from([0, 1, 2])), v=draw(st.sampled_from('qvd')))

def run_kshape(ctx, c):
    g, K = c['g'], c['K']; n = g['n']
    a = (K, *gen.net_args(g), c['N'], c['dec'], c['seed'])
    r = ctx.ex('missing').call('kscore', *a, Raw(c['v']), timeout=120)
    eq('queried pairs', r['q'], [[u, v] for u in range(n) for v in range(u + 1, n)])
    for i in range(len(r['q'])):
        x = [r['p'][k][i] for k in range(K)]
        check(abs(sum(x) - 1) < 1e-5 and min(x) >= 0, 'probabilities of the pair %r: %r', r['q'][i], x)
    check_net_same(ctx, g, r['net'])
    ctx.nontrivial(n >= 4 and K >= 2 and len(g['edges']) >= 2)

M = [('missing', 'opt')]
FACETS = [
    Facet('blocks', planted_case('mmgss'), run_planted, quick=64, thorough=1000, exes=M, rule='blocks of different density'),
    Facet('few samples', few_case('mms'), run_few, quick=400, thorough=6000, exes=['missing'], rule='four or more nodes, two or more links'),
    Facet('few samples, gibbs', few_case('g'), run_few, quick=32, thorough=400, exes=['missing'], rule='four or more nodes, two or more links'),
    Facet('shape', shape_case(), run_shape, quick=400, thorough=6000, exes=['missing'], rule='six or more nodes'),
    Facet('kstate shape', kshape_case(), run_kshape, quick=400, thorough=6000, exes=['missing'], rule='four or more nodes, two or more values, two or more links'),
    Facet('metropolis', score_case('m'), run_score, quick=480, thorough=2000, exes=M, rule='three or more nodes whose exact scores differ by over 0.05'),
    Facet('gibbs', score_case('g'), run_score, quick=64, thorough=300, exes=M, rule='three or more nodes whose exact scores differ by over 0.05'),
    Facet('sparse', score_case('s'), run_score, quick=480, thorough=2000, exes=M, rule='three or more nodes whose exact scores differ by over 0.05'),
    Facet('kstate', kscore_case(), run_kscore, quick=320, thorough=2000, exes=M, rule='two or more observed values'),
    Facet('metropolis partitions', dist_case('m', 'm'), run_dist, quick=400, thorough=2000, exes=M, rule='three or more nodes and a link'),
    Facet('gibbs partitions', dist_case('m', 'g'), run_dist, quick=400, thorough=2000, exes=M, rule='three or more nodes and a link'),
    Facet('sparse partitions', dist_case('s', 's'), run_dist, quick=400, thorough=2000, exes=M, rule='three or more nodes and a link'),
    Facet('kstate partitions', kdist_case(), run_kdist, quick=320, thorough=2000, exes=M, rule='three or more nodes, two or more values and a link'),
]
