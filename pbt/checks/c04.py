import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C04'
NAN = float('nan')
def div(a, b): return a / b if b else (NAN if a == 0 else math.copysign(math.inf, a))

@st.composite
def case(draw):
    g = draw(gen.graph(1, 9, 40, weighted=True))
    n = g['n']
    g['pairs'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).filter(lambda p: p[0] != p[1]), max_size=12)) if n > 1 else []
    g['pairs'] = [list(p) for p in g['pairs']]
    return g

def square1(A, u):
    """C4 of one node: sum over second neighbours w of c(c-1), over k2 k (k-1); negative codes for undefined."""
    if not A[u]: return -1.0
    second = {w for v in A[u] for w in A[v]} - A[u] - {u}
    if not second: return -3.0
    k = len(A[u])
    if k <= 1: return -2.0
    return sum((lambda c: c * (c - 1))(len(A[u] & A[w])) for w in second) / (len(second) * k * (k - 1))

def run(ctx, g):
    A = gen.adj_sets(g); n = g['n']; wm = gen.wmap(g)
    k = [len(a) for a in A]
    r = ctx.ex('graph').call('stats', gen.net_args(g), 1, len(g['pairs']), g['pairs'])
    check_net(r['after'], g['labels'], wm, 'network afterwards')
    m = len(g['edges'])
    eq('node count', r['count'], n); eq('links', [r['links0'], r['links1']], [2 * m, m])
    eq('degrees', r['deg'], k)
    for u in range(n): eq('strength', r['str'][u], sum(w for e, w in wm.items() if e[0] == u), 1e-9)
    eq('average degree (directed)', r['avdeg0'], 2 * m / n, 1e-12)
    eq('average degree (undirected)', r['avdeg1'], 2 * m / n, 1e-12)
    eq('average squared degree', r['avdeg2'], sum(x * x for x in k) / n, 1e-12)
    tri = [sum(1 for v in A[u] for w in A[u] if v != w and w in A[v]) for u in range(n)]
    c1 = [tri[u] / (k[u] * (k[u] - 1)) if k[u] > 1 else -1.0 for u in range(n)]
    for u in range(n): eq('clustering of node %d' % u, r['cc1'][u], c1[u], 1e-12)
    big = [u for u in range(n) if k[u] > 1]
    eq('clustering coefficient', r['cc'], div(sum(c1[u] for u in big), len(big)), 1e-12)
    eq('transitivity', r['cc2'], div(sum(tri), sum(x * (x - 1) for x in k)), 1e-12)
    sq = [square1(A, u) for u in range(n)]
    for u in range(n): eq('square clustering of node %d' % u, r['sq1'][u], sq[u], 1e-12)
    good = [x for x in sq if x >= 0]
    eq('square clustering', r['square'], -1.0 if n == 1 else div(sum(good), len(good)), 1e-12)
    for u in range(n): eq('mean neighbour degree of %d' % u, r['knn'][u], div(sum(k[v] for v in A[u]), k[u]), 1e-12)
    # assortativity: Pearson correlation of end degrees over both orientations; undefined (0/0) for regular or empty networks
    es = [(u, v) for u in range(n) for v in A[u]]
    if es and len({k[u] for u, v in es}) > 1:
        M = len(es); mu = sum(k[u] for u, v in es) / M
        eq('assortativity', r['assort'], (sum(k[u] * k[v] for u, v in es) / M - mu * mu) / (sum(k[u] ** 2 for u, v in es) / M - mu * mu), 1e-9)
    for (u, v), (cn, ja, to) in zip(g['pairs'], r['pairs']):
        c = len(A[u] & A[v]); d = 1 if v in A[u] else 0
        eq('common neighbours of %d,%d' % (u, v), cn, c)
        eq('Jaccard of %d,%d' % (u, v), ja, c / (k[u] + k[v] - 2 * d - c) if c else 0.0, 1e-12)
        eq('topological overlap of %d,%d' % (u, v), to, div(c + d, min(k[u], k[v])), 1e-12)
    if any(tri): ctx.label('triangles')
    if any(x > 0 for x in sq): ctx.label('squares')
    if n > 12: ctx.label('>12 nodes')
    ctx.nontrivial(m >= 3 and len(big) >= 1)

FACETS = [Facet('stats', case(), run, quick=7000, thorough=150000, exes=['graph'],
                rule='random simple undirected networks up to 40 nodes; every statistic against a from-the-links oracle; non-trivial: >=3 links and a node of degree >1')]
FACETS += gen.larger(FACETS, stats=(200, 3000))
