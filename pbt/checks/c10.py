import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import check_net
from .c06 import comps

PROPERTY = 'C10'

@st.composite
def case(draw):
    g = draw(gen.graph(2, 9, 40, weighted=True))
    if draw(st.booleans()) and g['n'] > 2:
        p = draw(st.permutations(list(range(g['n']))))
        g['edges'] = [[p[u], p[v], w] for u, v, w in g['edges']]
    return g

def run(ctx, g):
    n = g['n']; A = gen.adj_sets(g); m = len(g['edges'])
    r = ctx.ex('graph').call('matrix', gen.net_args(g), 1, 1 if m else 0)
    a = np.zeros((n, n))
    for u in range(n):
        for v in A[u]: a[u, v] = 1
    eq('adjacency matrix', r['A'], a.astype(int).tolist())
    L = np.diag(a.sum(1)) - a
    eq('Laplacian', r['L'], L.astype(int).tolist())
    ev = np.linalg.eigvalsh(L)
    sp = np.array(r['spec'])
    check(np.all(np.diff(sp) >= -1e-9), 'spectrum not ascending: %r', r['spec'])
    check(np.allclose(sp, ev, atol=1e-8 * max(1, n)), 'spectrum %r, expected %r', r['spec'], ev.tolist())
    k = len(comps(n, A, False))
    eq('zero eigenvalues', int((sp < 1e-7).sum()), k)
    check(abs(sp.sum() - 2 * m) < 1e-7 * max(1, m), 'trace %r, expected %d', sp.sum(), 2 * m)
    if m: eq('synchronizability', r['sync'], ev[-1] / ev[k], 1e-6)
    check_net(r['after'], g['labels'], gen.wmap(g), 'network afterwards')
    ctx.label('components=%d' % min(k, 3)); ctx.nontrivial(m >= 2 and n >= 3)

@st.composite
def chains(draw):
    """Long chains and cliques joined by chains: the smallest eigenvalues get very small."""
    edges, n = [], 0
    for _ in range(draw(st.integers(1, 3))):
        k, a, b = draw(st.integers(1, 140)), draw(st.sampled_from([1, 1, 3, 12])), draw(st.sampled_from([1, 1, 4, 12]))
        nodes = list(range(n, n + a + k + b)); n += a + k + b
        A, P, B = nodes[:a], nodes[a:a + k], nodes[a + k:]
        for q in (A, B): edges += [[q[i], q[j], 1.0] for i in range(len(q)) for j in range(i)]
        path = [A[-1]] + P + [B[0]]
        edges += [[x, y, 1.0] for x, y in zip(path, path[1:])]
        if draw(st.integers(0, 5)) == 0: edges.append([path[0], path[-1], 1.0]) if len(path) > 3 and path[-1] != path[0] else None
        if draw(st.integers(0, 2)): break
    if draw(st.booleans()): edges = [[n - 1 - u, n - 1 - v, w] for u, v, w in edges]
    return dict(n=n, labels=['c%d' % i for i in range(n)], edges=edges)

@st.composite
def directed(draw):
    g = draw(gen.graph(1, 8, 20, self_loops=True))
    return g

def run_dir(ctx, g):
    n = g['n']
    r = ctx.ex('graph').call('matrix', gen.net_args(g, False), 0, 0)
    a = [[0] * n for _ in range(n)]
    for u, v, w in g['edges']: a[u][v] = 1
    eq('adjacency matrix (directed)', r['A'], a)
    ctx.nontrivial(len(g['edges']) >= 2)

FACETS = [Facet('laplacian', case(), run, quick=6000, thorough=90000, exes=['graph'],
                rule='random undirected simple networks up to 40 nodes against numpy; non-trivial: >=3 nodes, >=2 links'),
          Facet('chains', chains(), run, quick=240, thorough=3000, exes=['graph'], rule='chains and cliques joined by chains of up to 140 nodes'),
          Facet('adjacency', directed(), run_dir, quick=1500, thorough=20000, exes=['graph'],
                rule='directed networks with self-links; non-trivial: >=2 links')]
FACETS += gen.larger(FACETS, laplacian=(100, 1500))
