import re
from collections import deque
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net, links_of

PROPERTY = 'C05'

def bfs(A, s):
    d = {s: 0}; q = deque([s])
    while q:
        u = q.popleft()
        for v in A[u]:
            if v not in d: d[v] = d[u] + 1; q.append(v)
    return d

def parse_hist(t):
    h, tail = {}, {}
    for l in t.splitlines():
        if l.startswith('#'):
            k, _, v = l[1:].partition('='); tail[k.strip()] = float(v)
        else:
            a, b = l.split(); h[int(a)] = float(b)
    return h, tail

@st.composite
def case(draw, connected=None, hi=9, big=40):
    g = draw(gen.graph(2, hi, big, connected=draw(st.booleans()) if connected is None else connected))
    g['from'] = draw(st.integers(0, g['n'] - 1))
    return g

def run_dist(ctx, g):
    A = gen.adj_sets(g); n = g['n']
    D = [bfs(A, u) for u in range(n)]
    r = ctx.ex('graph').call('dist', gen.net_args(g), g['from'])
    check_net(r['after'], g['labels'], gen.wmap(g), 'network afterwards')
    conn = all(len(d) == n for d in D)
    cnt = {}
    for d in D:
        for x in d.values():
            if x: cnt[x] = cnt.get(x, 0) + 1
    N = n * (n - 1)
    eq('average path length', r['apl'], sum(k * c for k, c in cnt.items()) / N if conn else -1.0, 1e-9)
    eq('average inverse distance', r['aid'], sum(c / k for k, c in cnt.items()) / N, 1e-9)
    h, t = parse_hist(r['hist'])
    eq('distances in histogram', sorted(h), sorted(cnt))
    for k in cnt: eq('histogram at %d' % k, h[k], cnt[k] / N, 2e-6)
    eq('histogram average', t['Average distance'], sum(k * c for k, c in cnt.items()) / N, 2e-6)
    eq('histogram normalisation', t['Normalization'], sum(cnt.values()) / N, 2e-6)
    eq('mean number of neighbours', t['z'], cnt.get(1, 0) / n, 2e-6)
    _, t = parse_hist(r['histfrom'])
    d0 = D[g['from']]
    eq('average distance from %d' % g['from'], t['Average distance'], sum(d0.values()) / (n - 1), 2e-6)
    eq('neighbours of %d' % g['from'], t['z'], len(A[g['from']]), 2e-6)
    ctx.label('connected' if conn else 'disconnected')
    if max(cnt, default=0) >= 5: ctx.label('diameter>=5')
    ctx.nontrivial(max(cnt, default=0) >= 2)

def node_betw(A):
    n = len(A); B = [0.0] * n
    for s in range(n):
        d = {s: 0}; sig = {s: 1}; order = []; pred = {s: []}; q = deque([s])
        while q:
            u = q.popleft(); order.append(u)
            for v in A[u]:
                if v not in d: d[v] = d[u] + 1; sig[v] = 0; pred[v] = []; q.append(v)
                if d[v] == d[u] + 1: sig[v] += sig[u]; pred[v].append(u)
        dl = dict.fromkeys(order, 0.0)
        for w in reversed(order):
            for v in pred[w]: dl[v] += sig[v] / sig[w] * (1 + dl[w])
            if w != s: B[w] += dl[w]
    return B

def brute_node_betw(A):
    """From the definition: enumerate every shortest path (small networks)."""
    n = len(A); B = [0.0] * n
    for s in range(n):
        d = bfs(A, s)
        for t in d:
            if t == s: continue
            paths = []
            def rec(u, acc):
                if u == s: paths.append(acc); return
                for v in range(n):
                    if u in A[v] and v in d and d[v] == d[u] - 1: rec(v, acc + [v])
            rec(t, [t])
            for p in paths:
                for x in p[1:-1]: B[x] += 1 / len(paths)
    return B

def link_betw(A):
    """Each source node sends one unit to every reachable node; at every node the flow divides equally among its predecessors."""
    n = len(A); L = {}
    for u in range(n):
        for v in A[u]: L[(u, v)] = 0.0
    for s in range(n):
        d = bfs(A, s)
        f = {u: 1.0 for u in d}
        for u in sorted(d, key=lambda x: -d[x]):
            if u == s: continue
            pr = [v for v in A[u] if d.get(v, -9) == d[u] - 1]
            for v in pr:
                L[(u, v)] += f[u] / len(pr); L[(v, u)] += f[u] / len(pr); f[v] += f[u] / len(pr)
    return L

@st.composite
def betw_case(draw):
    directed = draw(st.sampled_from([False, False, True]))
    g = draw(case())
    g['directed'] = directed
    return g

def run_betw(ctx, g):
    n = g['n']; sym = not g['directed']
    A = gen.adj_sets(g, sym)
    links = sym and g['edges']
    r = ctx.ex('graph').call('betw', gen.net_args(g, sym), 1 if links else 0)
    B = node_betw(A)
    if n <= 7:
        bb = brute_node_betw(A)
        for u in range(n): assert close(bb[u], B[u], 1e-9)
    for u in range(n): eq('betweenness of node %d' % u, r['node'][u], B[u], 1e-9)
    mu = sum(B) / n
    st_ = r['stats']
    eq('mean', st_[0], mu, 1e-9)
    check(abs(st_[1] - (sum((x - mu) ** 2 for x in B) / n) ** .5) <= 1e-5 * (1 + mu), 'deviation %r', st_[1])
    eq('min', st_[2], min(B), 1e-9); eq('max', st_[3], max(B), 1e-9)
    if links:
        L = link_betw(A)
        for name in ('link', 'link2'):
            ls = links_of(r[name])
            eq('links afterwards', sorted(ls), sorted(L))
            for u, lst in enumerate(r[name]['adj']):
                for q in lst: eq('betweenness of link %d-%d (%s)' % (u, q[0], name), q[4], L[(u, q[0])], 1e-9)
        k = (r['n1'], r['n2'])
        check(k in L, 'most central link %r is not a link', k)
        eq('betweenness of the most central link', L[k], max(L.values()), 1e-9)
        if any(abs(B[u] - round(B[u])) > 1e-9 for u in range(n)): ctx.label('multiple shortest paths')
    ctx.label('directed' if g['directed'] else 'undirected')
    ctx.nontrivial(max(B) > 0)

FACETS = [
    Facet('dist', case(), run_dist, quick=4500, thorough=90000, exes=['graph'],
          rule='random networks (half connected) up to 40 nodes against BFS distances; non-trivial: two nodes at distance >=2'),
    Facet('betw', betw_case(), run_betw, quick=3500, thorough=60000, exes=['graph'],
          rule='random networks up to 40 nodes against Brandes (brute-force path enumeration up to 7 nodes) and flow oracles; non-trivial: some node lies on a shortest path'),
]
FACETS += gen.larger(FACETS, dist=(150, 2500), betw=(100, 2000))
