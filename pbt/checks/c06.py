from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import check_net, links_of
from .c05 import bfs

PROPERTY = 'C06'

@st.composite
def case(draw):
    directed = draw(st.sampled_from([False, False, True]))
    g = draw(gen.graph(1, 10, 45, weighted=True, self_loops=False))
    if not directed and draw(st.booleans()) and g['edges']:     # thin out to get several components
        keep = draw(st.integers(1, 4))
        g['edges'] = [e for i, e in enumerate(g['edges']) if i % keep == 0]
    if directed:
        have = {(u, v) for u, v, _ in g['edges']}
        for u, v, w in list(g['edges'][::draw(st.integers(1, 5))]):
            if (v, u) not in have: have.add((v, u)); g['edges'].append([v, u, w])
    n = g['n']
    if draw(st.booleans()) and n > 2:        # arbitrary node order
        p = draw(st.permutations(list(range(n))))
        g['edges'] = [[p[u], p[v], w] for u, v, w in g['edges']]
    g['directed'] = directed
    g['thres'] = draw(st.sampled_from([10 ** 7, n, 3, 1, n // 2]))
    g['acl'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.lists(st.booleans(), min_size=n, max_size=n)), max_size=4))
    g['acl'] = [[u, [int(x) for x in l]] for u, l in g['acl']]
    return g

def comps(n, A, strong):
    """Partition into components: strong (mutual reachability) or weak."""
    if strong:
        R = [set(bfs(A, u)) for u in range(n)]
        return {frozenset(v for v in R[u] if u in R[v]) for u in range(n)}
    U = [set() for _ in range(n)]
    for u in range(n):
        for v in A[u]: U[u].add(v); U[v].add(u)
    return {frozenset(bfs(U, u)) for u in range(n)}

def check_sub(dump, g, wm, what, renumbered=True):
    """dump is an induced subnetwork of g; returns its node set."""
    idx = {l: i for i, l in enumerate(g['labels'])}
    labs = [x[0] for x in dump['nodes']]
    check(len(set(labs)) == len(labs) and all(l in idx for l in labs), '%s: nodes %r', what, labs)
    pos = {idx[l]: i for i, l in enumerate(labs)}
    sub = {(pos[a], pos[b]): w for (a, b), w in wm.items() if a in pos and b in pos}
    nums = list(range(len(labs))) if renumbered else [idx[l] for l in labs]
    check_net(dump, labs, sub, what, nums=nums)
    return frozenset(pos)

def run(ctx, g):
    n = g['n']; sym = not g['directed']
    A = gen.adj_sets(g, sym); wm = gen.wmap(g, sym)
    r = ctx.ex('graph').call('comp', gen.net_args(g, sym), g['thres'], g['directed'], len(g['acl']), g['acl'])
    S = comps(n, A, True); Wk = comps(n, A, False)
    if sym: eq('connectivity test', r['connected'], 1 if len(S) == 1 else 0)
    eq('number of components', r['count'], len(S))
    for name, C in (('giant', S), ('wgiant', Wk)):
        c = check_sub(r[name], g, wm, name)
        check(c in C, '%s: %r is not a component', name, sorted(c))
        big = max(map(len, C))
        check(len(c) == big or (len(c) > g['thres'] or 2 * len(c) > n), '%s has %d nodes, largest component has %d', name, len(c), big)
    eq('length of component list', r['nall'], len(S))
    got = [check_sub(x['net'], g, wm, 'component %d' % i, renumbered=False) for i, x in enumerate(r['all'])]
    eq('component list', sorted(map(sorted, got)), sorted(map(sorted, S)))
    for (u, l), x in zip(g['acl'], r['acl']):
        eq('path from %d to set %r' % (u, l), x, 1 if any(l[v] for v in bfs(A, u) if v != u) else 0)
    check_net(r['after'], g['labels'], wm, 'network afterwards')
    ctx.label('directed' if g['directed'] else 'undirected')
    if len(S) > 1: ctx.label('several components')
    if len(Wk) != len(S): ctx.label('weak != strong')
    if sorted(map(len, S))[-2:] == [max(map(len, S))] * 2: ctx.label('tied largest')
    ctx.nontrivial(1 < len(S) < n)

FACETS = [Facet('comp', case(), run, quick=5000, thorough=80000, exes=['graph'],
                rule='random networks up to 45 nodes, undirected and directed, shuffled order; components against reachability; non-trivial: more than one component, not all singletons')]
FACETS += gen.larger(FACETS, comp=(200, 3000))
