import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import check_net, links_of, simple_symmetric

PROPERTY = 'C08'

def legal_swaps(E):
    """Results of all legal swaps of a link set (frozensets of sorted pairs), with multiplicity over ordered draws."""
    out = []
    L = sorted(E)
    for (a, b) in L:
        for (c, d) in L:
            for (x, y) in ((c, d), (d, c)):
                # n1=a, n2=b, n3=x, n4=y : new links n1-n4, n3-n2
                if x in (a, b) or y in (a, b): continue
                p, q = tuple(sorted((a, y))), tuple(sorted((b, x)))
                if p in E or q in E: continue
                out.append(frozenset((E - {(a, b), (c, d)}) | {p, q}))
    return out

def has_swap(E):
    L = sorted(E)
    for i, (a, b) in enumerate(L):
        for (c, d) in L[:i]:
            if len({a, b, c, d}) < 4: continue
            for (x, y) in ((c, d), (d, c)):
                if tuple(sorted((a, y))) not in E and tuple(sorted((b, x))) not in E: return True
    return False

def eset(g): return frozenset(tuple(sorted((u, v))) for u, v, _ in g['edges'])

@st.composite
def rnd_case(draw, lo=4, hi=10, big=40):
    g = draw(gen.graph(lo, hi, big, weighted=True, min_edges=3))
    if not has_swap(eset(g)):
        # make a swap possible by construction: two extra disjoint edges on fresh nodes
        n = g['n']
        g['n'] = n + 4; g['labels'] = gen.simple_labels(n + 4); g['edges'] += [[n, n + 1, 1.0], [n + 2, n + 3, 1.0]]
    m = len(g['edges'])
    if 4 * m > g['n'] * (g['n'] - 1) and g['n'] > 40: g['times'] = 5.5 / m             # nearly every pair of links is refused
    else: g['times'] = draw(st.sampled_from([0.0, 0.3, 1.0, 2.5, 10.0, 100.0] if m <= 60 else [0.1, 0.3, 1.0] if g['n'] > 40 else [0.1, 0.3]))
    g['seed'] = draw(st.integers(0, 2 ** 31)); g['warm'] = draw(st.booleans())
    return g

def run_rnd(ctx, g):
    n = g['n']; E = eset(g)
    r = ctx.ex('graph').call('randomize', gen.net_args(g), g['times'], g['seed'], g['warm'])
    eq('labels', [x[0] for x in r['net']['nodes']], g['labels']); eq('numbers', [x[1] for x in r['net']['nodes']], list(range(n)))
    R = simple_symmetric(r['net'])
    deg = [0] * n
    for u, v in E: deg[u] += 1; deg[v] += 1
    deg2 = [0] * n
    for u, v in R: deg2[u] += 1; deg2[v] += 1
    eq('degrees', deg2, deg); eq('degrees by query', r['deg'], deg)
    for u, lst in enumerate(r['net']['adj']):
        for q in lst: eq('number carried by link', q[1], q[0])
    if R != E: ctx.label('changed')
    ctx.nontrivial(len(E) >= 4 and g['times'] >= 1)

@st.composite
def reach_case(draw):
    g = draw(gen.graph(4, 6, min_edges=2))
    g['seed'] = draw(st.integers(0, 2 ** 31)); g['extra'] = draw(st.integers(3, 12))
    return g

def run_reach(ctx, g):
    """Every network that legal swaps can reach is produced (sample size from the exact chain distribution)."""
    E = eset(g); L = len(E)
    if not legal_swaps(E): return
    states = {E: 0}; order = [E]; trans = []
    i = 0
    while i < len(order):
        s = legal_swaps(order[i]); i += 1
        row = {}
        for t in s:
            if t not in states:
                states[t] = len(order); order.append(t)
                if len(order) > 40: return
            row[states[t]] = row.get(states[t], 0) + 1 / len(s)
        trans.append(row)
    k = g['extra']; times = (k + 0.5) / L         # k+1 or k+2 successful swaps
    v = [0.0] * len(order); v[0] = 1.0
    dist = []
    for step in range(k + 2):
        w = [0.0] * len(order)
        for a, row in enumerate(trans):
            if v[a]:
                for b, p in row.items(): w[b] += v[a] * p
        v = w
        if step >= k: dist.append(v)
    p = [(x + y) / 2 for x, y in zip(*dist)]
    target = [i for i, x in enumerate(p) if x > 0.004]
    if not target: return
    reps = min(6000, int(30 / min(p[i] for i in target)) + 30)
    r = ctx.ex('graph', 'opt').call('randmany', gen.net_args(g), times, g['seed'], reps)
    got = set()
    for key in r['keys']:
        key = int(key)
        got.add(frozenset((u, v) for u in range(8) for v in range(u + 1, 8) if key >> (u * 8 + v) & 1))
    for s in got: check(s in states, 'network %r cannot be reached by degree-preserving swaps', sorted(s))
    for i in target:
        check(order[i] in got, 'network %r (probability %.4f) never produced in %d runs', sorted(order[i]), p[i], reps)
    ctx.label('%s reachable' % ('2-5' if len(order) < 6 else '6-15' if len(order) < 16 else '16-40'))
    ctx.nontrivial(len(order) >= 3)

@st.composite
def link_case(draw):
    g = draw(gen.graph(2, 8, 25, weighted=True))
    add = draw(st.booleans()); sym = draw(st.sampled_from([1, 1, 0]))
    n = g['n']; L = len(eset(g))
    mult = 1 if sym else 2
    if not sym and not add: pass
    room = (n * (n - 1) // 2 - L) * mult if add else L * mult
    k = draw(st.integers(0, min(room, 12))) if draw(st.integers(0, 3)) else room
    if n > 12: k = min(k, 40)
    g.update(add=add, sym=sym, k=k, seed=draw(st.integers(0, 2 ** 31)), warm=draw(st.booleans()))
    return g

def run_links(ctx, g):
    n = g['n']; wm = gen.wmap(g); k = g['k']
    if g['sym']: elig = {(u, v) for u in range(n) for v in range(u + 1, n) if ((u, v) in wm) != g['add']}
    else: elig = {(u, v) for u in range(n) for v in range(n) if u != v and ((u, v) in wm) != g['add']}
    reps = 3
    if k and len(elig) <= 40: reps = int((math.log(len(elig)) + 24) * len(elig) / k) + 1
    if reps > 400: reps = 3
    r = ctx.ex('graph').call('randlinks', gen.net_args(g), g['add'], k, g['sym'], reps, g['seed'], g['warm'])
    seen = set()
    for x in r['nets']:
        eq('labels', [y[0] for y in x['net']['nodes']], g['labels'])
        ls = links_of(x['net'])
        diff = {e for e in set(ls) ^ set(wm)}
        if g['sym']:
            for (u, v) in diff: check((v, u) in diff, 'link %d-%d changed at one end only', u, v)
            diff = {(u, v) for u, v in diff if u < v}
        eq('number of links changed', len(diff), k)
        check(diff <= elig, 'changed links %r are not eligible', sorted(diff - elig))
        for e in set(ls) & set(wm): eq('weight of untouched link', ls[e], wm[e], 1e-12)
        seen |= diff
        tot = len(ls)
        eq('total links by query', x['tot'], tot // 2 if g['sym'] else tot)
        eq('degrees by query', x['deg'], [sum(1 for e in ls if e[0] == u) for u in range(n)])
    if reps > 3:
        eq('links that can be chosen (%d runs)' % reps, sorted(seen), sorted(elig)); ctx.label('coverage checked')
    ctx.label('add' if g['add'] else 'remove', 'sym' if g['sym'] else 'directed')
    ctx.nontrivial(k >= 2)

FACETS = [
    Facet('randomize', rnd_case(), run_rnd, quick=2500, thorough=40000, exes=['graph'],
          rule='networks with a possible swap, randomised by 0..100 swaps per link; non-trivial: >=4 links, >=1 swap per link'),
    Facet('reach', reach_case(), run_reach, quick=500, thorough=8000, exes=[('graph', 'opt')],
          rule='4-6 node networks; sample size from the exact swap chain so that a miss has probability <1e-11; non-trivial: >=3 reachable networks'),
    Facet('links', link_case(), run_links, quick=2500, thorough=40000, exes=['graph'],
          rule='random additions/removals of 0..all links, directed and undirected, with coverage of all eligible links; non-trivial: >=2 links'),
]
FACETS += gen.larger(FACETS, randomize=(150, 2500), links=(150, 2500))
